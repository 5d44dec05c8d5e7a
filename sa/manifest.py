"""Write MANIFEST.json: python3 -m sa.manifest"""
import json
import os

from . import families

NOT_APPLICABLE = {}
TECHNIQUE = {
    "default": "interprocedural abstract interpretation of the source (provenance-term and kind domain) compared with built-in transfer functions",
    "C05": "typestate exploration of buffered contexts with the most general client, to a fixpoint of abstract states",
    "C06": "typestate exploration of several objects on one file with the most general client, to a fixpoint of abstract states",
    "C07": "typestate exploration with outside writers, to a fixpoint of abstract states; effect analysis of every flush path",
    "C08": "typestate/effect analysis of file operations on every abstract path, incl. injected failures",
    "C09": "lockset and critical-section analysis over abstract operation traces",
    "C10": "lock balance typestate on every normal and exceptional path plus acquisition-order graph",
    "C11": "dominance of validation over stores plus abstract interpretation of the validators on closed shapes",
    "C13": "lockset analysis of every buffered step plus typestate exploration of the serialised steps to a fixpoint",
    "C15": "typestate exploration with sizes as linear terms, bounds decided on the terms in every reachable state",
    "C14": "lockset analysis of read operations and escape analysis of their results",
    "C16": "alias/escape analysis of stored and returned containers",
    "C18": "ownership analysis (parent links of every created child) plus abstract interpretation of attribute access",
    "C17": "effect analysis: no write effect reachable from read operations",
    "C19": "history-independence: abstract interpretation of classifier pairs over the kind domain with the caches as shared state",
}
PROPS = [f"C{i:02d}" for i in range(1, 20)]


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = []
    na = []
    for p in PROPS:
        if p not in families.USES:
            na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "the check for this property is not built yet")})
            continue
        checks.append(
            {
                "property": p,
                "quick_cmd": f"python3 -m sa.check {p} --tier quick",
                "thorough_cmd": f"python3 -m sa.check {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "static analysis: " + TECHNIQUE.get(p, TECHNIQUE["default"]),
                "level": "other",
                "level_note": families.RULETEXT[p] + "; see DESIGN.md for bounds and assumptions",
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "python3 -m compileall -q sa",
        "checks": checks,
        "not_applicable": na,
        "notes": "Nothing of /repo is imported or executed; every check parses /repo's current source.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
