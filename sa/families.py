"""Which analyses decide which property."""
from . import buffered, contracts, unbuf
from .opmode import World
from .state import State
from .values import *  # noqa: F401,F403

# concrete public classes that have to exist (a missing one is an error of the analysis)
CLASSES = [
    p + c for p in ("JSON", "BufferedJSON", "MemoryBufferedJSON") for c in ("Dict", "List", "AttrDict", "AttrList")
] + ["RedisDict", "RedisList", "MongoDBDict", "MongoDBList", "ZarrDict", "ZarrList"]  # fmt: skip


class Unbuffered:
    """One operation of one class on an unbuffered collection."""

    @staticmethod
    def tasks(eng, prop, tier):
        out = []
        for cls in CLASSES:
            if "c:" + cls not in State.base:
                raise Unsupported(f"class {cls} is missing")
            w = World(eng, cls)
            info = (w.isdict, w.attr, w.supports_threading(), w.backend == "json")
            if w.backend is None:
                raise Unsupported(f"backend of {cls} not recognised")
            for th, wc in unbuf.modes(info):
                if prop in ("C09", "C14") and not th:
                    continue
                if prop == "C08" and w.backend != "json":
                    continue
                for path in unbuf.PATHS:
                    out.append(("unbuffered", (cls, info, th, wc, path, prop)))
        return out

    @staticmethod
    def run(eng, spec, res):
        cls, info, th, wc, path, prop = spec
        order = set()
        states = [None] + unbuf.earlier_states(eng, cls, th, wc, path)
        res["stats"]["earlier_states"] = res["stats"].get("earlier_states", 0) + len(states) - 1
        for scn, earlier in ((s, e) for s in unbuf.scenarios(eng, cls, info, th, wc, path) for e in states):
            if prop == "C17" and scn.op.mode != "read" or prop == "C01" and scn.op.mode != "mut":
                continue
            if prop in ("C09", "C04", "C11") and scn.op.mode != "mut":
                continue
            if prop in ("C14", "C02") and scn.op.mode != "read":
                continue
            res["units"] += 1
            try:
                scn.later = earlier is not None
                a = unbuf.Analysis(eng, scn, earlier).run(prop)
            except (Unsupported, Budget) as e:
                res["undecided"].append((repr(scn), f"{type(e).__name__}: {e}"[:300]))
                continue
            res["findings"] += a.findings
            res["undecided"] += [(f"{scn} {r}", d) for r, d in a.undecided]
            for k, v in a.stats.items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            order |= a.refs.get("order", set())
            if not res["samples"]:
                res["samples"].append(f"{scn}: {a.stats.get('outcomes')} abstract outcomes")
        res["notes"] += [("order", *x) for x in sorted(order)]


class PerClass:
    """An obligation checked once per concrete class."""

    def __init__(self, name, cls, spec=lambda eng, c, prop, tier: [c]):
        self.name, self.cls, self.spec = name, cls, spec

    def tasks(self, eng, prop, tier):
        return [(self.name, s) for c in CLASSES for s in self.spec(eng, c, prop, tier)]

    def run(self, eng, spec, res):
        self.cls.run(eng, spec, res)
        if not res["samples"] and res["units"]:
            res["samples"].append(f"{self.name} {spec}: {res['units']} obligations")


class Histories:
    @staticmethod
    def tasks(eng, prop, tier):
        subj = contracts.History.subjects(eng)
        if not subj:
            raise Unsupported("no type resolver found")
        subj += [("_validate", "c:" + c) for c in CLASSES] + [("is_base_type", "c:" + c) for c in CLASSES]
        for m, n in (("numpy_utils", "_convert_numpy"), ("numpy_utils", "_is_numpy_scalar"), ("utils", "default")):
            mod = eng.modules.get("synced_collections." + m)
            if mod is not None and isinstance(State.base[mod].vars.get(n), Fn):
                subj.append(("fn", ("synced_collections." + m, n)))
        for n, v in sorted(State.base[eng.modules["synced_collections.validators"]].vars.items()):
            if isinstance(v, Fn) and v.info.file.endswith("validators.py") and len(v.info.node.args.args) == 1:
                subj.append(("fn", ("synced_collections.validators", n)))
        return [("history", (s, contracts.History.POOL)) for s in subj]

    run = staticmethod(contracts.History.run)


class Buffered:
    """Exploration of small configurations of buffered collections."""

    # property -> [(configuration, flags)] for both strategies x {dict, list}; "*" adds the attribute classes
    QUICK = {
        "C05": "files-nested:D one one-nested ops-object:w* ops-backend:w nested-dict nested-list",
        "C06": "same same-capacity",
        "C07": "files one-capacity one files-faults:f same:D",
        "C08": "one-faults:f one-faults:ft one-faults:fc",
        "C10": "one-faults:f files-faults:f same-capacity:D",
        "C13": "files:D one-capacity same-capacity ops-capacity:w*",
        "C14": "ops-backend:w* same-capacity nested-dict",
        "C15": "files one-capacity one-nested same-capacity:D files-faults:f one-faults:f",
        "C17": "files:D reads reads-capacity",
    }
    THOROUGH = {
        "C05": "one-all one-deep files-nested one:* ops-object:w* ops-backend:w* nested-dict:w nested-list:w nested-dict-capacity one:t",
        "C06": "same-all same-deep same-ops:w same-three",
        "C07": "files one-all same-all files-three one:t",
        "C08": "one-faults:f one-faults:ft one-faults:fc files:f files:ft",
        "C10": "one-faults:f* same-all one-all files:f",
        "C13": "files one-all same-all ops-capacity:w* same-ops:w same-three",
        "C14": "ops-backend:w* same-all nested-dict:w nested-list:w same-ops:w",
        "C15": "one-all files same-all one-faults:f* files-three",
        "C17": "files reads-all:* reads-two one-all",
    }

    @classmethod
    def tasks(cls, eng, prop, tier):
        out = []
        for item in (cls.THOROUGH if tier == "thorough" else cls.QUICK)[prop].split():
            cfg, _, flags = item.partition(":")
            kinds = ["Dict"] if "D" in flags else ["Dict", "List"] + (["AttrDict", "AttrList"] if "*" in flags else [])
            for k in kinds:
                for fam in ("BufferedJSON", "MemoryBufferedJSON"):
                    if "c:" + fam + k not in State.base:
                        raise Unsupported(f"class {fam + k} is missing")
                    out.append(("buffered", (fam + k, cfg, flags.strip("*D"), prop)))
        return out

    @staticmethod
    def run(eng, spec, res):
        cls, cfg, flags, prop = spec
        x = buffered.Explorer(
            eng, cls, buffered.CONFIGS[cfg], threading="t" not in flags, wc="c" in flags or "t" in flags,
            wide="w" in flags, fault="f" in flags, want=prop,
        )  # fmt: skip
        x.explore()
        res["units"] += x.stats["transitions"]
        res["findings"] += x.findings
        res["undecided"] += x.undecided
        for k, v in x.stats.items():
            if k != "transitions":  # counted as scenarios
                res["stats"][k] = res["stats"].get(k, 0) + v
        res["notes"] += [("order", *o) for o in sorted(x.order, key=repr)]
        res["samples"].append(f"{cls} {cfg}: {x.stats['abstract_states']} abstract states, {x.stats['transitions']} transitions")


FAMILIES = {
    "buffered": Buffered,
    "unbuffered": Unbuffered,
    "merge": PerClass("merge", contracts.Merge),
    "convert": PerClass("convert", contracts.Convert),
    "entry": PerClass("entry", contracts.Entry, lambda eng, c, prop, tier: [(c, p, prop) for p in contracts.PATHS]),
    "roundtrip": PerClass("roundtrip", contracts.RoundTrip, lambda eng, c, prop, tier: [(c, p, tier) for p in contracts.PATHS]),
    "encoder": PerClass("encoder", contracts.Encode),
    "attributes": PerClass("attributes", contracts.Attributes, lambda eng, c, prop, tier: [c] if "AttrDict" in c else []),
    "history": Histories,
    "binding": PerClass("binding", contracts.Binding, lambda eng, c, prop, tier: [(c, True), (c, False)]),
}
USES = {p: ["unbuffered"] for p in "C01 C02 C03 C04 C08 C09 C10 C11 C14 C16 C17 C18".split()}
USES.update(C12=[], C19=["history"])
for _p in Buffered.QUICK:
    USES[_p] = ["buffered"] + USES.get(_p, [])  # the longest tasks come first
for _p, _f in {
    "C01": "merge convert encoder", "C02": "merge convert", "C03": "merge convert", "C04": "merge convert", "C11": "entry encoder", "C12": "merge convert entry roundtrip encoder",
    "C09": "binding", "C10": "binding", "C14": "binding",
    "C16": "merge convert", "C17": "merge convert", "C18": "merge convert attributes",
}.items():  # fmt: skip
    USES[_p] += _f.split()


def tasks(eng, prop, tier):
    out = []
    for f in USES[prop]:
        out += FAMILIES[f].tasks(eng, prop, tier)
    return out


def whole_program(eng, prop, notes):
    """Rules over the union of all scenarios."""
    if prop != "C10":
        return
    edges = {}
    for n in notes:
        if n[0] == "order":
            edges.setdefault((n[1], n[2]), n[3])
    # cycle in the acquisition order
    graph = {}
    for a, b in edges:
        graph.setdefault(a, set()).add(b)

    def reach(x, goal, seen):
        if x == goal:
            return True
        seen.add(x)
        return any(reach(y, goal, seen) for y in graph.get(x, ()) if y not in seen)

    for (a, b), loc in sorted(edges.items(), key=repr):
        if reach(b, a, set()):
            yield dict(
                prop=prop, rule="lock-cycle", file=loc[0], line=loc[1], func=loc[2], scen="lock acquisition order",
                detail=f"the {b} lock is acquired while holding the {a} lock, and the other order occurs as well", path=[],
            )  # fmt: skip


RULETEXT = {
    "C01": "after every successful mutator, what was last written to the resource is the root's content with exactly the built-in operation applied",
    "C02": "every read loads the resource first and its result is the built-in result on the loaded content",
    "C03": "result, exception class, memory and resource equal those of the transfer function of the built-in container",
    "C04": "what a mutator writes derives from the content loaded in the same operation, never from stale memory",
    "C05": "in every reachable abstract state of the buffer, an operation returns what it returns on the ghost content of its file, nothing is written before the last context is left unless the capacity is exceeded, and the exit leaves exactly the ghost content in the file",
    "C06": "the ghost content is kept per file, not per object: reads, forced flushes and exits of every object on the file agree with it in every reachable abstract state",
    "C07": "a flush writes a file only if it was modified and not changed outside since it was captured; otherwise it raises the documented error naming exactly the conflicting files, writes the other files and leaves the buffer empty and the capacity restored",
    "C08": "serialize, write a temporary sibling, close, rename; the data file itself is never opened for writing in atomic mode",
    "C09": "one continuous hold of the lock of the resource covers load, modification and save",
    "C10": "lock acquisitions and releases balance on every outcome incl. injected failures; acquisition order acyclic; no foreign collection read under a lock",
    "C11": "validation of exactly the stored data dominates every store; a rejection has no effect",
    "C12": "data stored through every entry point and read by a fresh object denotes the same shape with the same leaves; conversion and merge keep every leaf",
    "C13": "every step on a buffered collection accesses buffer, sizes, data and files in one continuous hold of the lock of the buffer, so interleavings are sequences of steps; every sequence of steps is explored to a fixpoint and ends in the ghost contents with size 0",
    "C15": "in every reachable abstract state the reported size equals the sum over the entries of the buffer, is provably at most the capacity after each step, is 0 outside of contexts, and the capacity is restored",
    "C14": "one hold of the lock covers load and read; results do not refer to live containers",
    "C16": "stored values are converted copies; results of (), values(), items() are plain and detached",
    "C17": "no write effect on any path of a read operation",
    "C19": "the outcome of every classifying function on a second value equals its outcome on fresh shared state, for all pairs of value kinds",
    "C18": "children are created by the family of the root with the right parent; attribute access equals item access",
}


def explain(prop):
    return (
        "Interprocedural, path-sensitive abstract interpretation of the source: every scenario is one public operation "
        "on an arbitrary abstract state, every abstract outcome is compared with the built-in transfer function or fed "
        "to an effect/typestate rule. Nothing is executed. Rule: " + RULETEXT[prop]
    )


def assumptions(prop):
    return [
        "transfer functions of built-in containers, locks, the file system and json as modelled in /verif/sa",
        "contracts of _update, _to_base, _from_base, _validate, get_type and _snapshot as checked by their own obligations",
    ]
