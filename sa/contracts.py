"""Obligations behind the contracts used by the operation analysis.

Conversion, merging, validation and type resolution are interpreted without
contracts on small closed shapes whose leaves are opaque values of one kind.
"""
from .opmode import LISTY, MAPK, OpHooks, World, norm, set_content, subrefs, trace
from .builtins_model import P
from .spec import ops_for
from .state import State
from .unbuf import WRITES, Finding
from .values import *  # noqa: F401,F403

ALL_OFF = frozenset({"_update", "_to_base", "_from_base", "_validate", "_snapshot", "get_type"})
LEAFK = ("str", "int", "float", "bool")


class Leaf:
    """Opaque value of one kind."""

    def __init__(self, name, *kinds):
        self.name, self.kinds = name, frozenset(kinds)

    def __repr__(self):
        return f"<{'/'.join(sorted(self.kinds))}>"


def plain(eng, st, shape):
    """Built-in data of the given shape."""
    if isinstance(shape, dict):
        items = []
        for k, v in shape.items():
            x, st = plain(eng, st, v)
            kk = k if isinstance(k, (K, T)) else K(k)
            items.append((kk, x))
        return eng.alloc(st, "plain", DictObj(tuple(items)))
    if isinstance(shape, list):
        items = []
        for v in shape:
            x, st = plain(eng, st, v)
            items.append(x)
        return eng.alloc(st, "plain", ListObj(tuple(items)))
    if isinstance(shape, tuple):
        items = []
        for v in shape:
            x, st = plain(eng, st, v)
            items.append(x)
        return Tup(tuple(items)), st
    if isinstance(shape, Leaf):
        t = T("arg", shape.name)
        return t, st.kind(t, shape.kinds)
    return K(shape), st


def all_refs(v, st, seen=None):
    """Containers reachable from a value."""
    seen = set() if seen is None else seen
    for r in subrefs(v):
        if r in seen:
            continue
        seen.add(r)
        o = st.get(r.oid)
        if isinstance(o, Inst) and "_data" in o.attrs:
            all_refs(o.attrs["_data"], st, seen)
        elif isinstance(o, (DictObj, ListObj)):
            c = o.items if o.items is not None else o.content
            all_refs(tuple(c) if isinstance(c, (list, tuple)) else c, st, seen)
    return seen


def containers(refs, st):
    return {r for r in refs if isinstance(st.get(r.oid), (DictObj, ListObj, Inst)) and not r.oid.startswith("c:")}


class Problem(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


def child_attrs(w, st, parent, cls):
    """What every collection of a class has in common if it is nested in parent."""
    found = []
    for _ in range(2):
        off, w.hooks.off = w.hooks.off, ALL_OFF - {"get_type"}
        try:
            outs = [o for o in w.eng.instantiate(Ref(cls), [], {"parent": parent}, st, None) if o[0] == OK]
        finally:
            w.hooks.off = off
        if len(outs) != 1:
            raise Unsupported(f"constructor of a nested {cls[2:]} has {len(outs)} outcomes")
        st = outs[0][2]
        found.append(st.get(outs[0][1].oid).attrs)
    return {a: v for a, v in found[0].items() if a != "_data" and isinstance(v, Ref) and found[1].get(a) == v}


def attached(w, st, v, parent, where):
    """A nested collection is synchronized like one created with its parent."""
    o = st.get(v.oid)
    for a, x in child_attrs(w, st, parent, o.cls.oid).items():
        if o.attrs.get(a) != x:
            raise Problem("detached", f"{where} is not attached to the collection it is nested in: its {a} is {show(o.attrs.get(a, NONE))[:60]} instead of {show(x)[:60]}")


def mirror(w, st, v, shape, where="value", old=None, synced=True, allow=None, parent=None, attach=True):
    """Check that an abstract value represents a shape.

    synced: nested containers have to be collections of the family of w that
    are attached to the collection they are nested in.
    """
    if isinstance(shape, (dict, list, tuple)):
        isd = isinstance(shape, dict)
        d = v
        if synced:
            if not isinstance(v, Ref) or not isinstance(st.get(v.oid), Inst):
                raise Problem("family", f"{where} is {show(v)[:60]}, not a synced collection")
            o = st.get(v.oid)
            if o.cls.oid not in w.family:
                raise Problem("family", f"{where} is a {o.cls.oid[2:]}, outside the family of the root")
            base = "c:SyncedDict" if isd else "c:SyncedList"
            if base not in st.get(o.cls.oid).info.mro:
                raise Problem("content", f"{where} is a {o.cls.oid[2:]} although the value is a {'mapping' if isd else 'sequence'}")
            if parent is not None and attach:
                attached(w, st, v, parent, where)
            d = o.attrs.get("_data")
        if not isinstance(d, Ref) or not isinstance(st.get(d.oid), DictObj if isd else ListObj):
            raise Problem("content", f"{where} is {show(d)[:60]} instead of a {'dict' if isd else 'list'}")
        do = st.get(d.oid)
        if do.items is None:
            raise Unsupported(f"{where} has widened content {show(do.content)[:80]}")
        if isd:
            got = dict(do.items)
            want = {(k if isinstance(k, (K, T)) else K(k)): x for k, x in shape.items()}
            if set(got) != set(want):
                raise Problem("content", f"{where} has the keys {sorted(map(repr, got))} instead of {sorted(map(repr, want))}")
            for k, x in want.items():
                mirror(w, st, got[k], x, f"{where}[{k!r}]", synced=synced, allow=allow, parent=v if synced else None, attach=attach)
        else:
            if len(do.items) != len(shape):
                raise Problem("content", f"{where} has {len(do.items)} elements instead of {len(shape)}")
            for i, x in enumerate(shape):
                mirror(w, st, do.items[i], x, f"{where}[{i}]", synced=synced, allow=allow, parent=v if synced else None, attach=attach)
        return
    want = T("arg", shape.name) if isinstance(shape, Leaf) else K(shape)
    if v == want:
        return
    if allow and allow(v, want, st):
        return
    raise Problem("content", f"{where} is {show(v)[:60]} ({'/'.join(sorted(w.eng.kinds_of(v, st))) if isinstance(v, T) else ''}) instead of {show(want)[:60]} {shape!r}")


# ----------------------------------------------------------------------
def update_cases(isdict):
    """(old, new) shapes for the merge."""
    a, b = (lambda k: Leaf("o", k)), (lambda k: Leaf("v", k))
    olds = [None] + [a(k) for k in LEAFK] + [{}, {"x": Leaf("o", "int")}, [], [Leaf("o", "int")], [Leaf("o", "int"), Leaf("o2", "str")], {"x": {"z": Leaf("o", "int")}}, {"x": [Leaf("o", "int")]}, [{"z": Leaf("o", "int")}]]
    news = [None] + [b(k) for k in LEAFK] + [
        {}, {"x": b("int")}, {"x": b("bool")}, {"x": None}, {"y": b("str")}, {"x": b("int"), "y": Leaf("v2", "str")}, {"x": {"z": b("float")}}, {"x": [b("int")]},
        [], [b("int")], [b("bool")], [None], [b("str"), Leaf("v2", "int")], [b("int"), Leaf("v2", "str"), Leaf("v3", "float")], [{"z": b("int")}], [[b("int")]],
    ]  # fmt: skip
    pairs = [(o, n) for o in olds for n in news]
    if isdict:
        for o, n in pairs:
            yield {"p": o}, {"p": n}
        for n in news:
            yield {}, {"p": n}
            yield {"q": Leaf("q", "str")}, {"p": n, "q": Leaf("q", "str")}
        for o in olds:
            yield {"p": o}, {}
            yield {"p": o, "q": Leaf("q", "str")}, {"q": Leaf("q", "str")}
    else:
        for o, n in pairs:
            yield [o], [n]
        for n in news:
            yield [], [n]
            yield [Leaf("q", "str")], [Leaf("q", "str"), n]
        for o in olds:
            yield [o], []
            yield [Leaf("q", "str"), o], [Leaf("q", "str")]
            yield [o, Leaf("q", "str")], [Leaf("q2", "str")]


def setup(eng, cls, threading=True):
    w = World(eng, cls, threading=threading)
    w.add_root()
    return w


def put_shape(w, shape, name="R"):
    """Give the root the content of the shape, converted by the library itself."""
    eng = w.eng
    root = w.objs[name]
    w.hooks.off = ALL_OFF - {"get_type"}
    x, st = plain(eng, w.st, shape)
    f, st = w.one(eng.getattr_(root, "_from_base", st, None))
    ref, st = w.one(eng.call(f, [x], {"parent": root}, st, None))
    d = st.get(ref.oid).attrs["_data"]
    for r in containers(all_refs(x, st), st) - containers(all_refs(d, st), st):
        st = st.drop(r.oid)
    # the children have to be attached to the root itself
    src = st.get(d.oid)
    st = st.put(st.get(root.oid).attrs["_data"].oid, src)
    w.st = st
    w.hooks.off = frozenset()


def fn_loc(eng, w, name, ref=None):
    c = w.cls
    v = eng.class_lookup(c, name, w.st)
    v = getattr(v, "fn", v)
    if isinstance(v, Fn):
        return (v.info.file, v.info.node.lineno, v.info.qual)
    return ("synced_collections", 0, f"{c[2:]}.{name}")


def is_container(s):
    return isinstance(s, (dict, list))


def same_kind(o, n):
    return (isinstance(o, dict) and isinstance(n, dict)) or (isinstance(o, list) and isinstance(n, list))


class Merge:
    """`_update`: afterwards memory equals the data, nested objects are kept."""

    @staticmethod
    def run(eng, cls, res):
        w0 = World(eng, cls)
        for old, new in update_cases(w0.isdict):
            res["units"] += 1
            w = setup(eng, cls)
            put_shape(w, old)
            root = w.objs["R"]
            st = w.start()
            w.hooks.off = ALL_OFF - {"get_type"}
            x, st = plain(eng, st, new)
            inp = containers(all_refs(x, st), st)
            before = {}
            dold = dict(enumerate_items(st, root))
            scen = f"{cls}: merge {new!r} into {old!r}"

            def fail(props, rule, msg, o=None):
                for p in props:
                    res["findings"].append(Finding(p, rule, fn_loc(eng, w, "_update"), scen, msg, o[2].trace()[-8:] if o else ()))

            try:
                outs = eng.dedupe_out(w.method("R", "_update", [x], st=st))
            except (Unsupported, Budget) as e:
                res["undecided"].append((scen, str(e)[:200]))
                continue
            finally:
                w.hooks.off = frozenset()
                w.hooks.collect = False
            res["stats"]["merge_outcomes"] = res["stats"].get("merge_outcomes", 0) + len(outs)
            for o in outs:
                tag, val, s = o
                tr = trace(s)
                if tag == RAISE:
                    fail(("C01", "C02", "C03", "C12"), "merge", f"merging raises {show(val)[:80]}", o)
                    continue
                bad = [e for e in tr if e.name in WRITES or e.name in ("open_read", "rread")]
                if bad:
                    fail(("C01", "C17"), "merge-syncs", f"merging data performs {bad[0].name}", o)

                try:
                    try:
                        mirror(w, s, root, new, "root", allow=equal_same_kind(eng))
                    except Problem as p:
                        if p.kind != "detached":
                            raise
                        fail(("C01", "C02", "C03", "C04", "C18"), "merge-detached", str(p), o)
                        mirror(w, s, root, new, "root", allow=equal_same_kind(eng), attach=False)
                except Problem as p:
                    if p.kind == "family":
                        fail(("C18",), "merge-family", str(p), o)
                    else:
                        fail(("C01", "C02", "C03", "C12"), "merge-content", str(p), o)
                    continue
                # identity of nested collections
                dnew = dict(enumerate_items(s, root))
                for k, sub in (old.items() if isinstance(old, dict) else enumerate(old)):
                    kk = K(k)
                    try:
                        nsub = new[k]
                    except (KeyError, IndexError):
                        continue
                    if same_kind(sub, nsub) and dold.get(kk) != dnew.get(kk):
                        fail(("C02", "C04"), "merge-identity", f"the nested collection at {k!r} is replaced although the position still holds a container of the same kind", o)
                mem = containers(all_refs(s.get(root.oid).attrs["_data"], s), s)
                if mem & inp:
                    fail(("C16",), "merge-alias", "memory shares a container with the merged data", o)
                for r in inp:
                    if s.get(r.oid) != st.get(r.oid):
                        fail(("C16",), "merge-mutates-input", "merging changes the data passed in", o)
                left = s.get(s.get(root.oid).attrs["_suspend_sync"].oid).attrs if isinstance(s.get(root.oid).attrs.get("_suspend_sync"), Ref) else None
                if left is not None and left != st.get(st.get(root.oid).attrs["_suspend_sync"].oid).attrs:
                    fail(("C01", "C02"), "sync-suspended", "synchronisation stays suspended after merging", o)


def equal_same_kind(eng):
    """An equal value of the same type may be kept instead of the new one."""

    def allow(v, want, st):
        ks = eng.kinds_of(v, st), eng.kinds_of(want, st)
        return ks[0] == ks[1] and len(ks[0]) == 1 and eq_fact(eng, st, v, want)

    return allow


def eq_fact(eng, st, a, b):
    for n in ("eq", "is"):
        if st.facts.get(eng.eqpred(n, a, b)) is True:
            return True
    return False


def enumerate_items(st, root):
    d = st.get(st.get(root.oid).attrs["_data"].oid)
    if d.items is None:
        return ()
    if isinstance(d, DictObj):
        return d.items
    return tuple((K(i), v) for i, v in enumerate(d.items))


SHAPES = [
    {}, [], {"x": Leaf("a", "int")}, [Leaf("a", "str")], {"x": {"y": Leaf("a", "float")}}, {"x": [Leaf("a", "bool")]},
    [[Leaf("a", "int")]], [{"y": Leaf("a", "str")}], {"x": {"y": {"z": Leaf("a", "int")}}}, {"x": [{"y": [Leaf("a", "int"), None]}]},
    [[[Leaf("a", "int"), {}]], []], {"": None, "é": []}, [None, {"x": {}}, Leaf("a", "float")],
]  # fmt: skip


def tupled(shape):
    if isinstance(shape, dict):
        return {k: tupled(v) for k, v in shape.items()}
    if isinstance(shape, list):
        return tuple(tupled(v) for v in shape)
    return shape


class Convert:
    """Constructor data, `_from_base`, `_to_base`, `_snapshot`: faithful deep copies."""

    @staticmethod
    def run(eng, cls, res):
        for shape in SHAPES:
            for variant in ("plain", "tuple", "synced"):
                sh = tupled(shape) if variant == "tuple" else shape
                if variant == "tuple" and sh == shape:
                    continue
                if variant == "synced" and not any(is_container(x) for x in (shape.values() if isinstance(shape, dict) else shape)):
                    continue
                Convert.one(eng, cls, shape, sh, res, variant)

    @staticmethod
    def one(eng, cls, shape, given, res, variant="plain"):
        w = setup(eng, cls)
        root = w.objs["R"]
        if variant == "synced":
            other = synced_parts(w, shape)
            label = f"{given!r} with nested containers taken from another collection"
        else:
            label = repr(given)

        def fail(props, rule, fn, msg, o=None):
            for p in props:
                res["findings"].append(Finding(p, rule, fn_loc(eng, w, fn), f"{cls}: {fn} of {label}", msg, o[2].trace()[-8:] if o else ()))

        def run(fn, f, synced, off=ALL_OFF - {"get_type"}):
            res["units"] += 1
            st = w.start()
            x, st = other(st) if variant == "synced" else plain(eng, st, given)
            w.hooks.off = off
            try:
                outs = eng.dedupe_out(f(x, st))
            except (Unsupported, Budget) as e:
                res["undecided"].append((f"{cls}: {fn} of {label}", str(e)[:200]))
                return
            finally:
                w.hooks.off = frozenset()
                w.hooks.collect = False
            res["stats"]["conversion_outcomes"] = res["stats"].get("conversion_outcomes", 0) + len(outs)
            for o in outs:
                if o[0] == RAISE:
                    if o[2].mon.get("inj"):
                        continue
                    fail(("C12", "C03"), "conversion-fails", fn, f"raises {show(o[1])[:80]}", o)
                    continue
                s = o[2]
                up = root if fn == "_from_base" else None
                try:
                    try:
                        mirror(w, s, o[1], shape, "result", synced=synced, parent=up)
                    except Problem as p:
                        if p.kind != "detached":
                            raise
                        fail(("C01", "C02", "C03", "C04", "C18"), "conversion-detached", fn, str(p), o)
                        mirror(w, s, o[1], shape, "result", synced=synced, parent=up, attach=False)
                except Problem as p:
                    fail(("C18",) if p.kind == "family" and synced else ("C16",) if p.kind == "family" else ("C12", "C03"), "conversion", fn, str(p), o)
                    continue
                inp = containers(all_refs(x, st), st)
                if inp & containers(all_refs(o[1], s), s):
                    fail(("C16",), "conversion-alias", fn, "the result shares a container with the data passed in", o)
                if any(s.get(r.oid) != st.get(r.oid) for r in inp):
                    fail(("C16",), "conversion-mutates", fn, "the data passed in is changed", o)
                if any(e.name in WRITES for e in trace(s)):
                    fail(("C17",), "conversion-writes", fn, "the conversion writes to the resource", o)

        def from_base(x, st):
            return eng._vals(eng.getattr_(root, "_from_base", st, None), lambda f, t: eng.call(f, [x], {"parent": root}, t, None))

        run("_from_base", from_base, True)
        snap = snapshot_fn(eng)
        if snap is not None:
            run("_snapshot", lambda x, st: eng.call(snap, [x], {}, st, None), False)
        if isinstance(shape, dict) == w.isdict:

            def ctor(x, st):
                kw, st = w.resource_kw(st, "1")
                kw["data"] = x
                return eng.instantiate(Ref(w.cls), [], kw, st, None)

            run("__init__", ctor, True)

            def to_base(x, st):
                def go(r, t):
                    return w_to_base(w, r, t)

                return eng._vals(ctor(x, st), go)

            run("_to_base", to_base, False)


def synced_parts(w, shape):
    """A plain container whose nested containers belong to another collection."""
    eng = w.eng
    items = list(shape.items()) if isinstance(shape, dict) else list(enumerate(shape))
    o = w.add_root("O", "2", cls=[c for c in w.family if "c:SyncedDict" in State.base[c].info.mro][0])
    put_shape(w, {str(k): v for k, v in items}, "O")
    vals = [v for _, v in w.st.get(w.st.get(o.oid).attrs["_data"].oid).items]

    def make(st):
        st = st.setm(("file", K("F2")), NONE).setm(("res", w.location("2")), NONE)
        if isinstance(shape, dict):
            return eng.alloc(st, "plain", DictObj(tuple((K(k), v) for (k, _), v in zip(items, vals))))
        return eng.alloc(st, "plain", ListObj(tuple(vals)))

    return make


def w_to_base(w, r, t):
    return w.eng._vals(w.eng.getattr_(r, "_to_base", t, None), lambda f, s: w.eng.call(f, [], {}, s, None))


def snapshot_fn(eng):
    m = eng.modules.get("synced_collections.data_types.synced_collection")
    if m is None:
        return None
    fr = State.base.get(m) if isinstance(m, str) else None
    v = fr.vars.get("_snapshot") if fr is not None else None
    return v if isinstance(v, Fn) else None


# ----------------------------------------------------------------------
BADVALS = ["set", "other", "complex", "npcplx", "npext"]
WRAPS = {
    "v": [lambda b: b, lambda b: {"x": b}, lambda b: [b], lambda b: {"x": {"y": b}}, lambda b: [[b]], lambda b: {"x": [b]},
          lambda b: [{"x": b}], lambda b: {"g": Leaf("g", "int"), "x": {"y": {"z": b}}}, lambda b: [Leaf("g", "int"), [[b]]], lambda b: {"x": [{"y": b}]}],
}  # fmt: skip
WRAPS["m"] = [f for f in WRAPS["v"] if isinstance(f(None), dict)]
WRAPS["it"] = [f for f in WRAPS["v"] if isinstance(f(None), list)]
BADKEYS = [5, None, 1.5, True, (1,)]
PATHS = [(), ("d",), ("l",)]


def bad_keyed(k):
    return {K(k) if not isinstance(k, tuple) else Tup(tuple(K(x) for x in k)): Leaf("g", "int")}


def arg_variants(op, attr):
    """[(description, {arg: shape}, valid)]: closed arguments for an entry point."""
    names = [a for a, _ in op.args]
    stores = [s for s in op.stores if s in names]
    out = []
    base = {"k": "key", "i": Leaf("i", "int"), "lo": Leaf("lo", "int"), "hi": Leaf("hi", "int"), "m": {}, "it": [], "v": Leaf("g", "int"), "d": None, "w": None, "pairs": []}

    def case(desc, repl, ok):
        out.append((desc, {n: repl.get(n, base[n]) for n in names}, ok))

    dots = [] if not attr else [("dotted key", {K("a.b"): Leaf("g", "int")})]
    for s in stores:
        if s == "pairs":
            for b in BADVALS:
                case(f"pairs with a <{b}> value", {s: [("x", Leaf("bad", b))]}, False)
                case(f"pairs with a nested <{b}> value", {s: [("x", [Leaf("bad", b)])]}, False)
            case("pairs with an int key", {s: [(5, Leaf("g", "int"))]}, False)
            if attr:
                case("pairs with a dotted key", {s: [("a.b", Leaf("g", "int"))]}, False)
            case("pairs", {s: [("x", Leaf("g", "str"))]}, True)
            continue
        for wrap in WRAPS[s]:
            for b in BADVALS:
                sh = wrap(Leaf("bad", b))
                case(f"{s}={sh!r}", {s: sh}, False)
            for k in BADKEYS:
                inner = bad_keyed(k)
                sh = wrap(inner)
                case(f"{s}={sh!r}", {s: sh}, False)
            for d, inner in dots:
                sh = wrap(inner)
                case(f"{s}={sh!r}", {s: sh}, False)
            for k in LEAFK + ("npnum", "npbool", "npf64", "none"):
                sh = wrap(Leaf("good", k) if k != "none" else None)
                case(f"{s}={sh!r}", {s: sh}, True)
        if s == "m":
            for k in BADKEYS:
                case(f"m={bad_keyed(k)!r}", {s: bad_keyed(k)}, False)
            for d, inner in dots:
                case(f"m with {d}", {s: inner}, False)
    if "k" in names and stores:
        for k in BADKEYS:
            case(f"k={k!r}", {"k": k}, False)
        if attr:
            case("k='a.b'", {"k": "a.b"}, False)
        for k in ("", "é", "_data", "keys", "a b"):
            case(f"k={k!r}", {"k": k}, True)
    return out


def base_arg(n):
    return {"k": "key", "i": Leaf("i", "int"), "lo": Leaf("lo", "int"), "hi": Leaf("hi", "int"), "m": {}, "it": [], "v": Leaf("g", "int"), "d": None, "w": None, "pairs": []}[n]


def foreign_args(w, arg, attr):
    """[(description, class, shape)]: collections of other classes with content this class forbids."""
    out = []
    for f in (WRAPS[arg][:3] if arg in WRAPS else ()):
        for b in ("complex", "set"):
            sh = f(Leaf("bad", b))
            if is_container(sh) and w.backend != "zarr":
                out.append((sh, "ZarrDict" if isinstance(sh, dict) else "ZarrList"))
        if attr and f(None) is not None:
            sh = f({K("a.b"): Leaf("g", "int")})
            base = w.name.replace("AttrDict", "Dict").replace("AttrList", "List")
            out.append((sh, base if isinstance(sh, dict) == w.isdict else base.replace("Dict", "List") if w.isdict else base.replace("List", "Dict")))
    if attr and arg in ("m", "v"):
        sh = {K("a.b"): Leaf("g", "int")}
        out.append((sh, w.name.replace("AttrDict", "Dict").replace("AttrList", "Dict")))
    return [(f"a {c} containing {sh!r}", c, sh) for sh, c in out if State.base.get("c:" + c) is not None]


def foreign(w, cls, shape):
    """An object of another class, bound to a resource of its own, with the given content."""
    own = w.backend
    w.backend = "zarr" if cls.startswith("Zarr") else own
    try:
        o = w.add_root("O", "2", cls="c:" + cls)
        put_shape(w, shape, "O")
    finally:
        w.backend = own
    return o


def unbound(w, st):
    """The other object's resource holds nothing yet: its content is what it has in memory."""
    for loc in (w.location("2"), ("zarr", K("Z2"))):
        st = st.setm(("res", loc), NONE)
    return st.setm(("file", K("F2")), NONE)


class Entry:
    """Entry points with invalid and with valid data, validators inlined."""

    @staticmethod
    def run(eng, spec, res):
        cls, path, prop = spec
        w0 = World(eng, cls)
        attr = w0.attr or "Attr" in cls
        last = [p for p in path]
        target = w0.isdict if not last else last[-1] == "d"
        ops = [o for o in ops_for(target, False) if o.stores]
        if attr and target:
            from .spec import ATTR_OPS

            ops += [o for o in ATTR_OPS if o.stores]
        for op in ops:
            for desc, shapes, ok in arg_variants(op, attr):
                if ok == (prop == "C11"):
                    continue
                Entry.one(eng, cls, path, op, desc, shapes, ok, res)
            if prop == "C11":
                for arg in op.stores:
                    for desc, other, sh in foreign_args(w0, arg, attr):
                        Entry.one(eng, cls, path, op, f"{arg}={desc}", {n: base_arg(n) for n, _ in op.args}, False, res, (arg, other, sh))
        if not path:
            Entry.ctor(eng, cls, w0, attr, res, prop)

    @staticmethod
    def judge(eng, w, outs, st0, ok, scen, loc, res, target="R"):
        def fail(prop, rule, msg, o, ev=None):
            if w.backend == "zarr" and prop == "C11" and any(f"<{b}>" in scen for b in BADVALS):
                # one construct: the class has no validator for values
                c = State.base["c:ZarrCollection"].info
                l = (c.file, c.node.lineno, "ZarrCollection._validators")
                res["findings"].append(Finding(prop, "no-value-validator", l, scen, msg, o[2].trace()[-8:]))
                return
            res["findings"].append(Finding(prop, rule, ev.loc if ev is not None else loc, scen, msg, o[2].trace()[-8:]))

        for o in outs:
            tag, val, s = o
            inj = s.mon.get("inj")
            if ok:
                if tag == RAISE and not inj and (eng.exc_is(val, s, "TypeError") or eng.exc_is(val, s, "ValueError") or eng.exc_is(val, s, "AttributeError")):
                    fail("C12", "valid-rejected", f"valid data is rejected with {show(val)[:80]}", o)
                continue
            if inj and tag == RAISE:
                if inj != "dumps":
                    continue
            stored = None
            for e in trace(s):
                if e.name in WRITES and tag == RAISE and not inj:
                    stored = e
                if e.name == "cmut" and e.get("role")[0] == "data" and e.get("how") != "_update":
                    stored = e
                if e.name == "cmut" and e.get("role")[0] == "data" and e.get("how") == "_update" and any(x.op == "arg" for x in _sub(e.get("val"))):
                    stored = e
            if tag == OK:
                if stored is not None or target is None:
                    fail("C11", "invalid-accepted", "the operation accepts the forbidden data", o)
            elif stored is not None:
                fail("C11", "rejected-after-effect", f"{stored.name} happens before the forbidden data is rejected", o, stored)
            elif not any(eng.exc_is(val, s, x) for x in ("TypeError", "ValueError", "LookupError")):
                fail("C11", "rejection-class", f"forbidden data is rejected with {show(val)[:60]}, not a TypeError or ValueError", o)

    @staticmethod
    def one(eng, cls, path, op, desc, shapes, ok, res, given=None):
        res["units"] += 1
        w = setup(eng, cls, threading=True)
        if given is not None:
            given = given[0], foreign(w, given[1], given[2])
        name = "R"
        for i, p in enumerate(path):
            w.add_child(f"N{i}", name, "dict" if p == "d" else "list")
            name = f"N{i}"
        st = w.start()
        A = {}
        for n, sh in shapes.items():
            A[n], st = plain(eng, st, sh)
        for n in A:
            if isinstance(A[n], Ref):
                w.roles.pop(A[n].oid, None)
        if given is not None:
            A[given[0]] = given[1]
            st = unbound(w, st)
        scen = f"{cls}: {op.name} on root{''.join('.' + p for p in path)} with {desc}"
        w.hooks.off = frozenset({"_validate", "_snapshot"}) | ({"_to_base"} if given else set())
        if w.backend == "mongo":
            w.hooks.keep = frozenset(w.objs[n].oid for n in ("R", name)) if given else frozenset()
        w.hooks.files = {K("F1"): True}
        try:
            outs = eng.dedupe_out(op.run(eng, w.objs[name], A, st))
        except (Unsupported, Budget) as e:
            res["undecided"].append((scen, str(e)[:200]))
            return
        finally:
            w.hooks.off = w.hooks.keep = frozenset()
            w.hooks.collect = False
        res["stats"]["entry_outcomes"] = res["stats"].get("entry_outcomes", 0) + len(outs)
        c = w.st.get(w.objs[name].oid).cls
        v = eng.class_lookup(c.oid, op.entry, w.st)
        v = getattr(v, "fn", v)
        loc = (v.info.file, v.info.node.lineno, v.info.qual) if isinstance(v, Fn) else ("synced_collections", 0, f"{cls}.{op.entry}")
        Entry.judge(eng, w, outs, st, ok, scen, loc, res)

    @staticmethod
    def ctor(eng, cls, w0, attr, res, prop):
        a = "m" if w0.isdict else "it"
        wraps = WRAPS[a]
        cases = []
        for wrap in wraps:
            for b in BADVALS:
                cases.append((wrap(Leaf("bad", b)), False))
            for k in BADKEYS:
                cases.append((wrap(bad_keyed(k)), False))
            if attr:
                cases.append((wrap({K("a.b"): Leaf("g", "int")}), False))
            for k in LEAFK:
                cases.append((wrap(Leaf("good", k)), True))
        if w0.isdict:
            cases += [(bad_keyed(k), False) for k in BADKEYS]
        cases = [(repr(sh), None, sh, ok) for sh, ok in cases]
        if prop == "C11":
            cases += [(desc, other, sh, False) for desc, other, sh in foreign_args(w0, a, attr)]
        for desc, other, sh, ok in cases:
            if ok == (prop == "C11"):
                continue
            res["units"] += 1
            w = World(eng, cls)
            x = foreign(w, other, sh) if other else None
            st = unbound(w, w.start())
            if x is None:
                x, st = plain(eng, st, sh)
            kw, st = w.resource_kw(st, "1")
            kw["data"] = x
            scen = f"{cls}(data={desc})"
            w.hooks.off = frozenset({"_validate", "_snapshot"}) | ({"_to_base"} if other else set())
            try:
                outs = eng.dedupe_out(eng.instantiate(Ref(w.cls), [], kw, st, None))
            except (Unsupported, Budget) as e:
                res["undecided"].append((scen, str(e)[:200]))
                continue
            finally:
                w.hooks.off = frozenset()
                w.hooks.collect = False
            v = eng.class_lookup(w.cls, "__init__", w.st)
            loc = (v.info.file, v.info.node.lineno, v.info.qual)
            Entry.judge(eng, w, outs, st, ok, scen, loc, res, target=None)


def _sub(v):
    from .opmode import subterms

    return list(subterms(v))


# ----------------------------------------------------------------------
STORED = SHAPES + [None, True, False, 0, 1, -(10**30), 10**40, 1.5, -0.0, 1e300, "", "a.b", 'quote"\n\\\u2028é\U0001f600'] + [Leaf("a", k) for k in LEAFK]  # fmt: skip
OLDS = {
    (True, ()): {"key": {"x": 1}, "n": Leaf("old", "str")}, (False, ()): [{"x": 1}, Leaf("old", "str")],
    (True, ("d",)): {"n": {"key": 1, "m": Leaf("old", "str")}}, (True, ("l",)): {"n": [1, Leaf("old", "str")]},
    (False, ("d",)): [{"key": True, "m": Leaf("old", "str")}], (False, ("l",)): [[0, Leaf("old", "str")]],
}  # fmt: skip


def to_shape(eng, v, st, depth=0):
    """The closed shape an abstract plain value has."""
    if isinstance(v, Ref):
        o = st.get(v.oid)
        if isinstance(o, Inst) and "_data" in o.attrs:
            return to_shape(eng, o.attrs["_data"], st, depth)
        if o.items is None:
            raise Unsupported("oracle content is not closed")
        if isinstance(o, DictObj):
            return {k: to_shape(eng, x, st, depth + 1) for k, x in o.items}
        return [to_shape(eng, x, st, depth + 1) for x in o.items]
    if isinstance(v, Tup):
        return [to_shape(eng, x, st, depth + 1) for x in v.items]
    if isinstance(v, K):
        return v.v
    if isinstance(v, T) and v.op == "arg":
        return Leaf(v.args[0], *eng.kinds_of(v, st))
    raise Unsupported(f"oracle value {show(v)[:60]}")


def same_leaf(v, want):
    """K compares 1, 1.0 and True as equal."""
    return not (isinstance(v, K) and isinstance(want, K)) or (type(v.v) is type(want.v) and v.v == want.v)


class RoundTrip:
    """Store through an entry point, read through a fresh object on the same resource."""

    @staticmethod
    def programs(isdict, attr, path, tier):
        target = isdict if not path else path[-1] == "d"
        ops = [o for o in ops_for(target, False) if o.stores]
        if attr and target:
            from .spec import ATTR_OPS

            ops += [o for o in ATTR_OPS if o.stores]
        for op in ops:
            names = [a for a, _ in op.args]
            base = {"k": "key", "i": 0, "lo": 0, "hi": 1, "m": {"x": 2}, "it": [1], "v": Leaf("g", "int"), "pairs": []}
            for s in op.stores:
                for sh in STORED:
                    if s == "m" and not isinstance(sh, dict):
                        sh = {"key": sh}
                    elif s == "it" and not isinstance(sh, list):
                        sh = [sh]
                    elif s == "pairs":
                        sh = [("key", sh), ("", sh)]
                    yield op, {n: (sh if n == s else base[n]) for n in names}

    @staticmethod
    def run(eng, spec, res):
        cls, path, tier = spec
        w0 = World(eng, cls)
        attr = w0.attr or "Attr" in cls
        for op, shapes in RoundTrip.programs(w0.isdict, attr, path, tier):
            res["units"] += 1
            scen = f"{cls}: {op.name} on root{''.join('.' + p for p in path)} with {shapes!r}, read by a fresh object"
            try:
                RoundTrip.one(eng, cls, path, op, shapes, scen, res)
            except (Unsupported, Budget) as e:
                res["undecided"].append((scen, str(e)[:200]))
            finally:
                eng.hooks.off = frozenset()
                eng.hooks.collect = False

    @staticmethod
    def one(eng, cls, path, op, shapes, scen, res):
        w = setup(eng, cls)
        put_shape(w, {} if w.isdict else [])
        root = w.objs["R"]
        st = w.start()
        w.hooks.off = ALL_OFF - {"get_type"}
        st = st.setm(("file", K("F1")), NONE).setm(("res", w.location()), NONE)
        old = OLDS[(w.isdict, path)]
        x, st = plain(eng, st, old)
        spec_x, st = plain(eng, st, old)
        A = {}
        for n, sh in shapes.items():
            A[n], st = plain(eng, st, sh)
        key = K("n") if w.isdict else K(0)
        loc = fn_loc(eng, w, "reset")

        def ok(outs, what):
            outs = [o for o in eng.dedupe_out(outs) if not (o[0] == RAISE and o[2].mon.get("inj"))]
            for o in outs:
                if o[0] == RAISE:
                    res["findings"].append(Finding("C12", "valid-rejected", loc, scen, f"{what} raises {show(o[1])[:80]}", o[2].trace()[-8:]))
            return [o for o in outs if o[0] == OK and not o[2].mon.get("inj")]

        # expected content
        tgt = spec_x
        if path:
            tgt = dict(enumerate_plain(st, spec_x))[key]
        exp = [o for o in op.spec(eng, tgt, A, st) if o[0] == OK]
        if len(exp) != 1:
            raise Unsupported("the reference operation is not deterministic")
        want = to_shape(eng, spec_x, exp[0][2])
        n = 0
        for o in ok(meth_call(eng, root, "reset", [x], st), "reset"):
            s = o[2]
            tgts = [(OK, root, s)] if not path else ok(eng.getitem(root, key, s, None), "item access")
            for t in tgts:
                c = t[2].get(t[1].oid).cls
                v = eng.class_lookup(c.oid, op.entry, t[2])
                v = getattr(v, "fn", v)
                if isinstance(v, Fn):
                    loc = (v.info.file, v.info.node.lineno, v.info.qual)
                for p in ok(op.run(eng, t[1], A, t[2]), op.name):
                    kw, s2 = w.resource_kw(p[2], "1")
                    for q in ok(eng.instantiate(Ref(w.cls), [], kw, s2, None), "the constructor"):
                        for r in ok(eng.call(q[1], [], {}, q[2], None), "reading"):
                            n += 1
                            try:
                                mirror(w, r[2], r[1], want, "content", synced=False, allow=equal_same_kind(eng))
                                leaves(eng, r[2], r[1], want)
                            except Problem as e:
                                for p_ in ("C12", "C01", "C03"):
                                    res["findings"].append(Finding(p_, "round-trip", loc, scen, f"{e}", r[2].trace()[-8:]))
        if not n:
            raise Unsupported("no path reaches the end of the program")
        res["stats"]["roundtrip_outcomes"] = res["stats"].get("roundtrip_outcomes", 0) + n


def leaves(eng, st, v, shape):
    if isinstance(v, Ref):
        o = st.get(v.oid)
        if isinstance(o, DictObj):
            want = {(k if isinstance(k, (K, T)) else K(k)): x for k, x in shape.items()}
            for k, x in o.items:
                leaves(eng, st, x, want[k])
        else:
            for x, y in zip(o.items, shape):
                leaves(eng, st, x, y)
        return
    w = K(shape) if not isinstance(shape, Leaf) else None
    if w is not None and not same_leaf(v, w):
        raise Problem("content", f"a leaf {shape!r} comes back as {show(v)[:40]}")


def enumerate_plain(st, ref):
    o = st.get(ref.oid)
    return o.items if isinstance(o, DictObj) else tuple((K(i), x) for i, x in enumerate(o.items))


def meth_call(eng, obj, name, args, st, kw=None):
    return eng._vals(eng.getattr_(obj, name, st, None), lambda f, t: eng.call(f, args, kw or {}, t, None))


class Encode:
    """The JSON encoder serialises a collection as exactly its content."""

    @staticmethod
    def run(eng, cls, res):
        w = setup(eng, cls)
        root = w.objs["R"]
        st = w.start()
        w.hooks.off = ALL_OFF - {"get_type"}
        d = w.st.get(root.oid).attrs["_data"]
        enc = [c for c in eng.class_oids if eng.builtin_base(State.base[c], st) in ("json.JSONEncoder", "JSONEncoder") or c == "c:SyncedCollectionJSONEncoder"]
        if not enc:
            raise Unsupported("no JSON encoder class found")
        for c in enc:
            f = eng.class_lookup(c, "default", st)
            if not isinstance(f, Fn):
                raise Unsupported("the encoder has no default method")
            loc = (f.info.file, f.info.node.lineno, f.info.qual)
            self_ = T("handle", "encoder")
            r, st1 = eng.alloc(st, "encoder", Inst(Ref(c), {}))
            for what, val, kinds in [("the collection", root, None)] + [(k, T("arg", "x"), k) for k in ("other", "set", "complex", "npnum", "nd1", "npbool")]:
                res["units"] += 1
                s0 = st1.kind(val, frozenset({kinds})) if kinds else st1
                scen = f"{cls}: encoder applied to {what}"
                for o in eng.dedupe_out(eng.call(BM(r, f), [val], {}, s0, None)):
                    res["stats"]["encoder_outcomes"] = res["stats"].get("encoder_outcomes", 0) + 1
                    if kinds is None:
                        good = o[0] == OK and (o[1] == d or (isinstance(o[1], Ref) and eng.content(o[1], o[2]) == eng.content(d, st)))
                        if not good:
                            for p in ("C01", "C12"):
                                res["findings"].append(Finding(p, "encoder", loc, scen, f"gives {show(o[1])[:80]} instead of the content", o[2].trace()[-8:]))
                    elif kinds in ("other", "set", "complex") and o[0] == OK and o[1] != val:
                        for p in ("C11",):
                            res["findings"].append(Finding(p, "encoder", loc, scen, f"encodes a value that is not JSON-representable as {show(o[1])[:60]}", o[2].trace()[-8:]))
        w.hooks.off = frozenset()
        w.hooks.collect = False


# ----------------------------------------------------------------------
class Attributes:
    """Dispatch between attributes of the object and keys."""

    @staticmethod
    def run(eng, cls, res):
        import ast

        w = World(eng, cls)
        if w.attr:
            Attributes.one(eng, cls, w, res)

    @staticmethod
    def one(eng, cls, w, res):
        import ast

        prot = w.cls_attr("_PROTECTED_KEYS")
        names = None
        if isinstance(prot, K) and isinstance(prot.v, (frozenset, set, tuple, list)):
            names = set(prot.v)
        elif isinstance(prot, Ref) and isinstance(State.base.get(prot.oid), (ListObj, DictObj)):
            o = State.base[prot.oid]
            if o.items is not None:
                names = {(x[0] if isinstance(o, DictObj) else x).v for x in o.items}
        elif isinstance(prot, Tup):
            names = {x.v for x in prot.items}
        if names is None:
            raise Unsupported(f"protected names of {cls} not recognised: {prot!r}")
        w.add_root()
        st0 = w.start()
        root = w.objs["R"]
        loc = fn_loc(eng, w, "__setattr__")

        def fail(rule, l, scen, msg, o=None):
            res["findings"].append(Finding("C18", rule, l, f"{cls}: {scen}", msg, o[2].trace()[-8:] if o else ()))

        inst = st0.get(root.oid)
        # attributes the object has and assignments in the methods of its classes
        own = {n: loc for n in inst.attrs}
        for c in w.mro:
            co = State.base.get(c)
            info = getattr(co, "info", None)
            if info is None or not getattr(info, "node", None) or not str(info.file).startswith("synced_collections"):
                continue
            for fn in info.node.body:
                if not isinstance(fn, ast.FunctionDef) or not fn.args.args:
                    continue
                first = fn.args.args[0].arg
                if any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod") for d in fn.decorator_list):
                    continue
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == first:
                        own.setdefault(n.attr, (info.file, n.lineno, f"{info.name}.{fn.name}"))
        res["stats"]["internal_attributes"] = res["stats"].get("internal_attributes", 0) + len(own)
        for n, l in sorted(own.items()):
            res["units"] += 1
            if n not in names and not n.startswith("__"):
                fail("unprotected-internal", l, f"internal attribute {n}", "is assigned on the object but is not a protected name: setting it stores a key instead")
        methods = set()
        for c in w.mro:
            co = State.base.get(c)
            if co is not None and hasattr(co, "attrs"):
                methods |= set(co.attrs)
        dunders = ["__foo", "__foo__", "__dict2__"]
        for n in sorted(names | set(own)) + dunders:
            kind = "protected" if n in names else "dunder" if n.startswith("__") else "other"
            if kind == "other":
                continue
            Attributes.check(eng, w, cls, root, n, kind, n in inst.attrs, methods, res, fail)
        for n in ("zeta", "a b", "é", "_x", "1", "", "class", "_"):
            if n not in methods and n not in names:
                Attributes.check(eng, w, cls, root, n, "key", False, methods, res, fail)

    @staticmethod
    def check(eng, w, cls, root, n, kind, present, methods, res, fail):
        d = w.st.get(root.oid).attrs["_data"]

        def data_events(o):
            return [e for e in trace(o[2]) if e.name == "cmut" and e.get("role")[0] == "data" and e.get("how") != "_update"]

        def touched(o, st):
            a, b = st.get(root.oid), o[2].get(root.oid)
            return {k for k in set(a.attrs) | set(b.attrs) if a.attrs.get(k) != b.attrs.get(k)}

        def go(what, f):
            res["units"] += 1
            st = w.start()
            v, st = plain(eng, st, Leaf("v", "int"))
            try:
                outs = eng.dedupe_out(f(v, st))
            except (Unsupported, Budget) as e:
                res["undecided"].append((f"{cls}: {what} {n!r}", str(e)[:200]))
                return []
            finally:
                w.hooks.collect = False
            res["stats"]["attribute_outcomes"] = res["stats"].get("attribute_outcomes", 0) + len(outs)
            return [(o, st) for o in outs]

        prop = isinstance(eng.class_lookup(w.cls, n, w.st), Prop)
        inclass = n in methods
        # assignment by attribute
        if not prop:
            for o, st in go("attribute assignment to", lambda v, st: _st(eng.setattr_(root, n, v, st, None))):
                l = fn_loc(eng, w, "__setattr__")
                if kind != "key":
                    if data_events(o) or n not in touched(o, st):
                        fail("attribute-dispatch", l, f"obj.{n} = v", "does not address the object itself", o)
                elif touched(o, st) - {"_data"}:
                    fail("attribute-dispatch", l, f"obj.{n} = v", "sets an attribute of the object instead of a key", o)
                elif o[0] == OK and not data_events(o):
                    fail("attribute-dispatch", l, f"obj.{n} = v", "stores nothing", o)
        # reading by attribute
        for o, st in go("attribute read of", lambda v, st: eng.getattr_(root, n, st, None)):
            l = fn_loc(eng, w, "__getattr__")
            reads = [e for e in trace(o[2]) if e.name == "cread" and e.get("role")[0] == "data"]
            if kind != "key" and present and (o[0] != OK or o[1] != st.get(root.oid).attrs[n]):
                fail("attribute-dispatch", l, f"obj.{n}", "does not give the attribute of the object", o)
            if kind == "dunder" and not inclass and (o[0] == OK or not eng.exc_is(o[1], o[2], "AttributeError")):
                fail("attribute-dispatch", l, f"obj.{n}", "of a dunder name is not an AttributeError", o)
            if kind == "key" and o[0] == RAISE and not o[2].mon.get("inj") and not eng.exc_is(o[1], o[2], "AttributeError"):
                fail("attribute-dispatch", l, f"obj.{n}", f"raises {show(o[1])[:50]} instead of AttributeError", o)
            if kind == "key" and o[0] == OK and not reads:
                fail("attribute-dispatch", l, f"obj.{n}", "does not read the key", o)
        # deletion by attribute
        for o, st in go("attribute deletion of", lambda v, st: _st(eng.delattr_(root, n, st, None))):
            l = fn_loc(eng, w, "__delattr__")
            if kind != "key" and data_events(o):
                fail("attribute-dispatch", l, f"del obj.{n}", "deletes a key", o)
            if kind == "key" and touched(o, st):
                fail("attribute-dispatch", l, f"del obj.{n}", "changes an attribute of the object", o)
            if kind == "key" and o[0] == RAISE and not o[2].mon.get("inj") and not eng.exc_is(o[1], o[2], "AttributeError"):
                fail("attribute-dispatch", l, f"del obj.{n}", f"raises {show(o[1])[:50]} instead of AttributeError", o)
        # item access never touches the object
        for what, f in (
            ("obj[%r] = v", lambda v, st: _st(eng.setitem(root, K(n), v, st, None))),
            ("del obj[%r]", lambda v, st: _st(eng.delitem(root, K(n), st, None))),
        ):
            for o, st in go("item access", f):
                if touched(o, st):
                    fail("item-disturbs-object", fn_loc(eng, w, "__setitem__"), what % n, f"changes {sorted(touched(o, st))} of the object", o)
                if o[0] == OK and not data_events(o):
                    fail("item-dispatch", fn_loc(eng, w, "__setitem__"), what % n, "does not change the content", o)


def _st(outs):
    return [(OK, NONE, o[2]) if o[0] == NEXT else o for o in outs]


# ----------------------------------------------------------------------
class History:
    """The outcome of classifying a value after another value was classified."""

    POOL = [
        "dict", "umap", "list", "tuple", "useq", "bytes", "str", "bool", "int", "float", "none", "complex",
        "nd1", "nd0", "npnum", "npf64", "npbool", "npext", "npcplx", "set", "iter", "sdict", "slist", "other",
    ]  # fmt: skip

    @staticmethod
    def subjects(eng):
        out = []
        for oid, o in sorted(State.base.items()):
            if isinstance(o, Inst) and "c:AbstractTypeResolver" in State.base[o.cls.oid].info.mro:
                out.append(("resolver", oid))
        return out

    @staticmethod
    def call(eng, subj, x, st):
        kind, a = subj
        if kind == "resolver":
            return meth_call(eng, Ref(a), "get_type", [x], st)
        if kind == "fn":
            return eng.call(a[1], [x], {}, st, None)
        return meth_call(eng, Ref(a), kind, [x], st)

    @staticmethod
    def outcome(eng, o):
        tag, v, st = o
        if tag == RAISE:
            return ("raise", v.args[0].oid if isinstance(v, T) and v.op == "exc" else repr(v))
        if isinstance(v, Ref):
            ob = st.get(v.oid)
            if isinstance(ob, Inst):
                return ("ok", "inst", ob.cls.oid)
            return ("ok", type(ob).__name__)
        return ("ok", v)

    @staticmethod
    def feasible(eng, st, x1, x2):
        """Two values of one type differ in kind only if one of them is disguised."""
        t1, t2 = T("type", x1), T("type", x2)
        same = any(st.facts.get(eng.eqpred(n, t1, t2)) is True for n in ("eq", "is"))
        k1, k2 = eng.kinds_of(x1, st), eng.kinds_of(x2, st)
        if same and k1 != k2:
            user = {"umap", "useq", "other"}
            if {*k1, *k2} <= {"nd0", "nd1"}:
                return True
            if not (k1 <= user and k2 <= user):
                return False
            return not (st.facts.get(P("disguised", x1)) is False and st.facts.get(P("disguised", x2)) is False)
        return True

    @staticmethod
    def run(eng, spec, res):
        subj, kinds1 = spec
        w = World(eng, "JSONDict")
        w.hooks.off = ALL_OFF
        if subj[0] == "fn":
            fr = State.base[eng.modules[subj[1][0]]]
            v = fr.vars.get(subj[1][1])
            subj = ("fn", (subj[1][1], v))
            loc = (v.info.file, v.info.node.lineno, v.info.qual)
        elif subj[0] == "resolver":
            f = eng.class_lookup(State.base[subj[1]].cls.oid, "get_type", w.st)
            loc = (f.info.file, f.info.node.lineno, f.info.qual)
        else:
            f = eng.class_lookup(subj[1], subj[0], w.st)
            f = getattr(f, "fn", f)
            loc = (f.info.file, f.info.node.lineno, f.info.qual)
        name = f"{subj[1] if subj[0] == 'resolver' else subj[0]}" if subj[0] != "fn" else subj[1][0]
        if subj[0] not in ("resolver", "fn"):
            name = f"{subj[1][2:]}.{subj[0]}"
        x1, x2 = T("arg", "first"), T("arg", "second")
        fresh = {}
        for k in History.POOL:
            st = w.start().kind(x2, frozenset({k}))
            fresh[k] = [(History.outcome(eng, o), o[2]) for o in eng.dedupe_out(History.call(eng, subj, x2, st)) if not o[2].mon.get("inj")]
        for k1 in kinds1:
            st = w.start().kind(x1, frozenset({k1}))
            first = eng.dedupe_out(History.call(eng, subj, x1, st))
            warm = []
            seen = set()
            for o in first:
                if o[2].mon.get("inj"):
                    continue
                changed = [i for i in o[2].heap if i in State.base and o[2].heap[i] != State.base[i]]
                memo = [m for m in o[2].mon if isinstance(m, tuple) and m[0] == "memo"]
                key = o[2].key()
                if key in seen:
                    continue
                seen.add(key)
                res["stats"]["histories_changing_shared_state"] = res["stats"].get("histories_changing_shared_state", 0) + bool(changed or memo)
                warm.append(o[2])
            for k2 in History.POOL:
                res["units"] += 1
                for s in warm:
                    for o in eng.dedupe_out(History.call(eng, subj, x2, s.kind(x2, frozenset({k2})))):
                        res["stats"]["history_outcomes"] = res["stats"].get("history_outcomes", 0) + 1
                        if o[2].mon.get("inj") or not History.feasible(eng, o[2], x1, x2):
                            continue
                        got = History.outcome(eng, o)
                        okk = any(a == got and compatible(f.facts, o[2].facts) for a, f in fresh[k2])
                        if not okk:
                            res["findings"].append(
                                Finding("C19", "history-dependent", loc, f"{name}: a value of kind {k1}, then one of kind {k2}",
                                        f"outcome {got} for the second value, but {[a for a, _ in fresh[k2]][:3]} in a fresh process", o[2].trace()[-8:])
                            )  # fmt: skip
        w.hooks.off = frozenset()
        w.hooks.collect = False


def compatible(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


class Binding:
    """Locks of the objects bound to one resource: shared, registered atomically, kept when an object is rebound."""

    @staticmethod
    def run(eng, spec, res):
        cls, threading = spec
        w = World(eng, cls, threading=threading)
        if not w.supports_threading():
            return
        w.add_root("R", "1")
        w.add_root("S", "1")
        w.add_root("U", "2")
        init = eng.class_lookup(w.cls, "__init__", w.st)
        here = (init.info.file, init.info.node.lineno, init.info.qual)

        def fail(props, rule, loc, scen, msg, o=None):
            for p in props.split():
                res["findings"].append(Finding(p, rule, loc, f"{cls}{'' if threading else ' (threading off)'}: {scen}", msg, o[2].trace()[-8:] if o else []))

        def lock(name, st):
            outs = eng.dedupe_out(eng.getattr_(w.objs[name] if isinstance(name, str) else name, "_thread_lock", st, None))
            return outs[0] if len(outs) == 1 else (RAISE, T("several"), st)

        before = {}
        for n in "RSU":
            res["units"] += 1
            o = lock(n, w.start())
            before[n] = o[1]
            if o[0] != OK:
                fail("C09 C10 C14", "no-lock", here, f"lock of a new object {n}", "the object has no lock", o)
                return
        if threading and before["R"] != before["S"]:
            fail("C09 C14", "lock-not-shared", here, "two objects on one resource", "objects bound to one resource use different locks")

        # creation of objects in concurrent threads
        for tag in ("1", "3"):
            res["units"] += 1
            st = w.start()
            kw, st = w.resource_kw(st, tag)
            for o in eng.dedupe_out(eng.instantiate(Ref(w.cls), [], kw, st, None)):
                if o[0] != OK:
                    if "inj" not in o[2].mon:
                        fail("C10", "ctor-raises", here, f"new object on resource {tag}", f"raises {show(o[1])[:80]}", o)
                    continue
                Binding.registry(w, o, f"new object on resource {tag}", fail)
                Binding.balanced(w, o, f"new object on resource {tag}", fail)
                if threading and tag == "1":
                    l = lock(o[1], o[2])
                    if l[0] != OK or l[1] != before["R"]:
                        fail("C09 C14", "lock-not-shared", here, "another object on a resource in use", "it does not use the lock of the other objects", o)
        if w.backend != "json":
            return

        # another file for one object
        f = eng.class_lookup(w.cls, "filename", w.st)
        f = getattr(f, "fset", None)
        if not isinstance(f, Fn):
            raise Unsupported("filename is not a property with a setter")
        loc = (f.info.file, f.info.node.lineno, f.info.qual)
        for new, others in (("F2", "SU"), ("F9", "SU"), ("F1", "SU")):
            res["units"] += 1
            scen = f"R.filename = {'its own file' if new == 'F1' else 'the file of another object' if new == 'F2' else 'a file not used before'}"
            for o in eng.dedupe_out(eng.setattr_(w.objs["R"], "filename", K(new), w.start(), None)):
                if o[0] == RAISE:
                    fail("C10", "rebind-raises", loc, scen, f"raises {show(o[1])[:80]}", o)
                    continue
                Binding.registry(w, o, scen, fail)
                Binding.balanced(w, o, scen, fail)
                for n in others:
                    l = lock(n, o[2])
                    if l[0] != OK:
                        fail("C10", "rebind-breaks-others", loc, scen, f"afterwards {n}, bound to {'the old' if n == 'S' else 'another'} file, has no lock", o)
                    elif l[1] != before[n]:
                        fail("C09 C10", "rebind-breaks-others", loc, scen, f"afterwards {n} uses another lock than before", o)
                l = lock("R", o[2])
                want = {"F1": before["S"], "F2": before["U"]}.get(new)
                if l[0] != OK:
                    fail("C10", "rebind-no-lock", loc, scen, "the object has no lock afterwards", o)
                elif threading and (want is not None and l[1] != want or new == "F9" and l[1] in before.values()):
                    fail("C09 C10", "lock-not-shared", loc, scen, "the object does not use the lock of its new file", o)
                for n in "RSU":
                    for x in eng.dedupe_out(eng.getattr_(w.objs[n], "filename", o[2], None)):
                        if x[0] != OK or x[1] != K({"R": new, "S": "F1", "U": "F2"}[n]):
                            fail("C10", "rebind-wrong-file", loc, scen, f"afterwards {n}.filename is {show(x[1])[:60]}", o)

    @staticmethod
    def registry(w, o, scen, fail):
        """Lookups and changes of the registry of locks are atomic."""
        held, looked = {}, None
        for e in trace(o[2]):
            if e.name == "acquire":
                held[e.get("lock").oid] = held.get(e.get("lock").oid, 0) + 1
            elif e.name == "release":
                held[e.get("lock").oid] -= 1
                looked = looked if looked is None or held.get(looked) else False
            elif e.name in ("cread", "cmut") and e.get("role") == ("cls", "_locks"):
                now = [r for r, n in held.items() if n > 0]
                if e.name == "cread":
                    looked = now[0] if now else False
                elif e.get("how") == "setdefault":
                    continue
                elif e.get("how") != "set":
                    fail("C10", "lock-registry", e.loc, scen, f"the registry of locks is changed by {e.get('how')}", o)
                elif not now or looked is False:
                    fail("C09 C10", "registry-race", e.loc, scen, "a lock is registered without holding one lock since the lookup: two threads may end up with different locks for one resource", o)

    @staticmethod
    def balanced(w, o, scen, fail):
        held = {}
        for e in trace(o[2]):
            if e.name in ("acquire", "release"):
                r = e.get("lock").oid
                if e.name == "acquire" and held.get(r) and e.get("plain"):
                    fail("C10", "self-deadlock", e.loc, scen, "a lock that is not reentrant is acquired twice", o)
                held[r] = held.get(r, 0) + (1 if e.name == "acquire" else -1)
        if any(held.values()):
            fail("C10", "lock-leak", (e.loc if held else None), scen, "acquisitions and releases do not balance", o)
