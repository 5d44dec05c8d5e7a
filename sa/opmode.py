"""Effect analysis of single operations.

One operation of one concrete class is interpreted abstractly on an arbitrary
collection: the content of every ``_data`` container is an opaque term, the
arguments are opaque terms with a set of possible kinds, and the methods that
convert, merge and validate data are replaced by their contracts (verified
separately in ``contracts``). Every outcome carries the ordered list of effects
(lock operations, resource reads and writes, container accesses, ...).
"""
from .builtins_model import ALLK, MAPK, P, SEQK, Model
from .interp import NoHooks
from .state import State
from .values import *  # noqa: F401,F403

JSONK = frozenset({"dict", "list", "str", "int", "float", "bool", "none"})
MEMK = frozenset({"sdict", "slist", "str", "int", "float", "bool", "none"})
LISTY = frozenset({"list", "tuple", "useq", "bytes", "slist", "nd1"})


class Ev:
    """One effect. Interned, so equality is identity."""

    __slots__ = ("name", "loc", "stack", "kw", "prev", "n")
    table = {}

    @classmethod
    def make(cls, prev, name, loc, stack, kw):
        key = (id(prev), name, loc, stack, tuple(kw.items()))
        e = cls.table.get(key)
        if e is None:
            e = object.__new__(cls)
            e.name, e.loc, e.stack, e.kw, e.prev = name, loc, stack, kw, prev
            e.n = prev.n + 1 if prev is not None else 1
            cls.table[key] = e
        return e

    def get(self, k, d=None):
        return self.kw.get(k, d)

    def __repr__(self):
        return f"{self.name}({', '.join(f'{k}={show(v)}' for k, v in self.kw.items())})@{self.loc[0]}:{self.loc[1]}"


def trace(st):
    out = []
    e = st.mon.get("ev")
    while e is not None:
        out.append(e)
        e = e.prev
    out.reverse()
    return out


BUFNAMES = frozenset({"_buffer", "_buffered_collections", "_CURRENT_BUFFER_SIZE", "_BUFFER_CAPACITY"})


def freeze(v):
    if isinstance(v, list):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, freeze(x)) for k, x in sorted(v.items(), key=lambda i: str(i[0])))
    return v


class OpHooks(NoHooks):
    CONTRACTS = frozenset({"_update", "_to_base", "_from_base", "_validate"})

    def __init__(self, world):
        self.w = world
        self.off = frozenset()  # contracts that are disabled
        self.keep = frozenset()  # objects whose _to_base is not
        self.collect = True
        self.files = {}  # path -> whether the file exists initially
        self.res_kinds = None  # restrict the kinds of the resource content

    # ------------------------------------------------------------------
    def role(self, oid, st):
        r = Ref(oid)
        for name, ref in self.w.objs.items():
            o = st.get(ref.oid)
            if o is not None and o.attrs.get("_data") == r:
                return ("data", name)
        for cname in self.w.classes:
            c = st.get(cname)
            for a in ("_buffer", "_buffered_collections", "_locks"):
                if c.attrs.get(a) == r:
                    return ("cls", a)
            b = c.attrs.get("_buffer")
            if b is not None:
                for k, v in st.get(b.oid).items or ():
                    if v == r:
                        return ("entry", k)
                    if isinstance(v, Ref):
                        e = st.get(v.oid)
                        if isinstance(e, DictObj) and any(x == r for _, x in e.items or ()):
                            return ("entrypart", k)
        return self.w.roles.get(oid)

    def rec(self, eng, st, ev, **kw):
        if not self.collect:
            return st
        kw = {k: freeze(v) for k, v in kw.items()}
        e = Ev.make(st.mon.get("ev"), ev, eng.where, tuple(eng.stack[-4:]), kw)
        return st.setm("ev", e)

    def event(self, eng, st, ev, kw):
        if not self.collect:
            return st
        if ev in ("cread", "cmut"):
            role = self.role(kw["ref"].oid, st)
            if role is None:
                return st
            kw = {k: v for k, v in kw.items() if k != "ref"}
            return self.rec(eng, st, ev, role=role, **kw)
        if ev in ("getattr", "argread", "new", "cls_getattr", "loop_end"):
            if ev == "cls_getattr" and kw["name"] in BUFNAMES:
                return self.rec(eng, st, "cls_getattr", name=kw["name"])
            if ev == "getattr" and kw["name"] == "_data" and kw["ref"].oid in self.w.byoid:
                return self.rec(eng, st, "getdata", obj=self.w.byoid[kw["ref"].oid])
            return st
        if ev in ("setattr",):
            nm = self.w.byoid.get(kw["ref"].oid)
            return self.rec(eng, st, "setattr", obj=nm or kw["ref"].oid, name=kw["name"], val=kw["val"])
        return self.rec(eng, st, ev, **kw)

    def iter_end(self, eng, st, info):
        """Drop the effects of an iteration that repeats the previous one."""
        head = info["head"].mon.get("ev")
        new, e = [], st.mon.get("ev")
        while e is not head and e is not None:
            new.append(e)
            e = e.prev
        if e is not head or head is None or not new:
            return st
        for x in new:
            if e is None or (x.name, x.loc, x.kw) != (e.name, e.loc, e.kw):
                return st
            e = e.prev
        return st.setm("ev", head)

    # ------------------------------------------------------------------
    # value knowledge
    # ------------------------------------------------------------------
    def kinds(self, eng, v, st):
        op = v.op
        if op in ("loads", "zval") or (op in ("val", "item") and isinstance(v.args[0], T) and v.args[0].op == "doc"):
            return self.res_kinds or JSONK
        if op == "snap":
            out = set()
            for k in eng.kinds_of(v.args[0], st):
                out.add("dict" if k in MAPK else "list" if k in LISTY and k != "nd1" else k)
            return frozenset(out)
        if op in ("val", "item"):
            n = self.w.at(v)
            if n is not None and n in self.w.kind_of_content:
                return frozenset({self.w.kind_of_content[n]})
        if op in ("val", "item", "elem"):
            c = v.args[0]
            if isinstance(c, T) and c.op in ("arg", "snap"):
                return JSONK
            return JSONK | {"sdict", "slist"}
        if op == "key" or op == "lastkey":
            return frozenset({"str"})
        if op == "C":
            return frozenset({self.w.kind_of_content.get(v, "dict")})
        if op == "doc":
            return frozenset({"dict"})
        return None

    def canon(self, eng, p, st):
        """Predicates about data do not depend on how the data is represented."""
        if p.args[0] in ("has", "eq", "nonempty", "truth", "gt0", "inrange", "lt", "cmp"):
            return T("p", p.args[0], *[norm(eng, a, st) for a in p.args[1:]])
        return p

    def simp(self, eng, p, st):
        if p.args[0] == "exists":
            a = p.args[1]
            return self.files.get(a) if isinstance(a, K) else None
        if p.args[0] == "eq":
            r = self.stat_eq(p, st)
            if r is not None:
                return r
            a, b = peel(p.args[1], p.args[2])
            if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "json" and NONE in (a.args[0], b.args[0]):
                if "none" not in eng.kinds_of(a.args[0], st) or "none" not in eng.kinds_of(b.args[0], st):
                    return False
        if p.args[0] in ("has", "inrange", "nonempty") and isinstance(p.args[1], T):
            keys = self.w.keys_at(p.args[1])
            if keys and (p.args[0] == "nonempty" or p.args[2] in keys):
                return True
        if p.args[0] == "has" and isinstance(p.args[1], T) and p.args[1].op == "doc":
            return p.args[2] == K("data")
        return None

    def stat_eq(self, p, st):
        """Two versions of a file differ in the size or in the time of the last change."""
        a, b = p.args[1], p.args[2]
        if not all(isinstance(x, T) and x.op == "attr" and isinstance(x.args[0], T) for x in (a, b)):
            return None
        if a.args[0].op != "stat" or b.args[0].op != "stat" or a.args[1] != b.args[1]:
            return None
        other = {"st_size": "st_mtime_ns", "st_mtime_ns": "st_size"}.get(a.args[1])
        if a.args[0] == b.args[0] or other is None:
            return None
        if st.facts.get(P("eq", T("attr", a.args[0], other), T("attr", b.args[0], other))) is True:
            return False
        return None

    # ------------------------------------------------------------------
    # contracts
    # ------------------------------------------------------------------
    def contract(self, eng, fn, args, kw, st, node):
        q = fn.info.qual
        name = q.rsplit(".", 1)[-1]
        if name in self.off and not (name == "_to_base" and isinstance(args[0], Ref) and args[0].oid in self.keep):
            return None
        if name in self.CONTRACTS and fn.info.cls and args and isinstance(args[0], Ref):
            return getattr(self, "c" + name)(eng, fn, args, kw, st, node)
        if name == "_snapshot" and not fn.info.cls and len(args) == 1:
            return self.c_snapshot(eng, fn, args, kw, st, node)
        if name == "get_type" and fn.info.cls == "c:AbstractTypeResolver" and len(args) == 2:
            return self.c_get_type(eng, fn, args, kw, st, node)
        if fn.info.file == "_collections_abc.py" and q.startswith("Sequence."):
            if name in ("index", "count", "__contains__"):
                return self.c_seq(eng, name, fn, args, kw, st, node)
        return None

    def c_get_type(self, eng, fn, args, kw, st, node):
        """Result: the first identifier that accepts the value (verified for C19)."""
        res = st.get(args[0].oid).attrs.get("abstract_type_identifiers")
        if not isinstance(res, Ref) or not isinstance(st.get(res.oid), DictObj):
            return None
        ids = st.get(res.oid).items
        if ids is None:
            return None
        cur, out = [st], []
        for name, f in ids:
            nxt = []
            for s in cur:
                for o in eng.call(f, [args[1]], {}, s, node):
                    if o[0] != OK:
                        out.append(o)
                        continue
                    for b in eng.truth(o[1], o[2], node):
                        if b[0] == RAISE:
                            out.append(b)
                        elif b[1]:
                            out.append((OK, name, b[2]))
                        else:
                            nxt.append(b[2])
            cur = nxt
        return eng.dedupe_out(out + [(OK, NONE, s) for s in cur])

    def c_snapshot(self, eng, fn, args, kw, st, node):
        x = args[0]
        if isinstance(x, K):
            return [(OK, x, st)]
        if isinstance(x, Ref):
            o = st.get(x.oid)
            snap = lambda x: T("snap", x) if isinstance(x, T) and eng.kinds_of(x, st) & (MAPK | LISTY) else x
            if isinstance(o, DictObj):
                items = None if o.items is None else tuple((k, snap(x)) for k, x in o.items)
                r, st = eng.alloc(st, eng.site(node), DictObj(items, snap(o.content)))
                return [(OK, r, st)]
            if isinstance(o, ListObj):
                items = None if o.items is None else tuple(snap(x) for x in o.items)
                r, st = eng.alloc(st, eng.site(node), ListObj(items, snap(o.content)))
                return [(OK, r, st)]
            return None
        if isinstance(x, T):
            ks = eng.kinds_of(x, st)
            if ks & {"sdict", "slist"}:
                st = self.rec(eng, st, "sread", val=x)
            if not (ks & (MAPK | LISTY)):
                return [(OK, x, st)]
            return [(OK, T("snap", x), st)]
        return None

    def c_validate(self, eng, fn, args, kw, st, node):
        data = args[1] if len(args) > 1 else kw.get("data", NONE)
        c = eng.content(data, st) if isinstance(data, Ref) else data
        st = self.rec(eng, st, "validate", val=norm(eng, c, st), obj=self.w.byoid.get(args[0].oid, args[0].oid))
        bad = eng.inj(st.note(f"{eng.loc()}: validation rejects the data"), "invalid")
        return [
            (OK, NONE, st),
            (RAISE, eng.mkexc("TypeError", "rejected"), bad),
            (RAISE, eng.mkexc("ValueError", "rejected"), bad),
        ]

    def c_from_base(self, eng, fn, args, kw, st, node):
        data = args[1] if len(args) > 1 else kw.get("data")
        if data is None:
            return None
        parent = kw.get("parent", NONE)
        o = st.get(args[0].oid)
        cls = o.cls if isinstance(o, Inst) else args[0]
        if isinstance(data, K):
            st = self.rec(eng, st, "conv", val=data, parent=parent, raw=())
            return [(OK, data, st)]
        c = eng.content(data, st) if isinstance(data, Ref) else data
        if isinstance(data, Ref) and isinstance(st.get(data.oid), Inst):
            st = self.rec(eng, st, "sread", val=data)
            c = data
        st = self.rec(eng, st, "conv", val=norm(eng, c, st), parent=parent, raw=tuple(raw_args(c)))
        return [(OK, T("conv", c, getattr(parent, "oid", "?"), cls.oid), st)]

    def is_dict(self, ref, st):
        return "c:SyncedDict" in st.get(st.get(ref.oid).cls.oid).info.mro

    def c_to_base(self, eng, fn, args, kw, st, node):
        r = args[0]
        o = st.get(r.oid)
        d = o.attrs.get("_data")
        if d is None:
            return None
        st = eng.emit(st, "cread", ref=d, how="to_base")
        c = norm(eng, r, st)
        if self.is_dict(r, st):
            x, st = eng.alloc(st, "tobase@" + eng.site(node), eng.dict_from(c))
        else:
            x, st = eng.alloc(st, "tobase@" + eng.site(node), eng.list_from_segs(eng.segs(c)))
        return [(OK, x, st)]

    def c_update(self, eng, fn, args, kw, st, node):
        r = args[0]
        o = st.get(r.oid)
        if not isinstance(o, Inst) or "_data" not in o.attrs:
            return None
        data = args[1] if len(args) > 1 else kw.get("data", NONE)
        isd = self.is_dict(r, st)
        if data == NONE:
            return [(OK, NONE, self.rec(eng, st, "upd_none", obj=self.w.byoid.get(r.oid)))]
        res = []
        good = (MAPK if isd else LISTY)
        if isinstance(data, T):
            ks = eng.kinds_of(data, st)
            ok, none = ks & good, ks & {"none"}
            bad = ks - ok - none
            if none:
                s = eng.refine(data, none, st)
                res.append((OK, NONE, self.rec(eng, s, "upd_none", obj=self.w.byoid.get(r.oid))))
            if bad:
                s = eng.inj(eng.refine(data, bad, st), "kind")
                res.append((RAISE, eng.mkexc("ValueError", "unsupported type"), s))
            if not ok:
                return res
            st = eng.refine(data, ok, st) if ok != ks else st
        elif isinstance(data, Ref):
            od = st.get(data.oid)
            if isinstance(od, DictObj) != isd or not isinstance(od, (DictObj, ListObj)):
                return [(RAISE, eng.mkexc("ValueError", "unsupported type"), st)]
        elif isinstance(data, Tup):
            if isd:
                return [(RAISE, eng.mkexc("ValueError", "unsupported type"), st)]
        else:
            return [(RAISE, eng.mkexc("ValueError", "unsupported type"), st)]
        c = eng.content(data, st)
        for x in sorted(set(raw_args(c)), key=repr):
            st = self.rec(eng, st, "sread", val=x)
        st = self.rec(eng, st, "cmut", role=("data", self.w.byoid.get(r.oid, r.oid)), how="_update", val=norm(eng, c, st))
        # content taken from the resource may violate the validators
        if any(x.op in ("loads", "zval", "doc") for x in subterms(c)):
            bad = set_content(eng, o.attrs["_data"], T("partial", eng.content(o.attrs["_data"], st), c), st)
            res.append((RAISE, eng.mkexc("TypeError", "resource content rejected"), eng.inj(bad, "kind")))
        res.append((OK, NONE, self.w.refresh(eng, r, c, st)))
        return res

    def c_seq(self, eng, name, fn, args, kw, st, node):
        r = args[0]

        def go(it, t):
            inner = it.args[0] if isinstance(it, T) and it.op == "iter" else it
            c = eng.content(inner, t) if isinstance(inner, Ref) else inner
            x = args[1]
            if name == "__contains__":
                return [(OK, P("has", c, x), t)]
            if name == "count":
                return [(OK, T("count", c, *args[1:]), t)]
            return [
                (OK, T("index", c, *args[1:]), s) if b else (RAISE, eng.mkexc("ValueError"), s)
                for b, s in eng.decide(P("has", c, *args[1:]), t)
            ]

        if name == "index":
            # index() performs one item access per position
            t = self.rec(eng, st, "mixin_read", name=name)
            return eng._vals(eng.call_special(r, "__iter__", [], t, node), go)
        return eng._vals(eng.call_special(r, "__iter__", [], st, node), go)

    # ------------------------------------------------------------------
    # methods of synced children denoted by terms
    # ------------------------------------------------------------------
    def term_getattr(self, eng, v, name, st, node):
        return None

    def term_method(self, eng, v, name, args, kw, st, node):
        if name == "_to_base":
            return [(OK, T("snap", v), st)]
        if name == "__call__":
            ks = eng.kinds_of(v, st)
            syn = ks & {"sdict", "slist"}
            out = []
            if ks - syn:
                out.append((RAISE, eng.mkexc("TypeError", "not callable"), eng.refine(v, ks - syn, st)))
            if syn:
                t = eng.refine(v, syn, st) if ks - syn else st
                out.append((OK, T("snap", v), self.rec(eng, t, "sread", val=v)))
            return out
        if name == "_update":
            st = self.rec(eng, st, "child_update", child=v, val=args[0])
            return [(OK, NONE, st), (RAISE, eng.mkexc("ValueError"), st)]
        return None

    # ------------------------------------------------------------------
    # external resources
    # ------------------------------------------------------------------
    def rget(self, eng, st, loc, first):
        """-> [(content or None, st)] of an entry of an external store."""
        c = st.mon.get(("res", loc))
        if c is not None:
            return [(None if c == NONE else c, st)]
        return [(first if b else None, s) for b, s in eng.decide(P("exists", loc), st)]

    def opaque_method(self, eng, v, name, args, kw, st, node):
        if not (isinstance(v, T) and v.op == "handle"):
            return None
        what = v.args[0]
        err = (RAISE, eng.mkexc("AnyError", "backend failure"), eng.inj(st.note(f"{eng.loc()}: backend call fails"), "io"))
        if what == "client":
            loc = ("redis", args[0]) if args else None
            if name == "get" and loc:
                st = self.rec(eng, st, "rread", loc_=loc)
                return [err] + [(OK, NONE if c is None else c, s) for c, s in self.rget(eng, st, loc, T("blob", args[0]))]
            if name == "set" and len(args) >= 2:
                st = st.setm(("res", loc), args[1])
                st = self.rec(eng, st, "rwrite", loc_=loc, val=args[1], extra=freeze(kw) + tuple(args[2:]))
            else:
                st = self.rec(eng, st, "rother", what=what, name=name, args=tuple(args))
            return [err, (OK, TRUE, st)]
        if what == "coll":
            key = norm(eng, args[0], st) if args else None
            loc = ("mongo", key)
            if name == "find_one":
                st = self.rec(eng, st, "rread", loc_=loc)
                return [err] + [
                    (OK, *((NONE, s) if c is None else eng.fresh_plain(c, s, "doc@" + eng.site(node))))
                    for c, s in self.rget(eng, st, loc, T("doc", key))
                ]
            if name == "replace_one" and len(args) > 1:
                ups = args[2] if len(args) > 2 else kw.get("upsert", FALSE)
                bad = (RAISE, T("exc", Ref(eng.ext_class(Ext("bson.errors.InvalidDocument"))), NONE), eng.inj(st, "dumps"))
                doc = norm(eng, args[1], st)

                def store(s):
                    s = s.setm(("res", loc), doc)
                    return (OK, T("result"), self.rec(eng, s, "rwrite", loc_=loc, val=doc, upsert=ups))

                if ups in (FALSE, NONE):  # only replaces an existing document
                    return [err, bad] + [
                        (OK, T("result"), s) if c is None else store(s) for c, s in self.rget(eng, st, loc, T("doc", key))
                    ]
                return [err, bad, store(st)]
            st = self.rec(eng, st, "rother", what=what, name=name, args=tuple(args))
            return [err, (OK, T("result"), st)]
        if what == "group":
            if name in ("require_dataset", "create_dataset"):
                a = args[0] if args else kw.get("name")
                st = self.rec(eng, st, "rtouch", loc_=("zarr", a), opts=freeze(kw))
                return [err, (OK, T("handle", "dataset", a, "new"), st)]
            st = self.rec(eng, st, "rother", what=what, name=name, args=tuple(args))
            return [err, (OK, T("result"), st)]
        st = self.rec(eng, st, "rother", what=what, name=name, args=tuple(args))
        return [(OK, T("mcall", v, name, tuple(args)), st)]

    def ext_getitem(self, eng, v, k, st, node):
        if isinstance(v, T) and v.op == "handle":
            if v.args[0] == "group":
                st = self.rec(eng, st, "rread", loc_=("zarr", k))
                return [
                    (RAISE, eng.mkexc("KeyError", k), s) if c is None else (OK, T("handle", "dataset", k), s)
                    for c, s in self.rget(eng, st, ("zarr", k), T("zval", k))
                ]
            if v.args[0] == "dataset":
                st = self.rec(eng, st, "rread", loc_=("zarr", v.args[1]), idx=k)
                c = st.mon.get(("res", ("zarr", v.args[1])), T("zval", v.args[1]))
                c, st = eng.fresh_plain(c, st, "zval@" + eng.site(node))
                return [
                    (OK, c, st),
                    (RAISE, eng.mkexc("AnyError", "backend failure"), eng.inj(st, "io")),
                ]
        return None

    def ext_setitem(self, eng, v, k, val, st, node):
        if isinstance(v, T) and v.op == "handle" and v.args[0] == "dataset":
            bad = (
                RAISE,
                eng.mkexc("TypeError", "not serializable"),
                eng.inj(self.rec(eng, st, "dumps_fail", val=NONE), "dumps"),
            )
            x = norm(eng, val, st)
            st = st.setm(("res", ("zarr", v.args[1])), x)
            st = self.rec(eng, st, "rwrite", loc_=("zarr", v.args[1]), val=x, idx=k)
            return [bad, (NEXT, None, st)]
        return None


# ----------------------------------------------------------------------
def subterms(v, seen=None):
    if isinstance(v, T):
        yield v
        for a in v.args:
            yield from subterms(a)
    elif isinstance(v, (tuple, frozenset)):
        for a in v:
            yield from subterms(a)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from subterms(a)


def raw_args(v, stop=("snap",)):
    """Argument terms that occur outside of the given operators."""
    if isinstance(v, T):
        if v.op in stop:
            return
        if v.op == "arg":
            yield v
            return
        for a in v.args[1:] if v.op in ("lmap", "dmap") else v.args:
            yield from raw_args(a, stop)
    elif isinstance(v, (tuple, frozenset)):
        for a in v:
            yield from raw_args(a, stop)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from raw_args(a, stop)


def subrefs(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, T):
        for a in v.args:
            yield from subrefs(a)
    elif isinstance(v, (tuple, frozenset)):
        for a in v:
            yield from subrefs(a)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from subrefs(a)


def set_content(eng, dref, c, st):
    o = st.get(dref.oid)
    if isinstance(o, DictObj):
        return st.put(dref.oid, eng.dict_from(c, o.factory))
    return st.put(dref.oid, eng.list_from_segs(eng.segs(c), o.kind))


STRIP = ("conv", "snap", "copy", "deepcopy")


def norm(eng, v, st, depth=0):
    """Plain data denoted by a value."""
    if depth > 40:
        return v
    if isinstance(v, Ref):
        o = st.get(v.oid)
        if isinstance(o, Inst) and "_data" in o.attrs:
            return norm(eng, o.attrs["_data"], st, depth + 1)
        if isinstance(o, (DictObj, ListObj)):
            return norm(eng, eng.content(v, st), st, depth + 1)
        return v
    if isinstance(v, Tup):
        return T("cat", tuple(("i", norm(eng, x, st, depth + 1)) for x in v.items))
    if isinstance(v, T):
        if v.op in STRIP:
            return norm(eng, v.args[0], st, depth + 1)
        if v.op == "tupleof":
            return norm(eng, v.args[0], st, depth + 1)
        n = tuple(_norm_arg(eng, x, st, depth + 1) for x in v.args)
        op = v.op
        if op == "cat":
            segs = []
            for k, x in n[0]:
                if k == "s" and isinstance(x, T) and x.op == "cat":
                    segs.extend(x.args[0])
                else:
                    segs.append((k, x))
            if len(segs) == 1 and segs[0][0] == "s":
                return segs[0][1]
            return T("cat", tuple(segs))
        if op == "lmap" and isinstance(n[1], T) and n[1].op == "elem" and n[1].args[0] == n[0]:
            return n[0]  # identity mapping
        if op == "dmap" and n[1] == n[2] and False:
            return n[0]
        if op == "dset":
            if n[2] == T("val", n[0], n[1]):
                return n[0]
            return eng.d_set(*n)
        if op == "lset":
            if n[2] == T("item", n[0], n[1]):
                return n[0]
            if isinstance(n[0], T) and n[0].op == "lset" and n[0].args[1] == n[1]:
                return norm(eng, T("lset", n[0].args[0], n[1], n[2]), st, depth + 1)
        if op == "dupd":
            return eng.d_update(*n)
        if op == "ddel":
            return eng.d_del(*n)
        if op == "p" and n[0] in ("eq", "is"):
            return eng.eqpred(n[0], n[1], n[2])
        if op == "keys" and False:
            return n[0]
        return v if n == v.args else T(op, *n)
    return v


def _norm_arg(eng, x, st, depth):
    if isinstance(x, tuple):
        return tuple(_norm_arg(eng, y, st, depth) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_norm_arg(eng, y, st, depth) for y in x)
    if isinstance(x, (Ref, T, Tup)):
        return norm(eng, x, st, depth)
    if isinstance(x, Slc):
        return x
    return x


# ----------------------------------------------------------------------
class World:
    """A configuration of collection objects to analyse operations on."""

    def __init__(self, eng, cls, threading=True, write_concern=False, st=None):
        self.eng = eng
        self.cls = "c:" + cls
        self.name = cls
        self.objs = {}
        self.byoid = {}
        self.roles = {}
        self.children = {}  # name -> [(key, childname)]
        self.kind_of_content = {}
        self.root_atoms = {}  # content atom -> name of the collection with that structure
        self.threading = threading
        self.write_concern = write_concern
        self.hooks = OpHooks(self)
        self.classes = [self.cls]
        eng.hooks = self.hooks
        self.hooks.collect = False
        info = State.base[self.cls].info
        self.mro = info.mro
        self.isdict = "c:SyncedDict" in info.mro
        self.backend = (
            "json" if "c:JSONCollection" in info.mro
            else "redis" if "c:RedisCollection" in info.mro
            else "mongo" if "c:MongoDBCollection" in info.mro
            else "zarr" if "c:ZarrCollection" in info.mro
            else None
        )  # fmt: skip
        self.buffering = (
            "serialized" if "c:SerializedFileBufferedCollection" in info.mro
            else "memory" if "c:SharedMemoryFileBufferedCollection" in info.mro
            else None
        )  # fmt: skip
        self.attr = "c:AttrDict" in info.mro
        self.st = st or State()
        backend = self.cls_attr("_backend")
        fam = []
        reg = State.base["c:SyncedCollection"].attrs.get("registry")
        if isinstance(reg, Ref) and backend is not None:
            for k, v in State.base[reg.oid].items or ():
                if k == backend and isinstance(v, Ref):
                    fam = [x.oid for x in State.base[v.oid].items or () if isinstance(x, Ref)]
        self.family = fam
        for f in fam:
            if f not in self.classes:
                self.classes.append(f)
        if State.base[self.cls].attrs.get("_threading_support_is_active") == TRUE and not threading:
            for c in self.classes:
                self.st = self.one(self.call_attr(Ref(c), "disable_multithreading", [], self.st))[1]

    def cls_attr(self, name, st=None):
        return self.eng.class_lookup(self.cls, name, st or self.st if hasattr(self, "st") else State())

    def supports_threading(self):
        return self.cls_attr("_supports_threading") == TRUE

    def one(self, outs):
        outs = self.eng.dedupe_out(outs)
        good = [o for o in outs if o[0] == OK]
        if len(good) != 1:
            raise Unsupported(f"set-up is not deterministic: {[(o[0], o[1]) for o in outs][:4]}")
        return good[0][1], good[0][2]

    def call_attr(self, ref, name, args, st, kw=None):
        return self.eng._vals(
            self.eng.getattr_(ref, name, st, None), lambda f, t: self.eng.call(f, args, kw or {}, t, None)
        )

    def resource_kw(self, st, tag="1"):
        if self.backend == "json":
            return {"filename": K("F" + tag), "write_concern": K(self.write_concern)}, st
        if self.backend == "redis":
            return {"client": T("handle", "client"), "key": K("K" + tag)}, st
        if self.backend == "mongo":
            r, st = self.eng.alloc(st, "uid" + tag, DictObj(((K("uid"), K("U" + tag)),)))
            return {"collection": T("handle", "coll"), "uid": r}, st
        if self.backend == "zarr":
            return {"group": T("handle", "group"), "name": K("Z" + tag)}, st
        return {}, st

    def location(self, tag="1"):
        return {
            "json": K("F" + tag),
            "redis": ("redis", K("K" + tag)),
            "mongo": ("mongo", T("dlit", ((K("uid"), K("U" + tag)),))),
            "zarr": ("zarr", K("Z" + tag)),
        }.get(self.backend)

    def register(self, name, ref):
        self.objs[name] = ref
        self.byoid[ref.oid] = name

    def add_root(self, name="R", tag="1", cls=None):
        kw, st = self.resource_kw(self.st, tag)
        ref, st = self.one(self.eng.instantiate(Ref(cls or self.cls), [], kw, st, None))
        self.st = st
        self.register(name, ref)
        self.havoc(name)
        return ref

    def havoc(self, name):
        ref = self.objs[name]
        o = self.st.get(ref.oid)
        d = o.attrs.get("_data")
        if d is None:
            raise Unsupported(f"{self.name} has no _data attribute after construction")
        c = T("C", name)
        kind = "dict" if isinstance(self.st.get(d.oid), DictObj) else "list"
        self.kind_of_content[c] = kind
        if name in [n for cs in self.children.values() for _, n in cs]:
            self.kind_of_content[name] = kind
        self.st = set_content(self.eng, d, c, self.st)

    def add_child(self, name, parent, kind, key=None):
        """A nested collection of the given kind inside parent."""
        eng = self.eng
        p = self.objs[parent]
        if kind == "dict":
            x, st = eng.alloc(self.st, "init", DictObj(()))
        else:
            x, st = eng.alloc(self.st, "init", ListObj(()))
        self.hooks.off = frozenset({"_from_base", "_validate"})
        f, st = self.one(eng.getattr_(p, "_from_base", st, None))
        ref, st = self.one(eng.call(f, [x], {"parent": p}, st, None))
        self.hooks.off = frozenset()
        self.st = st.drop(x.oid)
        if not isinstance(ref, Ref):
            raise Unsupported(f"_from_base does not return a collection for a {kind}")
        self.register(name, ref)
        d = self.st.get(p.oid).attrs["_data"]
        c = eng.content(d, self.st)
        pd = isinstance(self.st.get(d.oid), DictObj)
        key = key or (K("n") if pd else K(0))
        self.children.setdefault(parent, []).append((key, name))
        self.havoc(name)
        c = T("dset", c, key, ref) if pd else T("lset", c, key, ref)
        self.st = set_content(eng, d, c, self.st)
        return ref

    def at(self, c):
        """Name of the collection whose content in the resource is the term c."""
        if not isinstance(c, T):
            return None
        if c.op == "C":
            return self.root_atoms.get(c)
        if c.op in ("loads", "zval") or (c.op == "val" and isinstance(c.args[0], T) and c.args[0].op == "doc"):
            return "R"
        if c.op in ("val", "item"):
            p = self.at(c.args[0])
            for key, child in self.children.get(p, ()):
                if key == c.args[1]:
                    return child
        return None

    def keys_at(self, c):
        return [k for k, _ in self.children.get(self.at(c), ())]

    def refresh(self, eng, ref, c, st):
        """Content c replaces the content of ref, keeping nested collections attached."""
        name = self.byoid.get(ref.oid)
        o = st.get(ref.oid)
        d = o.attrs["_data"]
        isd = isinstance(st.get(d.oid), DictObj)
        present = set(subrefs(c))
        for key, child in self.children.get(name, ()):
            cr = self.objs[child]
            if cr in present:
                continue
            if cr not in set(subrefs(eng.content(d, st))):
                continue  # detached
            sub = T("val", c, key) if isd else T("item", c, key)
            st = self.refresh(eng, cr, sub, st)
            c = T("dset", c, key, cr) if isd else T("lset", c, key, cr)
        return set_content(eng, d, c, st)

    # ------------------------------------------------------------------
    def start(self, max_steps=400000):
        self.eng.hooks = self.hooks
        self.hooks.collect = True
        self.eng.steps = 0
        self.eng.max_steps = max_steps
        self.eng.stack = []
        self.eng.where = ("<entry>", 0, "<entry>")
        return State(self.st.heap, self.st.facts, self.st.kinds, {}, None)

    def run(self, f):
        """f(st) -> outcomes"""
        st = self.start()
        return self.eng.dedupe_out(f(st))

    def method(self, obj, name, args=(), kw=None, st=None):
        ref = self.objs[obj] if isinstance(obj, str) else obj
        return self.eng._vals(
            self.eng.getattr_(ref, name, st, None),
            lambda f, t: self.eng.call(f, list(args), dict(kw or {}), t, None),
        )

    def special(self, obj, name, args=(), st=None):
        ref = self.objs[obj] if isinstance(obj, str) else obj
        return self.eng.call_special(ref, name, list(args), st, None)


def arg(name, kinds, st):
    t = T("arg", name)
    return t, st.kind(t, frozenset(kinds))
