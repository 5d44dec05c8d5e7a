"""Transfer functions for values, containers, attributes and iteration."""
import builtins as _b

from .ext_model import ExtModel
from .state import State
from .values import *  # noqa: F401,F403

MAPK = frozenset({"dict", "umap", "sdict"})
SEQK = frozenset({"list", "tuple", "useq", "bytes", "slist"})
SCALARK = frozenset(
    "bool int float none complex other nd0 npnum npf64 npbool npext npcplx".split()
)
ALLK = frozenset(
    "dict umap list tuple useq bytes str bool int float none complex nd1 nd0 npnum npf64 "
    "npbool npext npcplx set iter sdict slist other".split()
)
# values that equal only themselves
CONSTS = (K, Fn, BI, CM, SM, Prop)
SETOPS = ("BitOr", "Sub", "BitAnd", "BitXor")
_COLL = {"Collection", "Sized", "Iterable", "Container"}
KIND_CLASSES = {
    "dict": {"dict", "Mapping", "MutableMapping", "Reversible"} | _COLL,
    "umap": {"Mapping"} | _COLL,
    "list": {"list", "Sequence", "MutableSequence", "Reversible"} | _COLL,
    "tuple": {"tuple", "Sequence", "Reversible", "Hashable"} | _COLL,
    "useq": {"Sequence", "Reversible"} | _COLL,
    "bytes": {"bytes", "Sequence", "Reversible", "Hashable"} | _COLL,
    "str": {"str", "Sequence", "Reversible", "Hashable"} | _COLL,
    "bool": {"bool", "int", "Hashable"},
    "int": {"int", "Hashable"},
    "float": {"float", "Hashable"},
    "none": {"NoneType", "Hashable"},
    "complex": {"complex", "Hashable"},
    "nd1": {"numpy.ndarray"} | _COLL,
    "nd0": {"numpy.ndarray"} | _COLL,
    "npnum": {"numpy.number", "numpy.generic", "Hashable"},
    "npf64": {"numpy.number", "numpy.generic", "numpy.floating", "numpy.inexact", "numpy.float64", "float", "Hashable"},
    "npbool": {"numpy.bool_", "numpy.generic", "Hashable"},
    "npext": {"numpy.number", "numpy.generic", "numpy.floating", "numpy.inexact", "numpy.longdouble", "Hashable"},
    "npcplx": {"numpy.number", "numpy.generic", "numpy.complexfloating", "numpy.inexact", "numpy.complex128", "complex", "Hashable"},
    "set": {"set", "Set"} | _COLL,
    "iter": {"Iterable", "Iterator"},
    "sdict": {"SyncedCollection", "SyncedDict", "Mapping", "MutableMapping"} | _COLL,
    "slist": {"SyncedCollection", "SyncedList", "Sequence", "MutableSequence", "Reversible"} | _COLL,
    "other": {"Hashable"},
    "inst": set(),
}  # fmt: skip
# memberships that depend on more than the kind
_UNDET = {("npnum", "numpy.integer"), ("npnum", "numpy.signedinteger"), ("npnum", "numpy.floating")}
KIND_TYPE = {
    "dict": "dict", "list": "list", "tuple": "tuple", "bytes": "bytes", "str": "str", "bool": "bool",
    "int": "int", "float": "float", "none": "NoneType", "complex": "complex", "set": "set",
    "nd1": "numpy.ndarray", "nd0": "numpy.ndarray", "npbool": "numpy.bool_", "npf64": "numpy.float64",
}  # fmt: skip
USERK = frozenset({"umap", "useq", "other", "inst"})
BUILTIN_CLASSES = (
    "object type dict list str int float bool tuple set frozenset bytes bytearray complex slice "
    "property classmethod staticmethod super memoryview range"
).split()
BUILTIN_FUNCS = (
    "isinstance issubclass len iter next hasattr getattr setattr delattr id repr hash min max sum abs all any "
    "sorted reversed enumerate zip map filter open print callable vars dir round divmod format ord chr exec eval input "
    "__import__ globals locals pow hex bin oct ascii breakpoint compile"
).split()
EXT_CLASSES = {
    "numpy.ndarray", "numpy.number", "numpy.bool_", "numpy.generic", "numpy.integer", "numpy.signedinteger",
    "numpy.floating", "numpy.inexact", "numpy.float64", "numpy.longdouble", "numpy.complexfloating",
    "numpy.complex128", "json.JSONEncoder", "numbers.Number",
}  # fmt: skip
_OPAQUE_EXT = ("attr", "ext", "call", "handle", "mcall")


def P(name, *args):
    return T("p", name, *args)


def _f(*a):
    return frozenset(a)


TERM_KINDS = {
    "encoded": _f("bytes"), "json": _f("str"), "fstr": _f("str"), "repr": _f("str"), "str": _f("str"),
    "md5": _f("str"), "len": _f("int"), "lin": _f("int"), "int": _f("int"), "pos": _f("int"), "idx": _f("int"),
    "p": _f("bool"), "not": _f("bool"), "filedata": _f("bytes"), "stat": _f("inst"), "uuid": _f("inst"),
    "exc": _f("inst"), "type": _f("inst"), "fakeclass": _f("inst"), "hash": _f("int"), "id": _f("int"),
    "substr": _f("str", "bytes"), "dirname": _f("str"), "basename": _f("str"), "join": _f("str"), "dlit": _f("dict"), "dset": _f("dict"),
    "ddel": _f("dict"), "dupd": _f("dict"), "dictof": _f("dict"), "cat": _f("list"), "lset": _f("list"),
    "ldel": _f("list"), "lins": _f("list"), "lrem": _f("list"), "lrev": _f("list"), "lsort": _f("list"), "lmap": _f("list"), "dmap": _f("dict"), "iter": _f("iter"), "dview": _f("iter"), "min": _f("int"), "max": _f("int"),
    "handle": _f("inst"), "cap": _f("int"), "size": _f("int"), "attr": _f("inst", "int", "float", "str", "none"),
    "range": _f("useq"), "lockattr": _f("bool"), "numstr": _f("str"), "float": _f("float"), "round": _f("int", "float"), "NotImplemented": _f("inst"),
}  # fmt: skip


def known_items(v):
    """Elements of a sequence of known length."""
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, T) and v.op == "cat" and all(s[0] == "i" for s in v.args[0]):
        return tuple(s[1] for s in v.args[0])
    return None


class Model(ExtModel):
    # ------------------------------------------------------------------
    def init_builtins(self):
        def mk(name, mro, builtin=None):
            State.base["c:" + name] = ClsObj(
                ClsInfo(name, mro[1:2], mro, "builtins", None, "builtins", builtin or name), {}
            )

        mk("object", ("c:object",))
        for n in BUILTIN_CLASSES[1:] + ["NoneType", "RLock", "file", "md5", "defaultdict"]:
            mk(n, ("c:" + n, "c:object"))
        mk("bool", ("c:bool", "c:int", "c:object"))
        for n in sorted(EXT_CLASSES):
            mk(n, ("c:" + n, "c:object"))
        for n, v in vars(_b).items():
            if isinstance(v, type) and issubclass(v, BaseException):
                mk(v.__name__, tuple("c:" + c.__name__ for c in v.__mro__), v.__name__)
        mk("JSONDecodeError", ("c:JSONDecodeError", "c:ValueError", "c:Exception", "c:BaseException", "c:object"))
        mk("AnyError", ("c:AnyError", "c:Exception", "c:BaseException", "c:object"))
        mk("AnyBaseException", ("c:AnyBaseException", "c:BaseException", "c:object"))

    def builtin_name(self, name):
        if name in BUILTIN_CLASSES:
            return Ref("c:" + name)
        if name in BUILTIN_FUNCS:
            return BI(name)
        if name == "NotImplemented":
            return T("NotImplemented")
        if name == "Ellipsis":
            return K(...)
        if name == "__debug__":
            return TRUE
        v = getattr(_b, name, None)
        if isinstance(v, type) and issubclass(v, BaseException):
            return Ref("c:" + v.__name__)
        if name in ("abstractmethod", "GenericAlias"):
            return BI(name)
        return None

    def ext_class(self, v):
        if isinstance(v, Ref):
            return v.oid
        if isinstance(v, BI) and v.name == "abc.ABC":
            return "c:object"
        path = v.path if isinstance(v, Ext) else getattr(v, "name", repr(v))
        oid = "c:" + path
        if oid not in State.base:
            State.base[oid] = ClsObj(ClsInfo(path, ("c:object",), (oid, "c:object"), "ext", None, "ext", path), {})
        return oid

    # ------------------------------------------------------------------
    # exceptions
    # ------------------------------------------------------------------
    def mkexc(self, name, detail=None):
        if isinstance(detail, str):
            detail = K(detail)
        return T("exc", Ref("c:" + name), detail if isinstance(detail, (K, T)) else NONE)

    def exc_class(self, exc, st):
        if isinstance(exc, T) and exc.op == "exc":
            return exc.args[0].oid
        if isinstance(exc, Ref):
            o = st.get(exc.oid)
            if isinstance(o, Inst):
                return o.cls.oid
        return "c:AnyError"

    def exc_class_val(self, exc, st):
        return Ref(self.exc_class(exc, st))

    def exc_match(self, exc, h, st):
        mro = st.get(self.exc_class(exc, st)).info.mro
        for x in h.items if isinstance(h, Tup) else (h,):
            if isinstance(x, Ref):
                if x.oid in mro:
                    return [(True, exc, st)]
            elif isinstance(x, (Ext, BI)):
                if self.ext_class(x) in mro:
                    return [(True, exc, st)]
        return [(False, exc, st)]

    def exc_is(self, exc, st, *names):
        mro = st.get(self.exc_class(exc, st)).info.mro
        return any("c:" + n in mro for n in names)

    # ------------------------------------------------------------------
    # kinds
    # ------------------------------------------------------------------
    def kinds_of(self, v, st):
        if isinstance(v, K):
            x = v.v
            if x is None:
                return _f("none")
            n = type(x).__name__
            if n == "frozenset":
                return _f("set")
            return _f(n if n in KIND_CLASSES else "other")
        if isinstance(v, Tup):
            return _f("tuple")
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                return _f("dict")
            if isinstance(o, ListObj):
                return _f(o.kind if o.kind in KIND_CLASSES else "list")
            if isinstance(o, Gen):
                return _f("iter")
            if isinstance(o, Inst):
                mro = st.get(o.cls.oid).info.mro
                if "c:SyncedDict" in mro:
                    return _f("sdict")
                if "c:SyncedList" in mro:
                    return _f("slist")
            return _f("inst")
        if isinstance(v, T):
            k = st.kinds.get(v)
            if k is not None:
                return k
            k = TERM_KINDS.get(v.op)
            if k is not None:
                return k
            if v.op == "conv":
                return self.conv_kinds(v, st)
            f = getattr(self.hooks, "kinds", None)
            k = f(self, v, st) if f else None
            return ALLK if k is None else k
        return _f("inst")

    def conv_kinds(self, v, st):
        out = set()
        for k in self.kinds_of(v.args[0], st):
            if k in MAPK:
                out.add("sdict")
            elif k in SEQK or k == "nd1":
                out.add("slist")
            elif k in ("npnum", "npbool", "npf64", "npext", "npcplx", "nd0"):
                out |= {"int", "float", "bool", "other"}
            else:
                out.add(k)
        return frozenset(out)

    def refine(self, v, ks, st):
        if isinstance(v, T):
            return st.kind(v, frozenset(ks))
        return st

    def kind_isinst(self, k, clsname):
        if clsname == "object":
            return True
        if (k, clsname) in _UNDET:
            return None
        return clsname in KIND_CLASSES[k]

    def flatten_classes(self, c, st):
        if isinstance(c, Tup):
            return [y for x in c.items for y in self.flatten_classes(x, st)]
        if isinstance(c, Ref) and isinstance(st.get(c.oid), ListObj):
            return [y for x in st.get(c.oid).items or () for y in self.flatten_classes(x, st)]
        return [c]

    def isinstance_(self, v, c, st):
        """-> [(bool, st)]"""
        cl = self.flatten_classes(c, st)
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                mro = st.get(o.cls.oid).info.mro
                return [(any(isinstance(x, Ref) and x.oid in mro for x in cl), st)]
            if isinstance(o, ClsObj):
                return [(any(isinstance(x, Ref) and x.oid in ("c:type", "c:object") for x in cl), st)]
        if isinstance(v, (Fn, BM, BI, BIM, Mod, Ext)):
            return [(False, st)]
        if isinstance(v, T) and v.op == "exc":
            mro = st.get(v.args[0].oid).info.mro
            return [(any(isinstance(x, Ref) and x.oid in mro for x in cl), st)]
        ks = self.kinds_of(v, st)
        yes, no, und = set(), set(), set()
        for k in ks:
            r = False
            for x in cl:
                q = None
                if isinstance(x, Ref) and isinstance(st.get(x.oid), ClsObj):
                    info = st.get(x.oid).info
                    name = x.oid[2:]
                    q = self.kind_isinst(k, name)
                    if q is False and not info.builtin and info.module != "collections.abc":
                        if k == "inst" or (
                            k in ("sdict", "slist") and name not in ("SyncedCollection", "SyncedDict", "SyncedList")
                        ):
                            q = None
                if q:
                    r = True
                    break
                if q is None:
                    r = None
            (yes if r else no if r is False else und).add(k)
        if und:
            p = P("isinst", v, tuple(cl))
            f = st.facts.get(p)
            if f is not None:
                return [(f, self.refine(v, (yes | und) if f else (no | und), st))]
            return [
                (True, self.refine(v, yes | und, st.fact(p, True))),
                (False, self.refine(v, no | und, st.fact(p, False))),
            ]
        if yes and no:
            return [(True, self.refine(v, yes, st)), (False, self.refine(v, no, st))]
        return [(bool(yes), st)]

    # ------------------------------------------------------------------
    # branch facts
    # ------------------------------------------------------------------
    def decide(self, p, st):
        """-> [(bool, st)]: structure, recorded facts, otherwise both."""
        if p.op == "not":
            return [(not b, s) for b, s in self.decide(p.args[0], st)]
        f = getattr(self.hooks, "canon", None)
        if f:
            p = f(self, p, st)
        r = self.simp(p, st)
        if r is True or r is False:
            return [(r, st)]
        if isinstance(r, T) and r is not p:
            return self.decide(r, st)
        f = st.facts.get(p)
        if f is None:
            f = self.implied(p, st)
        if f is not None:
            return [(f, st)]
        if p.args[0] == "has" and len(p.args) == 3 and isinstance(p.args[1], T):
            if p.args[1].op in ("dset", "ddel", "dupd", "dlit"):
                return [(v is not None, s) for v, s in self.d_lookup(p.args[1], p.args[2], st)]
        return [(True, st.fact(p, True)), (False, st.fact(p, False))]

    def implied(self, p, st):
        n = p.args[0]
        if n == "gt0":
            l = lin(p.args[1])
            neg = mklin(-l[0], {a: -k for a, k in l[1].items()})
            if st.facts.get(P("gt0", neg)) is True:
                return False
            for q, v in st.facts.items():
                if q.args[0] == "gt0":
                    d = linadd(p.args[1], q.args[1], -1)
                    if isinstance(d, K):
                        if v and d.v >= 0:
                            return True
                        if not v and d.v <= 0:
                            return False
                    d = linadd(p.args[1], q.args[1])
                    if isinstance(d, K) and self.integral(l[1], st):
                        if v and d.v <= 1:
                            return False
                        if not v and d.v >= 1:
                            return True
                    d = lin(linadd(p.args[1], q.args[1], -1))
                    if d is not None and d[1] and all(a.op == "len" for a in d[1]):
                        # lengths are not negative
                        if v and d[0] >= 0 and all(k > 0 for k in d[1].values()):
                            return True
                        if not v and d[0] <= 0 and all(k < 0 for k in d[1].values()):
                            return False
        if n == "eq" and st.facts.get(P("is", p.args[1], p.args[2])) is True:
            return True
        if n == "has" and len(p.args) == 3 and isinstance(p.args[2], T) and p.args[2].op in ("key", "lastkey") and p.args[2].args[0] == p.args[1]:
            return True
        if n == "is" and st.facts.get(P("eq", p.args[1], p.args[2])) is False:
            return False
        return None

    def integral(self, atoms, st):
        return all(k == int(k) and isinstance(a, T) and (a.op == "len" or self.kinds_of(a, st) <= {"int", "bool"}) for a, k in atoms.items())

    def types_differ(self, a, b, st):
        """Whether two class objects are certainly different classes."""

        def names(x):
            if isinstance(x, Ref):
                return {x.oid[2:]} if isinstance(st.get(x.oid), ClsObj) else None
            if isinstance(x, T) and x.op == "type":
                ks = self.kinds_of(x.args[0], st)
                return {KIND_TYPE.get(k) or ("?" if k in USERK else "?" + k) for k in ks}
            return None

        if isinstance(a, T) and isinstance(b, T) and {a.op, b.op} == {"fakeclass", "type"} and a.args == b.args:
            return True
        na, nb = names(a), names(b)
        if na is None or nb is None:
            return False
        if na & nb:
            return False
        # classes of the program may be user-defined types
        if ("?" in na and isinstance(b, Ref)) or ("?" in nb and isinstance(a, Ref)):
            r = b if isinstance(b, Ref) else a
            return r.oid[2:] in KIND_TYPE.values()
        return True

    def simp(self, p, st):
        n = p.args[0]
        a = p.args[1:]
        f = getattr(self.hooks, "simp", None)
        if f:
            r = f(self, p, st)
            if r is not None:
                return r
        if n == "has":
            return self.simp_has(a[0], a[1], st) if len(a) == 2 else None
        if n in ("is", "eq"):
            if a[0] == a[1]:
                return True
            if isinstance(a[0], K) and isinstance(a[1], K):
                return a[0].v == a[1].v
            xs, ys = known_items(a[0]), known_items(a[1])
            if n == "eq" and xs is not None and ys is not None:
                if len(xs) != len(ys):
                    return False
                if any(x != y and self.simp(self.eqpred("eq", x, y), st) is False for x, y in zip(xs, ys)):
                    return False
            if all(isinstance(x, T) and x.op == "id" and isinstance(x.args[0], Ref) for x in a):
                return False  # of different objects that both exist
            if self.types_differ(a[0], a[1], st):
                return False
            ka, kb = self.kinds_of(a[0], st), self.kinds_of(a[1], st)
            if n == "is" and not (ka & kb):
                return False
            if (ka <= {"none"} and "none" not in kb) or (kb <= {"none"} and "none" not in ka):
                return False
            ca, cb = self.broad(ka), self.broad(kb)
            if ca and cb and not (ca & cb):
                return False
            return None
        if n == "nonempty" and isinstance(a[0], T):
            c = a[0]
            if c.op == "dlit":
                return bool(c.args[0])
            if c.op == "cat":
                if any(s[0] == "i" for s in c.args[0]):
                    return True
                if not c.args[0]:
                    return False
            if c.op == "dset":
                return True
        return None

    def broad(self, ks):
        out = set()
        for k in ks:
            if k in MAPK:
                out.add("m")
            elif k in ("list", "slist", "useq"):
                out.add("l")
            elif k == "tuple":
                out.add("t")
            elif k == "str":
                out.add("s")
            elif k == "none":
                out.add("n")
            elif k in ("bool", "int", "float"):
                out.add("num")
            else:
                return None
        return out

    acc_base = {}

    def simp_has(self, c, k, st, *more):
        if isinstance(c, Ref):
            c = self.content(c, st)
        if isinstance(c, T):
            if c.op == "dlit":
                if any(x == k for x, _ in c.args[0]):
                    return True
                if not c.args[0] or (isinstance(k, K) and all(isinstance(x, K) for x, _ in c.args[0])):
                    return False
                return None
            if c.op in ("dset", "ddel"):
                if c.args[1] == k:
                    return c.op == "dset"
                if isinstance(k, K) and isinstance(c.args[1], K):
                    return P("has", c.args[0], k)
                return None
            if isinstance(k, T) and k.op == "key" and k.args[0] == c:
                return True
            if c.op == "cat":
                if any(s == ("i", k) for s in c.args[0]):
                    return True
                if not c.args[0]:
                    return False
        return None

    # ------------------------------------------------------------------
    # truth / comparison / arithmetic
    # ------------------------------------------------------------------
    def truth(self, v, st, node=None):
        if isinstance(v, K):
            return [(OK, bool(v.v), st)]
        if isinstance(v, Tup):
            return [(OK, bool(v.items), st)]
        if isinstance(v, T):
            if v.op in ("p", "not"):
                return [(OK, b, s) for b, s in self.decide(v, st)]
            if v.op == "len":
                return [(OK, b, s) for b, s in self.decide(P("gt0", v), st)]
            ks = self.kinds_of(v, st)
            if ks == {"none"}:
                return [(OK, False, st)]
            if v.op in ("exc", "tb", "type"):
                return [(OK, True, st)]
            out = []
            for b, s in self.decide(P("truth", v), st):
                if b and "none" in ks and len(ks) > 1:
                    s = self.refine(v, ks - {"none"}, s)
                out.append((OK, b, s))
            return out
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, (DictObj, ListObj)):
                if o.items is not None:
                    return [(OK, bool(o.items), st)]
                st = self.emit(st, "cread", ref=v, how="bool")
                return [(OK, b, s) for b, s in self.decide(P("nonempty", o.content), st)]
            if isinstance(o, Inst):
                for m in ("__bool__", "__len__"):
                    if self.class_lookup(o.cls.oid, m, st) is not None:
                        return self._vals(
                            self.call_special(v, m, [], st, node), lambda x, t: self.truth(x, t, node)
                        )
        return [(OK, True, st)]

    def eqpred(self, n, a, b):
        if repr(a) > repr(b):
            a, b = b, a
        return P(n, a, b)

    def compare(self, op, a, b, st, node=None):
        if op == "IsNot":
            return self.negate(self.compare("Is", a, b, st, node))
        if op == "NotEq":
            if self.has_method(a, "__ne__", st):
                return self.call_special(a, "__ne__", [b], st, node)
            return self.negate(self.compare("Eq", a, b, st, node))
        if op == "NotIn":
            return self.negate(self.compare("In", a, b, st, node))
        if op == "Is":
            r = self.is_(a, b, st)
            return [(OK, r, st)] if r is not None else self.is_term(a, b, st)
        if op == "Eq":
            return self.eq(a, b, st, node)
        if op == "In":
            return self.contains(b, a, st, node)
        return self.order(op, a, b, st, node)

    def negate(self, outs):
        r = []
        for o in outs:
            if o[0] != OK:
                r.append(o)
            elif isinstance(o[1], K):
                r.append((OK, K(not o[1].v), o[2]))
            elif isinstance(o[1], T) and o[1].op == "not":
                r.append((OK, o[1].args[0], o[2]))
            elif isinstance(o[1], T) and o[1].op == "p":
                r.append((OK, T("not", o[1]), o[2]))
            else:
                for b in self.truth(o[1], o[2]):
                    r.append((OK, K(not b[1]), b[2]) if b[0] != RAISE else b)
        return r

    def is_(self, a, b, st):
        if a == b:
            return TRUE
        ra, rb = isinstance(a, Ref), isinstance(b, Ref)
        if ra and rb:
            return FALSE
        if isinstance(a, K) and isinstance(b, K):
            return FALSE
        if (ra and isinstance(b, K)) or (rb and isinstance(a, K)):
            return FALSE
        if isinstance(a, (Fn, BI, BM, Mod, Ext, Tup)) or isinstance(b, (Fn, BI, BM, Mod, Ext, Tup)):
            return FALSE
        return None

    def is_term(self, a, b, st):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and y.v is None:
                ks = self.kinds_of(x, st)
                if "none" not in ks:
                    return [(OK, FALSE, st)]
                if ks == {"none"}:
                    return [(OK, TRUE, st)]
                return [
                    (OK, TRUE, self.refine(x, {"none"}, st)),
                    (OK, FALSE, self.refine(x, ks - {"none"}, st)),
                ]
            if isinstance(x, T) and x.op == "type" and isinstance(y, Ref):
                val, name = x.args[0], y.oid[2:]
                ks = self.kinds_of(val, st)
                if name in KIND_TYPE.values():
                    yes = {k for k in ks if KIND_TYPE.get(k) == name}
                    if yes == ks:
                        return [(OK, TRUE, st)]
                    if not yes:
                        return [(OK, FALSE, st)]
                    return [(OK, TRUE, self.refine(val, yes, st)), (OK, FALSE, self.refine(val, ks - yes, st))]
                if not self.flat_user(ks):
                    return [(OK, FALSE, st)]
        if isinstance(a, T) and a.op == "type" and isinstance(b, T) and b.op == "type":
            ta = {KIND_TYPE.get(k) for k in self.kinds_of(a.args[0], st)}
            tb = {KIND_TYPE.get(k) for k in self.kinds_of(b.args[0], st)}
            if None not in ta and None not in tb:
                if not (ta & tb):
                    return [(OK, FALSE, st)]
                if len(ta) == 1 and ta == tb:
                    return [(OK, TRUE, st)]
        for r, t in ((a, b), (b, a)):
            if isinstance(r, Ref) and isinstance(t, T):
                if t.op in ("encoded", "md5", "stat", "fstr", "len", "lin", "p", "id", "json", "NotImplemented"):
                    return [(OK, FALSE, st)]
                if not (self.kinds_of(r, st) & self.kinds_of(t, st)):
                    return [(OK, FALSE, st)]
        return [(OK, self.eqpred("is", a, b), st)]

    def flat_user(self, ks):
        return bool(ks & {"sdict", "slist", "inst", "other", "umap", "useq"})

    def eq(self, a, b, st, node):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.get(x.oid), Inst) and self.has_method(x, "__eq__", st):
                return self.call_special(x, "__eq__", [y], st, node)
        if isinstance(a, K) and isinstance(b, K):
            return [(OK, K(a.v == b.v), st)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(OK, FALSE, st)]
            res, cur = [], [st]
            for x, y in zip(a.items, b.items):
                nxt = []
                for c in cur:
                    for q in self.compare("Eq", x, y, c, node):
                        if q[0] != OK:
                            res.append(q)
                            continue
                        for t in self.truth(q[1], q[2]):
                            if t[0] == RAISE:
                                res.append(t)
                            elif t[1]:
                                nxt.append(t[2])
                            else:
                                res.append((OK, FALSE, t[2]))
                cur = nxt
            return res + [(OK, TRUE, s) for s in cur]
        if isinstance(a, Tup) != isinstance(b, Tup):
            ks = self.kinds_of(b if isinstance(a, Tup) else a, st)
            if "tuple" not in ks and not (ks & {"inst", "other"}):
                return [(OK, FALSE, st)]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.get(a.oid), st.get(b.oid)
            if a == b:
                return [(OK, TRUE, st)]
            if isinstance(oa, (ClsObj, Inst)) or isinstance(ob, (ClsObj, Inst)):
                return [(OK, FALSE, st)]
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and y.v is None and isinstance(x, T):
                return self.is_term(x, y, st)
        if isinstance(a, (Fn, BI, Mod, Ext)) or isinstance(b, (Fn, BI, Mod, Ext)):
            return [(OK, K(a == b), st)]
        for x in (a, b):
            if isinstance(x, Ref):
                st = self.emit(st, "cread", ref=x, how="eq")
        ca = self.content(a, st) if isinstance(a, Ref) else a
        cb = self.content(b, st) if isinstance(b, Ref) else b
        if ca == cb:
            return [(OK, TRUE, st)]
        return [(OK, self.eqpred("eq", ca, cb), st)]

    def has_method(self, v, name, st):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                return self.class_lookup(o.cls.oid, name, st) is not None
        return False

    def order(self, op, a, b, st, node):
        meth = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        if self.has_method(a, meth, st):
            return self.call_special(a, meth, [b], st, node)
        refl = {"Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}[op]
        if self.has_method(b, refl, st):
            return self.call_special(b, refl, [a], st, node)
        if isinstance(a, K) and isinstance(b, K):
            import operator

            try:
                return [(OK, K(getattr(operator, op.lower().replace("lte", "le").replace("gte", "ge"))(a.v, b.v)), st)]
            except TypeError:
                return [(RAISE, self.mkexc("TypeError", "unorderable"), st)]
        if self.numlike(a, st) and self.numlike(b, st):
            # a > b  <=> gt0(a-b) ; a <= b <=> not gt0(a-b)
            neg = op in ("LtE", "GtE")
            d = linadd(a, b, -1) if op in ("Gt", "LtE") else linadd(b, a, -1)
            if d is not None:
                if isinstance(d, K):
                    return [(OK, K((d.v > 0) != neg), st)]
                p = P("gt0", d)
                return [(OK, T("not", p) if neg else p, st)]
        for x in (a, b):
            if isinstance(x, Ref):
                st = self.emit(st, "cread", ref=x, how="order")
        ca = self.content(a, st) if isinstance(a, Ref) else a
        cb = self.content(b, st) if isinstance(b, Ref) else b
        return [(OK, P("ord", op, ca, cb), st)]

    def numlike(self, v, st):
        if isinstance(v, K):
            return isinstance(v.v, (int, bool))
        return isinstance(v, T) and self.kinds_of(v, st) <= {"int", "bool"}

    def contains(self, c, x, st, node):
        if isinstance(c, K):
            if isinstance(x, K):
                try:
                    return [(OK, K(x.v in c.v), st)]
                except TypeError:
                    return [(RAISE, self.mkexc("TypeError"), st)]
            return [(OK, P("has", c, x), st)]
        if isinstance(c, T):
            if c.op in ("clsdict", "instdict"):
                o = st.get(c.args[0].oid)
                return [(OK, K(isinstance(x, K) and x.v in o.attrs), st)]
            if c.op == "dview" and c.args[0] == "keys":
                return self.contains(c.args[1], x, st, node)
        if isinstance(c, Tup):
            return self.contains_closed(c.items, x, st, node)
        if isinstance(c, Ref):
            o = st.get(c.oid)
            if isinstance(o, Inst):
                if self.has_method(c, "__contains__", st):

                    def go(q, t):
                        if isinstance(q, K) or (isinstance(q, T) and q.op in ("p", "not")):
                            return [(OK, q, t)]
                        return [(OK, K(b[1]), b[2]) if b[0] != RAISE else b for b in self.truth(q, t)]

                    return self._vals(self.call_special(c, "__contains__", [x], st, node), go)
                return self.contains_iter(c, x, st, node)
            if isinstance(o, Gen):
                return self.contains_iter(c, x, st, node)
            st = self.emit(st, "cread", ref=c, how="in")
            if isinstance(o, DictObj):
                if o.items is not None and isinstance(x, K) and all(isinstance(k, K) for k, _ in o.items):
                    return [(OK, K(any(k == x for k, _ in o.items)), st)]
                return [(OK, P("has", self.content(c, st), x), st)]
            if isinstance(o, ListObj):
                if o.items is not None:
                    return self.contains_closed(o.items, x, st, node)
                return [(OK, P("has", o.content, x), st)]
        return [(OK, P("has", c, x), st)]

    def contains_closed(self, items, x, st, node):
        res, cur = [], [st]
        for y in items:
            nxt = []
            for s in cur:
                if x == y:
                    res.append((OK, TRUE, s))
                    continue
                for q in self.compare("Eq", y, x, s, node):
                    if q[0] != OK:
                        res.append(q)
                        continue
                    for t in self.truth(q[1], q[2]):
                        if t[0] == RAISE:
                            res.append(t)
                        elif t[1]:
                            res.append((OK, TRUE, t[2]))
                        else:
                            nxt.append(t[2])
            cur = nxt
        return res + [(OK, FALSE, s) for s in cur]

    def contains_iter(self, c, x, st, node):
        def body(v, t):
            r = []
            for q in self.compare("Eq", v, x, t, node):
                if q[0] != OK:
                    r.append(q)
                    continue
                for b in self.truth(q[1], q[2]):
                    r.append(b if b[0] == RAISE else ((BRK, None, b[2]) if b[1] else (NEXT, None, b[2])))
            return r

        m = {NEXT: FALSE, BRK: TRUE}
        return [(OK, m[o[0]], o[2]) if o[0] in m else o for o in self.loop(c, st, body, node, None)]

    def set_op(self, op, x, y, st, node):
        """Set operation on two lists of constants."""
        if not all(isinstance(v, K) for v in x + y):
            raise Unsupported(f"{self.loc()}: set operation on elements that are not constant")
        its = list(dict.fromkeys({
            "Sub": [v for v in x if v not in y],
            "BitOr": x + y,
            "BitAnd": [v for v in x if v in y],
            "BitXor": [v for v in x if v not in y] + [v for v in y if v not in x],
        }[op]))  # fmt: skip
        r, st = self.alloc(st, self.site(node), ListObj(tuple(its), kind="set"))
        return [(OK, r, st)]

    def binop(self, op, a, b, st, node):
        if isinstance(a, K) and isinstance(b, K):
            import operator

            f = {
                "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod,
                "Pow": operator.pow, "FloorDiv": operator.floordiv, "Div": operator.truediv,
                "BitOr": operator.or_, "BitAnd": operator.and_, "LShift": operator.lshift, "BitXor": operator.xor,
                "RShift": operator.rshift,
            }.get(op)  # fmt: skip
            if f is not None:
                try:
                    return [(OK, K(f(a.v, b.v)), st)]
                except TypeError:
                    return [(RAISE, self.mkexc("TypeError"), st)]
        if op in ("Add", "Sub") and self.numlike(a, st) and self.numlike(b, st):
            r = linadd(a, b, 1 if op == "Add" else -1)
            if r is not None:
                return [(OK, r, st)]
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return [(OK, Tup(a.items + b.items), st)]
        if isinstance(a, Ref):
            dn = {"Add": "__add__", "Sub": "__sub__", "BitOr": "__or__", "BitAnd": "__and__"}.get(op)
            if dn and self.has_method(a, dn, st):
                return self.call_special(a, dn, [b], st, node)
            oa = st.get(a.oid)
            if isinstance(oa, ListObj) and op == "Add":

                def go(segs, t):
                    r, t = self.alloc(
                        t, self.site(node), self.list_from_segs(tuple(self.segs(self.content(a, t))) + tuple(segs))
                    )
                    return [(OK, r, t)]

                return self._vals(self.seq_segments(b, st, node), go)
            if isinstance(oa, ListObj) and oa.kind == "set" and op in SETOPS:
                return self.m_list(
                    a, oa, {"BitOr": "union", "Sub": "difference", "BitAnd": "intersection", "BitXor": "symmetric_difference"}[op],
                    [b], {}, st, node,
                )
            if isinstance(oa, DictObj) and op == "BitOr":
                r, t = self.alloc(st, self.site(node), DictObj(oa.items, oa.content))
                return [(OK, r, q[2]) if q[0] == OK else q for q in self.dict_update(r, b, t, node, quiet=True)]
        if op in SETOPS and any(isinstance(x, T) and x.op == "dview" for x in (a, b)):
            return self._vals(
                self.as_items(a, st, node),
                lambda x, t: self._vals(self.as_items(b, t, node), lambda y, t2: self.set_op(op, x, y, t2, node)),
            )
        if op == "BitOr" and (isinstance(a, (Ext, BI)) or isinstance(b, (Ext, BI))):
            return [(OK, Ext("typing.Union"), st)]
        if op == "Mod" and isinstance(a, K) and isinstance(a.v, str):
            return [(OK, T("fstr", (a, b)), st)]
        return [(OK, T("binop", op, a, b), st)]

    def aug(self, op, a, b, st, node):
        if isinstance(a, Ref):
            dn = {"Add": "__iadd__", "Sub": "__isub__", "BitOr": "__ior__"}.get(op)
            if dn and self.has_method(a, dn, st):
                return self.call_special(a, dn, [b], st, node)
            o = st.get(a.oid)
            if isinstance(o, ListObj) and op == "Add":
                return [(OK, a, q[2]) if q[0] == OK else q for q in self.list_extend(a, b, st, node)]
            if isinstance(o, DictObj) and op == "BitOr":
                return [(OK, a, q[2]) if q[0] == OK else q for q in self.dict_update(a, b, st, node)]
        return self.binop(op, a, b, st, node)

    # ------------------------------------------------------------------
    # contents
    # ------------------------------------------------------------------
    def content(self, v, st):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                return T("dlit", o.items) if o.items is not None else o.content
            if isinstance(o, ListObj):
                return T("cat", tuple(("i", x) for x in o.items)) if o.items is not None else o.content
        if isinstance(v, Tup):
            return T("cat", tuple(("i", x) for x in v.items))
        return v

    def segs(self, c):
        if isinstance(c, T) and c.op == "cat":
            return c.args[0]
        return (("s", c),)

    def list_from_segs(self, segs, kind="list"):
        segs = tuple(segs)
        if all(s[0] == "i" for s in segs):
            return ListObj(tuple(s[1] for s in segs), kind=kind)
        if len(segs) == 1:
            return ListObj(None, segs[0][1], kind)
        return ListObj(None, T("cat", segs), kind)

    def dict_from(self, c, factory=None):
        if isinstance(c, T) and c.op == "dlit":
            return DictObj(c.args[0], None, factory)
        return DictObj(None, c, factory)

    def d_set(self, c, k, v):
        if isinstance(c, T) and c.op == "dlit":
            items = list(c.args[0])
            for i, (x, _) in enumerate(items):
                if x == k:
                    items[i] = (k, v)
                    return T("dlit", tuple(items))
            if not items or (isinstance(k, CONSTS) and all(isinstance(x, CONSTS) for x, _ in items)):
                return T("dlit", tuple(items) + ((k, v),))
        if isinstance(c, T) and c.op == "dset" and c.args[1] == k:
            return T("dset", c.args[0], k, v)
        return T("dset", c, k, v)

    def d_del(self, c, k):
        if isinstance(c, T) and c.op == "dlit":
            if any(x == k for x, _ in c.args[0]):
                return T("dlit", tuple((x, v) for x, v in c.args[0] if x != k))
        if isinstance(c, T) and c.op == "dset" and c.args[1] == k:
            return self.d_del(c.args[0], k)
        return T("ddel", c, k)

    def d_update(self, c, o):
        if isinstance(c, T) and c.op == "dlit" and not c.args[0]:
            return o
        if isinstance(o, T):
            if o.op == "dlit":
                for k, v in o.args[0]:
                    c = self.d_set(c, k, v)
                return c
            if o.op == "dset":
                return self.d_set(self.d_update(c, o.args[0]), o.args[1], o.args[2])
            if o.op == "dupd":
                return self.d_update(self.d_update(c, o.args[0]), o.args[1])
        if c == o:
            return c
        return T("dupd", c, o)

    def d_lookup(self, c, k, st):
        """-> [(value or None when absent, st)]"""
        if isinstance(c, T):
            if c.op == "dlit":
                for x, v in c.args[0]:
                    if x == k:
                        return [(v, st)]
                if isinstance(k, CONSTS) and all(isinstance(x, CONSTS) for x, _ in c.args[0]):
                    return [(None, st)]
                out, cur = [], [st]
                for x, v in c.args[0]:
                    nxt = []
                    for s in cur:
                        for b, s2 in self.decide(self.eqpred("eq", x, k), s):
                            (out.append((v, s2)) if b else nxt.append(s2))
                    cur = nxt
                return out + [(None, s) for s in cur]
            if c.op in ("dset", "ddel"):
                hit = c.args[2] if c.op == "dset" else None
                if c.args[1] == k:
                    return [(hit, st)]
                out = []
                for b, s in self.decide(self.eqpred("eq", c.args[1], k), st):
                    if b:
                        out.append((hit, s))
                    else:
                        out.extend(self.d_lookup(c.args[0], k, s))
                return out
            if c.op == "dupd":
                out = []
                for v, s in self.d_lookup(c.args[1], k, st):
                    if v is not None:
                        out.append((v, s))
                    else:
                        out.extend(self.d_lookup(c.args[0], k, s))
                return out
        return [(T("val", c, k) if b else None, s) for b, s in self.decide(P("has", c, k), st)]

    def unhashable(self, k, st):
        return isinstance(k, Ref) and isinstance(st.get(k.oid), (DictObj, ListObj))

    def dict_get(self, r, k, st, node=None):
        st = self.emit(st, "cread", ref=r, how="item", key=k)
        return self.d_lookup(self.content(r, st), k, st)

    def dict_set(self, r, k, v, st, quiet=False):
        o = st.get(r.oid)
        st = st.put(r.oid, self.dict_from(self.d_set(self.content(r, st), k, v), o.factory))
        return st if quiet else self.emit(st, "cmut", ref=r, how="set", key=k, val=v)

    def dict_del(self, r, k, st, quiet=False):
        o = st.get(r.oid)
        st = st.put(r.oid, self.dict_from(self.d_del(self.content(r, st), k), o.factory))
        return st if quiet else self.emit(st, "cmut", ref=r, how="del", key=k)

    def dict_update(self, r, x, st, node, quiet=False):
        o = st.get(r.oid)

        def go(c, t):
            t = t.put(r.oid, self.dict_from(self.d_update(self.content(r, t), c), o.factory))
            if not quiet:
                t = self.emit(t, "cmut", ref=r, how="update", val=c)
            return [(OK, NONE, t)]

        return self._vals(self.mapping_content(x, st, node), go)

    def pairs_content(self, items, c, st):
        d = T("dlit", ())
        for it in items:
            if isinstance(it, Tup) and len(it.items) == 2:
                d = self.d_set(d, it.items[0], it.items[1])
            else:
                return T("dictof", c)
        return d

    def pairs_iter(self, x, st, node):
        def go(segs, t):
            if all(s[0] == "i" for s in segs):
                return [(OK, self.pairs_content([s[1] for s in segs], T("cat", tuple(segs)), t), t)]
            return [(OK, self.pairs_opaque(segs), t)]

        return self._vals(self.seq_segments(x, st, node), go)

    def mapping_content(self, x, st, node):
        """Content of a mapping or an iterable of pairs."""
        if isinstance(x, Ref):
            o = st.get(x.oid)
            if isinstance(o, DictObj):
                st = self.emit(st, "cread", ref=x, how="all")
                return [(OK, self.content(x, st), st)]
            if isinstance(o, Inst):
                return self.inst_to_mapping(x, st, node)
            if isinstance(o, ListObj):
                if o.items is not None:
                    return [(OK, self.pairs_content(o.items, self.content(x, st), st), st)]
                return [(OK, T("dictof", o.content), st)]
            if isinstance(o, Gen):
                return self.pairs_iter(x, st, node)
        if isinstance(x, Tup):
            return [(OK, self.pairs_content(x.items, self.content(x, st), st), st)]
        if isinstance(x, T):
            if x.op in ("iter", "zip", "enumerate", "mapcall", "filtercall", "starcall", "reversed"):
                return self.pairs_iter(x, st, node)
            if x.op == "dview" and x.args[0] == "items":
                return self.mapping_content(x.args[1], st, node)
            ks = self.kinds_of(x, st)
            m, bad = ks & MAPK, ks & SCALARK
            seq = ks - m - bad
            res = []
            st = self.emit(st, "argread", val=x)
            if m:
                res.append((OK, x, self.refine(x, m, st) if m != ks else st))
            if bad:
                res.append((RAISE, self.mkexc("TypeError", "not iterable"), self.refine(x, bad, st)))
            if seq:
                s2 = self.refine(x, seq, st) if seq != ks else st
                for b, s3 in self.decide(P("pairs", x), s2):
                    if b:
                        res.append((OK, T("dictof", x), s3))
                        continue
                    for c, s4 in self.decide(P("pairlen", x), s3):
                        res.append((RAISE, self.mkexc("TypeError" if c else "ValueError", "not pairs"), s4))
            return res
        if isinstance(x, K):
            if isinstance(x.v, (str, bytes)) and not x.v:
                return [(OK, T("dlit", ()), st)]
            return [(RAISE, self.mkexc("TypeError" if not isinstance(x.v, str) else "ValueError"), st)]
        raise Unsupported(f"{self.loc()}: mapping from {x}")

    def pairs_opaque(self, segs):
        if len(segs) == 1:
            s = segs[0][1]
            if isinstance(s, T) and s.op == "lmap" and isinstance(s.args[1], Tup) and len(s.args[1].items) == 2:
                return T("dmap", s.args[0], s.args[1].items[0], s.args[1].items[1])
        return T("dictof", T("cat", tuple(segs)))

    def inst_to_mapping(self, x, st, node):
        """{**inst}: keys() then __getitem__ for every key."""
        if not self.has_method(x, "keys", st):
            return [(RAISE, self.mkexc("TypeError", "not a mapping"), st)]

        def go(v, t):
            if isinstance(v, T) and v.op == "dview":
                inner = v.args[1]
                c = self.content(inner, t) if isinstance(inner, Ref) else inner
                k = T("key", c, "**")
                return self._vals(self.call_special(x, "__getitem__", [k], t, node), lambda _, t2: [(OK, c, t2)])
            if isinstance(v, Ref) and isinstance(t.get(v.oid), ListObj):
                c = self.content(v, t)
                k = T("elem", c, "**")
                return self._vals(
                    self.call_special(x, "__getitem__", [k], t, node), lambda g, t2: [(OK, T("dmap", c, k, g), t2)]
                )
            return [(OK, T("mapof", x), t)]

        return self._vals(self.call_special(x, "keys", [], st, node), go)

    def list_append(self, r, v, st, quiet=False):
        o = st.get(r.oid)
        c = tuple(self.segs(self.content(r, st))) + (("i", v),)
        st = st.put(r.oid, self.list_from_segs(c, o.kind))
        return st if quiet else self.emit(st, "cmut", ref=r, how="append", val=v)

    def list_extend(self, r, x, st, node, quiet=False):
        o = st.get(r.oid)

        def go(segs, t):
            c = tuple(self.segs(self.content(r, t))) + tuple(segs)
            t = t.put(r.oid, self.list_from_segs(c, o.kind))
            if not quiet:
                t = self.emit(t, "cmut", ref=r, how="extend", val=tuple(segs))
            return [(OK, NONE, t)]

        return self._vals(self.seq_segments(x, st, node), go)

    def put_list(self, r, c, st):
        o = st.get(r.oid)
        if isinstance(c, T) and c.op == "cat":
            return st.put(r.oid, self.list_from_segs(c.args[0], o.kind))
        return st.put(r.oid, ListObj(None, c, o.kind))

    def seq_segments(self, x, st, node):
        """All elements of an iterable as list segments."""

        def go(src, t):
            if src[0] == "closed":
                return [(OK, tuple(("i", v) for v in src[1]), t)]
            if src[0] == "gen":
                r, t = self.alloc(t, "acc@" + self.site(node), ListObj(()))

                def body(v, s):
                    return [(NEXT, None, self.list_append(r, v, s, quiet=True))]

                res = []
                for q in self.drive_gen(src[1], t, body):
                    if q[0] == NEXT:
                        res.append((OK, tuple(self.segs(self.content(r, q[2]))), q[2].drop(r.oid)))
                    else:
                        res.append((q[0], q[1], q[2].drop(r.oid)))
                return res
            s = src[1]
            if isinstance(s, T) and s.op == "cat":
                return [(OK, s.args[0], t)]
            return [(OK, (("s", s),), t)]

        return self._vals(self.iter_source(x, st, node), go)

    def as_items(self, v, st, node):
        def go(segs, t):
            if all(s[0] == "i" for s in segs):
                return [(OK, [s[1] for s in segs], t)]
            raise Unsupported(f"{self.loc()}: splat of an opaque sequence")

        return self._vals(self.seq_segments(v, st, node), go)

    def unpack(self, v, n, st, node):
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Ref) and isinstance(st.get(v.oid), ListObj):
            items = st.get(v.oid).items
        if items is not None:
            if len(items) != n:
                return [(RAISE, self.mkexc("ValueError", "unpack"), st)]
            return [(OK, list(items), st)]
        return [(OK, [T("item", v, K(i)) for i in range(n)], st)]

    # ------------------------------------------------------------------
    # iteration
    # ------------------------------------------------------------------
    def iter_source(self, v, st, node):
        self.no_namespace(v)
        lid = self.site(node)
        if isinstance(v, Tup):
            return [(OK, ("closed", v.items), st)]
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes, range)):
                return [(OK, ("closed", tuple(K(x) for x in v.v)), st)]
            if isinstance(v.v, frozenset):
                return [(OK, ("closed", tuple(K(x) for x in sorted(v.v, key=repr))), st)]
            return [(RAISE, self.mkexc("TypeError", "not iterable"), st)]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Gen):
                return [(OK, ("gen", v), st)]
            if isinstance(o, DictObj):
                st = self.emit(st, "cread", ref=v, how="iter")
                if o.items is not None:
                    return [(OK, ("closed", tuple(k for k, _ in o.items)), st)]
                return [(OK, ("opaque", T("keys", o.content), T("key", o.content, lid)), st)]
            if isinstance(o, ListObj):
                st = self.emit(st, "cread", ref=v, how="iter")
                if o.items is not None:
                    return [(OK, ("closed", o.items), st)]
                return [self.opaque_seq(o.content, lid, st)]
            if isinstance(o, Inst):
                if self.has_method(v, "__iter__", st):

                    def go(it, t):
                        if it == v:
                            raise Unsupported(f"{self.loc()}: custom iterator class")
                        return self.iter_source(it, t, node)

                    return self._vals(self.call_special(v, "__iter__", [], st, node), go)
                return [(RAISE, self.mkexc("TypeError", "not iterable"), st)]
        if isinstance(v, T):
            if v.op == "iter":
                return self.iter_source(v.args[0], st, node)
            if v.op == "dview":
                return self.iter_view(v, st, lid)
            if v.op == "range":
                lo, hi, step = v.args
                if all(isinstance(x, K) for x in v.args):
                    return [(OK, ("closed", tuple(K(i) for i in range(lo.v, hi.v, step.v))), st)]
                return [(OK, ("opaque", v, T("idx", lid, v)), st)]
            if v.op == "enumerate":
                return self.iter_enum(v, st, node, lid)
            if v.op == "zip":
                return self.iter_zip(v, st, node, lid)
            if v.op == "reversed":

                def rev(s, t):
                    if s[0] == "closed":
                        return [(OK, ("closed", tuple(reversed(s[1]))), t)]
                    return [(OK, ("opaque", T("lrev", s[1]), s[2]), t)]

                return self._vals(self.iter_source(v.args[0], st, node), rev)
            if v.op == "mapcall":
                return self.iter_map(v, st, node)
            if v.op == "starcall":
                return self.iter_map(v, st, node, star=True)
            if v.op == "filtercall":
                return self.iter_filter(v, st, node)
            ks = self.kinds_of(v, st)
            bad, m = ks & SCALARK, ks & MAPK
            rest = ks - bad - m
            res = []
            if bad:
                res.append((RAISE, self.mkexc("TypeError", "not iterable"), self.refine(v, bad, st)))
            if m:
                s2 = self.emit(self.refine(v, m, st) if m != ks else st, "argread", val=v)
                res.append((OK, ("opaque", T("keys", v), T("key", v, lid)), s2))
            if rest:
                s2 = self.emit(self.refine(v, rest, st) if rest != ks else st, "argread", val=v)
                res.append(self.opaque_seq(v, lid, s2))
            return res
        if isinstance(v, (Ext, BI)):
            x = T("ext", repr(v))
            return [(OK, ("opaque", x, T("elem", x, lid)), st)]
        raise Unsupported(f"{self.loc()}: iteration over {v!r}")

    def opaque_seq(self, c, lid, st):
        if isinstance(c, T) and c.op == "lmap":
            # elements of a mapped sequence are the mapped elements
            return (OK, ("opaque", c, c.args[1]), st)
        return (OK, ("opaque", c, T("elem", c, lid)), st)

    def iter_filter(self, v, st, node):
        fn, src, want = v.args

        def keep(x, t):
            outs = [(OK, x, t)] if fn == NONE else self.call(fn, [x], {}, t, node)
            return self._vals(outs, lambda r, t2: self.truth(r, t2, node))

        def go(s, t):
            if s[0] != "closed":
                raise Unsupported(f"{self.loc()}: filter of an opaque sequence")
            cur = [(OK, [], t)]
            for x in s[1]:

                def add(acc, t2, x=x):
                    return self._vals(keep(x, t2), lambda b, t3: [(OK, acc + [x] if b == want.v else acc, t3)])

                cur = self._vals(cur, add)
            return [(OK, ("closed", tuple(c[1])), c[2]) if c[0] == OK else c for c in cur]

        return self._vals(self.iter_source(src, st, node), go)

    def iter_map(self, v, st, node, star=False):
        fn, src = v.args

        def one(x, t):
            if not star:
                return self.call(fn, [x], {}, t, node)
            return self._vals(self.as_items(x, t, node), lambda a, t2: self.call(fn, list(a), {}, t2, node))

        def go(s, t):
            if s[0] == "closed":
                cur = [(OK, [], t)]
                for x in s[1]:
                    nxt = []
                    for c in cur:
                        if c[0] != OK:
                            nxt.append(c)
                            continue
                        for r in one(x, c[2]):
                            nxt.append((OK, c[1] + [r[1]], r[2]) if r[0] == OK else r)
                    cur = nxt
                return [(OK, ("closed", tuple(c[1])), c[2]) if c[0] == OK else c for c in cur]
            if s[0] == "opaque":
                return self._vals(
                    one(s[2], t),
                    lambda r, t2: [(OK, ("opaque", T("lmap", s[1], r), r), t2)],
                )
            raise Unsupported(f"{self.loc()}: map over a generator")

        return self._vals(self.iter_source(src, st, node), go)

    def iter_view(self, v, st, lid):
        kind, inner = v.args
        if isinstance(inner, Ref):
            o = st.get(inner.oid)
            st = self.emit(st, "cread", ref=inner, how="iter")
            if o.items is not None:
                f = {"items": lambda k, x: Tup((k, x)), "keys": lambda k, x: k, "values": lambda k, x: x}[kind]
                return [(OK, ("closed", tuple(f(k, x) for k, x in o.items)), st)]
            c = o.content
        else:
            c = inner
            st = self.emit(st, "argread", val=c)
        k = T("key", c, lid)
        if kind == "keys":
            return [(OK, ("opaque", T("keys", c), k), st)]
        outs = []
        for val, s in self.d_lookup(c, k, st):
            if val is not None:
                e = Tup((k, val)) if kind == "items" else val
                outs.append((OK, ("opaque", T(kind, c), e), s))
        return outs

    def iter_enum(self, v, st, node, lid):
        src, start = v.args

        def go(s, t):
            if s[0] == "closed":
                s0 = start.v if isinstance(start, K) else 0
                return [(OK, ("closed", tuple(Tup((K(i + s0), x)) for i, x in enumerate(s[1]))), t)]
            if s[0] == "opaque":
                c = s[1]
                i = T("idx", lid, T("range", K(0), T("len", c), K(1)))
                e = T("item", c, i) if isinstance(s[2], T) and s[2].op == "elem" else s[2]
                return [(OK, ("opaque", T("enum", c), Tup((i, e))), t)]
            raise Unsupported(f"{self.loc()}: enumerate of a generator")

        return self._vals(self.iter_source(src, st, node), go)

    def iter_zip(self, v, st, node, lid):
        cur = [(OK, [], st)]
        for s in v.args[0]:
            nxt = []
            for c in cur:
                if c[0] != OK:
                    nxt.append(c)
                    continue
                for q in self.iter_source(s, c[2], node):
                    nxt.append((OK, c[1] + [q[1]], q[2]) if q[0] == OK else q)
            cur = nxt

        def go(ss, t):
            if all(x[0] == "closed" for x in ss):
                return [(OK, ("closed", tuple(Tup(y) for y in zip(*[x[1] for x in ss]))), t)]
            if any(x[0] == "gen" for x in ss):
                raise Unsupported(f"{self.loc()}: zip of generators")
            lens = frozenset(T("len", x[1]) if x[0] == "opaque" else K(len(x[1])) for x in ss)
            i = T("idx", lid, T("range", K(0), T("min", lens) if len(lens) > 1 else next(iter(lens)), K(1)))
            es = tuple(
                T("item", x[1] if x[0] == "opaque" else T("cat", tuple(("i", y) for y in x[1])), i) for x in ss
            )
            return [(OK, ("opaque", T("zipped", tuple(x[1] for x in ss)), Tup(es)), t)]

        return self._vals(cur, go)

    def foreach(self, base, acc, effs, src, elem, isdict):
        effs = frozenset(effs)
        if effs == {acc} or not effs:
            return base
        if len(effs) == 1:
            (e,) = effs
            if isinstance(e, T) and isdict and e.op == "dset" and e.args[0] == acc:
                return self.d_update(base, T("dmap", src, e.args[1], e.args[2]))
            if isinstance(e, T) and not isdict and e.op == "cat" and e.args[0][:1] == (("s", acc),):
                tail = e.args[0][1:]
                if len(tail) == 1 and tail[0][0] == "i":
                    new = T("lmap", src, tail[0][1])
                    if base == T("cat", ()):
                        return new
                    return T("cat", tuple(self.segs(base)) + (("s", new),))
        return T("foreach", base, src, effs)

    def subst(self, t, a, b):
        if t == a:
            return b
        if isinstance(t, T):
            n = tuple(self.subst(x, a, b) for x in t.args)
            return t if n == t.args else T(t.op, *n)
        if isinstance(t, tuple):
            return tuple(self.subst(x, a, b) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self.subst(x, a, b) for x in t)
        if isinstance(t, Tup):
            return Tup(tuple(self.subst(x, a, b) for x in t.items))
        return t

    # ------------------------------------------------------------------
    # attribute access
    # ------------------------------------------------------------------
    def class_lookup(self, oid, name, st):
        for c in st.get(oid).info.mro:
            v = st.get(c).attrs.get(name)
            if v is not None:
                return v
        return None

    def lookup_after(self, oid, after, name, st):
        mro = st.get(oid).info.mro
        i = mro.index(after) + 1 if after in mro else 0
        for c in mro[i:]:
            v = st.get(c).attrs.get(name)
            if v is not None:
                return v
        return None

    def bind_attr(self, f, obj, cls, st, node):
        if isinstance(f, Prop):
            return self.call(f.fget, [obj], {}, st, node)
        if isinstance(f, Fn):
            return [(OK, BM(obj, f), st)]
        if isinstance(f, CM):
            return [(OK, BM(cls, f.fn), st)]
        if isinstance(f, SM):
            return [(OK, f.fn, st)]
        return [(OK, f, st)]

    def getattr_(self, v, name, st, node):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                return self.inst_getattr(v, o, name, st, node)
            if isinstance(o, ClsObj):
                return self.cls_getattr(v, o, name, st, node)
            if name == "__class__":
                return [(OK, self.type_of(v, st), st)]
            return [(OK, BIM(v, name), st)]
        if isinstance(v, Sup):
            return self.super_getattr(v, name, st, node)
        if isinstance(v, Mod):
            if v.name in self.module_files:
                m = self.modules.get(v.name)
                x = st.get(m).vars.get(name) if m is not None else None
                if x is not None:
                    return [(OK, x, st)]
                if v.name + "." + name in self.module_files:
                    return [(OK, Mod(v.name + "." + name), st)]
                return [(RAISE, self.mkexc("AttributeError", name), st)]
            return [(OK, self.ext_attr(v.name, name, st), st)]
        if isinstance(v, Ext):
            return [(OK, self.ext_attr(v.path, name, st), st)]
        if isinstance(v, BM):
            if name == "__func__":
                return [(OK, v.fn, st)]
            if name == "__self__":
                return [(OK, v.self, st)]
            return self.getattr_(v.fn, name, st, node)
        if isinstance(v, (Fn, BI, BIM)):
            if name in ("__name__", "__qualname__"):
                return [(OK, K(getattr(getattr(v, "info", None), "qual", "fn").rsplit(".", 1)[-1]), st)]
            if isinstance(v, BI):
                return [(OK, BI(v.name + "." + name), st)]
            return [(OK, T("attr", T("fn", repr(v)), name), st)]
        if isinstance(v, Prop):
            if name in ("fget", "fset", "fdel"):
                return [(OK, getattr(v, name) or NONE, st)]
            return [(OK, BIM(v, name), st)]
        if isinstance(v, (K, Tup)):
            if name == "__class__":
                return [(OK, self.type_of(v, st), st)]
            if isinstance(v, K) and not hasattr(v.v, name):
                return [(RAISE, self.mkexc("AttributeError", name), st)]
            return [(OK, BIM(v, name), st)]
        if isinstance(v, T):
            return self.term_getattr(v, name, st, node)
        if isinstance(v, Slc):
            return [(OK, getattr(v, {"start": "lo", "stop": "hi", "step": "step"}.get(name, "lo")), st)]
        raise Unsupported(f"{self.loc()}: attribute {name} of {v!r}")

    TERM_METHODS = set(
        "items keys values get append extend insert pop popitem remove clear update setdefault index count copy "
        "encode decode format split join strip startswith endswith lower upper replace sort reverse tolist item "
        "hexdigest __iter__ __len__ __getitem__ __contains__ __next__ rsplit partition rpartition lstrip rstrip "
        "isidentifier isdigit isdisjoint".split()
    )

    def no_namespace(self, v):
        """The namespace of an object is only known for membership tests."""
        if isinstance(v, T) and v.op in ("instdict", "clsdict"):
            raise Unsupported(f"{self.loc()}: use of __dict__")

    def term_getattr(self, v, name, st, node):
        self.no_namespace(v)
        f = getattr(self.hooks, "term_getattr", None)
        if f:
            r = f(self, v, name, st, node)
            if r is not None:
                return r
        if v.op == "exc":
            if name == "errno":
                if self.exc_is(v, st, "FileNotFoundError"):
                    return [(OK, K(2), st)]
                if self.exc_is(v, st, "OSError"):
                    return [(OK, K(13), st)]
                return [(RAISE, self.mkexc("AttributeError", name), st)]
            if name == "__class__":
                return [(OK, v.args[0], st)]
            if name in ("with_traceback", "add_note"):
                return [(OK, BIM(v, name), st)]
            if name == "args" and not self.exc_is(v, st, "OSError"):
                return [(OK, Tup((v.args[1],) if v.args[1] != NONE else (T("attr", v, "args"),)), st)]
            return [(OK, T("attr", v, name), st)]
        if v.op == "stat":
            return [(OK, T("attr", v, name), st)]
        ks = self.kinds_of(v, st)
        if name == "__class__":
            t = self.type_of(v, st)
            if ks & {"umap", "useq", "other"}:
                return [
                    (OK, T("fakeclass", v) if b else t, s) for b, s in self.decide(P("disguised", v), st)
                ]
            return [(OK, t, st)]
        if v.op == "type" and name in ("__name__", "__qualname__", "__module__"):
            return [(OK, T("fstr", (v,)), st)]
        if name == "ndim" and v.op not in _OPAQUE_EXT:
            out = []
            if "nd0" in ks:
                out.append((OK, K(0), self.refine(v, {"nd0"}, st)))
            if "nd1" in ks:
                out.append((OK, T("pos", v), self.refine(v, {"nd1"}, st)))
            np = {k for k in ks if k.startswith("np")}
            if np:
                out.append((OK, K(0), self.refine(v, np, st)))
            rest = ks - {"nd0", "nd1"} - np
            if rest:
                out.append((RAISE, self.mkexc("AttributeError", name), self.refine(v, rest, st)))
            return out
        if name in self.TERM_METHODS:
            return [(OK, BIM(v, name), st)]
        if v.op in _OPAQUE_EXT:
            return [(OK, T("attr", v, name), st)]
        syn = ks & {"sdict", "slist"}
        if syn and name == "_data":
            out = []
            d = T("dataof", v)
            for k, b in (("sdict", "dict"), ("slist", "list")):
                if k in ks:
                    out.append((OK, d, self.refine(v, {k}, st).kind(d, frozenset({b}))))
            if ks - syn:
                out.append((RAISE, self.mkexc("AttributeError", name), self.refine(v, ks - syn, st)))
            return out
        if syn == ks:
            return [(OK, BIM(v, name), st)]
        if syn:
            return [
                (OK, BIM(v, name), self.refine(v, syn, st)),
                (RAISE, self.mkexc("AttributeError", name), self.refine(v, ks - syn, st)),
            ]
        if v.op in ("arg", "elem", "val", "item", "conv", "key"):
            return [(RAISE, self.mkexc("AttributeError", name), st)]
        return [(OK, T("attr", v, name), st)]

    OBJECT_ATTRS = (
        "__init__ __setattr__ __delattr__ __getattribute__ __init_subclass__ __repr__ __str__ __hash__ __eq__ __ne__ "
        "__new__ __dir__ __reduce__ __reduce_ex__ __lt__ __le__ __gt__ __ge__"
    ).split()

    def inst_getattr(self, v, o, name, st, node):
        if name == "__class__":
            return [(OK, o.cls, st)]
        if name == "__dict__":
            return [(OK, T("instdict", v), st)]
        f = self.class_lookup(o.cls.oid, name, st)
        if isinstance(f, Prop):
            outs = self.call(f.fget, [v], {}, st, node)
            if self.class_lookup(o.cls.oid, "__getattr__", st) is None:
                return outs
            # a property raising AttributeError falls back to __getattr__
            res = []
            ga = self.class_lookup(o.cls.oid, "__getattr__", st)
            for q in outs:
                if q[0] == RAISE and self.exc_is(q[1], q[2], "AttributeError"):
                    res.extend(self.call(BM(v, ga), [K(name)], {}, q[2], node))
                else:
                    res.append(q)
            return res
        if name in o.attrs:
            return [(OK, o.attrs[name], self.emit(st, "getattr", ref=v, name=name))]
        if f is not None:
            if not isinstance(f, (Fn, CM, SM, BI)):
                st = self.emit(st, "cls_getattr", cls=o.cls, name=name, val=f)
            return self.bind_attr(f, v, o.cls, st, node)
        if self.builtin_base(st.get(o.cls.oid), st) != "object":
            if name == "name" and "path" in o.attrs:
                return [(OK, o.attrs["path"], st)]
            return [(OK, BIM(v, name), st)]
        ga = self.class_lookup(o.cls.oid, "__getattr__", st)
        if ga is not None:
            return self.call(BM(v, ga), [K(name)], {}, st, node)
        if name in self.OBJECT_ATTRS:
            return [(OK, BM(v, BI("object." + name)), st)]
        return [(RAISE, self.mkexc("AttributeError", name), st)]

    def cls_getattr(self, v, o, name, st, node):
        if name == "__mro__":
            return [(OK, Tup(tuple(Ref(c) for c in o.info.mro)), st)]
        if name == "__dict__":
            return [(OK, T("clsdict", v), st)]
        if name in ("__name__", "__qualname__"):
            return [(OK, K(o.info.name), st)]
        if name == "__module__":
            return [(OK, K(o.info.module), st)]
        if name == "__bases__":
            return [(OK, Tup(tuple(Ref(b) for b in o.info.bases)), st)]
        f = self.class_lookup(v.oid, name, st)
        if f is None:
            b = self.builtin_base(o, st)
            if b != "object" or name in self.OBJECT_ATTRS:
                return [(OK, BI(f"{b}.{name}"), st)]
            return [(RAISE, self.mkexc("AttributeError", name), st)]
        if isinstance(f, CM):
            return [(OK, BM(v, f.fn), st)]
        if isinstance(f, SM):
            return [(OK, f.fn, st)]
        if not isinstance(f, (Fn, Prop, BI)):
            st = self.emit(st, "cls_getattr", cls=v, name=name, val=f)
        return [(OK, f, st)]

    def builtin_base(self, o, st):
        for c in o.info.mro:
            b = st.get(c).info.builtin
            if b and b != "object":
                return b
        return "object"

    def super_getattr(self, v, name, st, node):
        obj = v.obj
        o = st.get(obj.oid)
        cls = o.cls if isinstance(o, Inst) else obj
        f = self.lookup_after(cls.oid, v.cls, name, st)
        if f is None:
            mro = st.get(cls.oid).info.mro
            b = "object"
            for c in mro[mro.index(v.cls) + 1 :] if v.cls in mro else mro:
                bb = st.get(c).info.builtin
                if bb and bb != "object":
                    b = bb
                    break
            if b == "object" and name not in self.OBJECT_ATTRS:
                return [(RAISE, self.mkexc("AttributeError", name), st)]
            return [(OK, BM(obj, BI(f"{b}.{name}")), st)]
        return self.bind_attr(f, obj, cls, st, node)

    def setattr_(self, v, name, val, st, node):
        """Statement outcome."""
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                f = self.class_lookup(o.cls.oid, "__setattr__", st)
                if isinstance(f, Fn):
                    return self._vals(
                        self.call(BM(v, f), [K(name), val], {}, st, node), lambda _, t: [(NEXT, None, t)]
                    )
                return self.raw_setattr(v, name, val, st, node)
            if isinstance(o, ClsObj):
                st = self.emit(st, "cls_setattr", cls=v, name=name, val=val)
                return [(NEXT, None, st.put(v.oid, st.get(v.oid).set(name, val)))]
        if isinstance(v, Sup):
            return self.setattr_(v.obj, name, val, st, node)
        if isinstance(v, (T, Ext)):
            return [(NEXT, None, self.emit(st, "ext_setattr", obj=v, name=name, val=val))]
        if isinstance(v, (Fn, BM)):
            return [(NEXT, None, self.emit(st, "fn_setattr", obj=v, name=name, val=val))]
        raise Unsupported(f"{self.loc()}: attribute store on {v!r}")

    def raw_setattr(self, v, name, val, st, node):
        o = st.get(v.oid)
        f = self.class_lookup(o.cls.oid, name, st)
        if isinstance(f, Prop):
            if f.fset is None or f.fset == NONE:
                return [(RAISE, self.mkexc("AttributeError", f"can't set {name}"), st)]
            return self._vals(self.call(f.fset, [v, val], {}, st, node), lambda _, t: [(NEXT, None, t)])
        st = self.emit(st, "setattr", ref=v, name=name, val=val)
        return [(NEXT, None, st.put(v.oid, st.get(v.oid).set(name, val)))]

    def delattr_(self, v, name, st, node):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                f = self.class_lookup(o.cls.oid, "__delattr__", st)
                if isinstance(f, Fn):
                    return self._vals(
                        self.call(BM(v, f), [K(name)], {}, st, node), lambda _, t: [(NEXT, None, t)]
                    )
                return self.raw_delattr(v, name, st)
            if isinstance(o, ClsObj):
                a = dict(o.attrs)
                a.pop(name, None)
                return [(NEXT, None, st.put(v.oid, ClsObj(o.info, a)))]
        raise Unsupported(f"{self.loc()}: del attribute")

    def raw_delattr(self, v, name, st):
        o = st.get(v.oid)
        if name not in o.attrs:
            return [(RAISE, self.mkexc("AttributeError", name), st)]
        st = self.emit(st, "setattr", ref=v, name=name, val=None)
        return [(NEXT, None, st.put(v.oid, o.without(name)))]

    def type_of(self, v, st):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                return o.cls
            if isinstance(o, DictObj):
                return Ref("c:dict")
            if isinstance(o, ListObj):
                return Ref("c:" + (o.kind if o.kind in ("list", "set") else "list"))
            if isinstance(o, ClsObj):
                return Ref("c:type")
        if isinstance(v, T) and v.op == "exc":
            return v.args[0]
        if isinstance(v, (K, Tup, T)):
            ts = {KIND_TYPE.get(k) for k in self.kinds_of(v, st)}
            if len(ts) == 1 and None not in ts:
                return Ref("c:" + ts.pop())
            return T("type", v)
        return T("type", T("fn", repr(v)))

    # ------------------------------------------------------------------
    # items
    # ------------------------------------------------------------------
    def getitem(self, v, k, st, node):
        self.no_namespace(v)
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                if self.unhashable(k, st):
                    return [(RAISE, self.mkexc("TypeError", "unhashable"), st)]
                res = []
                for x, s in self.dict_get(v, k, st, node):
                    if x is not None:
                        res.append((OK, x, s))
                    elif o.factory is not None:
                        res.extend(
                            self._vals(
                                self.call(o.factory, [], {}, s, node),
                                lambda y, t: [(OK, y, self.dict_set(v, k, y, t))],
                            )
                        )
                    else:
                        res.append((RAISE, self.mkexc("KeyError", k), s))
                return res
            if isinstance(o, ListObj):
                st = self.emit(st, "cread", ref=v, how="item", key=k)
                return self.l_getitem(self.content(v, st), k, st, node)
            if isinstance(o, Inst):
                return self.call_special(v, "__getitem__", [k], st, node)
            if isinstance(o, ClsObj):
                return [(OK, v, st)]
        if isinstance(v, Tup):
            return self.l_getitem(self.content(v, st), k, st, node, tup=True)
        if isinstance(v, (Ext, BI)):
            return [(OK, v, st)]
        if isinstance(v, K):
            if isinstance(k, Slc):
                if self.const_slc(k) and isinstance(v.v, (str, bytes)):
                    return [(OK, K(v.v[k.lo.v : k.hi.v : k.step.v]), st)]
                return [(OK, T("substr", v, k), st)]
            if isinstance(k, K):
                try:
                    return [(OK, K(v.v[k.v]), st)]
                except Exception as e:
                    return [(RAISE, self.mkexc(type(e).__name__), st)]
            return [(OK, T("item", v, k), st)]
        if isinstance(v, T):
            if v.op in _OPAQUE_EXT:
                f = getattr(self.hooks, "ext_getitem", None)
                r = f(self, v, k, st, node) if f else None
                return r if r is not None else [(OK, T("item", v, k), st)]
            ks = self.kinds_of(v, st)
            st = self.emit(st, "argread", val=v)
            if ks <= MAPK:
                return [
                    (OK, x, s) if x is not None else (RAISE, self.mkexc("KeyError", k), s)
                    for x, s in self.d_lookup(v, k, st)
                ]
            return self.l_getitem(v, k, st, node)
        raise Unsupported(f"{self.loc()}: subscript of {v!r}")

    def l_getitem(self, c, k, st, node, tup=False):
        if isinstance(c, T) and c.op == "cat":
            segs = c.args[0]
            if isinstance(k, K) and isinstance(k.v, int):
                i = k.v
                if all(s[0] == "i" for s in segs):
                    if -len(segs) <= i < len(segs):
                        return [(OK, segs[i][1], st)]
                    return [(RAISE, self.mkexc("IndexError"), st)]
                if i >= 0 and len(segs) > i and all(s[0] == "i" for s in segs[: i + 1]):
                    return [(OK, segs[i][1], st)]
                if i < 0 and len(segs) >= -i and all(s[0] == "i" for s in segs[i:]):
                    return [(OK, segs[i][1], st)]
            if isinstance(k, Slc) and all(s[0] == "i" for s in segs) and self.const_slc(k):
                sl = segs[slice(k.lo.v, k.hi.v, k.step.v)]
                if tup:
                    return [(OK, Tup(tuple(s[1] for s in sl)), st)]
                r, t = self.alloc(st, self.site(node), ListObj(tuple(s[1] for s in sl)))
                return [(OK, r, t)]
        if isinstance(k, Slc):
            if isinstance(c, T) and self.kinds_of(c, st) <= {"str", "bytes"}:
                return [(OK, c if k == Slc(NONE, NONE, NONE) else T("substr", c, k), st)]
            c2 = c if k == Slc(NONE, NONE, NONE) else T("slice", c, k)
            r, t = self.alloc(st, self.site(node), self.list_from_segs(self.segs(c2)))
            return [(OK, r, t)]
        return [
            (OK, T("item", c, k), s) if b else (RAISE, self.mkexc("IndexError"), s)
            for b, s in self.in_range(c, k, st)
        ]

    def const_slc(self, k):
        return all(isinstance(x, K) for x in (k.lo, k.hi, k.step))

    def in_range(self, c, k, st):
        if isinstance(k, T) and k.op == "idx":
            hi = k.args[1].args[1]
            lens = {hi} | (set(hi.args[0]) if isinstance(hi, T) and hi.op == "min" else set())
            x, seen = c, set()
            while isinstance(x, T):
                seen.add(x)
                if x.op == "lset" and not isinstance(x.args[1], Slc):
                    x = x.args[0]
                elif x.op == "acc" and x in self.acc_base:
                    x = self.acc_base[x]
                else:
                    break
            if any(T("len", y) in lens for y in seen):
                return [(True, st)]
        if isinstance(c, T) and c.op == "lset" and c.args[1] == k:
            return [(True, st)]
        return self.decide(P("inrange", c, k), st)

    def setitem(self, v, k, val, st, node):
        self.no_namespace(v)
        """Statement outcome."""
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                return [(NEXT, None, self.dict_set(v, k, val, st))]
            if isinstance(o, ListObj):
                return self.list_setitem(v, k, val, st, node)
            if isinstance(o, Inst):
                return self._vals(
                    self.call_special(v, "__setitem__", [k, val], st, node), lambda _, t: [(NEXT, None, t)]
                )
        if isinstance(v, (T, Ext)):
            f = getattr(self.hooks, "ext_setitem", None)
            r = f(self, v, k, val, st, node) if f else None
            if r is not None:
                return r
            return [(NEXT, None, self.emit(st, "ext_setitem", obj=v, key=k, val=val))]
        return [(RAISE, self.mkexc("TypeError"), st)]

    def list_setitem(self, v, k, val, st, node):
        o = st.get(v.oid)
        c = self.content(v, st)

        def done(t, val=val):
            return (NEXT, None, self.emit(t, "cmut", ref=v, how="set", key=k, val=val))

        if isinstance(k, Slc):

            def go(segs, t):
                if o.items is not None and self.const_slc(k) and all(s[0] == "i" for s in segs):
                    l = list(o.items)
                    l[slice(k.lo.v, k.hi.v, k.step.v)] = [s[1] for s in segs]
                    t = t.put(v.oid, ListObj(tuple(l), kind=o.kind))
                elif k == Slc(NONE, NONE, NONE):
                    t = t.put(v.oid, self.list_from_segs(segs, o.kind))
                else:
                    t = self.put_list(v, T("lset", c, k, T("cat", tuple(segs))), t)
                return [done(t)]

            return self._vals(self.seq_segments(val, st, node), go)
        if o.items is not None and isinstance(k, K) and isinstance(k.v, int):
            n = len(o.items)
            if not -n <= k.v < n:
                return [(RAISE, self.mkexc("IndexError"), st)]
            l = list(o.items)
            l[k.v] = val
            return [done(st.put(v.oid, ListObj(tuple(l), kind=o.kind)))]
        res = []
        for b, s in self.in_range(c, k, st):
            if b:
                c2 = c.args[0] if isinstance(c, T) and c.op == "lset" and c.args[1] == k else c
                res.append(done(self.put_list(v, T("lset", c2, k, val), s)))
            else:
                res.append((RAISE, self.mkexc("IndexError"), s))
        return res

    def delitem(self, v, k, st, node):
        self.no_namespace(v)
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                return [
                    (RAISE, self.mkexc("KeyError", k), s) if x is None else (NEXT, None, self.dict_del(v, k, s))
                    for x, s in self.d_lookup(self.content(v, st), k, st)
                ]
            if isinstance(o, ListObj):
                return self._vals(self.list_del(v, k, st, node), lambda _, t: [(NEXT, None, t)])
            if isinstance(o, Inst):
                return self._vals(
                    self.call_special(v, "__delitem__", [k], st, node), lambda _, t: [(NEXT, None, t)]
                )
        if isinstance(v, (T, Ext)):
            return [(NEXT, None, self.emit(st, "ext_delitem", obj=v, key=k))]
        raise Unsupported(f"{self.loc()}: del item of {v!r}")

    def list_del(self, v, k, st, node):
        o = st.get(v.oid)
        c = self.content(v, st)

        def done(t, x=NONE):
            return (OK, x, self.emit(t, "cmut", ref=v, how="del", key=k))

        if o.items is not None:
            if isinstance(k, K) and isinstance(k.v, int):
                n = len(o.items)
                if not -n <= k.v < n:
                    return [(RAISE, self.mkexc("IndexError"), st)]
                l = list(o.items)
                x = l.pop(k.v)
                return [done(st.put(v.oid, ListObj(tuple(l), kind=o.kind)), x)]
            if isinstance(k, Slc) and self.const_slc(k):
                l = list(o.items)
                del l[slice(k.lo.v, k.hi.v, k.step.v)]
                return [done(st.put(v.oid, ListObj(tuple(l), kind=o.kind)))]
        if isinstance(k, Slc):
            return [done(self.put_list(v, T("cat", ()) if k == Slc(NONE, NONE, NONE) else T("ldel", c, k), st))]
        res = []
        for b, s in self.in_range(c, k, st):
            if b:
                res.append(done(self.put_list(v, T("ldel", c, k), s), T("item", c, k)))
            else:
                res.append((RAISE, self.mkexc("IndexError"), s))
        return res
