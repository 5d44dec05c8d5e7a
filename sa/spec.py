"""The public operations and what they do to built-in containers.

Every operation is one function applied to an abstract object. The same
function is applied to the collection under analysis and, as the oracle, to an
abstract built-in container, so the reference semantics are the transfer
functions of the built-in types.
"""
from .opmode import JSONK, arg
from .values import *  # noqa: F401,F403

VALK = JSONK | {"sdict", "slist"}


class Op:
    def __init__(self, name, cont, mode, run, args=(), spec=None, entry=None, over=False, stores=(), selfarg=False):
        self.name = name
        self.cont = cont  # dict | list | attr
        self.mode = mode  # mut | read
        self.run = run
        self.args = args
        self.spec = spec or run
        self.entry = entry or name.split("(")[0].split("[")[0]
        self.over = over  # replaces everything
        self.stores = stores  # argument terms that end up in the collection
        self.selfarg = selfarg  # the collection is its own argument

    def make_args(self, st):
        out = {}
        for a, kinds in self.args:
            t = T("arg", a)
            if kinds is not None:
                st = st.kind(t, frozenset(kinds))
            out[a] = t
        return out, st

    def __repr__(self):
        return self.name


def meth(name, *params, **kwp):
    def run(eng, x, A, st):
        args = [A[p] if isinstance(p, str) else p for p in params]
        kw = {k: A[p] if isinstance(p, str) else p for k, p in kwp.items()}
        return eng._vals(eng.getattr_(x, name, st, None), lambda f, t: eng.call(f, args, kw, t, None))

    return run


def _stmt(outs):
    return [(OK, NONE, o[2]) if o[0] == NEXT else o for o in outs]


def sl(A, which):
    lo, hi, step = which
    return Slc(*[A[x] if isinstance(x, str) else K(x) for x in (lo, hi, step)])


def setitem(k, v):
    return lambda eng, x, A, st: _stmt(eng.setitem(x, A[k] if isinstance(k, str) else sl(A, k), A[v], st, None))


def delitem(k):
    return lambda eng, x, A, st: _stmt(eng.delitem(x, A[k] if isinstance(k, str) else sl(A, k), st, None))


def getitem(k):
    return lambda eng, x, A, st: eng.getitem(x, A[k] if isinstance(k, str) else sl(A, k), st, None)


def compare(op, b):
    return lambda eng, x, A, st: eng.compare(op, x, A[b], st, None)


def contains(k):
    return lambda eng, x, A, st: eng.contains(x, A[k], st, None)


def builtin(name):
    return lambda eng, x, A, st: eng.call(BI(name), [x], {}, st, None)


def tostr(eng, x, A, st):
    return eng.call(Ref("c:str"), [x], {}, st, None)


def aug(op, b):
    def run(eng, x, A, st):
        return eng.aug(op, x, A[b], st, None)

    return run


def selfmeth(name):
    def run(eng, x, A, st):
        return eng._vals(eng.getattr_(x, name, st, None), lambda f, t: eng.call(f, [x], {}, t, None))

    return run


# -- oracles for operations without a built-in counterpart ----------------
def spec_reset(eng, x, A, st):
    o = st.get(x.oid)
    a = eng.content(A["m"] if isinstance(o, DictObj) else A["it"], st)
    if isinstance(o, DictObj):
        return [(OK, NONE, st.put(x.oid, eng.dict_from(a)))]
    return [(OK, NONE, st.put(x.oid, eng.list_from_segs(eng.segs(a))))]


def spec_reset_any(eng, x, A, st):
    isdict = isinstance(st.get(x.oid), DictObj)
    a = A["m" if isdict else "it"]
    ks = eng.kinds_of(a, st)
    good = ks & (MAPA if isdict else SEQA | {"tuple"})
    out = [(RAISE, eng.mkexc("ValueError"), eng.refine(a, ks - good, st))] if ks - good else []
    return out + (spec_reset(eng, x, A, eng.refine(a, good, st)) if good else [])


def spec_call(eng, x, A, st):
    return [(OK, x, st)]


def spec_iter(eng, x, A, st):
    if isinstance(st.get(x.oid), DictObj):
        return [(OK, T("iter", T("keys", eng.content(x, st))), st)]
    return eng.call(BI("iter"), [x], {}, st, None)


def spec_pop_default(d):
    def run(eng, x, A, st):
        return meth("pop", "k", A[d] if d else NONE)(eng, x, A, st)

    return run


def _as_attr(outs, eng):
    return [(RAISE, eng.mkexc("AttributeError"), o[2]) if o[0] == RAISE else o for o in outs]


def a_get(eng, x, A, st):
    return eng.getattr_(x, "zeta", st, None)


def a_set(eng, x, A, st):
    return _stmt(eng.setattr_(x, "zeta", A["v"], st, None))


def a_del(eng, x, A, st):
    return _stmt(eng.delattr_(x, "zeta", st, None))


def sa_get(eng, x, A, st):
    return _as_attr(eng.getitem(x, K("zeta"), st, None), eng)


def sa_set(eng, x, A, st):
    return _stmt(eng.setitem(x, K("zeta"), A["v"], st, None))


def sa_del(eng, x, A, st):
    return _as_attr(_stmt(eng.delitem(x, K("zeta"), st, None)), eng)


STR, INT, ANY = {"str"}, {"int"}, VALK
MAPA, SEQA = {"dict", "sdict"}, {"list", "slist"}
kA, vA, dA, iA = ("k", STR), ("v", ANY), ("d", ANY), ("i", INT)
mA, itA, wA = ("m", MAPA), ("it", SEQA), ("w", ANY)
loA, hiA = ("lo", INT), ("hi", INT)
pA = ("pairs", {"list", "tuple", "iter"})

DICT_OPS = [
    Op("d[k]=v", "dict", "mut", setitem("k", "v"), (kA, vA), entry="__setitem__", stores=("v",)),
    Op("del d[k]", "dict", "mut", delitem("k"), (kA,), entry="__delitem__"),
    Op("pop(k)", "dict", "mut", meth("pop", "k"), (kA,), spec_pop_default(None)),
    Op("pop(k,d)", "dict", "mut", meth("pop", "k", "d"), (kA, dA), spec_pop_default("d")),
    Op("popitem()", "dict", "mut", meth("popitem")),
    Op("clear()", "dict", "mut", meth("clear"), over=True),
    Op("update(m)", "dict", "mut", meth("update", "m"), (mA,), stores=("m",)),
    Op("update(pairs)", "dict", "mut", meth("update", "pairs"), (pA,), stores=("pairs",)),
    Op("update(a=v)", "dict", "mut", meth("update", a="v"), (vA,), stores=("v",)),
    Op("update(m,a=v)", "dict", "mut", meth("update", "m", a="v"), (mA, vA), stores=("m", "v")),
    Op("setdefault(k)", "dict", "mut", meth("setdefault", "k"), (kA,)),
    Op("setdefault(k,v)", "dict", "mut", meth("setdefault", "k", "v"), (kA, vA), stores=("v",)),
    Op("reset(m)", "dict", "mut", meth("reset", "m"), (mA,), spec_reset, over=True, stores=("m",)),
    Op("d[k]", "dict", "read", getitem("k"), (kA,), entry="__getitem__"),
    Op("get(k)", "dict", "read", meth("get", "k"), (kA,)),
    Op("get(k,d)", "dict", "read", meth("get", "k", "d"), (kA, dA)),
    Op("k in d", "dict", "read", contains("k"), (kA,), entry="__contains__"),
    Op("keys()", "dict", "read", meth("keys")),
    Op("values()", "dict", "read", meth("values")),
    Op("items()", "dict", "read", meth("items")),
]
LIST_OPS = [
    Op("l[i]=v", "list", "mut", setitem("i", "v"), (iA, vA), entry="__setitem__", stores=("v",)),
    Op("l[lo:hi]=it", "list", "mut", setitem(("lo", "hi", None), "it"), (loA, hiA, itA), entry="__setitem__", stores=("it",)),
    Op("del l[i]", "list", "mut", delitem("i"), (iA,), entry="__delitem__"),
    Op("del l[lo:hi]", "list", "mut", delitem(("lo", "hi", None)), (loA, hiA), entry="__delitem__"),
    Op("insert(i,v)", "list", "mut", meth("insert", "i", "v"), (iA, vA), stores=("v",)),
    Op("append(v)", "list", "mut", meth("append", "v"), (vA,), stores=("v",)),
    Op("extend(it)", "list", "mut", meth("extend", "it"), (itA,), stores=("it",)),
    Op("l+=it", "list", "mut", aug("Add", "it"), (itA,), entry="__iadd__", stores=("it",)),
    Op("remove(v)", "list", "mut", meth("remove", "v"), (vA,)),
    Op("clear()", "list", "mut", meth("clear"), over=True),
    Op("pop()", "list", "mut", meth("pop")),
    Op("pop(i)", "list", "mut", meth("pop", "i"), (iA,)),
    Op("reverse()", "list", "mut", meth("reverse")),
    Op("reset(it)", "list", "mut", meth("reset", "it"), (itA,), spec_reset, over=True, stores=("it",)),
    Op("l[i]", "list", "read", getitem("i"), (iA,), entry="__getitem__"),
    Op("l[lo:hi]", "list", "read", getitem(("lo", "hi", None)), (loA, hiA), entry="__getitem__"),
    Op("v in l", "list", "read", contains("v"), (vA,), entry="__contains__"),
    Op("reversed(l)", "list", "read", builtin("reversed"), (), entry="__reversed__"),
    Op("index(v)", "list", "read", meth("index", "v"), (vA,)),
    Op("count(v)", "list", "read", meth("count", "v"), (vA,)),
] + [
    Op(f"l{sym}w", "list", "read", compare(o, "w"), (("w", {"list", "slist"}),), entry=m)
    for sym, o, m in (("<", "Lt", "__lt__"), ("<=", "LtE", "__le__"), (">", "Gt", "__gt__"), (">=", "GtE", "__ge__"))
]  # fmt: skip


def _common(c):
    return [
        Op("len(x)", c, "read", builtin("len"), (), entry="__len__"),
        Op("iter(x)", c, "read", builtin("iter"), (), spec_iter, entry="__iter__"),
        Op("x()", c, "read", lambda eng, x, A, st: eng.call(x, [], {}, st, None), (), spec_call, entry="__call__"),
        Op("x==w", c, "read", compare("Eq", "w"), (wA,), entry="__eq__"),
        Op("x!=w", c, "read", compare("NotEq", "w"), (wA,), entry="__ne__"),
        Op("repr(x)", c, "read", builtin("repr"), (), entry="__repr__"),
        Op("str(x)", c, "read", tostr, (), entry="__str__"),
    ]


DICT_OPS += _common("dict")
LIST_OPS += _common("list")
ATTR_OPS = [
    Op("d.zeta", "attr", "read", a_get, (), sa_get, entry="__getattr__"),
    Op("d.zeta=v", "attr", "mut", a_set, (vA,), sa_set, entry="__setattr__", stores=("v",)),
    Op("del d.zeta", "attr", "mut", a_del, (), sa_del, entry="__delattr__"),
]

# Further forms of the same entry points: extended slices, arguments of any
# kind (what built-in containers reject must be rejected without effect), and
# the collection as its own argument. Only analysed outside buffered contexts.
stA = ("st", INT)
aA = ("k", JSONK)
sA = ("it", JSONK | {"tuple"})
MORE_DICT_OPS = [
    Op("d[any]", "dict", "read", getitem("k"), (aA,), entry="__getitem__"),
    Op("del d[any]", "dict", "mut", delitem("k"), (aA,), entry="__delitem__"),
    Op("pop(any)", "dict", "mut", meth("pop", "k"), (aA,), spec_pop_default(None)),
    Op("pop(k,default=d)", "dict", "mut", meth("pop", "k", default="d"), (kA, dA), spec_pop_default("d")),
    Op("get(any)", "dict", "read", meth("get", "k"), (aA,)),
    Op("any in d", "dict", "read", contains("k"), (aA,), entry="__contains__"),
    Op("reset(any)", "dict", "mut", meth("reset", "m"), (("m", JSONK),), spec_reset_any, over=True, stores=("m",)),
    Op("update()", "dict", "mut", meth("update")),
    Op("update(scalar)", "dict", "mut", meth("update", "m"), (("m", {"int", "none", "bool", "float"}),)),
    Op("update(pairs,a=v)", "dict", "mut", meth("update", "pairs", a="v"), (pA, vA), stores=("pairs", "v")),
]
MORE_LIST_OPS = [
    Op("l[lo:hi:st]", "list", "read", getitem(("lo", "hi", "st")), (loA, hiA, stA), entry="__getitem__"),
    Op("l[::-1]", "list", "read", getitem((None, None, -1)), (), entry="__getitem__"),
    Op("l[lo:hi:st]=it", "list", "mut", setitem(("lo", "hi", "st"), "it"), (loA, hiA, stA, itA), entry="__setitem__", stores=("it",)),
    Op("l[:]=it", "list", "mut", setitem((None, None, None), "it"), (itA,), entry="__setitem__", stores=("it",)),
    Op("l[lo:hi]=any", "list", "mut", setitem(("lo", "hi", None), "it"), (loA, hiA, sA), entry="__setitem__", stores=("it",)),
    Op("del l[lo:hi:st]", "list", "mut", delitem(("lo", "hi", "st")), (loA, hiA, stA), entry="__delitem__"),
    Op("del l[:]", "list", "mut", delitem((None, None, None)), (), entry="__delitem__"),
    Op("extend(any)", "list", "mut", meth("extend", "it"), (sA,), stores=("it",)),
    Op("l+=any", "list", "mut", aug("Add", "it"), (sA,), entry="__iadd__", stores=("it",)),
    Op("extend(self)", "list", "mut", selfmeth("extend"), selfarg=True),
    Op("l+=self", "list", "mut", lambda eng, x, A, st: eng.aug("Add", x, x, st, None), entry="__iadd__", selfarg=True),
    Op("reset(any)", "list", "mut", meth("reset", "it"), (("it", JSONK | {"tuple"}),), spec_reset_any, over=True, stores=("it",)),
    Op("l[any]", "list", "read", getitem("k"), (aA,), entry="__getitem__"),
    Op("l[any]=v", "list", "mut", setitem("k", "v"), (aA, vA), entry="__setitem__", stores=("v",)),
    Op("del l[any]", "list", "mut", delitem("k"), (aA,), entry="__delitem__"),
    Op("l<any", "list", "read", compare("Lt", "w"), (("w", JSONK | {"tuple"}),), entry="__lt__"),
    Op("index(v,lo)", "list", "read", meth("index", "v", "lo"), (vA, loA)),
]  # fmt: skip


def ops_for(isdict, attr=False, more=False):
    if isdict:
        return DICT_OPS + (ATTR_OPS if attr else []) + (MORE_DICT_OPS if more else [])
    return LIST_OPS + (MORE_LIST_OPS if more else [])
