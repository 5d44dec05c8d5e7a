"""Concrete instances of abstract values.

An abstract difference between two terms is only reported if the terms also
differ on some small instance of their opaque parts that satisfies the facts of
the path. The instances are plain data; only terms are evaluated.
"""
import random

from .values import *  # noqa: F401,F403

ATOMS = frozenset({"arg", "C", "loads", "zval", "doc"})
CONT = {"dict": "dict", "sdict": "dict", "umap": "dict", "list": "list", "slist": "list", "tuple": "list", "useq": "list", "iter": "list"}
STRIP = frozenset({"conv", "snap", "copy", "deepcopy", "tupleof", "iter", "partialview"})
CMP = {
    "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b,
    "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b,
}  # fmt: skip
ARITH = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b,
    "Mod": lambda a, b: a % b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
}  # fmt: skip


class NoEval(Exception):
    """The term has no concrete evaluation."""


class Infeasible(Exception):
    """The instance does not belong to the path."""


def kind(v):
    return {dict: "dict", list: "list", str: "str", bool: "bool", int: "int", float: "float", type(None): "none"}.get(type(v), "other")


def typed(v):
    """Comparable form that distinguishes 1, 1.0 and True."""
    if isinstance(v, dict):
        return ("d", frozenset((typed(k), typed(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(typed(x) for x in v))
    return (type(v).__name__, repr(v) if isinstance(v, float) else v)


class Ev:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, v):
        if isinstance(v, K):
            return v.v
        if isinstance(v, T):
            if v in self.env:
                return self.env[v]
            r = self.memo.get(v, self)
            if r is self:
                r = self.memo[v] = self.term(v)
            return r
        if isinstance(v, Tup):
            return [self(x) for x in v.items]
        if isinstance(v, Slc):
            return slice(*[self(x) for x in (v.lo, v.hi, v.step)])
        raise NoEval(repr(v)[:60])

    def each(self, src, expr):
        """Values of expr for every element of src."""
        seq = self(src)
        binders = {t for t in _subterms(expr) if t.op in ("elem", "key", "idx", "pos") and len(t.args) > 1}
        out = []
        for i, x in enumerate(list(seq)):
            env = dict(self.env)
            for b in binders:
                if b in env:
                    continue
                if b.op == "idx":
                    env[b] = i
                elif b.op == "pos":
                    raise NoEval("pos")
                else:
                    c = b.args[0]
                    if c == src or (isinstance(src, T) and src.op in ("keys", "dview", "enum") and c in src.args):
                        env[b] = x
                    else:
                        try:
                            y = self(c)
                        except Infeasible:
                            continue
                        if len(y) != len(seq):
                            raise NoEval("binder")
                        env[b] = list(y)[i]
            out.append(Ev(env))
        return out

    def term(self, v):
        op, a = v.op, v.args
        if op in STRIP:
            return self(a[0])
        f = getattr(self, "t_" + op, None)
        if f is None:
            raise NoEval(op)
        try:
            return f(*a)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, RuntimeError, StopIteration) as e:
            raise Infeasible(f"{op}: {e}")

    # -- containers
    def t_val(self, c, k):
        return self(c)[self(k)]

    def t_item(self, c, k):
        c = self(c)
        return (list(c) if isinstance(c, range) else c)[self(k)]

    t_slice = t_item

    def t_dlit(self, items):
        return {self(k): self(x) for k, x in items}

    def t_cat(self, segs):
        out = []
        for k, x in segs:
            if k == "i":
                out.append(self(x))
            else:
                out.extend(self(x))
        return out

    def t_dset(self, c, k, x):
        d = dict(self(c))
        d[self(k)] = self(x)
        return d

    def t_ddel(self, c, k):
        d = dict(self(c))
        del d[self(k)]
        return d

    def t_dupd(self, c, o):
        return {**self(c), **dict(self(o))}

    def t_dictof(self, c):
        return dict(self(c))

    def t_lset(self, c, k, x):
        l = list(self(c))
        l[self(k)] = self(x)
        return l

    def t_ldel(self, c, k):
        l = list(self(c))
        del l[self(k)]
        return l

    def t_lins(self, c, i, x):
        l = list(self(c))
        l.insert(self(i), self(x))
        return l

    def t_lrem(self, c, x):
        l = list(self(c))
        l.remove(self(x))
        return l

    def t_lrev(self, c):
        return list(self(c))[::-1]

    t_reversed = t_lrev

    def t_sorted(self, c):
        return sorted(self(c))

    t_lsort = t_sorted

    def t_keys(self, c):
        return list(self(c))

    def t_dview(self, name, c):
        c = self(c)
        return list(c) if name == "keys" else list(c.values()) if name == "values" else [list(x) for x in c.items()]

    def t_lastkey(self, c):
        return list(self(c))[-1]

    def t_key(self, c, lid):
        if lid == "first":
            return next(iter(self(c)))
        raise NoEval("key")

    def t_next(self, c, *d):
        return next(iter(self(c)), *[self(x) for x in d])

    def t_lmap(self, src, expr):
        return [e(expr) for e in self.each(src, expr)]

    def t_dmap(self, src, k, x):
        return {e(k): e(x) for e in self.each(src, Tup((k, x)))}

    def t_mapof(self, c):
        return dict(self(c))

    def t_enum(self, c):
        return [[i, x] for i, x in enumerate(self(c))]

    def t_zip(self, cs):
        return [list(x) for x in zip(*[self(c) for c in cs])]

    t_zipped = t_zip

    def t_range(self, *a):
        return range(*[self(x) for x in a])

    # -- scalars
    def t_len(self, c):
        return len(self(c))

    def t_lin(self, c, atoms):
        return c + sum(k * self(x) for x, k in atoms)

    def t_min(self, xs):
        return min(self(x) for x in xs)

    def t_max(self, xs):
        return max(self(x) for x in xs)

    def t_abs(self, x):
        return abs(self(x))

    def t_sum(self, x):
        return sum(self(x))

    def t_int(self, *a):
        return int(*[self(x) for x in a])

    def t_float(self, *a):
        return float(*[self(x) for x in a])

    def t_round(self, *a):
        return round(*[self(x) for x in a])

    def t_count(self, c, x):
        return list(self(c)).count(self(x))

    def t_index(self, c, x, *a):
        return list(self(c)).index(self(x), *[self(y) for y in a])

    def t_str(self, x):
        return "str:" + repr(typed(self(x)))

    def t_repr(self, x):
        return "repr:" + repr(typed(self(x)))

    def t_json(self, x, opts):
        return ["json", self(x)]

    def t_binop(self, op, a, b):
        if op not in ARITH:
            raise NoEval(op)
        return ARITH[op](self(a), self(b))

    def t_not(self, x):
        return not self(x)

    # -- predicates
    def t_p(self, name, *a):
        if name == "has":
            if len(a) == 2:
                return self(a[1]) in self(a[0])
            return self(a[1]) in self(a[0])[slice(*[self(x) for x in a[2:]])]
        if name == "eq":
            return self(a[0]) == self(a[1])
        if name == "is":
            x, y = self(a[0]), self(a[1])
            if typed(x) != typed(y):
                return False
            if x is None or isinstance(x, bool):
                return True
            raise NoEval("is")
        if name in ("nonempty", "truth"):
            return bool(self(a[0]))
        if name == "gt0":
            return self(a[0]) > 0
        if name == "inrange":
            n, i = len(self(a[0])), self(a[1])
            return -n <= i < n
        if name == "ord":
            return CMP[a[0]](self(a[1]), self(a[2]))
        raise NoEval(name)


def _subterms(v):
    if isinstance(v, T):
        yield v
        for a in v.args:
            yield from _subterms(a)
    elif isinstance(v, (tuple, frozenset)):
        for a in v:
            yield from _subterms(a)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from _subterms(a)
    elif isinstance(v, Slc):
        for a in (v.lo, v.hi, v.step):
            yield from _subterms(a)


def constants(v):
    if isinstance(v, K):
        yield v.v
    elif isinstance(v, T):
        if v.op == "lin" and isinstance(v.args[0], int):
            yield v.args[0]
        for a in v.args:
            yield from constants(a)
    elif isinstance(v, (tuple, frozenset)):
        for a in v:
            yield from constants(a)
    elif isinstance(v, Tup):
        yield from constants(v.items)


class Generator:
    """Random small instances (fixed seed) of the opaque parts of a scenario."""

    def __init__(self, world, kinds_of, consts):
        self.w = world
        self.kinds_of = kinds_of
        self.rnd = random.Random(7)
        self.strs = ["n", "a", "b", ""] + sorted({c for c in consts if isinstance(c, str)})[:6]
        ints = sorted({c + d for c in consts if type(c) is int and abs(c) < 10**6 for d in (-1, 0, 1)})
        self.ints = [-4, -3, -2, -1, 0, 1, 2, 3, 5] + ints
        self.sizes = [0, 1, 1, 2, 2, 3] + [c for c in ints if 3 < c <= 130]

    def value(self, kinds=None, depth=0):
        r = self.rnd
        ks = [k for k in ("dict", "list", "str", "int", "float", "bool", "none") if kinds is None or k in kinds]
        if depth > 1:
            ks = [k for k in ks if k not in ("dict", "list")] or ks
        if not ks:
            raise NoEval(f"kinds {kinds}")
        k = r.choice(ks)
        if k == "dict":
            return {r.choice(self.strs): self.value(None, depth + 1) for _ in range(r.choice((0, 1, 2, 3)))}
        if k == "list":
            n = r.choice(self.sizes if depth == 0 else (0, 1, 2))
            return [self.value(None, depth + 1) for _ in range(n)]
        if k == "str":
            return r.choice(self.strs)
        if k == "int":
            return r.choice(self.ints)
        if k == "float":
            return r.choice((0.0, 1.0, 1.5, -2.0))
        if k == "bool":
            return r.choice((True, False))
        return None

    def content(self, name):
        """Content of a collection with the nested collections of the scenario."""
        c = self.w.kind_of_content.get(T("C", name), "dict")
        v = self.value({c})
        for key, child in self.w.children.get(self.w.at(T("C", name)) or name, ()):
            sub = self.content(child)
            if c == "dict":
                v[key.v] = sub
            else:
                while len(v) <= key.v:
                    v.append(self.value(None, 1))
                v[key.v] = sub
        return v

    def assign(self, atom):
        if atom.op == "arg":
            ks = {CONT.get(k, k) for k in self.kinds_of(atom)}
            if atom.args[0] == "pairs":
                return [[self.rnd.choice(self.strs), self.value(None, 1)] for _ in range(self.rnd.choice((0, 1, 2)))]
            return self.value(ks & {"dict", "list", "str", "int", "float", "bool", "none"})
        if atom.op == "C":
            return self.content(atom.args[0])
        if atom.op == "doc":
            return {"uid": "U1", "data": self.content("R")}
        return self.content("R")


def satisfied(ev, facts, kinds):
    for p, b in facts:
        try:
            if bool(ev(p)) != b:
                return False
        except NoEval:
            continue
        except Infeasible:
            return False
    for t, ks in kinds:
        if t.op in ATOMS:
            continue
        try:
            if kind(ev(t)) not in ks:
                return False
        except NoEval:
            continue
        except Infeasible:
            return False
    return True


def differ(world, eng, st, facts, a=None, b=None, tries=600, enough=40):
    """Look for an instance of the path on which two terms differ.

    Returns True (they differ), False (no instance shows a difference) or None
    (not evaluable). Without terms: whether the path has an instance.
    """
    facts = [(p, v) for p, v in facts.items() if isinstance(p, T)]
    terms = [p for p, _ in facts] + [x for x in (a, b) if x is not None]
    atoms = sorted({t for x in terms for t in _subterms(x) if t.op in ATOMS}, key=repr)
    consts = {c for x in terms for c in constants(x)}
    kinds = []
    for t, ks in st.kinds.items():
        if isinstance(t, T):
            conv = frozenset(CONT.get(k, k) for k in ks)
            kinds.append((t, conv))
            for s in _subterms(t):
                if s.op in ATOMS and s not in atoms:
                    atoms.append(s)
    g = Generator(world, lambda t: eng.kinds_of(t, st), consts)
    good = bad = 0
    for _ in range(tries):
        try:
            env = {t: g.assign(t) for t in atoms}
        except NoEval:
            return None
        ev = Ev(env)
        if not satisfied(ev, facts, kinds):
            continue
        if a is None:
            return True
        try:
            x, y = ev(a), ev(b)
        except NoEval:
            return None
        except Infeasible:
            bad += 1
            continue
        if typed(x) != typed(y):
            return True
        good += 1
        if good >= enough:
            break
    return False
