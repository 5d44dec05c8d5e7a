"""Abstract values of the analyser.

Values are immutable and hashable:

``K``     constant
``T``     provenance term (an opaque value, identified by how it was obtained)
``Ref``   abstract heap object, named by allocation site
``Tup``   tuple with known length
``Slc``   slice
``Fn``    function of the analysed program
``BM``    bound method
``BI``    modelled builtin / external callable
``BIM``   method of a modelled container, term or constant
``Mod``   module
``Ext``   attribute path of an external module
``Sup``   ``super()`` proxy
"""

OK, RAISE, NEXT, RET, BRK, CONT, GENX = "ok", "raise", "next", "ret", "brk", "cont", "genx"


class Unsupported(Exception):
    """A construct the analyser has no transfer function for."""


class Budget(Exception):
    """The abstract state space of one entry exceeded its budget."""


class K:
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash((type(v), v))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


class T:
    __slots__ = ("op", "args", "h", "depth", "_plain")
    table = {}

    def __new__(cls, op, *args):
        key = (op, args)
        t = cls.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.h = hash(key)
            t._plain = None
            d = 0
            for a in args:
                if isinstance(a, T) and a.depth > d:
                    d = a.depth
                elif isinstance(a, (tuple, frozenset)):
                    for b in a:
                        if isinstance(b, T) and b.depth > d:
                            d = b.depth
                        elif isinstance(b, tuple):
                            for c in b:
                                if isinstance(c, T) and c.depth > d:
                                    d = c.depth
            t.depth = d + 1
            if t.depth > 60:
                t = T("top", "depth")
            cls.table[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


class Ref:
    __slots__ = ("oid", "h")

    def __init__(self, oid):
        self.oid = oid
        self.h = hash(("ref", oid))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid

    def __repr__(self):
        return f"&{self.oid}"


def _mk(name, *fields):
    class C:
        __slots__ = fields + ("h",)
        _fields = fields

        def __init__(self, *a):
            for f, v in zip(fields, a):
                object.__setattr__(self, f, v)
            self.h = hash((name,) + a)

        def __hash__(self):
            return self.h

        def __eq__(self, o):
            return (
                type(o) is type(self)
                and self.h == o.h
                and all(getattr(self, f) == getattr(o, f) for f in fields)
            )

        def __repr__(self):
            return f"{name}({', '.join(repr(getattr(self, f)) for f in fields)})"

    C.__name__ = C.__qualname__ = name
    return C


Tup = _mk("Tup", "items")
Slc = _mk("Slc", "lo", "hi", "step")
BM = _mk("BM", "self", "fn")
BI = _mk("BI", "name")
BIM = _mk("BIM", "recv", "name")
Mod = _mk("Mod", "name")
Ext = _mk("Ext", "path")
Sup = _mk("Sup", "cls", "obj")
Prop = _mk("Prop", "fget", "fset", "fdel")
CM = _mk("CM", "fn")  # classmethod object
SM = _mk("SM", "fn")  # staticmethod object
Partial = _mk("Partial", "fn", "args", "kw")


class Fn:
    __slots__ = ("info", "env", "defaults", "kwdefaults", "h", "flags")

    def __init__(self, info, env, defaults, kwdefaults, flags=frozenset()):
        self.info = info
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.flags = flags
        self.h = hash(("fn", id(info), env, defaults, flags))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (
            isinstance(o, Fn)
            and o.info is self.info
            and o.env == self.env
            and o.defaults == self.defaults
            and o.flags == self.flags
        )

    def __repr__(self):
        return f"<{self.info.qual}>"


class FuncInfo:
    """Static part of a function."""

    def __init__(self, node, module, qual, file):
        self.node = node
        self.module = module
        self.qual = qual
        self.file = file
        self.cls = None
        import ast

        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
                    break
                if isinstance(
                    n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)
                ):
                    continue
                stack.extend(ast.iter_child_nodes(n))

    def __repr__(self):
        return self.qual


# ---------------------------------------------------------------------------
# heap objects
# ---------------------------------------------------------------------------


class Obj:
    __slots__ = ("_key", "_h")

    def key(self):
        k = self._key
        if k is None:
            k = self._key = self._mkkey()
            self._h = hash(k)
        return k

    def __hash__(self):
        self.key()
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not type(self):
            return False
        a, b = self.key(), o.key()
        return self._h == o._h and a == b


class Inst(Obj):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls  # Ref of class
        self.attrs = attrs
        self._key = None

    def _mkkey(self):
        return ("I", self.cls, frozenset(self.attrs.items()))

    def set(self, name, val):
        a = dict(self.attrs)
        a[name] = val
        return Inst(self.cls, a)

    def without(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Inst(self.cls, a)

    def __repr__(self):
        return f"Inst({self.cls}, {self.attrs})"


class ClsObj(Obj):
    """A class. Static parts (name, mro) live in ``info``."""

    __slots__ = ("info", "attrs")

    def __init__(self, info, attrs):
        self.info = info
        self.attrs = attrs
        self._key = None

    def _mkkey(self):
        return ("C", self.info.name, frozenset(self.attrs.items()))

    def set(self, name, val):
        a = dict(self.attrs)
        a[name] = val
        return ClsObj(self.info, a)


class ClsInfo:
    def __init__(self, name, bases, mro, module, node, file, builtin=None):
        self.name = name
        self.bases = bases
        self.mro = mro  # tuple of oids, self first
        self.module = module
        self.node = node
        self.file = file
        self.builtin = builtin

    def __repr__(self):
        return self.name


class DictObj(Obj):
    """Dictionary: ``items`` (closed, known) or ``content`` (term)."""

    __slots__ = ("items", "content", "factory")

    def __init__(self, items=None, content=None, factory=None):
        self.items = items
        self.content = content
        self.factory = factory
        self._key = None

    def _mkkey(self):
        return ("D", self.items, self.content, self.factory)

    def __repr__(self):
        return f"Dict({self.items if self.items is not None else self.content})"


class ListObj(Obj):
    __slots__ = ("items", "content", "kind")

    def __init__(self, items=None, content=None, kind="list"):
        self.items = items
        self.content = content
        self.kind = kind  # list | set | iter
        self._key = None

    def _mkkey(self):
        return ("L", self.kind, self.items, self.content)

    def __repr__(self):
        return f"{self.kind}({self.items if self.items is not None else self.content})"


class Frame(Obj):
    __slots__ = ("vars", "parent", "info", "captured")

    def __init__(self, vars, parent, info, captured=False):
        self.vars = vars
        self.parent = parent
        self.info = info
        self.captured = captured
        self._key = None

    def _mkkey(self):
        return ("F", frozenset(self.vars.items()), self.parent, id(self.info))

    def set(self, name, val):
        v = dict(self.vars)
        v[name] = val
        return Frame(v, self.parent, self.info, self.captured)


class Gen(Obj):
    """Suspended generator: function call or generator expression."""

    __slots__ = ("kind", "fn", "frame", "node")

    def __init__(self, kind, fn, frame, node):
        self.kind = kind
        self.fn = fn
        self.frame = frame
        self.node = node
        self._key = None

    def _mkkey(self):
        return ("G", self.kind, self.fn, self.frame, id(self.node))


# ---------------------------------------------------------------------------
# linear integer terms
# ---------------------------------------------------------------------------


def lin(v):
    """Return (const, {atom: coef}) or None."""
    if isinstance(v, K):
        if isinstance(v.v, (int, bool)):
            return int(v.v), {}
        return None
    if isinstance(v, T):
        if v.op == "lin":
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    return None


def mklin(c, atoms):
    atoms = {a: k for a, k in atoms.items() if k}
    if not atoms:
        return K(c)
    if c == 0 and len(atoms) == 1:
        ((a, k),) = atoms.items()
        if k == 1:
            return a
    return T("lin", c, tuple(sorted(atoms.items(), key=lambda x: repr(x[0]))))


def linadd(a, b, sign=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    atoms = dict(la[1])
    for k, v in lb[1].items():
        atoms[k] = atoms.get(k, 0) + sign * v
    return mklin(la[0] + sign * lb[0], atoms)


def show(v, depth=0):
    if depth > 6:
        return "..."
    if isinstance(v, T):
        if v.op == "arg":
            return str(v.args[0])
        if v.op == "C":
            return f"content[{','.join(map(str, v.args))}]"
        if v.op == "cat":
            return (
                "["
                + ", ".join(
                    show(a[1], depth + 1) if a[0] == "i" else "*" + show(a[1], depth + 1)
                    for a in v.args[0]
                )
                + "]"
            )
        return f"{v.op}({', '.join(show(a, depth + 1) for a in v.args)})"
    if isinstance(v, (tuple, frozenset)):
        return "(" + ", ".join(show(a, depth + 1) for a in v) + ")"
    if isinstance(v, Tup):
        return show(v.items, depth)
    return repr(v)


# operations whose results are taken to differ when their operands do (digests
# included; parts and lengths of a document are not)
INJECTIVE = frozenset(("cat", "md5", "encoded", "filedata", "hash", "bytes", "numstr"))


def peel(a, b):
    """Innermost pair of JSON documents whose equality follows from a = b."""
    while a != b:
        if isinstance(a, T) and isinstance(b, T):
            if a.op != b.op or len(a.args) != len(b.args) or a.op not in INJECTIVE:
                break
            xs, ys = a.args, b.args
        elif isinstance(a, Tup) and isinstance(b, Tup):
            xs, ys = a.items, b.items
        elif isinstance(a, tuple) and isinstance(b, tuple):
            xs, ys = a, b
        else:
            break
        diff = [(x, y) for x, y in zip(xs, ys) if x != y]
        if len(xs) != len(ys) or len(diff) != 1:
            break
        a, b = diff[0]
    return a, b
