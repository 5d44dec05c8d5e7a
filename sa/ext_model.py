"""Transfer functions for builtin callables, container methods and external modules."""
from .state import State
from .values import *  # noqa: F401,F403

_EXT_BI = {
    "threading.RLock", "threading.Lock", "collections.defaultdict", "inspect.isabstract",
    "abc.abstractmethod", "contextlib.contextmanager", "functools.partial", "functools.wraps",
    "functools.lru_cache", "functools.cache", "copy.deepcopy", "copy.copy", "contextlib.suppress",
    "contextlib.nullcontext", "contextlib.ExitStack", "operator.index", "abc.ABC", "itertools.chain",
    "operator.eq", "operator.ne", "operator.lt", "operator.le", "operator.gt", "operator.ge",
    "operator.contains", "operator.getitem", "operator.setitem", "operator.delitem", "operator.not_",
    "operator.truth", "operator.is_", "operator.is_not", "operator.add", "operator.sub", "operator.or_",
    "operator.and_", "operator.itemgetter", "operator.attrgetter", "operator.methodcaller",
    "itertools.filterfalse", "itertools.islice", "itertools.starmap", "functools.reduce",
}  # fmt: skip
_CMP = {"__eq__": "Eq", "__ne__": "NotEq", "__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}


def P(name, *args):
    return T("p", name, *args)


# modules of which only the modelled functions are interpreted
PURE = ("itertools", "functools", "operator", "heapq", "bisect", "collections", "copy", "types", "weakref", "contextlib")
# parameters of modelled functions that can be passed by name
SIGNATURES = {
    "os.replace": ("src", "dst"), "os.rename": ("src", "dst"), "os.remove": ("path",), "os.unlink": ("path",),
    "os.stat": ("path",), "os.fsync": ("fd",), "os.path.exists": ("path",), "os.path.getsize": ("filename",),
    "os.path.getmtime": ("filename",), "os.path.realpath": ("filename",), "os.path.dirname": ("p",),
    "os.path.basename": ("p",), "os.path.split": ("p",), "json.dumps": ("obj",), "json.loads": ("s",),
    "json.dump": ("obj", "fp"), "json.load": ("fp",), "open": ("file", "mode"),
}  # fmt: skip
# options of json.dumps that do not change the encoded data
LOSSLESS = ("cls", "indent", "sort_keys", "separators", "ensure_ascii", "check_circular", "allow_nan")


class ExtModel:
    def ext_attr(self, mod, name, st):
        p = f"{mod}.{name}"
        if mod in ("collections.abc", "_collections_abc"):
            return Ref("c:" + name) if st.get("c:" + name) is not None else Ext(p)
        if p == "collections.abc":
            return Mod("collections.abc")
        if p == "numpy.bool":
            return Ref("c:numpy.bool_")
        if p == "json.encoder.JSONEncoder":
            return Ref("c:json.JSONEncoder")
        if p in ("json.JSONDecodeError", "json.decoder.JSONDecodeError"):
            return Ref("c:JSONDecodeError")
        o = State.base.get("c:" + p)
        if o is not None and o.info.module == "builtins":
            return Ref("c:" + p)
        if p == "sys.platform":
            return K("linux")
        if p in ("os.sep", "os.path.sep"):
            return K("/")
        if mod == "errno":
            import errno

            return K(getattr(errno, name, 0))
        if p == "os.path":
            return Mod("os.path")
        if p in _EXT_BI:
            return BI(p)
        return Ext(p)

    # ------------------------------------------------------------------
    # calls of modelled callables
    # ------------------------------------------------------------------
    def call_model(self, fv, args, kw, st, node):
        f = getattr(self.hooks, "call_ext", None)
        if f:
            r = f(self, fv, args, kw, st, node)
            if r is not None:
                return r
        if isinstance(fv, BI):
            m = getattr(self, "b_" + fv.name.replace(".", "_"), None)
            if m is not None:
                return m(args, kw, st, node)
            if "." in fv.name:
                base, name = fv.name.rsplit(".", 1)
                if base in ("dict", "list", "str", "int", "set", "frozenset", "bytes", "tuple", "defaultdict") and args:
                    return self.call_bim(args[0], name, args[1:], kw, st, node)
                if base == "json.JSONEncoder" and name == "default":
                    return [(RAISE, self.mkexc("TypeError", "not serializable"), st)]
                o = State.base.get("c:" + base)
                if o is not None and "c:BaseException" in o.info.mro and name == "__init__":
                    return [(OK, NONE, st)]
            return self.ext_call(fv.name, args, kw, st, node)
        if isinstance(fv, BIM):
            return self.call_bim(fv.recv, fv.name, args, kw, st, node)
        if isinstance(fv, Ext):
            return self.ext_call(fv.path, args, kw, st, node)
        if isinstance(fv, T):
            if fv.op == "getter":
                return self.call_getter(fv, args[0], st, node)
            if fv.op == "attr":
                return self.opaque_method(fv.args[0], fv.args[1], args, kw, st, node)
            f = getattr(self.hooks, "term_method", None)
            r = f(self, fv, "__call__", args, kw, st, node) if f else None
            if r is not None:
                return r
            st = self.emit(st, "opaque_call", fn=fv, args=args, kw=kw)
            return [(OK, T("call", fv, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0]))), st)]
        return [(RAISE, self.mkexc("TypeError", "not callable"), st)]

    def positional(self, path, args, kw):
        """Pass the named arguments of a modelled function by position."""
        args, kw = list(args), dict(kw)
        for n in SIGNATURES.get(path, ())[len(args) :]:
            if n not in kw:
                break
            args.append(kw.pop(n))
        return args, kw

    def ext_call(self, path, args, kw, st, node):
        if kw:
            args, kw = self.positional(path, args, kw)
        m = getattr(self, "ext_" + path.replace(".", "_"), None)
        if m is not None:
            return m(args, kw, st, node)
        if path.split(".")[0] in PURE or "." not in path:
            raise Unsupported(f"{self.loc()}: call of {path}")
        st = self.emit(st, "ext_call", path=path, args=args, kw=kw)
        vals = tuple(args) + tuple(kw[k] for k in sorted(kw))
        if path.startswith("typing."):
            return [(OK, Ext(path), st)]
        return [(OK, T("call", path, vals), st)]

    def instantiate(self, c, args, kw, st, node):
        info = st.get(c.oid).info
        if info.builtin:
            m = getattr(self, "new_" + info.builtin.replace(".", "_"), None)
            if m is not None:
                return m(args, kw, st, node)
            if "c:BaseException" in info.mro:
                return [(OK, T("exc", c, args[0] if args and isinstance(args[0], (K, T)) else NONE), st)]
            return [(OK, T("call", info.builtin, tuple(args)), st)]
        init = self.class_lookup(c.oid, "__init__", st)
        if "c:BaseException" in info.mro and init is None:
            return [(OK, T("exc", c, args[0] if args and isinstance(args[0], (K, T)) else NONE), st)]
        new = self.class_lookup(c.oid, "__new__", st)
        if isinstance(new, (Fn, SM)):
            raise Unsupported(f"{self.loc()}: __new__ of {info.name}")
        if "c:SyncedCollection" in info.mro and self.abstract_methods(c.oid, st):
            return [(RAISE, self.mkexc("TypeError", f"abstract class {info.name}"), st)]
        r, st = self.alloc(st, f"{info.name}@{self.site(node)}", Inst(c, {}))
        st = self.emit(st, "new", ref=r, cls=c)
        if init is None:
            return [(OK, r, st)]
        return self._vals(self.call(BM(r, init), args, kw, st, node), lambda _, t: [(OK, r, t)])

    def abstract_methods(self, oid, st):
        seen, out = set(), []
        for c in st.get(oid).info.mro:
            for n, v in st.get(c).attrs.items():
                if n not in seen:
                    seen.add(n)
                    if self.is_abstract_val(v):
                        out.append(n)
        return out

    def is_abstract_val(self, v):
        if isinstance(v, Fn):
            return "abstract" in v.flags
        if isinstance(v, (CM, SM)):
            return self.is_abstract_val(v.fn)
        if isinstance(v, Prop):
            return any(self.is_abstract_val(f) for f in (v.fget, v.fset) if f is not None)
        return False

    def flag(self, v, f):
        if isinstance(v, Fn):
            return Fn(v.info, v.env, v.defaults, v.kwdefaults, v.flags | {f})
        if isinstance(v, CM):
            return CM(self.flag(v.fn, f))
        if isinstance(v, SM):
            return SM(self.flag(v.fn, f))
        if isinstance(v, Prop):
            return Prop(self.flag(v.fget, f), v.fset, v.fdel)
        return v

    # constructors of builtin classes ----------------------------------
    def new_object(self, args, kw, st, node):
        r, st = self.alloc(st, "object@" + self.site(node), Inst(Ref("c:object"), {}))
        return [(OK, r, st)]

    def new_RLock(self, args, kw, st, node):
        return self.b_threading_RLock(args, kw, st, node)

    def new_type(self, args, kw, st, node):
        if len(args) == 1:
            return [(OK, self.type_of(args[0], st), st)]
        raise Unsupported(f"{self.loc()}: dynamic class creation")

    def new_dict(self, args, kw, st, node):
        r, st = self.alloc(st, self.site(node), DictObj(()))
        outs = [(OK, r, st)]
        if args:
            outs = self.dict_update(r, args[0], st, node, quiet=True)

        def go(_, t):
            for k, v in kw.items():
                if k == "**":
                    t = self.dict_update(r, v, t, node, quiet=True)[0][2]
                else:
                    t = self.dict_set(r, K(k), v, t, quiet=True)
            return [(OK, r, t)]

        return self._vals(outs, go)

    def new_list(self, args, kw, st, node, kind="list"):
        if not args:
            r, st = self.alloc(st, self.site(node), ListObj((), kind=kind))
            return [(OK, r, st)]

        def go(segs, t):
            r, t = self.alloc(t, self.site(node), self.list_from_segs(segs, kind))
            return [(OK, r, t)]

        return self._vals(self.seq_segments(args[0], st, node), go)

    def new_set(self, args, kw, st, node):
        def go(r, t):
            its = t.get(r.oid).items
            if its is None or not all(isinstance(x, K) for x in its):
                return [(OK, r, t)]
            return [(OK, r, t.put(r.oid, ListObj(tuple(dict.fromkeys(its)), kind="set")))]

        return self._vals(self.new_list(args, kw, st, node, "set"), go)

    def b_dict_fromkeys(self, args, kw, st, node):
        val = args[1] if len(args) > 1 else NONE
        r, st = self.alloc(st, self.site(node), DictObj(()))

        def go(keys, t):
            for k in keys:
                t = self.dict_set(r, k, val, t, quiet=True)
            return [(OK, r, t)]

        return self._vals(self.as_items(args[0], st, node), go)

    def new_frozenset(self, args, kw, st, node):
        if not args:
            return [(OK, K(frozenset()), st)]
        a = args[0]
        items = None
        if isinstance(a, Tup):
            items = a.items
        elif isinstance(a, Ref) and isinstance(st.get(a.oid), ListObj):
            items = st.get(a.oid).items
        elif isinstance(a, K) and isinstance(a.v, frozenset):
            return [(OK, a, st)]
        if items is not None and all(isinstance(x, K) for x in items):
            return [(OK, K(frozenset(x.v for x in items)), st)]
        return self.new_list(args, kw, st, node, "set")

    def new_tuple(self, args, kw, st, node):
        if not args:
            return [(OK, Tup(()), st)]

        def go(segs, t):
            if all(s[0] == "i" for s in segs):
                return [(OK, Tup(tuple(s[1] for s in segs)), t)]
            return [(OK, T("tupleof", T("cat", tuple(segs))), t)]

        return self._vals(self.seq_segments(args[0], st, node), go)

    def new_str(self, args, kw, st, node):
        if not args:
            return [(OK, K(""), st)]
        a = args[0]
        if isinstance(a, K) and isinstance(a.v, (str, int, float, bool, type(None))):
            return [(OK, K(str(a.v)), st)]
        if isinstance(a, Ref) and isinstance(st.get(a.oid), Inst):
            for m in ("__str__", "__repr__"):
                if self.has_method(a, m, st):
                    return self.call_special(a, m, [], st, node)
        if isinstance(a, Ref):
            st = self.emit(st, "cread", ref=a, how="str")
        return [(OK, T("str", self.tree(a, st)), st)]

    def new_bytes(self, args, kw, st, node):
        return [(OK, T("bytesof", tuple(args)), st)]

    def new_int(self, args, kw, st, node):
        if args and isinstance(args[0], K):
            try:
                return [(OK, K(int(args[0].v)), st)]
            except Exception as e:
                return [(RAISE, self.mkexc(type(e).__name__), st)]
        if args and isinstance(args[0], T):
            x = args[0].args[0] if args[0].op == "numstr" else args[0]
            if isinstance(x, K) and type(x.v) is int or isinstance(x, T) and self.kinds_of(x, st) == {"int"}:
                return [(OK, x, st)]
        return [(OK, T("int", *args), st)]

    def new_float(self, args, kw, st, node):
        if args and isinstance(args[0], T):
            x = args[0].args[0] if args[0].op == "numstr" else args[0]
            if isinstance(x, K) and type(x.v) is float or isinstance(x, T) and self.kinds_of(x, st) == {"float"}:
                return [(OK, x, st)]
        return [(OK, T("float", *args), st)]

    def new_bool(self, args, kw, st, node):
        if not args:
            return [(OK, FALSE, st)]
        return [(OK, K(b[1]), b[2]) if b[0] != RAISE else b for b in self.truth(args[0], st, node)]

    def new_slice(self, args, kw, st, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return [(OK, Slc(*a), st)]

    def new_range(self, args, kw, st, node):
        a = list(args)
        if len(a) == 1:
            a = [K(0), a[0], K(1)]
        elif len(a) == 2:
            a = a + [K(1)]
        return [(OK, T("range", *a), st)]

    def new_property(self, args, kw, st, node):
        a = list(args) + [None] * 3
        for i, n in enumerate(("fget", "fset", "fdel")):
            if n in kw:
                a[i] = kw[n]
        return [(OK, Prop(a[0], a[1], a[2]), st)]

    def new_classmethod(self, args, kw, st, node):
        return [(OK, CM(args[0]), st)]

    def new_staticmethod(self, args, kw, st, node):
        return [(OK, SM(args[0]), st)]

    def new_super(self, args, kw, st, node):
        return [(OK, Sup(args[0].oid, args[1]), st)]

    def new_json_JSONEncoder(self, args, kw, st, node):
        return [(OK, T("call", "json.JSONEncoder", ()), st)]

    # object.* ----------------------------------------------------------
    def b_object___init__(self, args, kw, st, node):
        if len(args) > 1 or kw:
            return [(RAISE, self.mkexc("TypeError", "object.__init__() takes exactly one argument"), st)]
        return [(OK, NONE, st)]

    def b_object___init_subclass__(self, args, kw, st, node):
        return [(OK, NONE, st)]

    def b_object___setattr__(self, args, kw, st, node):
        v, n, x = args
        if not isinstance(n, K):
            return [(OK, NONE, self.emit(st, "dyn_setattr", ref=v, name=n, val=x))]
        return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.raw_setattr(v, n.v, x, st, node)]

    def b_object___delattr__(self, args, kw, st, node):
        v, n = args
        if not isinstance(n, K):
            return [(OK, NONE, self.emit(st, "dyn_delattr", ref=v, name=n))]
        return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.raw_delattr(v, n.v, st)]

    def b_object___getattribute__(self, args, kw, st, node):
        v, n = args
        if not isinstance(n, K):
            return [(OK, T("ownattr", v, n), st)]
        o = st.get(v.oid)
        f = self.class_lookup(o.cls.oid, n.v, st)
        if isinstance(f, Prop):
            return self.call(f.fget, [v], {}, st, node)
        if n.v in o.attrs:
            return [(OK, o.attrs[n.v], st)]
        if f is not None:
            return self.bind_attr(f, v, o.cls, st, node)
        return [(RAISE, self.mkexc("AttributeError", n), st)]

    def b_object___eq__(self, args, kw, st, node):
        return [(OK, K(args[0] == args[1]), st)]

    def b_object___ne__(self, args, kw, st, node):
        return [(OK, K(args[0] != args[1]), st)]

    def b_object___hash__(self, args, kw, st, node):
        return [(OK, T("hash", args[0]), st)]

    def b_object___repr__(self, args, kw, st, node):
        return [(OK, T("repr", args[0]), st)]

    b_object___str__ = b_object___repr__

    # functions ---------------------------------------------------------
    def b_GenericAlias(self, args, kw, st, node):
        return [(OK, NONE, st)]

    def b_abstractmethod(self, args, kw, st, node):
        return [(OK, self.flag(args[0], "abstract"), st)]

    b_abc_abstractmethod = b_abstractmethod

    def b_contextlib_contextmanager(self, args, kw, st, node):
        return [(OK, self.flag(args[0], "cm"), st)]

    def b_functools_partial(self, args, kw, st, node):
        return [(OK, Partial(args[0], tuple(args[1:]), tuple(sorted(kw.items(), key=lambda x: x[0]))), st)]

    def b_functools_wraps(self, args, kw, st, node):
        return [(OK, BI("identity"), st)]

    def b_identity(self, args, kw, st, node):
        return [(OK, args[0], st)]

    def b_functools_cache(self, args, kw, st, node):
        return [(OK, self.flag(args[0], "cached"), st)]

    def b_functools_lru_cache(self, args, kw, st, node):
        if args and isinstance(args[0], (Fn, CM, SM)):
            return [(OK, self.flag(args[0], "cached"), st)]
        return [(OK, BI("functools.cache"), st)]

    def b_contextlib_suppress(self, args, kw, st, node):
        r, st = self.alloc(
            st, "suppress@" + self.site(node), Inst(Ref(self.ext_class(Ext("suppress"))), {"excs": Tup(tuple(args))})
        )
        return [(OK, r, st)]

    def b_contextlib_nullcontext(self, args, kw, st, node):
        r, st = self.alloc(
            st,
            "nullcontext@" + self.site(node),
            Inst(Ref(self.ext_class(Ext("nullcontext"))), {"v": args[0] if args else NONE}),
        )
        return [(OK, r, st)]

    def b_contextlib_ExitStack(self, args, kw, st, node):
        l, st = self.alloc(st, "exitstacklist@" + self.site(node), ListObj(()))
        r, st = self.alloc(st, "ExitStack@" + self.site(node), Inst(Ref(self.ext_class(Ext("ExitStack"))), {"l": l}))
        return [(OK, r, st)]

    def b_operator_contains(self, args, kw, st, node):
        return self.contains(args[0], args[1], st, node)

    def b_operator_getitem(self, args, kw, st, node):
        return self.getitem(args[0], args[1], st, node)

    def b_operator_setitem(self, args, kw, st, node):
        return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.setitem(args[0], args[1], args[2], st, node)]

    def b_operator_delitem(self, args, kw, st, node):
        return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.delitem(args[0], args[1], st, node)]

    def b_operator_truth(self, args, kw, st, node):
        return self.new_bool(args, kw, st, node)

    def b_operator_not_(self, args, kw, st, node):
        return [(OK, K(not q[1].v), q[2]) if q[0] == OK else q for q in self.new_bool(args, kw, st, node)]

    def b_operator_itemgetter(self, args, kw, st, node):
        if len(args) != 1:
            raise Unsupported(f"{self.loc()}: itemgetter of several items")
        return [(OK, T("getter", "item", args[0]), st)]

    def b_operator_attrgetter(self, args, kw, st, node):
        if len(args) != 1 or not isinstance(args[0], K) or "." in args[0].v:
            raise Unsupported(f"{self.loc()}: attrgetter")
        return [(OK, T("getter", "attr", args[0]), st)]

    def b_operator_methodcaller(self, args, kw, st, node):
        if kw or not isinstance(args[0], K):
            raise Unsupported(f"{self.loc()}: methodcaller with keywords")
        return [(OK, T("getter", "call", args[0], *args[1:]), st)]

    def call_getter(self, g, x, st, node):
        if g.args[0] == "item":
            return self.getitem(x, g.args[1], st, node)
        outs = self.getattr_(x, g.args[1].v, st, node)
        if g.args[0] == "attr":
            return outs
        return self._vals(outs, lambda f, t: self.call(f, list(g.args[2:]), {}, t, node))

    def b_filter(self, args, kw, st, node):
        return [(OK, T("filtercall", args[0], args[1], TRUE), st)]

    def b_itertools_filterfalse(self, args, kw, st, node):
        return [(OK, T("filtercall", args[0], args[1], FALSE), st)]

    def b_itertools_starmap(self, args, kw, st, node):
        return [(OK, T("starcall", args[0], args[1]), st)]

    def b_itertools_islice(self, args, kw, st, node):
        def go(s, t):
            if s[0] != "closed" or not all(isinstance(x, K) for x in args[1:]):
                raise Unsupported(f"{self.loc()}: islice of an opaque sequence")
            import itertools

            return [(OK, T("iter", Tup(tuple(itertools.islice(s[1], *[x.v for x in args[1:]])))), t)]

        return self._vals(self.iter_source(args[0], st, node), go)

    def b_functools_reduce(self, args, kw, st, node):
        def go(items, t):
            items = list(items)
            if len(args) > 2:
                items.insert(0, args[2])
            if not items:
                return [(RAISE, self.mkexc("TypeError", "reduce() of empty iterable"), t)]
            cur = [(OK, items[0], t)]
            for x in items[1:]:
                cur = self._vals(cur, lambda acc, s, x=x: self.call(args[0], [acc, x], {}, s, node))
            return cur

        return self._vals(self.as_items(args[1], st, node), go)

    def b_operator_index(self, args, kw, st, node):
        return [(OK, args[0], st)]

    def b_itertools_chain(self, args, kw, st, node):
        res = [(OK, [], st)]
        for a in args:
            res = self._vals(
                res,
                lambda pre, t, a=a: [
                    (OK, pre + list(q[1]), q[2]) if q[0] == OK else q for q in self.seq_segments(a, t, node)
                ],
            )

        def go(segs, t):
            r, t = self.alloc(t, self.site(node), self.list_from_segs(segs))
            return [(OK, r, t)]

        return self._vals(res, go)

    def b_isinstance(self, args, kw, st, node):
        return [(OK, K(b), s) for b, s in self.isinstance_(args[0], args[1], st)]

    def b_issubclass(self, args, kw, st, node):
        c, of = args
        cl = self.flatten_classes(of, st)
        if isinstance(c, Ref):
            o = st.get(c.oid)
            for x in cl:
                if isinstance(x, Ref) and x.oid in o.info.mro:
                    return [(OK, TRUE, st)]
                if isinstance(x, Ref) and o.info.builtin:
                    from .builtins_model import KIND_CLASSES

                    if x.oid[2:] in KIND_CLASSES.get(o.info.name, ()):
                        return [(OK, TRUE, st)]
            return [(OK, FALSE, st)]
        if isinstance(c, T) and c.op == "type":
            return [(OK, K(b), s) for b, s in self.isinstance_(c.args[0], of, st)]
        return [(OK, P("issub", c, tuple(cl)), st)]

    def b_len(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Tup):
            return [(OK, K(len(v.items)), st)]
        if isinstance(v, K):
            try:
                return [(OK, K(len(v.v)), st)]
            except TypeError:
                return [(RAISE, self.mkexc("TypeError"), st)]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, (DictObj, ListObj)):
                st = self.emit(st, "cread", ref=v, how="len")
                if o.items is not None:
                    return [(OK, K(len(o.items)), st)]
                return [(OK, self.lenterm(o.content), st)]
            if isinstance(o, Inst):
                return self.call_special(v, "__len__", [], st, node)
        if isinstance(v, T):
            if v.op == "dview":
                return self.b_len([v.args[1]], {}, st, node)
            if v.op in ("arg", "elem", "val", "item"):
                st = self.emit(st, "argread", val=v)
            return [(OK, T("len", v), st)]
        return [(RAISE, self.mkexc("TypeError"), st)]

    def lenterm(self, c):
        if isinstance(c, T) and c.op == "cat":
            r = K(0)
            for s in c.args[0]:
                r = linadd(r, K(1) if s[0] == "i" else self.lenterm(s[1]))
            return r
        if isinstance(c, T) and c.op == "lset" and not isinstance(c.args[1], Slc):
            return self.lenterm(c.args[0])
        if isinstance(c, T) and c.op == "lmap":
            return self.lenterm(c.args[0])
        return T("len", c)

    def b_iter(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst):
                return self.call_special(v, "__iter__", [], st, node)
            if isinstance(o, Gen):
                return [(OK, v, st)]
        if isinstance(v, T) and v.op in ("iter", "zip", "enumerate", "reversed", "mapcall", "filtercall", "starcall"):
            return [(OK, v, st)]
        if isinstance(v, K) and not isinstance(v.v, (str, bytes, frozenset)):
            return [(RAISE, self.mkexc("TypeError", "not iterable"), st)]
        return [(OK, T("iter", v), st)]

    def b_next(self, args, kw, st, node):
        v = args[0]
        f = self.first_of(v, st)
        if f is not None:
            c, first, ref = f
            if ref is not None:
                st = self.emit(st, "cread", ref=ref, how="iter")
            out = []
            for b, s in self.decide(P("nonempty", c), st):
                if b:
                    out.append((OK, first, s))
                elif len(args) > 1:
                    out.append((OK, args[1], s))
                else:
                    out.append((RAISE, self.mkexc("StopIteration"), s))
            return out
        if isinstance(v, Ref) and isinstance(st.get(v.oid), Gen):
            outs = []
            for o in self.drive_gen(v, st, lambda x, t: [(BRK, x, t)]):
                if o[0] == BRK:
                    outs.append((OK, o[1], o[2]))
                elif o[0] == NEXT:
                    outs.append((OK, args[1], o[2]) if len(args) > 1 else (RAISE, self.mkexc("StopIteration"), o[2]))
                else:
                    outs.append(o)
            return outs
        return [(OK, T("next", v, *args[1:]), st)]

    def first_of(self, v, st, last=False):
        """(content, first element, object) of a fresh iterator, None if not known."""
        if isinstance(v, T) and v.op == "iter":
            return self.first_of(v.args[0], st, last)
        if isinstance(v, T) and v.op == "reversed":
            return self.first_of(v.args[0], st, not last)
        if isinstance(v, T) and v.op == "dview":
            f = self.first_of(v.args[1], st, last)
            if f is None or v.args[0] == "keys":
                return f
            x = T("val", f[0], f[1])
            o = f[2] is not None and st.get(f[2].oid)
            if isinstance(o, DictObj) and o.items:
                x = dict(o.items)[f[1]]
            return f[0], x if v.args[0] == "values" else Tup((f[1], x)), f[2]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if not isinstance(o, (DictObj, ListObj)):
                return None
            c, isd = self.content(v, st), isinstance(o, DictObj)
            if o.items:
                x = o.items[-1 if last else 0]
                return c, x[0] if isd else x, v
        elif isinstance(v, T):
            c, ks = v, self.kinds_of(v, st)
            if not ks or not (ks <= {"dict"} or ks <= {"list", "tuple"}):
                return None
            isd, v = ks <= {"dict"}, None
        else:
            return None
        if isd:
            return c, T("lastkey", c) if last else T("key", c, "first"), v
        return c, T("item", c, K(-1 if last else 0)), v

    def b_hasattr(self, args, kw, st, node):
        v, n = args
        if not isinstance(n, K):
            return [(OK, P("hasattr", v, n), st)]
        res = []
        for q in self.getattr_(v, n.v, st, node):
            if q[0] == OK:
                if isinstance(v, T) and (isinstance(q[1], BIM) or (isinstance(q[1], T) and q[1].op == "attr")):
                    res.append((OK, P("hasattr", v, n), q[2]))
                else:
                    res.append((OK, TRUE, q[2]))
            elif self.exc_is(q[1], q[2], "AttributeError"):
                res.append((OK, FALSE, q[2]))
            else:
                res.append(q)
        return res

    def b_getattr(self, args, kw, st, node):
        v, n = args[0], args[1]
        if not isinstance(n, K):
            return [(OK, T("dynattr", v, n), st)]
        res = []
        for q in self.getattr_(v, n.v, st, node):
            if q[0] == RAISE and len(args) > 2 and self.exc_is(q[1], q[2], "AttributeError"):
                res.append((OK, args[2], q[2]))
            else:
                res.append(q)
        return res

    def b_setattr(self, args, kw, st, node):
        v, n, x = args
        if isinstance(n, K):
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.setattr_(v, n.v, x, st, node)]
        raise Unsupported(f"{self.loc()}: setattr with a computed name")

    def b_delattr(self, args, kw, st, node):
        v, n = args
        if isinstance(n, K):
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.delattr_(v, n.v, st, node)]
        raise Unsupported(f"{self.loc()}: delattr with a computed name")

    def b_id(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            return [(OK, K("id:" + v.oid), st)]
        return [(OK, T("id", v), st)]

    def b_repr(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            if isinstance(st.get(v.oid), Inst) and self.has_method(v, "__repr__", st):
                return self.call_special(v, "__repr__", [], st, node)
            st = self.emit(st, "cread", ref=v, how="str")
        return [(OK, T("repr", self.tree(v, st)), st)]

    def b_hash(self, args, kw, st, node):
        return [(OK, T("hash", args[0]), st)]

    def _minmax(self, name, args, kw, st, node):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, T) or (isinstance(v, Ref) and getattr(st.get(v.oid), "items", None) is None):
                return [(OK, T(name, v), st)]
            q = self.as_items(v, st, node)
            args, st = q[0][1], q[0][2]
        if all(isinstance(a, K) for a in args):
            return [(OK, K((min if name == "min" else max)(a.v for a in args)), st)]
        return [(OK, T(name, frozenset(args)), st)]

    def b_min(self, args, kw, st, node):
        return self._minmax("min", args, kw, st, node)

    def b_max(self, args, kw, st, node):
        return self._minmax("max", args, kw, st, node)

    def b_sum(self, args, kw, st, node):
        def go(segs, t):
            r = args[1] if len(args) > 1 else K(0)
            if all(s[0] == "i" and self.numlike(s[1], t) for s in segs):
                for s in segs:
                    r = linadd(r, s[1])
                return [(OK, r, t)]
            return [(OK, T("sum", T("cat", tuple(segs))), t)]

        return self._vals(self.seq_segments(args[0], st, node), go)

    def b_abs(self, args, kw, st, node):
        return [(OK, T("abs", *args), st)]

    def _allany(self, stop, args, st, node):
        def body(v, t):
            r = []
            for b in self.truth(v, t, node):
                if b[0] == RAISE:
                    r.append(b)
                elif b[1] == stop:
                    r.append((BRK, None, b[2]))
                else:
                    r.append((NEXT, None, b[2]))
            return r

        m = {NEXT: K(not stop), BRK: K(stop)}
        return [(OK, m[o[0]], o[2]) if o[0] in m else o for o in self.loop(args[0], st, body, node, None)]

    def b_all(self, args, kw, st, node):
        return self._allany(False, args, st, node)

    def b_any(self, args, kw, st, node):
        return self._allany(True, args, st, node)

    def b_sorted(self, args, kw, st, node):
        def go(segs, t):
            if all(s[0] == "i" for s in segs):
                r, t = self.alloc(t, self.site(node), self.list_from_segs(segs))
            else:
                c = segs[0][1] if len(segs) == 1 else T("cat", tuple(segs))
                r, t = self.alloc(t, self.site(node), ListObj(None, T("sorted", c)))
            return [(OK, r, t)]

        return self._vals(self.seq_segments(args[0], st, node), go)

    def b_reversed(self, args, kw, st, node):
        v = args[0]
        if self.has_method(v, "__reversed__", st):
            return self.call_special(v, "__reversed__", [], st, node)
        return [(OK, T("reversed", v), st)]

    def b_enumerate(self, args, kw, st, node):
        return [(OK, T("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start", K(0))), st)]

    def b_zip(self, args, kw, st, node):
        return [(OK, T("zip", tuple(args)), st)]

    def b_map(self, args, kw, st, node):
        if len(args) > 2:
            return [(OK, T("starcall", args[0], T("zip", tuple(args[1:]))), st)]
        return [(OK, T("mapcall", args[0], args[1]), st)]

    def b_callable(self, args, kw, st, node):
        v = args[0]
        return [(OK, K(isinstance(v, (Fn, BM, BI, BIM)) or (isinstance(v, Ref) and isinstance(st.get(v.oid), ClsObj))), st)]

    def b_print(self, args, kw, st, node):
        return [(OK, NONE, st)]

    def b_vars(self, args, kw, st, node):
        return self.getattr_(args[0], "__dict__", st, node)

    def b_round(self, args, kw, st, node):
        return [(OK, T("round", *args), st)]

    def b_threading_RLock(self, args, kw, st, node, plain=False):
        r, st = self.alloc(st, "lock@" + self.site(node), Inst(Ref("c:RLock"), {"plain": TRUE} if plain else {}))
        return [(OK, r, self.emit(st, "newlock", ref=r))]

    def b_threading_Lock(self, args, kw, st, node):
        return self.b_threading_RLock(args, kw, st, node, True)

    def b_collections_defaultdict(self, args, kw, st, node):
        r, st = self.alloc(st, self.site(node), DictObj((), None, args[0] if args else None))
        return [(OK, r, st)]

    def b_inspect_isabstract(self, args, kw, st, node):
        return [(OK, K(bool(self.abstract_methods(args[0].oid, st))), st)]

    def b_copy_deepcopy(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst) and self.has_method(v, "__deepcopy__", st):
                return self.call_special(v, "__deepcopy__", [T("memo")], st, node)
            if isinstance(o, (DictObj, ListObj)):
                st = self.emit(st, "cread", ref=v, how="all")
                c = self.tree(v, st)
                r, st = self.alloc(
                    st,
                    self.site(node),
                    self.dict_from(c) if isinstance(o, DictObj) else self.list_from_segs(self.segs(c), o.kind),
                )
                return [(OK, r, st)]
        if isinstance(v, K):
            return [(OK, v, st)]
        return [(OK, T("deepcopy", self.tree(v, st)), st)]

    def b_copy_copy(self, args, kw, st, node):
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, (DictObj, ListObj)):
                st = self.emit(st, "cread", ref=v, how="all")
                r, st = self.alloc(st, self.site(node), o)
                return [(OK, r, st)]
        return [(OK, T("copy", v), st)]

    # ------------------------------------------------------------------
    # files and encoders
    # ------------------------------------------------------------------
    def tree(self, v, st, depth=0):
        """Plain content denoted by a value (nested objects expanded)."""
        if depth > 10:
            return v
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, Inst) and "_data" in o.attrs:
                return self.tree(o.attrs["_data"], st, depth + 1)
            if isinstance(o, (DictObj, ListObj)):
                return self.tree(self.content(v, st), st, depth + 1)
            return v
        if isinstance(v, Tup):
            return Tup(tuple(self.tree(x, st, depth + 1) for x in v.items))
        if isinstance(v, T):
            n = tuple(self._tree_arg(x, st, depth + 1) for x in v.args)
            return v if n == v.args else T(v.op, *n)
        return v

    def _tree_arg(self, x, st, depth):
        if isinstance(x, tuple):
            return tuple(self._tree_arg(y, st, depth) for y in x)
        if isinstance(x, (Ref, T, Tup)):
            return self.tree(x, st, depth)
        return x

    def ver(self, path, st):
        return K(st.mon.get(("ver", path), 0))

    def inj(self, st, what):
        """Mark a failure of the environment."""
        return st.setm("inj", what)

    def perm(self, st):
        return (RAISE, self.mkexc("PermissionError", K(13)), self.inj(st, "io"))

    def enoent(self, st):
        return (RAISE, self.mkexc("FileNotFoundError", K(2)), st)

    def exists(self, path, st):
        """-> [(bool, st)]: whether a file is there."""
        c = st.mon.get(("file", path))
        if c is not None:
            return [(c != NONE, st)]
        return self.decide(P("exists", path), st)

    def fdata(self, path, st):
        c = st.mon.get(("file", path))
        return T("filedata", path, self.ver(path, st)) if c is None else c

    def fset(self, path, c, st):
        """The content of a file changes: None when it is removed."""
        k = ("ver", path)
        return st.setm(k, st.mon.get(k, 0) + 1).setm(("file", path), c)

    def b_open(self, args, kw, st, node):
        args, kw = self.positional("open", args, kw)
        path = args[0]
        mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
        m = mode.v if isinstance(mode, K) else "?"
        st = self.emit(st, "open_try", path=path, mode=m)
        f = Inst(Ref("c:file"), {"path": path, "mode": K(m)})
        if set(m) & set("wax+?"):
            out = [self.perm(st)]
            r, t = self.alloc(st, "file@" + self.site(node), f)
            t = self.emit(t, "open_write", path=path, mode=m, ref=r)
            if "w" in m or "?" in m:
                t = self.fset(path, T("empty"), t)
            out.append((OK, r, t))
            return out
        out = [self.perm(st)]
        for b, t in self.exists(path, st):
            if b:
                r, t = self.alloc(t, "file@" + self.site(node), f)
                out.append((OK, r, self.emit(t, "open_read", path=path, ref=r)))
            else:
                out.append(self.enoent(t))
        return out

    def ext_os_stat(self, args, kw, st, node):
        p = args[0]
        st = self.emit(st, "stat", path=p)
        return [self.perm(st)] + [
            (OK, T("stat", p, self.ver(p, t)), t) if b else self.enoent(t) for b, t in self.exists(p, st)
        ]

    def ext_os_path_split(self, args, kw, st, node):
        return [(OK, Tup((T("dirname", args[0]), T("basename", args[0]))), st)]

    def ext_os_path_dirname(self, args, kw, st, node):
        return [(OK, T("dirname", args[0]), st)]

    def ext_os_path_basename(self, args, kw, st, node):
        return [(OK, T("basename", args[0]), st)]

    def ext_os_path_join(self, args, kw, st, node):
        if tuple(args) and len(args) == 2 and isinstance(args[0], T) and args[0].op == "dirname":
            if args[1] == T("basename", args[0].args[0]):
                return [(OK, args[0].args[0], st)]
        return [(OK, T("join", tuple(args)), st)]

    def ext_os_path_realpath(self, args, kw, st, node):
        return [(OK, T("realpath", args[0]), st)]

    def ext_os_replace(self, args, kw, st, node, how="os.replace"):
        t = self.emit(st, "replace", src=args[0], dst=args[1], how=how)
        t = self.fset(args[1], self.fdata(args[0], t), t)
        return [self.perm(st), (OK, NONE, self.fset(args[0], NONE, t))]

    def ext_os_rename(self, args, kw, st, node):
        return self.ext_os_replace(args, kw, st, node, "os.rename")

    def ext_shutil_move(self, args, kw, st, node):
        return self.ext_os_replace(args, kw, st, node, "shutil.move")

    def ext_shutil_copy(self, args, kw, st, node, how="shutil.copy"):
        t = self.emit(st, "copyfile", src=args[0], dst=args[1], how=how)
        return [self.perm(st), (OK, NONE, self.fset(args[1], self.fdata(args[0], t), t))]

    ext_shutil_copyfile = ext_shutil_copy
    ext_shutil_copy2 = ext_shutil_copy

    def ext_os_remove(self, args, kw, st, node):
        return [self.perm(st)] + [
            (OK, NONE, self.fset(args[0], NONE, self.emit(t, "remove", path=args[0]))) if b else self.enoent(t)
            for b, t in self.exists(args[0], st)
        ]

    ext_os_unlink = ext_os_remove

    def ext_os_path_exists(self, args, kw, st, node):
        st = self.emit(st, "stat", path=args[0])
        return [(OK, K(b), t) for b, t in self.exists(args[0], st)]

    ext_os_path_isfile = ext_os_path_exists

    def _statattr(self, name, args, st):
        st = self.emit(st, "stat", path=args[0])
        return [
            (OK, T("attr", T("stat", args[0], self.ver(args[0], t)), name), t) if b else self.enoent(t)
            for b, t in self.exists(args[0], st)
        ]

    def ext_os_path_getmtime(self, args, kw, st, node):
        return self._statattr("st_mtime", args, st)

    def ext_os_path_getsize(self, args, kw, st, node):
        return self._statattr("st_size", args, st)

    def ext_os_fsync(self, args, kw, st, node):
        return [(OK, NONE, st)]

    def ext_uuid_uuid4(self, args, kw, st, node):
        return [(OK, T("uuid"), st)]

    def ext_warnings_warn(self, args, kw, st, node):
        return [(OK, NONE, st)]

    def ext_logging_getLogger(self, args, kw, st, node):
        return [(OK, Ext("logger"), st)]

    def ext_json_dumps(self, args, kw, st, node):
        opts = tuple(sorted(kw.items(), key=lambda x: x[0]))
        st = self.emit(st, "dumps", val=args[0], opts=opts)
        bad = self.emit(st, "dumps_fail", val=args[0]).note(f"{self.loc()}: serialization fails")
        return [
            (OK, T("json", self.tree(args[0], st), opts), st),
            (RAISE, self.mkexc("TypeError", "not serializable"), self.inj(bad, "dumps")),
            (RAISE, self.mkexc("ValueError", "not serializable"), self.inj(bad, "dumps")),
        ]

    def ext_json_dump(self, args, kw, st, node):
        fh = args[1]
        opts = tuple(sorted(kw.items(), key=lambda x: x[0]))
        st = self.emit(st, "dumps", val=args[0], opts=opts)
        bad = self.emit(st, "dumps_fail", val=args[0]).note(f"{self.loc()}: serialization fails")
        # json.dump writes in chunks: a failure leaves a partial file
        part = self.emit(bad, "file_write_fail", path=T("?"), ref=fh)
        res = [(RAISE, self.mkexc("TypeError", "not serializable"), self.inj(part, "dumps"))]
        return res + self._vals(
            self.call_special(fh, "write", [T("json", self.tree(args[0], st), opts)], st, node),
            lambda _, t: [(OK, NONE, t)],
        )

    def ext_json_loads(self, args, kw, st, node):
        v = args[0]
        st = self.emit(st, "loads", val=v, opts=tuple(sorted(kw)))
        x = v
        while isinstance(x, T) and x.op in ("encoded", "decoded"):
            x = x.args[0]
        hooks = {k: h for k, h in kw.items() if not self.neutral_option(k, h)}
        if isinstance(x, T) and x.op == "json" and "cls" not in hooks and not [k for k, _ in x.args[1] if k not in LOSSLESS]:
            if not hooks:
                return self.copy_plain(x.args[0], st, node)
            v, st = self.fresh_plain(x.args[0], st, "loads@" + self.site(node))
            return self.decode_hooks(v, hooks, st, node)
        kw = hooks
        return [
            (OK, T("loads", v, tuple(sorted(kw))), st),
            (RAISE, self.mkexc("JSONDecodeError", "bad json"), self.inj(st.note(f"{self.loc()}: unparsable"), "parse")),
        ]

    def neutral_option(self, name, h):
        """Options of json.loads that do not change the decoded data."""
        if h == NONE or name in ("strict", "parse_constant"):
            return True
        want = {"parse_float": "float", "parse_int": "int", "object_hook": "dict", "object_pairs_hook": "dict"}.get(name)
        return want is not None and h in (Ref("c:" + want), BI(want))

    def decode_hooks(self, v, hooks, st, node):
        """Apply the decoder options to freshly decoded data, leaves first."""
        o = st.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, (DictObj, ListObj)) and o.items is not None:
            isd = isinstance(o, DictObj)
            cur, res = [((), st)], []
            for it in o.items:
                nxt = []
                for done, s in cur:
                    for q in self.decode_hooks(it[1] if isd else it, hooks, s, node):
                        if q[0] != OK:
                            res.append(q)
                        else:
                            nxt.append((done + (((it[0], q[1]) if isd else q[1]),), q[2]))
                cur = nxt
            for done, s in cur:
                s = s.put(v.oid, DictObj(done) if isd else ListObj(done))
                if isd and "object_pairs_hook" in hooks:
                    r, s = self.alloc(s, "pairs@" + self.site(node), ListObj(tuple(Tup(x) for x in done)))
                    res += self.call(hooks["object_pairs_hook"], [r], {}, s, node)
                elif isd and "object_hook" in hooks:
                    res += self.call(hooks["object_hook"], [v], {}, s, node)
                else:
                    res.append((OK, v, s))
            return res
        ks = self.kinds_of(v, st) if isinstance(v, T) else {type(v.v).__name__} if isinstance(v, K) else set()
        for name, kind in (("parse_float", "float"), ("parse_int", "int")):
            if name in hooks and set(ks) == {kind}:
                return self.call(hooks[name], [T("numstr", v)], {}, st, node)
        return [(OK, v, st)]

    def lossless_encoding(self, v, args, kw):
        if isinstance(v, T) and v.op == "json" and dict(v.args[1]).get("ensure_ascii", TRUE) == TRUE:
            return True  # plain ASCII
        enc = args[0] if args else kw.get("encoding", K("utf-8"))
        err = args[1] if len(args) > 1 else kw.get("errors", K("strict"))
        return isinstance(enc, K) and str(enc.v).lower().replace("_", "-") in ("utf-8", "utf8") and err == K("strict")

    def ext_json_load(self, args, kw, st, node):
        return self._vals(
            self.call_special(args[0], "read", [], st, node), lambda b, t: self.ext_json_loads([b], kw, t, node)
        )

    def copy_plain(self, x, st, node):
        """A fresh container with the given plain content."""
        v, st = self.fresh_plain(x, st, "loads@" + self.site(node))
        return [(OK, v, st)]

    def fresh_plain(self, x, st, site):
        if isinstance(x, T) and x.op in ("dlit", "dset", "ddel", "dupd"):
            o = self.dict_from(x)
            if o.items is not None:
                items = []
                for k, v in o.items:
                    v, st = self.fresh_plain(v, st, site)
                    items.append((k, v))
                o = DictObj(tuple(items))
            return self.alloc(st, site, o)
        if isinstance(x, Tup):
            x = T("cat", tuple(("i", y) for y in x.items))
        if isinstance(x, T) and x.op in ("cat", "lset", "ldel", "lrev", "lins"):
            o = self.list_from_segs(self.segs(x))
            if o.items is not None:
                items = []
                for v in o.items:
                    v, st = self.fresh_plain(v, st, site)
                    items.append(v)
                o = ListObj(tuple(items))
            return self.alloc(st, site, o)
        return x, st

    def ext_hashlib_md5(self, args, kw, st, node, name="md5"):
        r, st = self.alloc(
            st, "md5@" + self.site(node), Inst(Ref("c:md5"), {"data": Tup(tuple(args)), "alg": K(name)})
        )
        return [(OK, r, st)]

    def ext_hashlib_sha1(self, args, kw, st, node):
        return self.ext_hashlib_md5(args, kw, st, node, "sha1")

    def ext_hashlib_sha256(self, args, kw, st, node):
        return self.ext_hashlib_md5(args, kw, st, node, "sha256")

    def ext_hashlib_blake2b(self, args, kw, st, node):
        return self.ext_hashlib_md5(args, kw, st, node, "blake2b")

    def ext_numpy_iscomplexobj(self, args, kw, st, node):
        ks = self.kinds_of(args[0], st)
        yes = ks & {"npcplx", "complex"}
        if yes and yes != ks:
            return [(OK, TRUE, self.refine(args[0], yes, st)), (OK, FALSE, self.refine(args[0], ks - yes, st))]
        return [(OK, K(bool(yes)), st)]

    # ------------------------------------------------------------------
    # methods of containers, constants and terms
    # ------------------------------------------------------------------
    def call_bim(self, v, name, args, kw, st, node):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj):
                return self.m_dict(v, o, name, args, kw, st, node)
            if isinstance(o, ListObj):
                return self.m_list(v, o, name, args, kw, st, node)
            if isinstance(o, Inst):
                b = self.builtin_base(st.get(o.cls.oid), st)
                m = getattr(self, "m_" + b.replace(".", "_"), None)
                if m is not None:
                    return m(v, o, name, args, kw, st, node)
                if name == "__exit__":
                    return [(OK, FALSE, st)]
                return [(OK, T("mcall", v, name, tuple(args)), self.emit(st, "opaque_call", fn=T("attr", v, name), args=args, kw=kw))]
            if isinstance(o, Gen):
                return [(OK, v if name == "__iter__" else NONE, st)]
            if isinstance(o, ClsObj):
                return [(RAISE, self.mkexc("AttributeError", name), st)]
        if isinstance(v, Prop):
            f = args[0]
            return [
                (
                    OK,
                    {
                        "setter": Prop(v.fget, f, v.fdel),
                        "getter": Prop(f, v.fset, v.fdel),
                        "deleter": Prop(v.fget, v.fset, f),
                    }[name],
                    st,
                )
            ]
        if isinstance(v, K):
            return self.m_const(v, name, args, kw, st, node)
        if isinstance(v, Tup):
            if name == "__iter__":
                return [(OK, T("iter", v), st)]
            if name == "__len__":
                return [(OK, K(len(v.items)), st)]
            if name == "__getitem__":
                return self.getitem(v, args[0], st, node)
            return [(OK, T("tupop", v, name, tuple(args)), st)]
        if isinstance(v, T):
            return self.m_term(v, name, args, kw, st, node)
        if isinstance(v, Ext):
            return self.ext_call(v.path + "." + name, args, kw, st, node)
        raise Unsupported(f"{self.loc()}: method {name} of {v!r}")

    def m_dict(self, v, o, name, args, kw, st, node):
        c = self.content(v, st)
        if name in ("items", "keys", "values"):
            return [(OK, T("dview", name, v), self.emit(st, "cread", ref=v, how="view"))]
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            return [(OK, d if x is None else x, s) for x, s in self.dict_get(v, args[0], st)]
        if name == "pop":
            res = []
            for x, s in self.dict_get(v, args[0], st):
                if x is not None:
                    res.append((OK, x, self.dict_del(v, args[0], s)))
                elif len(args) > 1:
                    res.append((OK, args[1], s))
                else:
                    res.append((RAISE, self.mkexc("KeyError", args[0]), s))
            return res
        if name == "popitem":
            st = self.emit(st, "cread", ref=v, how="item")
            if o.items is not None:
                if not o.items:
                    return [(RAISE, self.mkexc("KeyError", "empty"), st)]
                k, x = o.items[-1]
                return [(OK, Tup((k, x)), self.dict_del(v, k, st))]
            res = []
            for b, s in self.decide(P("nonempty", c), st):
                if b:
                    k = T("lastkey", c)
                    s = s.fact(P("has", c, k), True)
                    s = s.put(v.oid, self.dict_from(T("ddel", c, k), o.factory))
                    res.append((OK, Tup((k, T("val", c, k))), self.emit(s, "cmut", ref=v, how="del", key=k)))
                else:
                    res.append((RAISE, self.mkexc("KeyError", "empty"), s))
            return res
        if name == "clear":
            return [(OK, NONE, self.emit(st.put(v.oid, DictObj((), None, o.factory)), "cmut", ref=v, how="clear"))]
        if name == "update":
            outs = self.dict_update(v, args[0], st, node) if args else [(OK, NONE, st)]

            def go(_, t):
                for k, x in kw.items():
                    if k == "**":
                        t = self.dict_update(v, x, t, node)[0][2]
                    else:
                        t = self.dict_set(v, K(k), x, t)
                return [(OK, NONE, t)]

            return self._vals(outs, go)
        if name == "setdefault":
            d = args[1] if len(args) > 1 else NONE
            return [
                (OK, x, s) if x is not None else (OK, d, self.dict_set(v, args[0], d, s))
                for x, s in self.dict_get(v, args[0], st)
            ]
        if name == "copy":
            st = self.emit(st, "cread", ref=v, how="all")
            r, st = self.alloc(st, self.site(node), DictObj(o.items, o.content, o.factory))
            return [(OK, r, st)]
        if name == "__getitem__":
            return self.getitem(v, args[0], st, node)
        if name == "__setitem__":
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.setitem(v, args[0], args[1], st, node)]
        if name == "__delitem__":
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.delitem(v, args[0], st, node)]
        if name == "__contains__":
            return self.contains(v, args[0], st, node)
        if name == "__iter__":
            return [(OK, T("iter", v), st)]
        if name == "__len__":
            return self.b_len([v], {}, st, node)
        if name in ("__eq__", "__ne__"):
            return self.compare(_CMP[name], v, args[0], st, node)
        if name == "fromkeys":
            raise Unsupported(f"{self.loc()}: dict.fromkeys")
        return [(RAISE, self.mkexc("AttributeError", name), st)]

    def m_list(self, v, o, name, args, kw, st, node):
        c = self.content(v, st)

        def done(t, **k):
            return [(OK, NONE, self.emit(t, "cmut", ref=v, how=name, **k))]

        if name in ("append", "add"):
            if name == "add" and o.items is not None and args[0] in o.items:
                return [(OK, NONE, st)]
            return [(OK, NONE, self.list_append(v, args[0], st))]
        if name == "extend" or (name == "update" and o.kind == "set"):
            return self.list_extend(v, args[0], st, node)
        if name == "__iadd__":
            return [(OK, v, q[2]) if q[0] == OK else q for q in self.list_extend(v, args[0], st, node)]
        if name == "insert":
            i, x = args
            if o.items is not None and isinstance(i, K):
                l = list(o.items)
                l.insert(i.v, x)
                return done(st.put(v.oid, ListObj(tuple(l), kind=o.kind)), key=i, val=x)
            return done(self.put_list(v, T("lins", c, i, x), st), key=i, val=x)
        if name == "pop":
            k = args[0] if args else K(-1)
            if o.kind == "set":
                return [(OK, T("setpop", c), st)]
            st = self.emit(st, "cread", ref=v, how="item", key=k)
            return self.list_del(v, k, st, node)
        if name in ("remove", "discard"):
            x = args[0]
            st = self.emit(st, "cread", ref=v, how="in")
            if o.items is not None and x in o.items:
                l = list(o.items)
                l.remove(x)
                return done(st.put(v.oid, ListObj(tuple(l), kind=o.kind)), val=x)
            tx = self.tree(x, st)
            res = []
            for b, s in self.decide(P("has", c, tx), st):
                if b:
                    res.extend(done(self.put_list(v, T("lrem", c, tx), s), val=x))
                elif name == "discard":
                    res.append((OK, NONE, s))
                else:
                    res.append((RAISE, self.mkexc("ValueError"), s))
            return res
        if name == "clear":
            return done(st.put(v.oid, ListObj((), kind=o.kind)))
        if name == "reverse":
            if o.items is not None:
                return done(st.put(v.oid, ListObj(tuple(reversed(o.items)), kind=o.kind)))
            return done(self.put_list(v, c.args[0] if isinstance(c, T) and c.op == "lrev" else T("lrev", c), st))
        if name == "sort":
            return done(self.put_list(v, T("lsort", c), st))
        if name == "copy":
            st = self.emit(st, "cread", ref=v, how="all")
            r, st = self.alloc(st, self.site(node), ListObj(o.items, o.content, o.kind))
            return [(OK, r, st)]
        if name in ("index", "count"):
            st = self.emit(st, "cread", ref=v, how=name)
            if name == "count":
                return [(OK, T(name, c, *args), st)]
            return [
                (OK, T(name, c, *args), s) if b else (RAISE, self.mkexc("ValueError"), s)
                for b, s in self.decide(P("has", c, args[0], *args[1:]), st)
            ]
        ops = {"difference": "Sub", "union": "BitOr", "intersection": "BitAnd", "symmetric_difference": "BitXor"}
        if name in ops and o.kind == "set":
            if o.items is None or len(args) != 1:
                raise Unsupported(f"{self.loc()}: set.{name}")
            return self._vals(
                self.as_items(args[0], st, node), lambda y, t: self.set_op(ops[name], list(o.items), y, t, node)
            )
        if name == "__getitem__":
            return self.getitem(v, args[0], st, node)
        if name == "__setitem__":
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.setitem(v, args[0], args[1], st, node)]
        if name == "__delitem__":
            return [(OK, NONE, q[2]) if q[0] == NEXT else q for q in self.delitem(v, args[0], st, node)]
        if name == "__contains__":
            return self.contains(v, args[0], st, node)
        if name == "__iter__":
            return [(OK, T("iter", v), st)]
        if name == "__reversed__":
            return [(OK, T("reversed", v), st)]
        if name == "__len__":
            return self.b_len([v], {}, st, node)
        if name in _CMP:
            return self.compare(_CMP[name], v, args[0], st, node)
        return [(RAISE, self.mkexc("AttributeError", name), st)]

    def m_const(self, v, name, args, kw, st, node):
        if name == "join" and args:

            def go(segs, t):
                if all(s[0] == "i" and isinstance(s[1], K) for s in segs):
                    return [(OK, K(v.v.join(s[1].v for s in segs)), t)]
                return [(OK, T("fstr", (v, T("cat", tuple(segs)))), t)]

            return self._vals(self.seq_segments(args[0], st, node), go)
        if name == "format" or any(not isinstance(a, K) for a in args):
            return [(OK, T("fstr", (v, name) + tuple(args) + tuple(kw.values())), st)]
        f = getattr(v.v, name, None)
        if f is None:
            return [(RAISE, self.mkexc("AttributeError", name), st)]
        try:
            r = f(*[a.v for a in args])
        except Exception as e:
            n = type(e).__name__
            return [(RAISE, self.mkexc(n if "c:" + n in State.base else "AnyError"), st)]
        return [(OK, self.lift(r), st)]

    def lift(self, r):
        if isinstance(r, (list, tuple)):
            return Tup(tuple(self.lift(x) for x in r))
        return K(r)

    def m_term(self, v, name, args, kw, st, node):
        opq = v.op in ("attr", "ext", "call", "handle", "mcall")
        if opq:
            return self.opaque_method(v, name, args, kw, st, node)
        f = getattr(self.hooks, "term_method", None)
        if f:
            r = f(self, v, name, args, kw, st, node)
            if r is not None:
                return r
        if v.op == "dview":
            if name == "__len__":
                return self.b_len([v.args[1]], {}, st, node)
            if name == "isdisjoint":
                return [(OK, P("disjoint", v, args[0]), st)]
        if name in ("items", "keys", "values"):
            return [(OK, T("dview", name, v), st)]
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            return [(OK, d if x is None else x, s) for x, s in self.d_lookup(v, args[0], st)]
        if name == "encode":
            if (args or kw) and not self.lossless_encoding(v, args, kw):
                return [(OK, T("encodedas", v, tuple(args), tuple(sorted(kw.items()))), st)]
            return [(OK, T("encoded", v), st)]
        if name == "decode":
            return [(OK, v.args[0] if v.op == "encoded" else T("decoded", v), st)]
        if name in ("startswith", "endswith"):
            return [(OK, P(name, v, tuple(args)), st)]
        if name in ("tolist", "item"):
            return self.np_convert(v, name, st)
        if name == "copy":
            return [(OK, T("copy", v), st)]
        if name == "__iter__":
            return [(OK, T("iter", v), st)]
        if name == "__len__":
            return [(OK, T("len", v), st)]
        if name == "__getitem__":
            return self.getitem(v, args[0], st, node)
        if name == "__contains__":
            return self.contains(v, args[0], st, node)
        if name in _CMP:
            return self.compare(_CMP[name], v, args[0], st, node)
        return self.opaque_method(v, name, args, kw, st, node)

    def np_convert(self, v, name, st):
        r = T(name, v)
        ks = self.kinds_of(v, st)
        num = {
            "npnum": {"int", "float"}, "npf64": {"float"}, "npbool": {"bool"}, "npext": {"npext"},
            "npcplx": {"complex"}, "nd0": {"int", "float", "bool", "other", "complex", "npext", "str"},
        }  # fmt: skip
        if name == "tolist":
            num["nd1"] = {"list"}
        else:
            num["nd1"] = {"int", "float", "bool", "other", "complex", "npext", "str"}
        out = []
        for k, res in num.items():
            if k in ks:
                out.append((OK, r, self.refine(v, {k}, st).kind(r, frozenset(res))))
        rest = ks - set(num)
        if rest:
            out.append((RAISE, self.mkexc("AttributeError", name), self.refine(v, rest, st)))
        return out

    def opaque_method(self, v, name, args, kw, st, node):
        f = getattr(self.hooks, "opaque_method", None)
        if f:
            r = f(self, v, name, args, kw, st, node)
            if r is not None:
                return r
        st = self.emit(st, "opaque_call", fn=T("attr", v, name), args=args, kw=kw)
        return [(OK, T("mcall", v, name, tuple(args)), st)]

    # locks, files, digests ----------------------------------------------
    def m_RLock(self, v, o, name, args, kw, st, node):
        if name in ("__enter__", "acquire"):
            got = (OK, TRUE, self.emit(st, "acquire", lock=v, **({"plain": True} if "plain" in o.attrs else {})))
            if args or kw:
                return [got, (OK, FALSE, st)]
            return [got]
        if name in ("__exit__", "release"):
            return [(OK, NONE, self.emit(st, "release", lock=v))]
        return [(OK, T("lockattr", name), st)]

    def m_file(self, v, o, name, args, kw, st, node):
        path = o.attrs["path"]
        if name == "__enter__":
            return [(OK, v, st)]
        if name in ("__exit__", "close"):
            return [(OK, NONE, self.emit(st, "close", path=path, mode=o.attrs["mode"].v, ref=v))]
        if name == "read":
            st = self.emit(st, "file_read", path=path, ref=v)
            return [(OK, self.fdata(path, st), st), self.perm(st)]
        if name in ("write", "writelines"):
            old = self.fdata(path, st)
            new = args[0] if old == T("empty") else T("appended", old, args[0])
            bad = self.fset(path, T("truncated", new), self.emit(st, "file_write_fail", path=path, ref=v))
            good = self.fset(path, new, self.emit(st, "file_write", path=path, val=args[0], ref=v))
            return [self.perm(bad), (OK, T("len", args[0]), good)]
        return [(OK, T("fileop", name), st)]

    def m_md5(self, v, o, name, args, kw, st, node):
        if name == "update":
            return [(OK, NONE, st.put(v.oid, o.set("data", Tup(o.attrs["data"].items + tuple(args)))))]
        if name in ("hexdigest", "digest"):
            return [(OK, T("md5", o.attrs["alg"], o.attrs["data"]), st)]
        return [(OK, T("md5op", name), st)]

    def m_suppress(self, v, o, name, args, kw, st, node):
        if name == "__enter__":
            return [(OK, NONE, st)]
        if args[0] == NONE:
            return [(OK, FALSE, st)]
        return [(OK, K(h), s) for h, _, s in self.exc_match(args[1], o.attrs["excs"], st)]

    def m_nullcontext(self, v, o, name, args, kw, st, node):
        return [(OK, o.attrs["v"] if name == "__enter__" else FALSE, st)]

    def m_ExitStack(self, v, o, name, args, kw, st, node):
        l = o.attrs["l"]
        if name == "__enter__":
            return [(OK, v, st)]
        if name == "enter_context":
            return self._vals(
                self.call_special(args[0], "__enter__", [], st, node),
                lambda x, t: [(OK, x, self.list_append(l, args[0], t, quiet=True))],
            )
        if name == "callback":
            return [(OK, args[0], self.list_append(l, Tup((K(name), args[0], Tup(tuple(args[1:])), Tup(tuple(Tup((K(k), x)) for k, x in kw.items())))), st, quiet=True))]
        if name == "push":
            x = args[0]
            if isinstance(x, Ref) and isinstance(st.get(x.oid), (Inst, Gen)):
                return [(OK, x, self.list_append(l, x, st, quiet=True))]
            return [(OK, x, self.list_append(l, Tup((K(name), x)), st, quiet=True))]
        if name == "pop_all":
            n, st = self.alloc(st, "exitstacklist@" + self.site(node), ListObj(tuple(st.get(l.oid).items)))
            r, st = self.alloc(st, "ExitStack@" + self.site(node), Inst(Ref(self.ext_class(Ext("ExitStack"))), {"l": n}))
            return [(OK, r, st.put(l.oid, ListObj(())))]
        if name in ("__exit__", "close"):
            first = args[1] if len(args) > 1 and args[1] != NONE else None
            cur = [(first, st)]
            for cm in reversed(st.get(l.oid).items):
                cur = [x for exc, t in cur for x in self.unwind(cm, exc, t, node)]
            res = []
            for exc, t in cur:
                if exc is None:
                    res.append((OK, K(first is not None), t))
                elif exc == first:
                    res.append((OK, FALSE, t))
                else:
                    res.append((RAISE, exc, t))
            return res
        raise Unsupported(f"ExitStack.{name}")

    def unwind(self, cm, exc, st, node):
        """Run one exit callback of an ExitStack with the pending exception."""
        a = [NONE, NONE, NONE] if exc is None else [self.exc_class_val(exc, st), exc, T("tb")]
        if not isinstance(cm, Tup):
            outs = self.call_special(cm, "__exit__", a, st, node)
        elif cm.items[0] == K("push"):
            outs = self.call(cm.items[1], a, {}, st, node)
        else:
            outs = self.call(cm.items[1], list(cm.items[2].items), {p.items[0].v: p.items[1] for p in cm.items[3].items}, st, node)
            outs = [(o[0], NONE if o[0] == OK else o[1], o[2]) for o in outs]
        res = []
        for o in outs:
            if o[0] == RAISE:
                res.append((o[1], o[2]))
            elif exc is None:
                res.append((None, o[2]))
            else:
                for b in self.truth(o[1], o[2], node):
                    res.append((b[1], b[2]) if b[0] == RAISE else (None if b[1] else exc, b[2]))
        return res

    def m_json_JSONEncoder(self, v, o, name, args, kw, st, node):
        if name == "default":
            return [(RAISE, self.mkexc("TypeError", "not serializable"), st)]
        if name == "encode" and not o.attrs:
            return self.ext_json_dumps(args, {"cls": o.cls}, st, node)
        return [(OK, T("call", "JSONEncoder." + name, tuple(args)), st)]


def _binary(name, f):
    def m(self, args, kw, st, node):
        return f(self, args[0], args[1], st, node)

    setattr(ExtModel, "b_operator_" + name, m)


for _n, _o in (
    ("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot"),
):  # fmt: skip
    _binary(_n, lambda self, a, b, st, node, o=_o: self.compare(o, a, b, st, node))
for _n, _o in (("add", "Add"), ("sub", "Sub"), ("or_", "BitOr"), ("and_", "BitAnd")):
    _binary(_n, lambda self, a, b, st, node, o=_o: self.binop(o, a, b, st, node))
