"""Interprocedural abstract interpreter over the AST of the analysed package."""
import ast
import builtins
import os

from .builtins_model import MAPK, SEQK, Model
from .state import State
from .values import *  # noqa: F401,F403

NESTED = MAPK | SEQK | frozenset({"nd0", "nd1"})
UNHASHABLE = frozenset({"dict", "list", "set", "nd0", "nd1", "sdict", "slist"})


class NoHooks:
    noinj = False  # drop failures of the environment

    def event(self, eng, st, ev, kw):
        return st

    def contract(self, eng, fn, args, kw, st, node):
        return None

    def iter_end(self, eng, st, info):
        return st


class Engine(Model):
    MAXDEPTH = 60

    def __init__(self, repo="/repo", package="synced_collections"):
        self.repo = repo
        self.package = package
        self.hooks = NoHooks()
        self.modules = {}
        self.func_infos = []
        self.class_oids = []
        self.stack = []
        self.where = ("?", 0, "?")
        self.yield_handlers = []
        self.steps = 0
        self.max_steps = 10**9
        self.rec_summaries = {}
        self.visited_funcs = set()
        self.visited_sites = set()
        self.undecided = []
        State.base = {}
        self.init_builtins()

    # ------------------------------------------------------------------
    # allocation / utilities
    # ------------------------------------------------------------------
    def alloc(self, st, site, obj):
        n = 0
        heap, base = st.heap, State.base
        oid = site
        while oid in heap or oid in base:
            n += 1
            oid = f"{site}#{n}"
        return Ref(oid), st.put(oid, obj)

    def site(self, node=None):
        f, l, q = self.where
        ln = getattr(node, "lineno", l)
        col = getattr(node, "col_offset", 0)
        return f"{q}@{ln}.{col}"

    def loc(self):
        f, l, q = self.where
        return f"{f}:{l} ({q})"

    def emit(self, st, ev, /, **kw):
        return self.hooks.event(self, st, ev, kw)

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        return list(seen.values())

    def dedupe_out(self, outs):
        if len(outs) < 2:
            return outs
        seen = {}
        for o in outs:
            seen.setdefault((o[0], o[1], o[2].key()), o)
        return list(seen.values())

    # ------------------------------------------------------------------
    # modules
    # ------------------------------------------------------------------
    def load_package(self):
        base = os.path.join(self.repo, self.package)
        files = {}
        for d, dirs, fs in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith((".", "__pycache__")))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    files[name] = p
        self.module_files = files
        self.module_src = {}
        self.module_ast = {}
        for name, p in files.items():
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            self.module_src[name] = src
            self.module_ast[name] = ast.parse(src, p)
        st = State()
        st = self.load_abc(st)
        for name in files:
            st = self.load_module(name, st)
        self.init_state = st
        State.base.update(st.heap)
        st = State()
        return st

    def load_abc(self, st):
        import _collections_abc as m  # only to locate the source file

        path = m.__file__
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        self.abc_tree = tree
        moid = "m:collections.abc"
        self.modules["collections.abc"] = moid
        st = st.put(moid, Frame({}, None, "module:collections.abc"))
        want = [
            "Hashable", "Iterable", "Iterator", "Reversible", "Sized", "Container",
            "Collection", "Set", "MappingView", "KeysView", "ItemsView", "ValuesView", "Mapping",
            "MutableMapping", "Sequence", "MutableSequence",
        ]  # fmt: skip
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and n.name in want:
                self.where = ("_collections_abc.py", n.lineno, "collections.abc")
                st = self.define_class(n, st, moid, "collections.abc", "_collections_abc.py")
        return st

    def load_module(self, name, st):
        if name in self.modules:
            return st
        moid = "m:" + name
        self.modules[name] = moid
        st = st.put(
            moid,
            Frame({"__name__": K(name), "__file__": K(self.module_files[name])}, None, "module:" + name),
        )
        # parents first
        if "." in name:
            st = self.load_module(name.rsplit(".", 1)[0], st)
        saved = self.where
        rel = os.path.relpath(self.module_files[name], self.repo)
        self.where = (rel, 0, name)
        self.mod_file = getattr(self, "mod_file", {})
        self.mod_file[moid] = rel
        outs = self.exec_block(self.module_ast[name].body, st, moid)
        outs = self.dedupe_out(outs)
        good = [o for o in outs if o[0] == NEXT]
        if not good:
            raise Unsupported(f"module {name} cannot be initialised: {outs[:2]}")
        self.where = saved
        return good[0][2]

    def resolve_relative(self, frame_mod, node):
        modname = frame_mod
        if node.level == 0:
            return node.module
        parts = modname.split(".")
        if self.module_files.get(modname, "").endswith("__init__.py"):
            up = node.level - 1
        else:
            up = node.level
        parts = parts[: len(parts) - up] if up else parts
        return ".".join(parts + (node.module.split(".") if node.module else []))

    def frame_module(self, fr, st):
        while True:
            f = st.get(fr)
            if f.parent is None:
                return fr[2:]
            fr = f.parent

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def exec_block(self, stmts, st, fr):
        cur = [st]
        out = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.exec(s, c, fr):
                    if o[0] == NEXT:
                        nxt.append(o[2])
                    else:
                        out.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        out.extend((NEXT, None, c) for c in cur)
        return out

    def exec(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("abstract state budget exhausted")
        w = self.where
        self.where = (w[0], s.lineno, w[2])
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"{self.loc()}: statement {type(s).__name__}")
        return m(s, st, fr)

    def _vals(self, outs, f):
        """Apply f(val, st) to normal expression results; pass exceptions on."""
        res = []
        for o in outs:
            if o[0] == OK:
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        return res

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(NEXT, None, st)]
        return self._vals(self.ev(s.value, st, fr), lambda v, t: [(NEXT, None, t)])

    def x_Pass(self, s, st, fr):
        return [(NEXT, None, st)]

    def x_Return(self, s, st, fr):
        if s.value is None:
            return [(RET, NONE, st)]
        return self._vals(self.ev(s.value, st, fr), lambda v, t: [(RET, v, t)])

    def x_Assign(self, s, st, fr):
        def go(v, t):
            outs = [(NEXT, None, t)]
            for tgt in s.targets:
                nxt = []
                for o in outs:
                    if o[0] == NEXT:
                        nxt.extend(self.assign(tgt, v, o[2], fr))
                    else:
                        nxt.append(o)
                outs = nxt
            return outs

        return self._vals(self.ev(s.value, st, fr), go)

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(NEXT, None, st)]
        return self._vals(
            self.ev(s.value, st, fr), lambda v, t: self.assign(s.target, v, t, fr)
        )

    def x_AugAssign(self, s, st, fr):
        tgt = s.target
        op = type(s.op).__name__

        def store(newv, t, setter):
            return setter(newv, t)

        if isinstance(tgt, ast.Name):
            def go(rv, t):
                return self._vals(
                    self.ev(ast.copy_location(ast.Name(tgt.id, ast.Load()), tgt), t, fr),
                    lambda lv, t2: self._vals(
                        self.aug(op, lv, rv, t2, s),
                        lambda nv, t3: self.assign(tgt, nv, t3, fr),
                    ),
                )

            return self._vals(self.ev(s.value, st, fr), go)
        if isinstance(tgt, ast.Attribute):
            def go_o(o, t):
                return self._vals(
                    self.getattr_(o, tgt.attr, t, tgt),
                    lambda lv, t1: self._vals(
                        self.ev(s.value, t1, fr),
                        lambda rv, t2: self._vals(
                            self.aug(op, lv, rv, t2, s),
                            lambda nv, t3: self.setattr_(o, tgt.attr, nv, t3, s),
                        ),
                    ),
                )

            return self._vals(self.ev(tgt.value, st, fr), go_o)
        if isinstance(tgt, ast.Subscript):
            def go_s(o, t):
                return self._vals(
                    self.ev(tgt.slice, t, fr),
                    lambda k, t0: self._vals(
                        self.getitem(o, k, t0, tgt),
                        lambda lv, t1: self._vals(
                            self.ev(s.value, t1, fr),
                            lambda rv, t2: self._vals(
                                self.aug(op, lv, rv, t2, s),
                                lambda nv, t3: self.setitem(o, k, nv, t3, s),
                            ),
                        ),
                    ),
                )

            return self._vals(self.ev(tgt.value, st, fr), go_s)
        raise Unsupported(f"{self.loc()}: augmented assignment target")

    def x_Delete(self, s, st, fr):
        outs = [(NEXT, None, st)]
        for tgt in s.targets:
            nxt = []
            for o in outs:
                if o[0] != NEXT:
                    nxt.append(o)
                    continue
                t = o[2]
                if isinstance(tgt, ast.Name):
                    f = t.get(fr)
                    v = dict(f.vars)
                    v.pop(tgt.id, None)
                    nxt.append((NEXT, None, t.put(fr, Frame(v, f.parent, f.info, f.captured))))
                elif isinstance(tgt, ast.Attribute):
                    nxt.extend(
                        self._vals(
                            self.ev(tgt.value, t, fr),
                            lambda ov, t1: self.delattr_(ov, tgt.attr, t1, tgt),
                        )
                    )
                elif isinstance(tgt, ast.Subscript):
                    nxt.extend(
                        self._vals(
                            self.ev(tgt.value, t, fr),
                            lambda ov, t1: self._vals(
                                self.ev(tgt.slice, t1, fr),
                                lambda k, t2: self.delitem(ov, k, t2, tgt),
                            ),
                        )
                    )
                else:
                    raise Unsupported(f"{self.loc()}: del target")
            outs = nxt
        return outs

    def x_If(self, s, st, fr):
        def go(v, t):
            outs = []
            for b in self.truth(v, t, s.test):
                if b[0] == RAISE:
                    outs.append(b)
                    continue
                _, bv, t2 = b
                outs.extend(self.exec_block(s.body if bv else s.orelse, t2, fr))
            return outs

        return self._vals(self.ev(s.test, st, fr), go)

    def x_Match(self, s, st, fr):
        """A match over classes, constants and wildcards, as a chain of if statements."""
        if not hasattr(s, "desugared"):
            name = f"$match{s.lineno}"

            def load():
                return ast.Name(name, ast.Load())

            def test(p):
                if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                    return ast.Call(ast.Name("isinstance", ast.Load()), [load(), p.cls], [])
                if isinstance(p, ast.MatchSingleton):
                    return ast.Compare(load(), [ast.Is()], [ast.Constant(p.value)])
                if isinstance(p, ast.MatchValue):
                    return ast.Compare(load(), [ast.Eq()], [p.value])
                if isinstance(p, ast.MatchOr):
                    return ast.BoolOp(ast.Or(), [test(x) for x in p.patterns])
                if isinstance(p, ast.MatchAs) and p.name is None:
                    return ast.Constant(True)
                raise Unsupported(f"{self.loc()}: pattern {type(p).__name__}")

            chain = []
            for c in reversed(s.cases):
                p, body, guard = c.pattern, list(c.body), c.guard
                if isinstance(p, ast.MatchAs) and p.name is not None:
                    if guard is not None:
                        raise Unsupported(f"{self.loc()}: guarded capture")
                    body.insert(0, ast.Assign([ast.Name(p.name, ast.Store())], load()))
                    p = p.pattern or ast.MatchAs()
                e = test(p)
                chain = [ast.If(e if guard is None else ast.BoolOp(ast.And(), [e, guard]), body, chain)]
            new = [ast.Assign([ast.Name(name, ast.Store())], s.subject)] + chain
            for n in new:
                for x in ast.walk(n):
                    if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                        x.lineno = x.end_lineno = s.lineno
                        x.col_offset = x.end_col_offset = s.col_offset
            s.desugared = new
        return self.exec_block(s.desugared, st, fr)

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            f = fr
            while f is not None:
                e = st.get(f).vars.get("$exc")
                if e is not None:
                    return [(RAISE, e, st)]
                break
            return [(RAISE, self.mkexc("RuntimeError", "no active exception"), st)]

        def go(v, t):
            if isinstance(v, Ref) and isinstance(t.get(v.oid), ClsObj):
                return self._vals(self.call(v, [], {}, t, s), lambda e, t2: [(RAISE, e, t2)])
            return [(RAISE, v, t)]

        def first(v, t):
            if s.cause is None:
                return go(v, t)
            return self._vals(self.ev(s.cause, t, fr), lambda c, t2: go(v, t2))

        return self._vals(self.ev(s.exc, st, fr), first)

    def x_Try(self, s, st, fr):
        outs = self.exec_block(s.body, st, fr)
        res = []
        for o in outs:
            if o[0] == NEXT:
                res.extend(self.exec_block(s.orelse, o[2], fr) if s.orelse else [o])
            elif o[0] == RAISE:
                res.extend(self.handle(s.handlers, o, fr))
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in self.dedupe_out(res):
                # remember the active exception for a bare raise in finally
                for q in self.exec_block(s.finalbody, o[2], fr):
                    if q[0] == NEXT:
                        fin.append((o[0], o[1], q[2]))
                    else:
                        fin.append(q)
            res = fin
        return res

    def handle(self, handlers, o, fr):
        pend = [(o[1], o[2])]
        res = []
        for h in handlers:
            nxt = []
            for exc, st in pend:
                if h.type is None:
                    res.extend(self.run_handler(h, exc, st, fr))
                    continue
                for q in self.ev(h.type, st, fr):
                    if q[0] != OK:
                        res.append(q)
                        continue
                    for hit, e2, s2 in self.exc_match(exc, q[1], q[2]):
                        if hit:
                            res.extend(self.run_handler(h, e2, s2, fr))
                        else:
                            nxt.append((e2, s2))
            pend = nxt
        res.extend((RAISE, e, s) for e, s in pend)
        return res

    def run_handler(self, h, exc, st, fr):
        f = st.get(fr)
        old = f.vars.get("$exc")
        f2 = f.set("$exc", exc)
        if h.name:
            f2 = f2.set(h.name, exc)
        st = st.put(fr, f2)
        out = []
        for o in self.exec_block(h.body, st, fr):
            f = o[2].get(fr)
            if f is not None:
                v = dict(f.vars)
                if old is None:
                    v.pop("$exc", None)
                else:
                    v["$exc"] = old
                if h.name:
                    v.pop(h.name, None)
                out.append((o[0], o[1], o[2].put(fr, Frame(v, f.parent, f.info, f.captured))))
            else:
                out.append(o)
        return out

    def x_With(self, s, st, fr):
        return self.with_items(s.items, 0, s, st, fr)

    def with_items(self, items, i, s, st, fr):
        if i == len(items):
            return self.exec_block(s.body, st, fr)
        it = items[i]

        def go(cm, t):
            return self.with_cm(
                cm,
                t,
                s,
                lambda v, t2: (
                    self._seq(self.assign(it.optional_vars, v, t2, fr), lambda t3: self.with_items(items, i + 1, s, t3, fr))
                    if it.optional_vars is not None
                    else self.with_items(items, i + 1, s, t2, fr)
                ),
            )

        return self._vals(self.ev(it.context_expr, st, fr), go)

    def _seq(self, outs, f):
        res = []
        for o in outs:
            if o[0] == NEXT:
                res.extend(f(o[2]))
            else:
                res.append(o)
        return res

    def with_cm(self, cm, st, node, body):
        """Run body(value, state) inside the context manager cm."""
        obj = st.get(cm.oid) if isinstance(cm, Ref) else None
        if isinstance(obj, Gen) and obj.kind == "cm":
            return self.drive_gen(cm, st, lambda v, t: body(v, t), cm=True)
        res = []
        for e in self.call_special(cm, "__enter__", [], st, node):
            if e[0] != OK:
                res.append(e)
                continue
            for o in self.dedupe_out(body(e[1], e[2])):
                if o[0] == RAISE:
                    args = [self.exc_class_val(o[1], o[2]), o[1], T("tb")]
                    for x in self.call_special(cm, "__exit__", args, o[2], node):
                        if x[0] != OK:
                            res.append(x)
                            continue
                        for b in self.truth(x[1], x[2], node):
                            if b[0] == RAISE:
                                res.append(b)
                            elif b[1]:
                                res.append((NEXT, None, b[2]))
                            else:
                                res.append((RAISE, o[1], b[2]))
                else:
                    for x in self.call_special(cm, "__exit__", [NONE, NONE, NONE], o[2], node):
                        if x[0] != OK:
                            res.append(x)
                        else:
                            res.append((o[0], o[1], x[2]))
        return res

    def x_For(self, s, st, fr):
        def body(v, t):
            return self._seq(
                self.assign(s.target, v, t, fr), lambda t2: self.exec_block(s.body, t2, fr)
            )

        res = []
        for o in self.ev(s.iter, st, fr):
            if o[0] != OK:
                res.append(o)
                continue
            for q in self.loop(o[1], o[2], body, s, fr):
                if q[0] == NEXT:
                    res.extend(self.exec_block(s.orelse, q[2], fr) if s.orelse else [q])
                elif q[0] == BRK:
                    res.append((NEXT, None, q[2]))
                else:
                    res.append(q)
        return self.dedupe_out(res)

    def drained(self, s):
        """The container expression of `while x: x.pop()`."""
        e = s.test
        if isinstance(e, ast.Compare) and ast.unparse(e)[-3:] in ("> 0", "= 0", "= 1"):
            if len(e.ops) > 1 or ast.unparse(e).split()[-2] not in (">", "!=", ">=") or ">= 0" in ast.unparse(e) \
                    or "!= 1" in ast.unparse(e) or not isinstance(e.left, ast.Call):
                return None
            e = e.left
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1:
            e = e.args[0]
        if len(s.body) != 1 or s.orelse or not isinstance(s.body[0], ast.Expr):
            return None
        c = s.body[0].value
        if not isinstance(c, ast.Call) or not isinstance(c.func, ast.Attribute) or c.keywords:
            return None
        if c.func.attr not in ("pop", "popitem") or ast.dump(c.func.value) != ast.dump(e):
            return None
        if c.args and not (len(c.args) == 1 and ast.unparse(c.args[0]) in ("0", "-1")):
            return None
        return e if isinstance(e, (ast.Name, ast.Attribute)) else None

    def x_While(self, s, st, fr):
        e = self.drained(s)
        if e is not None:
            outs = self.ev(e, st, fr)
            refs = [o[1] for o in outs if o[0] == OK]
            if len(outs) == len(refs) == 1 and isinstance(refs[0], Ref):
                o = outs[0][2].get(refs[0].oid)
                if isinstance(o, (DictObj, ListObj)) and o.items is None:
                    outs = self.call_bim(refs[0], "clear", [], {}, outs[0][2], s)
                    return [(NEXT, None, q[2]) if q[0] == OK else q for q in outs]
        res = []
        seen = set()
        work = [(st, 0)]
        n = 0
        while work:
            n += 1
            t, depth = work.pop()
            if n > 400 or depth > 12:
                raise Unsupported(f"{self.loc()}: while loop does not converge")
            k = t.key()
            if k in seen:
                continue
            seen.add(k)
            for o in self.ev(s.test, t, fr):
                if o[0] != OK:
                    res.append(o)
                    continue
                for b in self.truth(o[1], o[2], s.test):
                    if b[0] == RAISE:
                        res.append(b)
                    elif not b[1]:
                        res.extend(self.exec_block(s.orelse, b[2], fr) if s.orelse else [(NEXT, None, b[2])])
                    else:
                        for q in self.exec_block(s.body, b[2], fr):
                            if q[0] in (NEXT, CONT):
                                work.append((self.widen_while(q[2], t, fr, depth), depth + 1))
                            elif q[0] == BRK:
                                res.append((NEXT, None, q[2]))
                            else:
                                res.append(q)
        return self.dedupe_out(res)

    def widen_while(self, st, old, fr, depth):
        if depth < 8:
            return st
        f = st.get(fr)
        g = old.get(fr)
        v = dict(f.vars)
        for k in v:
            if v[k] != g.vars.get(k):
                v[k] = T("loopvar", k, self.loc())
        return st.put(fr, Frame(v, f.parent, f.info, f.captured))

    def x_Break(self, s, st, fr):
        return [(BRK, None, st)]

    def x_Continue(self, s, st, fr):
        return [(CONT, None, st)]

    def x_Global(self, s, st, fr):
        f = st.get(fr)
        return [(NEXT, None, st.put(fr, f.set("$global", Tup(tuple(s.names)))))]

    def x_Nonlocal(self, s, st, fr):
        f = st.get(fr)
        return [(NEXT, None, st.put(fr, f.set("$nonlocal", Tup(tuple(s.names)))))]

    def x_Assert(self, s, st, fr):
        def go(v, t):
            outs = []
            for b in self.truth(v, t, s.test):
                if b[0] == RAISE:
                    outs.append(b)
                elif b[1]:
                    outs.append((NEXT, None, b[2]))
                else:
                    outs.append((RAISE, self.mkexc("AssertionError"), b[2]))
            return outs

        return self._vals(self.ev(s.test, st, fr), go)

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            val = Mod(a.name if a.asname else a.name.split(".")[0])
            st = st.put(fr, st.get(fr).set(nm, val))
        return [(NEXT, None, st)]

    def x_ImportFrom(self, s, st, fr):
        mod = self.resolve_relative(self.frame_module(fr, st), s)
        if mod == "__future__":
            return [(NEXT, None, st)]
        if mod in self.module_files:
            st = self.load_module(mod, st)
            mf = st.get(self.modules[mod])
            for a in s.names:
                if a.name == "*":
                    for k, v in mf.vars.items():
                        if not k.startswith("_"):
                            st = st.put(fr, st.get(fr).set(k, v))
                    continue
                v = mf.vars.get(a.name)
                if v is None:
                    sub = mod + "." + a.name
                    if sub in self.module_files:
                        st = self.load_module(sub, st)
                        v = Mod(sub)
                    else:
                        return [(RAISE, self.mkexc("ImportError", a.name), st)]
                st = st.put(fr, st.get(fr).set(a.asname or a.name, v))
            return [(NEXT, None, st)]
        for a in s.names:
            st = st.put(fr, st.get(fr).set(a.asname or a.name, self.ext_attr(mod, a.name, st)))
        return [(NEXT, None, st)]

    def x_FunctionDef(self, s, st, fr):
        outs = []
        for o in self.make_function(s, st, fr):
            if o[0] != OK:
                outs.append(o)
                continue
            res = [(OK, o[1], o[2])]
            for d in reversed(s.decorator_list):
                nxt = []
                for r in res:
                    if r[0] != OK:
                        nxt.append(r)
                        continue
                    nxt.extend(
                        self._vals(
                            self.ev(d, r[2], fr),
                            lambda dv, t, r=r: self.call(dv, [r[1]], {}, t, d),
                        )
                    )
                res = nxt
            for r in res:
                if r[0] != OK:
                    outs.append(r)
                else:
                    outs.append((NEXT, None, self.setvar(s.name, r[1], r[2], fr)))
        return outs

    def make_function(self, s, st, fr):
        info = getattr(s, "_info", None)
        if info is None:
            f = st.get(fr)
            prefix = ""
            if isinstance(f.info, FuncInfo):
                prefix = f.info.qual + ".<locals>."
            elif isinstance(f.info, str) and f.info.startswith("class:"):
                prefix = f.info[6:] + "."
            name = getattr(s, "name", "<lambda>")
            info = FuncInfo(s, self.frame_module(fr, st), prefix + name, self.where[0])
            if isinstance(f.info, FuncInfo):
                info.cls = f.info.cls
            s._info = info
            self.func_infos.append(info)
        args = s.args

        def fin(ds, t):
            kd = []
            pend = [(OK, [], t)]
            for d in args.kw_defaults:
                nxt = []
                for p in pend:
                    if d is None:
                        nxt.append((OK, p[1] + [None], p[2]))
                    else:
                        for q in self.ev(d, p[2], fr):
                            nxt.append((OK, p[1] + [q[1]], q[2]) if q[0] == OK else q)
                pend = nxt
            res = []
            for p in pend:
                if p[0] != OK:
                    res.append(p)
                    continue
                env = fr
                t2 = p[2]
                f = t2.get(fr)
                while isinstance(f.info, str) and f.info.startswith("class:"):
                    env = f.parent
                    f = t2.get(env)
                if not f.captured and f.parent is not None:
                    t2 = t2.put(env, Frame(f.vars, f.parent, f.info, True))
                res.append((OK, Fn(info, env, tuple(ds), tuple(p[1])), t2))
            return res

        return self._vals(self.ev_list(args.defaults, st, fr), fin)

    def x_ClassDef(self, s, st, fr):
        modname = self.frame_module(fr, st)
        st = self.define_class(s, st, fr, modname, self.where[0])
        return [(NEXT, None, st)]

    def define_class(self, s, st, fr, modname, file):
        bases = []
        for b in s.bases:
            outs = self.ev(b, st, fr)
            if len(outs) != 1 or outs[0][0] != OK:
                raise Unsupported(f"{self.loc()}: base class")
            v, st = outs[0][1], outs[0][2]
            if isinstance(v, Ref) and isinstance(st.get(v.oid), ClsObj):
                bases.append(v.oid)
            elif isinstance(v, (Ext, BI, T)):
                bases.append(self.ext_class(v))
        if not bases:
            bases = ["c:object"]
        oid = "c:" + s.name
        if State.base.get(oid) is not None or st.get(oid) is not None:
            oid = "c:" + modname + "." + s.name
        cfr = "cf:" + s.name
        st = st.put(cfr, Frame({"__module__": K(modname), "__name__": None} if False else {}, fr, "class:" + s.name))
        saved = self.where
        self.where = (file, s.lineno, s.name)
        outs = self.exec_block(s.body, st, cfr)
        outs = [o for o in self.dedupe_out(outs) if o[0] == NEXT]
        if len(outs) != 1:
            raise Unsupported(f"{file}:{s.lineno}: class body {s.name} not deterministic")
        st = outs[0][2]
        attrs = {k: v for k, v in st.get(cfr).vars.items() if not k.startswith("$")}
        attrs["__doc__"] = NONE
        st = st.drop(cfr)
        mro = self.c3(oid, bases, st)
        info = ClsInfo(s.name, tuple(bases), mro, modname, s, file)
        if "__class_getitem__" in attrs:
            attrs.pop("__class_getitem__")
        for v in attrs.values():
            self.mark_class(v, oid)
        st = st.put(oid, ClsObj(info, attrs))
        self.class_oids.append(oid)
        st = self.setvar(s.name, Ref(oid), st, fr)
        # __init_subclass__
        for b in mro[1:]:
            f = st.get(b).attrs.get("__init_subclass__")
            if f is not None and not isinstance(f, BI):
                fn = f.fn if isinstance(f, (CM, SM)) else f
                outs = self.call(BM(Ref(oid), fn), [], {}, st, s)
                outs = self.dedupe_out(outs)
                good = [o for o in outs if o[0] == OK]
                if len(good) != 1:
                    raise Unsupported(f"{file}:{s.lineno}: __init_subclass__ of {s.name} not deterministic {outs[:3]}")
                st = good[0][2]
                break
        # class decorators: only identity-like ones are supported
        self.where = saved
        return st

    def mark_class(self, v, oid):
        if isinstance(v, Fn):
            if v.info.cls is None:
                v.info.cls = oid
            for k in v.kwdefaults:
                pass
        elif isinstance(v, (CM, SM)):
            self.mark_class(v.fn, oid)
        elif isinstance(v, Prop):
            for f in (v.fget, v.fset, v.fdel):
                self.mark_class(f, oid)

    def c3(self, oid, bases, st):
        seqs = [list(st.get(b).info.mro) for b in bases] + [list(bases)]
        res = [oid]
        while True:
            seqs = [x for x in seqs if x]
            if not seqs:
                return tuple(res)
            for x in seqs:
                c = x[0]
                if not any(c in y[1:] for y in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            res.append(c)
            for x in seqs:
                if x[0] == c:
                    del x[0]

    # ------------------------------------------------------------------
    # assignment
    # ------------------------------------------------------------------
    def setvar(self, name, v, st, fr):
        f = st.get(fr)
        g = f.vars.get("$global")
        if g is not None and name in g.items:
            m = "m:" + self.frame_module(fr, st)
            st = self.emit(st, "global_store", name=name, val=v)
            return st.put(m, st.get(m).set(name, v))
        g = f.vars.get("$nonlocal")
        if g is not None and name in g.items:
            p = f.parent
            while p is not None and name not in st.get(p).vars:
                p = st.get(p).parent
            if p is not None:
                return st.put(p, st.get(p).set(name, v))
        return st.put(fr, f.set(name, v))

    def assign(self, tgt, v, st, fr):
        if isinstance(tgt, ast.Name):
            return [(NEXT, None, self.setvar(tgt.id, v, st, fr))]
        if isinstance(tgt, ast.Attribute):
            return self._vals(
                self.ev(tgt.value, st, fr), lambda o, t: self.setattr_(o, tgt.attr, v, t, tgt)
            )
        if isinstance(tgt, ast.Subscript):
            return self._vals(
                self.ev(tgt.value, st, fr),
                lambda o, t: self._vals(
                    self.ev(tgt.slice, t, fr), lambda k, t2: self.setitem(o, k, v, t2, tgt)
                ),
            )
        if isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            if any(isinstance(e, ast.Starred) for e in tgt.elts):
                raise Unsupported(f"{self.loc()}: starred unpacking")
            outs = []
            for o in self.unpack(v, n, st, tgt):
                if o[0] != OK:
                    outs.append(o)
                    continue
                cur = [(NEXT, None, o[2])]
                for e, x in zip(tgt.elts, o[1]):
                    nxt = []
                    for c in cur:
                        if c[0] == NEXT:
                            nxt.extend(self.assign(e, x, c[2], fr))
                        else:
                            nxt.append(c)
                    cur = nxt
                outs.extend(cur)
            return outs
        raise Unsupported(f"{self.loc()}: assignment target {type(tgt).__name__}")

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("abstract state budget exhausted")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"{self.loc()}: expression {type(n).__name__}")
        return m(n, st, fr)

    def ev_list(self, nodes, st, fr):
        """Evaluate in order; result values are Python lists."""
        cur = [(OK, [], st)]
        for n in nodes:
            nxt = []
            for c in cur:
                if c[0] != OK:
                    nxt.append(c)
                    continue
                if isinstance(n, ast.Starred):
                    for o in self.ev(n.value, c[2], fr):
                        if o[0] != OK:
                            nxt.append(o)
                        else:
                            for q in self.as_items(o[1], o[2], n):
                                if q[0] != OK:
                                    nxt.append(q)
                                else:
                                    nxt.append((OK, c[1] + list(q[1]), q[2]))
                else:
                    for o in self.ev(n, c[2], fr):
                        nxt.append((OK, c[1] + [o[1]], o[2]) if o[0] == OK else o)
            cur = nxt
        return cur

    def e_Constant(self, n, st, fr):
        return [(OK, K(n.value), st)]

    def e_Name(self, n, st, fr):
        f = fr
        name = n.id
        first = True
        while f is not None:
            fo = st.get(f)
            if first or not (isinstance(fo.info, str) and fo.info.startswith("class:")):
                v = fo.vars.get(name)
                if v is not None:
                    return [(OK, v, st)]
            first = False
            f = fo.parent
        v = self.builtin_name(name)
        if v is not None:
            return [(OK, v, st)]
        fo = st.get(fr)
        if isinstance(fo.info, FuncInfo):
            local = self.local_names(fo.info)
            if name in local:
                return [(RAISE, self.mkexc("UnboundLocalError", name), st)]
        return [(RAISE, self.mkexc("NameError", name), st)]

    def local_names(self, info):
        s = getattr(info, "locals", None)
        if s is None:
            s = set()
            for x in ast.walk(info.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    s.add(x.id)
            info.locals = s
        return s

    def e_Attribute(self, n, st, fr):
        return self._vals(self.ev(n.value, st, fr), lambda v, t: self.getattr_(v, n.attr, t, n))

    def e_Subscript(self, n, st, fr):
        return self._vals(
            self.ev(n.value, st, fr),
            lambda v, t: self._vals(
                self.ev(n.slice, t, fr), lambda k, t2: self.getitem(v, k, t2, n)
            ),
        )

    def e_Slice(self, n, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        for p in parts:
            if not hasattr(p, "lineno"):
                ast.copy_location(p, n)
        return self._vals(self.ev_list(parts, st, fr), lambda v, t: [(OK, Slc(*v), t)])

    def e_Tuple(self, n, st, fr):
        return self._vals(self.ev_list(n.elts, st, fr), lambda v, t: [(OK, Tup(tuple(v)), t)])

    def e_List(self, n, st, fr):
        # opaque star arguments become splices
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.display_star(n, st, fr)

        def go(v, t):
            r, t2 = self.alloc(t, self.site(n), ListObj(tuple(v)))
            return [(OK, r, t2)]

        return self._vals(self.ev_list(n.elts, st, fr), go)

    def display_star(self, n, st, fr):
        cur = [(OK, [], st)]
        for e in n.elts:
            nxt = []
            for c in cur:
                if c[0] != OK:
                    nxt.append(c)
                    continue
                if isinstance(e, ast.Starred):
                    for o in self.ev(e.value, c[2], fr):
                        if o[0] != OK:
                            nxt.append(o)
                        else:
                            for q in self.seq_segments(o[1], o[2], e):
                                nxt.append((OK, c[1] + list(q[1]), q[2]) if q[0] == OK else q)
                else:
                    for o in self.ev(e, c[2], fr):
                        nxt.append((OK, c[1] + [("i", o[1])], o[2]) if o[0] == OK else o)
            cur = nxt

        def go(segs, t):
            r, t2 = self.alloc(t, self.site(n), self.list_from_segs(segs))
            return [(OK, r, t2)]

        return self._vals(cur, go)

    def e_Set(self, n, st, fr):
        def go(v, t):
            r, t2 = self.alloc(t, self.site(n), ListObj(tuple(v), kind="set"))
            return [(OK, r, t2)]

        return self._vals(self.ev_list(n.elts, st, fr), go)

    def e_Dict(self, n, st, fr):
        r, st = self.alloc(st, self.site(n), DictObj(()))
        cur = [(OK, None, st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for c in cur:
                if c[0] != OK:
                    nxt.append(c)
                    continue
                if k is None:
                    nxt.extend(
                        self._vals(
                            self.ev(v, c[2], fr), lambda x, t: self.dict_update(r, x, t, n, quiet=True)
                        )
                    )
                else:
                    nxt.extend(
                        self._vals(
                            self.ev(k, c[2], fr),
                            lambda kv, t: self._vals(
                                self.ev(v, t, fr),
                                lambda x, t2: [(OK, NONE, self.dict_set(r, kv, x, t2, quiet=True))],
                            ),
                        )
                    )
            cur = nxt
        return [(OK, r, c[2]) if c[0] == OK else c for c in cur]

    def e_Lambda(self, n, st, fr):
        return self.make_function(n, st, fr)

    def e_IfExp(self, n, st, fr):
        def go(v, t):
            outs = []
            for b in self.truth(v, t, n.test):
                if b[0] == RAISE:
                    outs.append(b)
                else:
                    outs.extend(self.ev(n.body if b[1] else n.orelse, b[2], fr))
            return outs

        return self._vals(self.ev(n.test, st, fr), go)

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)

        def go(i, st):
            outs = self.ev(n.values[i], st, fr)
            if i == len(n.values) - 1:
                return outs
            res = []
            for o in outs:
                if o[0] != OK:
                    res.append(o)
                    continue
                for b in self.truth(o[1], o[2], n):
                    if b[0] == RAISE:
                        res.append(b)
                    elif b[1] == is_and:
                        res.extend(go(i + 1, b[2]))
                    else:
                        v = o[1]
                        if isinstance(v, T):
                            # the truth value of the operand is known on this path
                            if v.op in ("p", "not"):
                                v = K(b[1])
                        res.append((OK, v, b[2]))
            return res

        return go(0, st)

    def e_UnaryOp(self, n, st, fr):
        op = type(n.op).__name__

        def go(v, t):
            if op == "Not":
                res = []
                for b in self.truth(v, t, n):
                    res.append((OK, K(not b[1]), b[2]) if b[0] != RAISE else b)
                return res
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                return [(OK, K({"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](v.v)), t)]
            if op == "USub":
                r = linadd(K(0), v, -1)
                if r is not None:
                    return [(OK, r, t)]
            return [(OK, T("unop", op, v), t)]

        return self._vals(self.ev(n.operand, st, fr), go)

    def e_BinOp(self, n, st, fr):
        op = type(n.op).__name__
        return self._vals(
            self.ev(n.left, st, fr),
            lambda a, t: self._vals(
                self.ev(n.right, t, fr), lambda b, t2: self.binop(op, a, b, t2, n)
            ),
        )

    def e_Compare(self, n, st, fr):
        def chain(i, left, st):
            outs = self.ev(n.comparators[i], st, fr)
            res = []
            for o in outs:
                if o[0] != OK:
                    res.append(o)
                    continue
                r = self.compare(type(n.ops[i]).__name__, left, o[1], o[2], n)
                if i == len(n.ops) - 1:
                    res.extend(r)
                    continue
                for q in r:
                    if q[0] != OK:
                        res.append(q)
                        continue
                    for b in self.truth(q[1], q[2], n):
                        if b[0] == RAISE:
                            res.append(b)
                        elif b[1]:
                            res.extend(chain(i + 1, o[1], b[2]))
                        else:
                            res.append((OK, FALSE, b[2]))
            return res

        return self._vals(self.ev(n.left, st, fr), lambda l, t: chain(0, l, t))

    def e_NamedExpr(self, n, st, fr):
        return self._vals(
            self.ev(n.value, st, fr), lambda v, t: [(OK, v, self.setvar(n.target.id, v, t, fr))]
        )

    def e_JoinedStr(self, n, st, fr):
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in n.values]

        def go(vs, t):
            if all(isinstance(v, K) for v in vs):
                return [(OK, K("".join(str(v.v) for v in vs)), t)]
            return [(OK, T("fstr", tuple(vs)), t)]

        return self._vals(self.ev_list(parts, st, fr), go)

    def e_Starred(self, n, st, fr):
        raise Unsupported(f"{self.loc()}: starred expression")

    def e_Yield(self, n, st, fr):
        def go(v, t):
            if not self.yield_handlers:
                raise Unsupported(f"{self.loc()}: yield outside a driven generator")
            h = self.yield_handlers.pop()
            try:
                outs = h(v, t)
            finally:
                self.yield_handlers.append(h)
            res = []
            for o in outs:
                if o[0] in (NEXT, CONT):
                    res.append((OK, NONE, o[2]))
                elif o[0] == RAISE and getattr(h, "throw", False):
                    res.append(o)
                else:
                    res.append((GENX, o, o[2]))
            return res

        if n.value is None:
            return go(NONE, st)
        return self._vals(self.ev(n.value, st, fr), go)

    def e_YieldFrom(self, n, st, fr):
        def go(v, t):
            def body(x, t2):
                h = self.yield_handlers.pop()
                try:
                    return h(x, t2)
                finally:
                    self.yield_handlers.append(h)

            res = []
            for o in self.loop(v, t, body, n, fr):
                if o[0] == NEXT:
                    res.append((OK, NONE, o[2]))
                elif o[0] == RAISE:
                    res.append(o)
                else:
                    res.append((GENX, o, o[2]))
            return res

        return self._vals(self.ev(n.value, st, fr), go)

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, "list")

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, "set")

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, "dict")

    def e_GeneratorExp(self, n, st, fr):
        f = st.get(fr)
        if f.parent is not None and not f.captured:
            st = st.put(fr, Frame(f.vars, f.parent, f.info, True))
        r, st = self.alloc(st, self.site(n), Gen("genexp", None, fr, n))
        return [(OK, r, st)]

    def comp(self, n, st, fr, kind):
        obj = DictObj(()) if kind == "dict" else ListObj((), kind=kind)
        acc, st = self.alloc(st, self.site(n), obj)
        cfr, st = self.alloc(st, "comp@" + self.site(n), Frame({}, fr, st.get(fr).info))
        cf = cfr.oid

        def leaf(t):
            if kind == "dict":
                return self._vals(
                    self.ev(n.key, t, cf),
                    lambda k, t1: self._vals(
                        self.ev(n.value, t1, cf),
                        lambda v, t2: [(NEXT, None, self.dict_set(acc, k, v, t2, quiet=True))],
                    ),
                )
            return self._vals(
                self.ev(n.elt, t, cf),
                lambda v, t2: [(NEXT, None, self.list_append(acc, v, t2, quiet=True))],
            )

        outs = self.comp_loops(n.generators, 0, st, cf, leaf, n)
        res = []
        for o in outs:
            if o[0] == NEXT:
                res.append((OK, acc, o[2].drop(cf)))
            else:
                res.append((o[0], o[1], o[2].drop(cf)))
        return res

    def comp_loops(self, gens, i, st, cf, leaf, n):
        if i == len(gens):
            return leaf(st)
        g = gens[i]

        def conds(j, t):
            if j == len(g.ifs):
                return self.comp_loops(gens, i + 1, t, cf, leaf, n)
            outs = []
            for o in self.ev(g.ifs[j], t, cf):
                if o[0] != OK:
                    outs.append(o)
                    continue
                for b in self.truth(o[1], o[2], g.ifs[j]):
                    if b[0] == RAISE:
                        outs.append(b)
                    elif b[1]:
                        outs.extend(conds(j + 1, b[2]))
                    else:
                        outs.append((NEXT, None, b[2]))
            return outs

        def body(v, t):
            return self._seq(self.assign(g.target, v, t, cf), lambda t2: conds(0, t2))

        return self._vals(
            self.ev(g.iter, st, cf), lambda it, t: self.loop(it, t, body, n, cf)
        )

    def e_Call(self, n, st, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while True:
                fo = st.get(f)
                if isinstance(fo.info, FuncInfo) and "$self" in fo.vars:
                    break
                f = fo.parent
                if f is None:
                    raise Unsupported(f"{self.loc()}: super() outside method")
            return [(OK, Sup(fo.info.cls, fo.vars["$self"]), st)]

        def go(fv, t):
            def go2(args, t1):
                cur = [(OK, {}, t1)]
                for kw in n.keywords:
                    nxt = []
                    for c in cur:
                        if c[0] != OK:
                            nxt.append(c)
                            continue
                        for o in self.ev(kw.value, c[2], fr):
                            if o[0] != OK:
                                nxt.append(o)
                                continue
                            d = dict(c[1])
                            if kw.arg is None:
                                ok = self.star_kwargs(o[1], o[2])
                                if ok is None:
                                    d["**"] = o[1]
                                else:
                                    d.update(ok)
                            else:
                                d[kw.arg] = o[1]
                            nxt.append((OK, d, o[2]))
                    cur = nxt
                w = self.where
                self.where = (w[0], n.lineno, w[2])
                return self._vals(cur, lambda kws, t2: self.call(fv, args, kws, t2, n))

            return self._vals(self.ev_list(n.args, t, fr), go2)

        return self._vals(self.ev(n.func, st, fr), go)

    def star_kwargs(self, v, st):
        if isinstance(v, Ref):
            o = st.get(v.oid)
            if isinstance(o, DictObj) and o.items is not None and all(
                isinstance(k, K) and isinstance(k.v, str) for k, _ in o.items
            ):
                return {k.v: x for k, x in o.items}
        return None

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def call(self, fv, args, kw, st, node):
        outs = self._call(fv, args, kw, st, node)
        if self.hooks.noinj:
            return [o for o in outs if "inj" not in o[2].mon]
        return outs

    def _call(self, fv, args, kw, st, node):
        if isinstance(fv, Fn):
            return self.call_fn(fv, args, kw, st, node)
        if isinstance(fv, BM):
            if isinstance(fv.fn, Fn):
                return self.call_fn(fv.fn, [fv.self] + list(args), kw, st, node)
            return self.call(fv.fn, [fv.self] + list(args), kw, st, node)
        if isinstance(fv, Ref):
            o = st.get(fv.oid)
            if isinstance(o, ClsObj):
                return self.instantiate(fv, args, kw, st, node)
            if isinstance(o, Inst):
                return self.call_special(fv, "__call__", args, st, node, kw)
        if isinstance(fv, (SM, CM)):
            return self.call(fv.fn, args, kw, st, node)
        if isinstance(fv, Partial):
            k2 = dict(fv.kw)
            k2.update(kw)
            return self.call(fv.fn, list(fv.args) + list(args), k2, st, node)
        return self.call_model(fv, args, kw, st, node)

    def call_special(self, obj, name, args, st, node, kw=None):
        """Call a dunder method looked up on the type."""
        outs = self._call_special(obj, name, args, st, node, kw or {})
        if self.hooks.noinj:
            return [o for o in outs if "inj" not in o[2].mon]
        return outs

    def _call_special(self, obj, name, args, st, node, kw):
        if isinstance(obj, Ref):
            o = st.get(obj.oid)
            if isinstance(o, Inst):
                f = self.class_lookup(o.cls.oid, name, st)
                if f is None:
                    if self.builtin_base(st.get(o.cls.oid), st) != "object":
                        return self.call_bim(obj, name, args, kw, st, node)
                    return [(RAISE, self.mkexc("AttributeError", name), st)]
                if isinstance(f, (Fn, BI)):
                    return self.call(BM(obj, f), args, kw, st, node)
                if isinstance(f, SM):
                    return self.call(f.fn, args, kw, st, node)
                if isinstance(f, CM):
                    return self.call(BM(o.cls, f.fn), args, kw, st, node)
                return self.call(f, args, kw, st, node)
        return self.call_bim(obj, name, args, kw, st, node)

    def bind(self, fn, args, kw, st):
        a = fn.info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        vals = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                vals[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            return None, f"{fn.info.qual}() takes {len(pos)} positional arguments", st
        kwextra = {}
        opaque = None
        for k, v in kw.items():
            if k == "**":
                opaque = v
                continue
            if (k in pos and pos.index(k) >= npos_only) or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    return None, f"{fn.info.qual}() got multiple values for argument '{k}'", st
                vals[k] = v
            elif a.kwarg:
                kwextra[k] = v
            else:
                return None, f"{fn.info.qual}() got an unexpected keyword argument '{k}'", st
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = fn.defaults[j]
                else:
                    return None, f"{fn.info.qual}() missing argument '{p}'", st
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg not in vals:
                if d is None:
                    return None, f"{fn.info.qual}() missing keyword argument '{x.arg}'", st
                vals[x.arg] = d
        if a.vararg:
            vals[a.vararg.arg] = Tup(tuple(extra))
        if a.kwarg:
            items = tuple((K(k), v) for k, v in kwextra.items())
            if opaque is not None:
                c = self.content(opaque, st)
                if items:
                    c = self.d_update(T("dlit", items), c)
                obj = DictObj(None, c)
            else:
                obj = DictObj(items)
            r, st = self.alloc(st, f"kw@{fn.info.qual}", obj)
            vals[a.kwarg.arg] = r
        elif opaque is not None:
            raise Unsupported(f"{self.loc()}: opaque ** passed to {fn.info.qual}")
        return vals, (pos[0] if pos else None), st

    def call_fn(self, fn, args, kw, st, node):
        c = self.hooks.contract(self, fn, args, kw, st, node)
        if c is not None:
            return c
        info = fn.info
        self.visited_funcs.add(info)
        if node is not None and self.stack:
            self.visited_sites.add((self.where[0], node.lineno, node.col_offset))
        depth = sum(1 for f in self.stack if f is info)
        if depth >= 1 and not info.cls and self.inductive(args, st):
            # direct recursion of a plain function on an opaque value: inductive term
            return [(OK, T("ind", info.qual, tuple(args)), st)]
        if depth >= 1 and not info.is_gen and any(isinstance(a, T) and a.op == "dataof" for a in args) and self.procedure(info):
            # walks down a tree of unknown depth: nothing new below
            return [(OK, NONE, st)]
        if len(self.stack) > self.MAXDEPTH or depth > 8:
            raise Unsupported(f"{self.loc()}: recursion too deep in {info.qual}")
        if "cached" in fn.flags:
            return self.call_cached(fn, args, kw, st, node)
        vals, first, st = self.bind(fn, args, kw, st)
        if vals is None:
            return [(RAISE, self.mkexc("TypeError", first), st)]
        vals = dict(vals)
        if first is not None:
            vals["$self"] = vals[first]
        fr, st = self.alloc(st, "f:" + info.qual, Frame(vals, fn.env, info))
        if info.is_gen:
            kind = "cm" if "cm" in fn.flags else "gen"
            r, st = self.alloc(st, self.site(node), Gen(kind, fn, fr.oid, info.node))
            return [(OK, r, st)]
        return self.run_frame(info, fr.oid, st)

    def call_cached(self, fn, args, kw, st, node):
        """functools.lru_cache: results are looked up by equality of the arguments."""
        plainfn = Fn(fn.info, fn.env, fn.defaults, fn.kwdefaults, frozenset(fn.flags) - {"cached"})
        out, cur = [], [st]
        vals = list(args) + [v for _, v in sorted(kw.items())]
        for v in vals:
            nxt = []
            for s in cur:
                ks = self.kinds_of(v, s) if isinstance(v, (T, Ref)) else frozenset()
                bad = ks & UNHASHABLE
                if isinstance(v, Ref) and isinstance(s.get(v.oid), ClsObj):
                    bad = frozenset()
                if bad:
                    s2 = self.refine(v, bad, s) if isinstance(v, T) else s
                    out.append((RAISE, self.mkexc("TypeError", "unhashable"), s2))
                if bad != ks or not ks:
                    nxt.append(self.refine(v, ks - bad, s) if bad else s)
            cur = nxt
        key = ("memo", fn.info.file, fn.info.qual)
        for s in cur:
            rest = [s]
            for old, res in s.mon.get(key, ()):
                nxt = []
                for r in rest:
                    for o in self.eq(Tup(old), Tup(tuple(vals)), r, node):
                        if o[0] != OK:
                            out.append(o)
                            continue
                        for b in self.truth(o[1], o[2], node):
                            if b[0] == RAISE:
                                out.append(b)
                            elif b[1]:
                                out.append((OK, res, b[2]))
                            else:
                                nxt.append(b[2])
                rest = nxt
            for r in rest:
                for o in self.call_fn(plainfn, args, kw, r, node):
                    if o[0] == OK:
                        o = (OK, o[1], o[2].setm(key, o[2].mon.get(key, ()) + ((tuple(vals), o[1]),)))
                    out.append(o)
        return self.dedupe_out(out)

    def procedure(self, info):
        return not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(info.node))

    def inductive(self, args, st):
        """Whether a recursive call has an argument of unknown, possibly nested content."""
        if any(isinstance(a, Ref) for a in args):
            return False
        return any(isinstance(a, T) and self.kinds_of(a, st) & NESTED for a in args)

    def run_frame(self, info, fr, st):
        saved = self.where
        self.where = (info.file, info.node.lineno, info.qual)
        self.stack.append(info)
        try:
            if isinstance(info.node, ast.Lambda):
                outs = self.ev(info.node.body, st, fr)
                outs = [(RET, o[1], o[2]) if o[0] == OK else o for o in outs]
            else:
                outs = self.exec_block(info.node.body, st, fr)
        finally:
            self.stack.pop()
            self.where = saved
        res = []
        for tag, v, t in outs:
            f = t.get(fr)
            if f is not None and not f.captured:
                t = t.drop(fr)
            if tag == RET:
                res.append((OK, v, t))
            elif tag == NEXT:
                res.append((OK, NONE, t))
            else:
                res.append((tag, v, t))
        return self.dedupe_out(res)

    def drive_gen(self, ref, st, body, cm=False):
        """Run a generator; ``body(value, state)`` is executed at each yield."""
        g = st.get(ref.oid)
        if g.kind == "genexp":
            n = g.node
            cfr, st = self.alloc(st, "comp@" + self.site(n), Frame({}, g.frame, st.get(g.frame).info))

            def leaf(t):
                return self._vals(self.ev(n.elt, t, cfr.oid), lambda v, t2: body(v, t2))

            return self.comp_loops(n.generators, 0, st, cfr.oid, leaf, n)

        def h(v, t):
            return body(v, t)

        h.throw = cm
        info = g.fn.info
        # wrap in an object so attribute `throw` is available
        self.yield_handlers.append(_Handler(h, cm))
        try:
            outs = self.run_frame(info, g.frame, st)
        finally:
            self.yield_handlers.pop()
        res = []
        for o in outs:
            if o[0] == OK:
                res.append((NEXT, None, o[2]))
            elif o[0] == GENX:
                inner = o[1]
                res.append((inner[0], inner[1], o[2]))
            else:
                res.append(o)
        return res

    # ------------------------------------------------------------------
    # loops
    # ------------------------------------------------------------------
    def loop(self, it, st, body, node, fr):
        """Run body(elem, st) for the elements of it.

        Outcomes: NEXT (exhausted), BRK, RET, RAISE.
        """
        res = []
        for o in self.iter_source(it, st, node):
            if o[0] != OK:
                res.append(o)
                continue
            src, t = o[1], o[2]
            if src[0] == "closed":
                res.extend(self.loop_closed(src[1], t, body))
            elif src[0] == "gen":
                res.extend(self.drive_gen(src[1], t, body))
            else:
                res.extend(self.loop_opaque(src[1], src[2], t, body, node, fr))
        return res

    def loop_closed(self, items, st, body):
        if len(items) > 200:
            raise Unsupported(f"{self.loc()}: large closed loop")
        cur = [st]
        res = []
        for x in items:
            nxt = []
            for c in cur:
                for o in body(x, c):
                    if o[0] in (NEXT, CONT):
                        nxt.append(o[2])
                    else:
                        res.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        res.extend((NEXT, None, c) for c in cur)
        return res

    def loop_opaque(self, src, elem, st0, body, node, fr):
        lid = self.site(node)
        # pass 1: find the containers the body grows
        acc = set()
        probe = body(elem, st0)
        for o in probe:
            if o[0] in (NEXT, CONT):
                for oid, obj in o[2].heap.items():
                    old = st0.heap.get(oid)
                    if old is None:
                        old = State.base.get(oid)
                    if old is not None and old is not obj and isinstance(obj, (DictObj, ListObj)):
                        if old != obj:
                            acc.add(oid)
        acc = sorted(acc)
        bases = {}

        def placeholder(t):
            for oid in acc:
                o = t.get(oid)
                a = T("acc", oid, lid)
                t = t.put(oid, DictObj(None, a, o.factory) if isinstance(o, DictObj) else ListObj(None, a, o.kind))
            return t

        for oid in acc:
            bases[oid] = self.content(Ref(oid), st0)
            self.acc_base[T("acc", oid, lid)] = bases[oid]
        effs = {oid: set() for oid in acc}
        head = placeholder(st0)
        seen = {}
        work = [(head, 0)]
        others = []
        heads = []
        while work:
            t, n = work.pop()
            k = t.key()
            if k in seen:
                continue
            seen[k] = t
            heads.append(t)
            if n > 6:
                raise Unsupported(f"{self.loc()}: loop does not stabilise")
            outs = body(elem, t)
            for o in outs:
                if o[0] in (NEXT, CONT):
                    t2 = self.hooks.iter_end(
                        self, o[2], dict(node=node, src=src, elem=elem, head=t, acc=acc, lid=lid)
                    )
                    for oid in acc:
                        effs[oid].add(self.content(Ref(oid), t2))
                    t3 = placeholder(t2)
                    # knowledge about the element does not survive the iteration
                    t3 = State(t3.heap, t.facts, t.kinds, t3.mon, t3.tr)
                    if n >= 2:
                        t3 = self.widen_loop(t3, t, lid)
                    t3 = self.gc_frames(t3)
                    work.append((t3, n + 1))
                else:
                    others.append(o)
        res = []
        for t in heads:
            for oid in acc:
                o = t.get(oid)
                c = self.foreach(bases[oid], T("acc", oid, lid), frozenset(effs[oid]), src, elem, isinstance(o, DictObj))
                t = t.put(oid, DictObj(None, c, o.factory) if isinstance(o, DictObj) else ListObj(None, c, o.kind))
            t = self.emit(t, "loop_end", src=src, node=node)
            res.append((NEXT, None, t))
        for tag, v, t in others:
            for oid in acc:
                o = t.get(oid)
                c = self.content(Ref(oid), t)
                c = self.subst(c, T("acc", oid, lid), T("partial", bases[oid], src))
                t = t.put(oid, DictObj(None, c, o.factory) if isinstance(o, DictObj) else ListObj(None, c, o.kind))
            res.append((tag, v, t))
        return res

    def widen_loop(self, new, old, lid):
        heap = None
        for oid, obj in new.heap.items():
            if isinstance(obj, Frame):
                prev = old.heap.get(oid)
                if isinstance(prev, Frame) and prev != obj:
                    v = dict(obj.vars)
                    for k in v:
                        if v[k] != prev.vars.get(k):
                            v[k] = T("loopvar", k, lid)
                    if heap is None:
                        heap = dict(new.heap)
                    heap[oid] = Frame(v, obj.parent, obj.info, obj.captured)
        if heap is None:
            return new
        return State(heap, new.facts, new.kinds, new.mon, new.tr)

    def gc_frames(self, st):
        return st


class _Handler:
    def __init__(self, f, throw):
        self.f = f
        self.throw = throw

    def __call__(self, v, t):
        return self.f(v, t)
