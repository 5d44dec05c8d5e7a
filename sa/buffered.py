"""Exploration of buffered collections.

The abstract state of a small configuration (one or two collections on one or
two files) is explored under a most general client: operations, entering and
leaving buffered contexts, capacity changes and outside writers, in any order.
Contents are opaque; after every step they are renamed to canonical atoms that
only keep which contents are equal, so the exploration reaches a fixpoint and
covers sequences of any length. A ghost state tracks the logical content of
every file, and every step is compared with it.
"""
from .instances import differ
from .opmode import JSONK, P, World, norm, subrefs, trace
from .spec import Op, meth, ops_for, setitem
from .state import State
from .unbuf import Finding, Undecided, canon_content, check_crash, opaque_in, subterms
from .values import *  # noqa: F401,F403

MISSING = K("<missing>")
CAP = T("arg", "capacity")


class F:
    """Ghost state of one file (immutable)."""

    __slots__ = ("L", "L0", "cap", "mod", "ext")

    def __init__(self, L, L0, cap=False, mod=False, ext=False):
        self.L, self.L0, self.cap, self.mod, self.ext = L, L0, cap, mod, ext

    def but(self, **kw):
        d = {n: getattr(self, n) for n in F.__slots__}
        d.update(kw)
        return F(**d)

    def key(self):
        return (self.L, self.L0, self.cap, self.mod, self.ext)


class Node:
    __slots__ = ("st", "files", "stack", "prev", "act", "depth")

    def __init__(self, st, files, stack, prev=None, act=None):
        self.st, self.files, self.stack = st, files, stack
        self.prev, self.act = prev, act
        self.depth = 0 if prev is None else prev.depth + 1

    def key(self):
        return (self.st.key(), tuple(f.key() for _, f in sorted(self.files.items())), self.stack)

    def program(self):
        out, n = [], self
        while n.prev is not None:
            out.append(n.act)
            n = n.prev
        return out[::-1]


class Config:
    """objs: name -> file tag; together: per-object contexts are entered and left by all objects."""

    def __init__(self, name, objs, together=False, ctx=("o", "b", "bc"), depth=2, ext=True, missing=False, child=None, setcap=True, ops=None):
        self.name, self.objs, self.together, self.ctx = name, objs, together, ctx
        self.depth, self.ext, self.missing, self.child, self.setcap = depth, ext, missing, child, setcap
        self.ops = ops


ONE, SAME, TWO = {"R": "1"}, {"R": "1", "S": "1"}, {"R": "1", "S": "2"}
CONFIGS = {
    # one object: nested contexts of both kinds, outside writers, missing files
    "one": Config("one object", ONE, missing=True, ctx=("o", "b"), setcap=False),
    # one object: capacities
    "one-capacity": Config("one object, capacities", ONE, missing=True, depth=1),
    # one object: every combination
    "one-all": Config("one object, nested contexts and capacities", ONE, missing=True),
    "one-deep": Config("one object, three nested contexts", ONE, missing=True, ctx=("o", "b"), setcap=False, depth=3),
    "one-nested": Config("one object, nested contexts and changing capacity", ONE, ctx=("o", "b"), ext=False, ops=(0, 1)),
    # one object with failures of the environment
    "one-faults": Config("one object, failures", ONE, missing=True, ctx=("o", "bc"), depth=1, ext=False, setcap=False, ops=(0, 1, 2)),
    # one object, all operations
    "ops-object": Config("all operations", ONE, depth=1, ctx=("o",), setcap=False, ext=False, missing=True),
    "ops-backend": Config("all operations", ONE, depth=1, ctx=("b",), setcap=False, ext=False),
    "ops-capacity": Config("all operations, capacities", ONE, depth=1, ctx=("bc",), setcap=False, ext=False),
    # reads only
    "reads": Config("read operations", ONE, depth=2, ctx=("o", "b"), missing=True, ops="read", setcap=False),
    "reads-capacity": Config("read operations, capacities", ONE, depth=1, ctx=("o", "bc"), missing=True, ops="read"),
    "reads-all": Config("read operations, nested contexts and capacities", ONE, depth=2, missing=True, ops="read"),
    "reads-two": Config("read operations, two files", TWO, depth=1, ctx=("b", "bc"), missing=True, ops="read", setcap=False),
    # a nested collection retained by the client
    "nested-dict": Config("nested dict", ONE, depth=1, ctx=("o", "b"), setcap=False, child="dict"),
    "nested-list": Config("nested list", ONE, depth=1, ctx=("o", "b"), setcap=False, child="list"),
    "nested-dict-capacity": Config("nested dict, capacities", ONE, depth=1, ctx=("bc",), setcap=False, ext=False, child="dict"),
    # two objects on one file
    "same": Config("two objects on one file", SAME, together=True, depth=1, ctx=("o", "b"), setcap=False, ops=(0, 1, 2)),
    "same-capacity": Config("two objects on one file, capacities", SAME, together=True, depth=1, ctx=("bc",), setcap=False, ops=(0, 1)),
    "same-all": Config("two objects on one file", SAME, together=True, depth=1, setcap=False, ops=(0, 1, 2)),
    "same-deep": Config("two objects on one file, nested contexts", SAME, together=True, depth=2, ctx=("o", "b"), setcap=False, ops=(0, 1, 2)),
    "same-ops": Config("two objects on one file, all operations", SAME, together=True, depth=1, ctx=("b",), setcap=False, ext=False),
    "same-three": Config("three objects on one file", {"R": "1", "S": "1", "U": "1"}, together=True, depth=1, ctx=("o", "b"), setcap=False, ext=False, ops=(0, 1)),
    # two files
    "files": Config("two files", TWO, depth=1, ctx=("b", "bc"), setcap=False, ops=(0, 1)),
    "files-faults": Config("two files, failures", TWO, depth=1, ctx=("b",), setcap=False, ext=False, ops=(1,)),
    "files-mixed": Config("two files, nested contexts and changing capacity", TWO, depth=2, ctx=("o", "b"), ext=False, ops=(1,)),
    "files-nested": Config("two files, nested contexts", TWO, depth=2, ctx=("o", "b"), setcap=False, ext=False, ops=(0, 1)),
    "files-three": Config("three files", {"R": "1", "S": "2", "U": "3"}, depth=1, ctx=("b",), setcap=False, ops=(1,)),
}


class Explorer:
    def __init__(self, eng, cls, cfg, threading=True, wc=False, wide=False, max_nodes=4000, fault=False, want=None):
        self.eng, self.cfg, self.cls = eng, cfg, cls
        self.wide, self.max_nodes, self.fault, self.want = wide, max_nodes, fault, want
        self.findings, self.undecided = [], []
        self.seen_findings = set()
        self.stats = dict(abstract_states=0, transitions=0, abstract_outcomes=0)
        self.threading, self.wc = threading, wc
        w = self.w = World(eng, cls, threading=threading, write_concern=wc)
        if w.buffering is None:
            raise Unsupported(f"{cls} is not a buffered class")
        self.kind = "dict" if w.isdict else "list"
        for n, tag in cfg.objs.items():
            w.add_root(n, tag)
        self.kid = None  # (key, name, kind) of a nested collection of the first object
        if cfg.child:
            w.add_child("N0", "R", cfg.child)
            self.kid = (w.children["R"][0][0], "N0", cfg.child)
        self.tags = sorted(set(cfg.objs.values()))
        self.path = {t: K("F" + t) for t in self.tags}
        self.tag_of = {v: k for k, v in self.path.items()}
        for i in range(60):
            w.kind_of_content[T("C", f"c{i}")] = self.kind
            w.kind_of_content[T("C", f"n{i}")] = self.kind
            w.root_atoms[T("C", f"n{i}")] = "R"
        for i in range(len(cfg.objs)):
            w.kind_of_content[T("C", f"stale{i}")] = self.kind
            w.kind_of_content[T("C", f"nstale{i}")] = self.kind
            w.root_atoms[T("C", f"nstale{i}")] = "R"
        if self.kid:
            w.kind_of_content[T("C", "detached")] = cfg.child
        w.hooks.noinj = True
        self.ops = self.alphabet()
        self.order = set()
        self.locknames = self.find_locks()

    # -- set-up ----------------------------------------------------------
    def fresh(self, i):
        """Content of a file or of a collection that is not used yet."""
        return T("C", f"n{i}" if self.kid else f"c{i}")

    def alphabet(self):
        if self.kid:
            full = {o.name: o for o in ops_for(self.w.isdict, self.w.attr)}
            names = ["x()", "clear()"] + ([] if self.w.isdict else ["append(v)"])
            self.core = [full[n] for n in names]
            if self.w.isdict:
                v = next(a for o in full.values() for a in o.args if a[0] == "v")
                put = lambda eng, x, A, st: eng.setitem(x, K("a"), A["v"], st, None)  # noqa: E731
                run = lambda eng, x, A, st: [(OK, NONE, o[2]) if o[0] == NEXT else o for o in put(eng, x, A, st)]  # noqa: E731
                self.core.append(Op("d['a']=v", "dict", "mut", run, (v,), entry="__setitem__", stores=("v",)))
            kops = {o.name: o for o in ops_for(self.kid[2] == "dict", False)}
            core = ["x()", "d[k]=v", "clear()", "reset(m)"] if self.kid[2] == "dict" else ["x()", "append(v)", "clear()", "reset(it)"]
            self.kidops = list(kops.values()) if self.wide else [kops[n] for n in core]
            return self.core
        full = {o.name: o for o in ops_for(self.w.isdict, self.w.attr)}
        core = ["x()", "d[k]=v", "clear()", "reset(m)"] if self.w.isdict else ["x()", "append(v)", "clear()", "reset(it)"]
        self.core = [full[n] for i, n in enumerate(core) if self.cfg.ops in (None, "read") or i in self.cfg.ops]
        if self.cfg.ops == "read":
            return [o for o in full.values() if o.mode == "read"]
        return list(full.values()) if self.wide else self.core

    def start(self):
        w, eng = self.w, self.eng
        st = w.st
        files = {}
        variants = [{t: False for t in self.tags}]
        if self.cfg.missing:
            variants.append({t: True for t in self.tags})
        for var in variants:
            s = st
            files = {}
            for i, t in enumerate(self.tags):
                c = self.fresh(i)
                if var[t]:
                    s = s.setm(("file", self.path[t]), NONE)
                    for n, tag in self.cfg.objs.items():
                        if tag == t:
                            s = self.set_data(s, n, c)
                else:
                    s = s.setm(("file", self.path[t]), self.encode(c))
                files[t] = F(c, c)
            for j, n in enumerate(self.cfg.objs):
                if not var[self.cfg.objs[n]]:
                    s = self.set_data(s, n, self.fresh(10 + j))
            yield self.canonical(s, files, (), None, "start")

    def encode(self, c):
        return T("encoded", T("json", c, ()))

    def set_data(self, st, name, c):
        return self.w.refresh(self.eng, self.w.objs[name], c, st)

    def attached(self, st):
        """Whether the nested collection is still part of its root."""
        if not self.kid:
            return False
        d = st.get(self.w.objs["R"].oid).attrs["_data"]
        return self.w.objs[self.kid[1]] in set(subrefs(self.eng.content(d, st)))

    def has_child(self, c, st):
        """Whether a content has a nested collection of the right kind in the place of the child."""
        key = self.kid[0]
        if self.attached(st) and c == self.content_of(self.w.objs["R"], st):
            return True
        while isinstance(c, T):
            if c.op == "C":
                return c in self.w.root_atoms
            if c.op in ("dset", "lset"):
                if c.args[1] == key:
                    return c.args[2] == self.content_of(self.w.objs[self.kid[1]], st) or self.eng.kinds_of(c.args[2], st) <= {self.kid[2], "s" + self.kid[2]}
                if not isinstance(c.args[1], K):
                    raise Undecided(f"child in {show(c)[:80]}")
                c = c.args[0]
            elif c.op == "cat" and c.args[0] and c.args[0][0][0] == "s":
                c = c.args[0][0][1]
            else:
                return False
        return False

    # -- canonical states --------------------------------------------------
    def content_of(self, v, st):
        return canon_content(norm(self.eng, v, st))

    def canonical(self, st, files, stack, prev, act):
        eng, w = self.eng, self.w
        rep = self.unifier(st)
        atoms = {}
        probe = Node(st, files, stack)
        for i, (n, t) in enumerate(self.cfg.objs.items()):
            if not self.buffered(probe, n) and st.mon[("file", self.path[t])] != NONE and not self.tangled(n, st):
                # the memory of an unbuffered collection is out of date in general
                st = self.set_data(st, n, T("C", ("n" if n == "R" and self.attached(st) else "") + f"stale{i}"))

        def atom(c):
            c = rep(canon_content(norm(eng, c, st)))
            if isinstance(c, K):
                return c
            a = atoms.get(c)
            if a is None:
                stale = isinstance(c, T) and c.op == "C" and "stale" in c.args[0]
                pre = "n" if self.kid and self.has_child(c, st) else "c"
                a = atoms[c] = c if stale else T("C", f"{pre}{len(atoms)}")
            return a

        nf = {}
        for t in self.tags:
            f = files[t]
            nf[t] = f.but(L=atom(f.L), L0=atom(f.L0))
        # disk
        mon = {}
        disk = {}
        for t in self.tags:
            p = self.path[t]
            d = self.disk(st, t)
            disk[t] = d
            mon[("file", p)] = NONE if d is None else self.encode(atom(d)) if not isinstance(d, Exception) else st.mon[("file", p)]
        # reachable heap
        names = {}
        order = []
        roots = [r.oid for r in w.objs.values()] + sorted(o for o in st.heap if o in State.base)
        initial = set(w.st.heap)
        todo = list(reversed(roots))
        seen = set()
        while todo:
            oid = todo.pop()
            if oid in seen or oid not in st.heap:
                continue
            seen.add(oid)
            order.append(oid)
            if oid not in initial and oid not in State.base:
                names[oid] = f"h{len(names)}"
            kids = []
            for r in refs_of(st.heap[oid]):
                kids.append(r)
            todo.extend(reversed(kids))
        data_oids = set()
        for oid in order:
            o = st.heap[oid]
            if isinstance(o, Inst) and isinstance(o.attrs.get("_data"), Ref):
                data_oids.add(o.attrs["_data"].oid)
        kid = root = None
        if self.kid:
            kid = (st.get(w.objs[self.kid[1]].oid).attrs["_data"].oid, self.attached(st))
            root = st.get(w.objs["R"].oid).attrs["_data"]
        # versions of the files
        vers = {self.path[t]: {st.mon.get(("ver", self.path[t]), 0)} for t in self.tags}

        def scan(v):
            if isinstance(v, T):
                if v.op == "stat" and v.args[0] in vers and isinstance(v.args[1], K):
                    vers[v.args[0]].add(v.args[1].v)
                for a in v.args:
                    scan(a)
            elif isinstance(v, (tuple, frozenset)):
                for a in v:
                    scan(a)
            elif isinstance(v, Tup):
                scan(v.items)

        for oid in order:
            for v in values_of(st.heap[oid]):
                scan(v)
        rank = {p: {v: i for i, v in enumerate(sorted(vs))} for p, vs in vers.items()}
        for t in self.tags:
            p = self.path[t]
            mon[("ver", p)] = rank[p][st.mon.get(("ver", p), 0)]

        def ren(v):
            if isinstance(v, K) or v is None:
                return v
            if isinstance(v, Ref):
                return Ref(names[v.oid]) if v.oid in names else v
            if isinstance(v, T):
                if v.op == "json":
                    return T("json", atom(v.args[0]), v.args[1])
                if v.op == "stat" and v.args[0] in rank:
                    return T("stat", v.args[0], K(rank[v.args[0]][v.args[1].v]))
                if v.op == "lin":
                    return mklin(v.args[0], self.addup((ren(a), k) for a, k in v.args[1]))
                return T(v.op, *[ren(a) for a in v.args])
            if isinstance(v, tuple):
                return tuple(ren(a) for a in v)
            if isinstance(v, frozenset):
                return frozenset(ren(a) for a in v)
            if isinstance(v, Tup):
                return Tup(ren(v.items))
            if isinstance(v, BM):
                return BM(ren(v.self), ren(v.fn))
            return v

        heap = {}
        for oid in order:
            o = st.heap[oid]
            if oid in data_oids:
                if kid and oid == kid[0]:
                    a = T("C", "detached")
                    if kid[1]:
                        p = atom(eng.content(root, st))
                        a = T("val" if w.isdict else "item", p, self.kid[0])
                else:
                    a = atom(eng.content(Ref(oid), st))
                    if kid and kid[1] and oid == root.oid:
                        if a not in w.root_atoms:
                            raise Undecided("nested collection in a content without it: " + show(eng.content(root, st)))
                        a = T("dset" if w.isdict else "lset", a, self.kid[0], w.objs[self.kid[1]])
                o2 = eng.dict_from(a, o.factory) if isinstance(o, DictObj) else eng.list_from_segs(eng.segs(a), o.kind)
            elif isinstance(o, DictObj):
                o2 = DictObj(ren(o.items), ren(o.content) if o.content is not None else None, o.factory)
            elif isinstance(o, ListObj):
                o2 = ListObj(ren(o.items), ren(o.content) if o.content is not None else None, o.kind)
            elif isinstance(o, Inst):
                o2 = Inst(o.cls, {k: ren(v) for k, v in o.attrs.items()})
            elif isinstance(o, ClsObj):
                o2 = ClsObj(o.info, {k: ren(v) for k, v in o.attrs.items()})
            else:
                o2 = o
            heap[names.get(oid, oid)] = o2
        ns = ren(tuple(x if isinstance(x, tuple) else x for x in stack))
        facts = {}
        kinds = {}
        st2 = State(heap, {}, {}, mon, None)
        # what is kept about sizes and capacities
        size, cap = self.size(st), self.capacity(st)
        pos = P("gt0", T("lin", 1, ((CAP, 1),)))
        used = any(CAP in subterms(v) for oid in order for v in flat(values_of(st.heap[oid])))
        if used and pos in st.facts:
            kinds[CAP] = frozenset({"int"})
            facts[pos] = True
            base = State({}, facts, kinds, {}, None)
            keep = [(p, v) for p, v in st.facts.items() if p.args[0] == "gt0" and only(p, ("arg", "lin", "p")) and p != pos]
            for p, v in sorted(keep, key=repr):
                if eng.implied(p, base) is None:
                    facts[p] = v
                    base = State({}, facts, kinds, {}, None)
        if size is not None and cap is not None:
            d = linadd(size, cap, -1)
            if d is not None and not isinstance(d, K) and self.known(P("gt0", d), st) is False:
                d = ren(d)
                if eng.implied(P("gt0", d), State({}, facts, kinds, {}, None)) is None:
                    facts[P("gt0", d)] = False
        st2 = State(heap, facts, kinds, mon, None)
        return Node(st2, nf, ns, prev, act)

    @staticmethod
    def addup(pairs):
        d = {}
        for a, k in pairs:
            if isinstance(a, K):
                raise Unsupported("constant in a linear term")
            d[a] = d.get(a, 0) + k
        return d

    def tangled(self, name, st):
        """Whether the data of a collection is used by something else."""
        me = self.w.objs[name].oid
        d = st.get(me).attrs["_data"].oid
        return any(oid != me and d in refs_of(o) for oid, o in st.heap.items())

    def unifier(self, st):
        """Representative of contents that are equal according to the path."""
        par = {}

        def find(x):
            while x in par:
                x = par[x]
            return x

        for p, v in st.facts.items():
            if v is True and p.args[0] == "eq":
                a, b = peel(p.args[1], p.args[2])
                if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "json":
                    a, b = (find(canon_content(norm(self.eng, x.args[0], st))) for x in (a, b))
                    if a != b:
                        par[a] = b
        return find

    def disk(self, st, t):
        """Content of a file: term, None if it is missing."""
        c = st.mon.get(("file", self.path[t]))
        if c == NONE:
            return None
        v = c
        while isinstance(v, T) and v.op in ("encoded", "decoded"):
            v = v.args[0]
        if isinstance(v, T) and v.op == "json":
            return canon_content(norm(self.eng, v.args[0], st))
        raise Undecided(f"content of the file: {show(c)[:100]}")

    # -- observations ------------------------------------------------------
    def quiet(self, f):
        old = self.w.hooks.collect
        self.w.hooks.collect = False
        try:
            return f()
        finally:
            self.w.hooks.collect = old

    def observe(self, name, st):
        outs = self.quiet(lambda: self.w.call_attr(Ref(self.w.cls), name, [], st))
        outs = self.eng.dedupe_out(outs)
        if len(outs) == 1 and outs[0][0] == OK:
            return outs[0][1]
        return None

    def size(self, st):
        return self.observe("get_current_buffer_size", st)

    def capacity(self, st):
        return self.observe("get_buffer_capacity", st)

    def known(self, p, st):
        """True/False/None"""
        if p.args[0] == "gt0" and isinstance(p.args[1], K):
            return p.args[1].v > 0
        p = self.w.hooks.canon(self.eng, p, st)
        r = self.eng.simp(p, st)
        if r is True or r is False:
            return r
        if isinstance(r, T) and r.op == "not":
            x = self.known(r.args[0], st)
            return None if x is None else not x
        q = r if isinstance(r, T) else p
        f = st.facts.get(q)
        return f if f is not None else self.eng.implied(q, st)

    def buffer(self, st):
        """Entries of the buffer: {path: entry}, None if not recognised."""
        v = self.eng.class_lookup(self.w.cls, "_buffer", st)
        o = isinstance(v, Ref) and st.get(v.oid)
        if isinstance(o, DictObj) and o.items is not None:
            return dict(o.items)
        return None

    def buffered(self, node, name):
        name = self.root_of(name)
        return any(c[0] != "o" or name in c[1] for c in node.stack)

    def root_of(self, name):
        return "R" if name not in self.cfg.objs else name

    # -- actions -----------------------------------------------------------
    def actions(self, node):
        out = []
        cfg = self.cfg
        names = list(cfg.objs)
        for n in names:
            for op in self.ops:
                out.append(("op", n, op))
        if self.attached(node.st):
            for op in self.kidops:
                out.append(("op", self.kid[1], op))
        if len(node.stack) < cfg.depth:
            if "o" in cfg.ctx:
                groups = [tuple(names)] if cfg.together else [(n,) for n in names]
                for g in groups:
                    out.append(("enter", "o", g))
            if "b" in cfg.ctx:
                out.append(("enter", "b", None))
            if "bc" in cfg.ctx and not any(c[0] == "bc" for c in node.stack):
                out.append(("enter", "bc", None))
        if node.stack:
            out.append(("exit", False, None))
            out.append(("exit", True, None))
            if node.stack[-1][0] == "o" and len(node.stack[-1][1]) > 1:
                out.append(("exit", False, "reversed"))
        if cfg.setcap and node.stack and not any(c[0] == "bc" for c in node.stack) and self.capacity(node.st) != CAP:
            out.append(("setcap", None, None))
        if cfg.ext:
            for t in self.tags:
                if not node.files[t].ext:
                    out.append(("ext", t, None))
        return out

    def show_act(self, a, node):
        if a[0] == "op":
            return f"{a[1]}.{a[2].name}"
        if a[0] == "enter":
            return {"o": f"enter {'+'.join(a[2] or ())}.buffered", "b": "enter buffer_backend()", "bc": "enter buffer_backend(capacity)"}[a[1]]
        if a[0] == "exit":
            c = node.stack[-1]
            what = {"o": f"{'+'.join(c[1] or ())}.buffered", "b": "buffer_backend()", "bc": "buffer_backend(capacity)"}[c[0]]
            return f"exit {what}" + (" with an exception" if a[1] else "") + (" in reverse order" if a[2] else "")
        if a[0] == "setcap":
            return "set_buffer_capacity(capacity)"
        return f"outside write to F{a[1]}"

    def begin(self, node):
        eng = self.eng
        eng.hooks = self.w.hooks
        eng.steps, eng.max_steps = 0, 400000
        eng.stack = []
        eng.where = ("<client>", 0, "<client>")
        self.w.hooks.collect = True
        return State(node.st.heap, node.st.facts, node.st.kinds, dict(node.st.mon), None)

    def explore(self):
        todo, seen = [], {}
        for n in self.start():
            n.prev = None
            seen[n.key()] = n
            todo.append(n)
        i = 0
        while i < len(todo):
            node = todo[i]
            i += 1
            if len(todo) > self.max_nodes:
                self.undecided.append((f"{self.cls} {self.cfg.name}", f"more than {self.max_nodes} abstract states"))
                break
            if any(f.prop == self.want for f in self.findings):
                break
            for act in self.actions(node):
                self.stats["transitions"] += 1
                try:
                    succ = list(self.step(node, act))
                    if self.fault and act[0] != "ext":
                        self.faults(node, act)
                except (Undecided, Unsupported, Budget) as e:
                    self.undecided.append((f"{self.cls} {self.cfg.name}: {'; '.join(node.program() + [self.show_act(act, node)])}", f"{type(e).__name__}: {e}"[:200]))
                    continue
                for n in succ:
                    k = n.key()
                    if k not in seen:
                        seen[k] = n
                        todo.append(n)
        self.stats["abstract_states"] = len(todo)
        return self

    # ------------------------------------------------------------------
    def fail(self, props, rule, detail, node, act, ev=None, st=None):
        if "C05" in props and self.shared_context(node) and (act[0] != "op" or act[2].mode == "mut"):
            props += " C13"  # one at a time is one of the interleavings
        loc = ev.loc if ev is not None else None
        prog = node.program() + [self.show_act(act, node)]
        for p in props.split():
            l = loc or self.where(act)
            f = Finding(p, rule, l, f"{self.cls} {self.cfg.name}: {'; '.join(prog)}", detail, tuple(st.trace()) if st is not None else ())
            k = (p, rule, f.construct)
            if k not in self.seen_findings:
                self.seen_findings.add(k)
                self.findings.append(f)

    def shared_context(self, node):
        """Whether the whole history is inside backend-wide contexts without outside writers."""
        return bool(node.stack) and all(c[0] != "o" for c in node.stack) and not any(f.ext for f in node.files.values())

    def where(self, act):
        """Definition behind an action."""
        name, cls = {"enter": "buffer_backend", "exit": "_flush", "setcap": "set_buffer_capacity"}.get(act[0]), self.w.cls
        if act[0] == "op":
            name = act[2].entry
        f = self.eng.class_lookup(cls, name, self.w.st) if name else None
        while isinstance(f, (CM, SM)):
            f = f.fn
        if isinstance(f, Fn):
            return (f.info.file, f.info.node.lineno, f.info.qual)
        return ("synced_collections/buffers/file_buffered_collection.py", 1, "FileBufferedCollection")

    def step(self, node, act):
        outs = getattr(self, "do_" + act[0])(node, act)
        self.stats["abstract_outcomes"] += len(outs)
        for o in outs:
            if "inj" in o[2].mon:
                continue
            tr = trace(o[2])
            self.locks(node, act, o, tr)
            self.crash(node, act, o, tr)
            r = getattr(self, "after_" + act[0])(node, act, o, tr)
            if r is None:
                continue
            files, stack = r
            n = self.canonical(o[2], files, stack, node, self.show_act(act, node))
            self.invariants(n, node, act, o)
            yield n

    # -- transitions -------------------------------------------------------
    def do_op(self, node, act):
        _, name, op = act
        st = self.begin(node)
        self.A = {}
        for a, kinds in op.args:
            t = T("arg", a)
            if kinds is not None:
                st = st.kind(t, frozenset(kinds) & (JSONK | {"tuple", "iter"}) or frozenset(kinds))
            self.A[a] = t
        return self.eng.dedupe_out(op.run(self.eng, self.w.objs[name], self.A, st))

    def context(self, c, st):
        """-> [(ctx ref, st)]"""
        if c[0] == "o":
            outs = [self.eng.getattr_(self.w.objs[n], "buffered", st, None) for n in c[1]]
            res = []
            for o in outs:
                if len(o) != 1 or o[0][0] != OK:
                    raise Undecided("obj.buffered is not a plain attribute")
                res.append(o[0][1])
            return res, st
        args = [CAP] if c[0] == "bc" else []
        o = self.eng.dedupe_out(self.w.call_attr(Ref(self.w.cls), "buffer_backend", args, st))
        if len(o) != 1 or o[0][0] != OK:
            raise Undecided("buffer_backend() has several outcomes")
        return [o[0][1]], o[0][2]

    def cap_arg(self, st):
        st = st.kind(CAP, frozenset({"int"}))
        return st.fact(P("gt0", T("lin", 1, ((CAP, 1),))), True)

    def do_enter(self, node, act):
        st = self.begin(node)
        if act[1] == "bc":
            st = self.cap_arg(st)
        ctxs, st = self.context((act[1], act[2]), st)
        outs = [(OK, NONE, st)]
        for c in ctxs:
            nxt = []
            for o in outs:
                nxt += self.eng.call_special(c, "__enter__", [], o[2], None) if o[0] == OK else [o]
            outs = self.eng.dedupe_out(nxt)
        # the context manager itself is remembered for the exit
        self.ctxs = tuple(ctxs)
        return outs

    def do_exit(self, node, act):
        st = self.begin(node)
        c = node.stack[-1]
        ctxs = list(reversed(c[2]))
        if act[2]:
            ctxs.reverse()
        exc = (Ref("c:ZeroDivisionError"), self.eng.mkexc("ZeroDivisionError"), NONE)
        outs = [(RAISE if act[1] else OK, exc[1] if act[1] else NONE, st)]
        for x in ctxs:
            nxt = []
            for o in outs:
                if o[0] == OK:
                    args = [NONE, NONE, NONE]
                else:
                    args = [self.eng.exc_class_val(o[1], o[2]), o[1], NONE]
                for q in self.eng.call_special(x, "__exit__", args, o[2], None):
                    if q[0] == OK and o[0] == RAISE and q[1] in (NONE, FALSE):
                        q = (RAISE, o[1], q[2])
                    nxt.append(q)
            outs = self.eng.dedupe_out(nxt)
        return outs

    def do_setcap(self, node, act):
        st = self.cap_arg(self.begin(node))
        return self.eng.dedupe_out(self.w.call_attr(Ref(self.w.cls), "set_buffer_capacity", [CAP], st))

    def do_ext(self, node, act):
        st = self.begin(node)
        return [(OK, NONE, self.eng.fset(self.path[act[1]], self.encode(self.fresh(59)), st))]

    # -- ghost updates and comparisons ---------------------------------------
    def after_ext(self, node, act, o, tr):
        t = act[1]
        f = node.files[t]
        c = self.fresh(59)
        f = f.but(ext=True) if f.cap else f.but(L=c, L0=c)
        return {**node.files, t: f}, node.stack

    def writes(self, tr):
        """[(tag, event)] of writes to the data files."""
        out = []
        for e in tr:
            p = None
            if e.name in ("open_write", "remove", "truncate", "utime"):
                p = e.get("path")
            elif e.name in ("replace", "copyfile"):
                p = e.get("dst")
                if e.get("src") in self.tag_of:
                    out.append((self.tag_of[e.get("src")], e))
            if p in self.tag_of:
                out.append((self.tag_of[p], e))
        return out

    def reads(self, tr):
        return {self.tag_of[e.get("path")] for e in tr if e.name == "open_try" and e.get("path") in self.tag_of and not set(str(getattr(e.get("mode"), "v", e.get("mode")))) & set("wax+")}

    def same(self, a, b, st):
        """Whether two contents are equal on this path."""
        rep = self.unifier(st)
        a, b = rep(canon_content(norm(self.eng, a, st))), rep(canon_content(norm(self.eng, b, st)))
        if a == b:
            return True
        if differ(self.w, self.eng, st, plain(st.facts), a, b) is False:
            return True
        if opaque_in(a) or opaque_in(b):
            raise Undecided(f"content {show(a)[:80]} / {show(b)[:80]}")
        return False

    def expected(self, op, c, st, name=None):
        """Outcomes of the operation on a built-in container with content c."""
        eng, w = self.eng, self.w
        isdict, outer = w.isdict, None
        if self.kid and name == self.kid[1]:
            outer, isdict = c, self.kid[2] == "dict"
            c = canon_content(norm(eng, T("val" if w.isdict else "item", c, self.kid[0]), st))

        def go():
            if isdict:
                x, s = eng.alloc(st, "oracle", eng.dict_from(c))
            else:
                x, s = eng.alloc(st, "oracle", eng.list_from_segs(eng.segs(c)))
            eng.steps, eng.stack = 0, []
            res = []
            for tag, val, s2 in eng.dedupe_out(op.spec(eng, x, self.A, s)):
                fin = canon_content(norm(eng, x, s2))
                if outer is not None:
                    fin = canon_content(norm(eng, T("dset" if w.isdict else "lset", outer, self.kid[0], fin), s2))
                if tag == OK and isinstance(val, T) and val.op == "p":
                    for b, s3 in eng.decide(val, s2):
                        res.append((tag, K(b), s3, fin))
                else:
                    res.append((tag, val, s2, fin))
            return res

        return self.quiet(go)

    def total(self, files, buf, st):
        """Expected size for a set of logical contents."""
        return None

    def soft(self, f, st):
        """The modifications left the content as it was, which need not count as a modification."""
        return f.mod and self.same(f.L, f.L0, st)

    def sharing(self, t):
        return sum(1 for x in self.cfg.objs.values() if x == t) > 1

    def forced(self, node, o, newL=()):
        """Whether the path has established that the buffer exceeds its capacity."""
        st = o[2]
        newL = dict(newL)
        caps = [c for c in (self.capacity(node.st), self.capacity(st)) if c is not None]
        if CAP not in caps and CAP in st.kinds:
            caps.append(CAP)  # requested, but taken back
        if self.w.buffering == "memory":
            n = sum(1 for g, f in node.files.items() if f.cap and f.mod or g in newL)
            return any(self.known(P("gt0", linadd(K(n), c, -1)), st) is True for c in caps)
        cand = {}
        for g, f in node.files.items():
            d = self.disk(node.st, g)
            cand[g] = [x for x in (f.L, d, newL.get(g)) if x is not None]
        for p, v in st.facts.items():
            if p.args[0] != "gt0":
                continue
            x = p.args[1]
            if v is False:  # x <= 0 is 1 - x > 0
                l = lin(x)
                x = mklin(1 - l[0], {a: -k for a, k in l[1].items()})
            for c in caps:
                size = linadd(x, c)
                if size is not None and self.is_size(size, cand, st):
                    return True
        return False

    def is_size(self, size, cand, st):
        l = lin(size)
        if l is None or l[0] < 0 or l[0] > 1 or not l[1]:
            return False
        left = dict(cand)
        for a, k in l[1].items():
            if k != 1 or a.op != "len":
                return False
            v = a.args[0]
            while isinstance(v, T) and v.op == "encoded":
                v = v.args[0]
            if not (isinstance(v, T) and v.op == "json"):
                return False
            for g, cs in left.items():
                if any(self.same(v.args[0], c, st) for c in cs):
                    del left[g]
                    break
            else:
                return False
        return True

    def exc(self, o):
        c = self.eng.exc_class(o[1], o[2])
        return c[2:]

    def error_files(self, o):
        """Names in BufferedError.files, None if not recognised."""
        outs = self.quiet(lambda: self.eng.getattr_(o[1], "files", o[2], None))
        if len(outs) == 1 and outs[0][0] == OK and isinstance(outs[0][1], Ref):
            d = o[2].get(outs[0][1].oid)
            if isinstance(d, DictObj) and d.items is not None:
                return {self.tag_of.get(k, k) for k, _ in d.items}
        return None

    def differs(self, a, b, s):
        a, b = canon_content(norm(self.eng, a, s)), canon_content(norm(self.eng, b, s))
        rep = self.unifier(s)
        if rep(a) == rep(b):
            return False
        r = differ(self.w, self.eng, s, plain(s.facts), a, b)
        if r is False:
            return False
        if opaque_in(a):
            raise Undecided(f"result {show(a)[:100]}")
        return True

    def after_op(self, node, act, o, tr):
        _, name, op = act
        t = self.cfg.objs[self.root_of(name)]
        f = node.files[t]
        st = o[2]
        buf = self.buffered(node, name)
        reads, writes = self.reads(tr), self.writes(tr)
        disk0 = self.disk(node.st, t)
        C56 = "C05 C06" if self.sharing(t) else "C05"
        if not buf:
            base = f.L if disk0 is None else disk0
        elif f.cap and (f.mod and not (t in reads and self.soft(f, st)) or t not in reads):
            base = f.L
        else:
            base = f.L if disk0 is None else disk0
        files = dict(node.files)
        if o[0] == RAISE and self.eng.exc_is(o[1], st, "BufferedError", "MetadataError"):
            new = {t: x[3] for x in self.expected(op, base, st, name) if x[0] == OK} if op.mode == "mut" else ()
            return self.forced_error(node, act, o, tr, base, new)
        # result
        news = []
        for tag, val, s, fin in self.expected(op, base, st, name):
            if tag != o[0]:
                if differ(self.w, self.eng, s, plain(s.facts)) is False:
                    continue
                got = f"returns {show(norm(self.eng, o[1], st))[:80]}" if o[0] == OK else f"raises {self.exc(o)}"
                want = "return normally" if tag == OK else f"raise {self.eng.exc_class(val, s)[2:]}"
                self.fail(C56 if buf else "C05 C07", "transparent-outcome", f"{got} where the operation on the logical content would {want}", node, act, None, st)
                continue
            if tag == RAISE:
                want = self.eng.exc_class(val, s)[2:]
                if not self.eng.exc_is(o[1], st, want):
                    self.fail(C56 if buf else "C05 C07", "transparent-exception", f"raises {self.exc(o)} instead of {want}", node, act, None, st)
                    continue
            else:
                vals = [(o[1], val, s)]
                n0 = norm(self.eng, o[1], st)
                if isinstance(n0, T) and n0.op == "p":
                    vals = [(K(b), val, s2) for b, s2 in self.quiet(lambda: self.eng.decide(n0, s))]
                for g, wv, s2 in vals:
                    if isinstance(wv, T) and wv.op == "p":
                        d = self.quiet(lambda: self.eng.decide(wv, s2))
                        wv = K(d[0][0]) if len(d) == 1 else wv
                    if self.differs(g, wv, s2):
                        self.fail(C56 if buf else "C05 C07", "transparent-result", f"returns {show(canon_content(norm(self.eng, g, s2)))[:100]} instead of {show(canon_content(norm(self.eng, wv, s2)))[:100]}", node, act, None, st)
                        break
            news.append((tag, fin))
        if not news:
            return None
        tag, fin = news[0]
        newL = fin if tag == OK else base
        mine = self.content_of(self.w.objs[self.root_of(name)], st)
        if mine != newL and self.same(mine, newL, st):
            newL = mine  # equal, written differently
        changed = op.mode == "mut" and o[0] == OK
        if not buf:
            d = self.disk(st, t)
            if changed:
                if d is None or not self.same(d, newL, st):
                    self.fail("C05 C07", "unbuffered-write", f"the file holds {show(d)[:100]} instead of {show(newL)[:100]} after an operation outside of buffered contexts", node, act, self.last(writes), st)
                    return None
            elif writes and op.mode == "read":
                self.fail("C17", "read-writes", "a read operation writes the file", node, act, writes[0][1], st)
            for g, e in writes:
                if g != t:
                    self.fail("C05", "wrong-file", f"an operation on F{t} writes F{g}", node, act, e, st)
            L = newL if d is None else d
            files[t] = f.but(L=L, L0=L, cap=False, mod=False, ext=False)
            return files, node.stack
        if t in reads and (not f.mod or self.soft(f, st)):
            f = F(base, base, True)  # captured now
        elif not f.cap:
            f = F(base, base, True)
        files[t] = f = f.but(L=newL, mod=f.mod or changed)
        return self.forced_writes(node, act, o, tr, files, {t: base})

    def last(self, writes):
        return writes[-1][1] if writes else None

    def forced_writes(self, node, act, o, tr, files, old=()):
        """Writes while buffered are only allowed when the capacity is exceeded."""
        st = o[2]
        writes = self.writes(tr)
        old = dict(old)
        if not writes:
            return files, node.stack
        if not self.forced(node, o, {g: files[g].L for g in old}):
            self.fail("C05 C15", "early-write", "the file is written inside the buffered context although the capacity is not exceeded", node, act, writes[0][1], st)
            return None
        for g in sorted({g for g, _ in writes}):
            f = files[g]
            ev = [e for x, e in writes if x == g][-1]
            before = node.files[g]
            was_mod = before.mod or f.mod
            if not was_mod:
                self.fail("C17 C07", "clean-written", f"the flush writes F{g} although its buffered copy was only read", node, act, ev, st)
                continue
            if f.ext:
                self.fail("C07", "silent-overwrite", f"the forced flush overwrites F{g}, which was changed by an outside writer", node, act, ev, st)
                return None
            d = self.disk(st, g)
            if d is not None and self.same(d, f.L, st):
                files[g] = f.but(mod=False, L0=f.L)
            elif d is not None and g in old and self.same(d, old[g], st):
                # flushed while loading: the operation itself is still buffered
                files[g] = f.but(L0=old[g])
            else:
                self.fail("C05 C15" + (" C06" if self.sharing(g) else ""), "forced-flush-content", f"the forced flush writes {show(d)[:100]} instead of {show(f.L)[:100]} to F{g}", node, act, ev, st)
                return None
        return files, node.stack

    def forced_error(self, node, act, o, tr, base=None, newL=()):
        """An error of a flush that was forced inside the contexts."""
        st = o[2]
        own = self.cfg.objs[self.root_of(act[1])] if act[0] == "op" else None
        maybe = {own} if own and act[2].mode == "mut" and node.files[own].ext else set()
        must = {g for g, f in node.files.items() if f.mod and f.ext}
        maybe |= {g for g in must if self.soft(node.files[g], st)}
        must -= maybe
        if not self.eng.exc_is(o[1], st, "BufferedError"):
            self.fail("C07", "error-class", f"{self.show_act(act, node)} raises {self.exc(o)} instead of BufferedError", node, act, None, st)
            return None
        if not self.forced(node, o, newL):
            self.fail("C05 C07 C15", "early-flush", "a flush is attempted inside the buffered context although the capacity is not exceeded", node, act, None, st)
            return None
        named = self.error_files(o)
        if named is None:
            raise Undecided("files of the BufferedError")
        if not (must <= named <= must | maybe):
            self.fail("C07", "error-files", f"the BufferedError names {sorted(map(str, named))} but the conflicting files are {sorted(must | maybe)}", node, act, None, st)
            return None
        files = dict(node.files)
        writes = {g for g, _ in self.writes(tr)}
        for g, f in node.files.items():
            d = self.disk(st, g)
            if g in named:
                if g in writes:
                    self.fail("C07", "silent-overwrite", f"the conflicting file F{g} is written", node, act, None, st)
                    return None
                files[g] = F(d if d is not None else f.L, d if d is not None else f.L, True, False, False)
            elif f.mod or g in writes:
                if g == own:
                    new = [base, *dict(newL).values()]
                    back = g not in writes and any(self.same(x, f.L0, st) for x in new)
                    if not back and (d is None or not any(self.same(d, x, st) for x in new)):
                        self.fail("C07 C15", "not-flushed", f"the flush fails for {sorted(named)} and leaves {show(d)[:80]} in the non-conflicting file F{g}", node, act, None, st)
                        return None
                    L = d if d is not None else f.L
                    files[g] = F(L, L, True)
                elif self.soft(f, st) and g not in writes:
                    L = d if d is not None else f.L
                    files[g] = F(L, L, True)
                elif d is None or not self.same(d, f.L, st):
                    self.fail("C07 C15", "not-flushed", f"the flush fails for {sorted(named)} and does not write the non-conflicting file F{g}", node, act, None, st)
                    return None
                else:
                    files[g] = f.but(mod=False, ext=False, L0=f.L)
        return files, node.stack

    def after_setcap(self, node, act, o, tr):
        return self.after_capacity(node, act, o, tr, node.stack)

    def after_enter(self, node, act, o, tr):
        stack = node.stack + ((act[1], act[2], self.ctxs, self.capacity(node.st) if act[1] == "bc" else None),)
        if act[1] == "bc":
            return self.after_capacity(node, act, o, tr, stack)
        if o[0] == RAISE:
            self.fail("C05", "enter-raises", f"entering the context raises {self.exc(o)}", node, act, None, o[2])
            return None
        for g, e in self.writes(tr):
            self.fail("C05 C17", "enter-writes", f"entering the context writes F{g}", node, act, e, o[2])
            return None
        return dict(node.files), stack

    def after_capacity(self, node, act, o, tr, stack):
        if o[0] == RAISE:
            if not self.eng.exc_is(o[1], o[2], "BufferedError", "MetadataError"):
                self.fail("C15 C05", "capacity-raises", f"changing the capacity raises {self.exc(o)}", node, act, None, o[2])
                return None
            r = self.forced_error(node, act, o, tr)
            if r is None:
                return None
            if act[0] == "enter":
                cap = self.capacity(o[2])
                if cap != self.capacity(node.st):
                    self.fail("C15 C07", "capacity-restored", f"the capacity is {show(cap)} after the context could not be entered", node, act, None, o[2])
            return r[0], node.stack
        if self.capacity(o[2]) != CAP:
            self.fail("C15", "capacity-set", f"the capacity is {show(self.capacity(o[2]))[:60]} instead of the requested one", node, act, None, o[2])
            return None
        r = self.forced_writes(node, act, o, tr, dict(node.files))
        return None if r is None else (r[0], stack)

    def after_exit(self, node, act, o, tr):
        st = o[2]
        c = node.stack[-1]
        stack = node.stack[:-1]
        after = Node(st, node.files, stack)
        tags = {t for n, t in self.cfg.objs.items() if self.buffered(node, n) and not self.buffered(after, n)}
        still = {t for n, t in self.cfg.objs.items() if self.buffered(after, n)}
        files = dict(node.files)
        writes = self.writes(tr)
        conflicts = {t for t in tags if node.files[t].cap and node.files[t].mod and node.files[t].ext}
        soft = {t for t in conflicts if self.soft(node.files[t], st)}
        err = None
        if o[0] == RAISE:
            if self.eng.exc_is(o[1], st, "BufferedError", "MetadataError"):
                err = o[1]
            elif not (act[1] and self.eng.exc_is(o[1], st, "ZeroDivisionError")):
                self.fail("C05 C07", "exit-raises", f"leaving the context raises {self.exc(o)}", node, act, None, st)
                return None
        elif act[1]:
            self.fail("C05", "exception-swallowed", "leaving the context swallows the exception of its body", node, act, None, st)
        capflush = c[0] == "bc"  # restoring a lower capacity may force a flush as well
        if err is None:
            if conflicts - soft:
                g = sorted(conflicts - soft)[0]
                ev = [e for x, e in writes if x == g]
                self.fail("C07", "conflict-not-raised", f"leaving the context does not raise although F{g} was changed by an outside writer and its buffered copy was modified", node, act, self.last([(g, e) for e in ev]), st)
                return None
        else:
            if not conflicts and not capflush:
                self.fail("C07 C05", "spurious-conflict", f"leaving the context raises {self.exc(o)} although no modified file was changed by an outside writer", node, act, None, st)
                return None
            if c[0] == "o":
                if not self.eng.exc_is(err, st, "MetadataError"):
                    self.fail("C07", "error-class", f"leaving a per-object context raises {self.exc(o)} instead of MetadataError", node, act, None, st)
            elif not self.eng.exc_is(err, st, "BufferedError"):
                self.fail("C07", "error-class", f"leaving a backend-wide context raises {self.exc(o)} instead of BufferedError", node, act, None, st)
            else:
                named = self.error_files(o)
                if named is None:
                    raise Undecided("files of the BufferedError")
                if not (conflicts - soft <= named <= conflicts) and not capflush:
                    self.fail("C07", "error-files", f"the BufferedError names {sorted(map(str, named))} but the conflicting files are {sorted(conflicts)}", node, act, None, st)
                    return None
                conflicts = named if capflush else conflicts
        for g in self.tags:
            f = node.files[g]
            evs = [e for x, e in writes if x == g]
            d = self.disk(st, g)
            if g not in tags:
                if evs and not (capflush and self.forced(node, o)):
                    why = "is still buffered" if g in still else "is not buffered"
                    self.fail("C05", "early-write", f"F{g} is written although it {why}", node, act, evs[-1], st)
                    return None
                if evs:
                    if f.ext:
                        self.fail("C07", "silent-overwrite", f"F{g} was changed by an outside writer", node, act, evs[-1], st)
                        return None
                    files[g] = f.but(mod=False, L0=f.L)
                continue
            if g in conflicts:
                if evs:
                    self.fail("C07", "silent-overwrite", f"F{g} is written although it was changed by an outside writer", node, act, evs[-1], st)
                    return None
            elif evs and not f.mod:
                self.fail("C17 C07", "clean-written", f"F{g} is written although its buffered copy was only read", node, act, evs[-1], st)
            elif f.cap and f.mod:
                if not evs and self.soft(f, st):
                    pass
                elif d is None or not self.same(d, f.L, st):
                    props = "C05" + (" C06" if self.sharing(g) else "") + (" C07" if conflicts else "")
                    self.fail(props, "exit-content", f"after the outermost exit F{g} holds {show(d)[:100]} instead of {show(f.L)[:100]}", node, act, self.last([(g, e) for e in evs]), st)
                    return None
            L = d if d is not None else f.L
            files[g] = F(L, L)
        if c[0] != "o":
            cap = self.capacity(st)
            if c[0] == "bc" and cap != c[3]:
                self.fail("C15 C07", "capacity-restored", f"the capacity is {show(cap)[:60]} instead of {show(c[3])[:60]} after the context exited", node, act, None, st)
                return None
            if c[0] == "b" and cap != self.capacity(node.st):
                self.fail("C15 C07", "capacity-restored", "the capacity changes when a context without a capacity exits", node, act, None, st)
                return None
        return files, stack

    # -- invariants ----------------------------------------------------------
    def invariants(self, n, node, act, o):
        st = n.st
        size, cap = self.size(st), self.capacity(st)
        buf = self.buffer(st)
        if not n.stack:
            if size is not None and size != K(0):
                self.fail("C15 C07 C13", "size-zero", f"the reported buffer size is {show(size)[:100]} although no buffered context is active", node, act, None, o[2])
            if buf:
                self.fail("C07 C15", "buffer-empty", f"the buffer still holds {[show(k) for k in buf]} although no buffered context is active", node, act, None, o[2])
        if size is None or buf is None:
            return
        want = self.expected_size(n, buf, st)
        if want is not None and want != size:
            self.fail("C15", "size-exact", f"the reported buffer size is {show(size)[:100]} instead of {show(want)[:100]}", node, act, None, o[2])
        d = linadd(self.size(o[2]), self.capacity(o[2]), -1)
        if d is not None and n.stack and act[0] != "ext":
            if self.known(P("gt0", d), o[2]) is not False:
                self.fail("C15", "size-bounded", f"the buffer size {show(size)[:80]} may exceed the capacity {show(cap)[:40]} after the step", node, act, None, o[2])

    def expected_size(self, n, buf, st):
        if self.w.buffering == "memory":
            if any(self.soft(f, st) for f in n.files.values()):
                return None
            return K(sum(1 for f in n.files.values() if f.mod and f.cap))
        tot = K(0)
        for k, v in buf.items():
            e = isinstance(v, Ref) and st.get(v.oid)
            if not isinstance(e, DictObj) or e.items is None:
                return None
            blobs = [x for _, x in e.items if isinstance(x, T) and x.op in ("encoded", "json")]
            if len(blobs) != 1:
                return None
            tot = linadd(tot, T("len", blobs[0]))
        return tot

    # -- writing protocol ------------------------------------------------------
    def crash(self, node, act, o, tr):
        if self.want == "C08":
            check_crash(Crash(self, node, act), o, tr, self.threading or self.wc, set(self.tag_of))

    # -- locks ---------------------------------------------------------------
    def touches(self, e):
        if e.name in ("cread", "cmut"):
            return e.get("role")[0] in ("data", "entry", "entrypart") or e.get("role")[1] in ("_buffer", "_buffered_collections")
        if e.name == "setattr":
            return e.get("name") in ("_data", "_CURRENT_BUFFER_SIZE", "_buffer")
        return e.name in ("open_read", "open_write", "replace", "dumps")

    def locks(self, node, act, o, tr):
        held = {}
        names = self.locknames
        guarded = self.threading and (act[0] == "setcap" or act[0] == "op" and self.buffered(node, act[1]))
        common = first = gone = None
        prop = "C13" if act[0] != "op" or act[2].mode == "mut" else "C14 C13"
        for e in tr:
            if e.name == "acquire":
                r = e.get("lock").oid
                if held.get(r) and e.get("plain"):
                    self.fail("C10", "self-deadlock", f"the {names.get(r, 'lock')} lock is not reentrant and already held", node, act, e, o[2])
                    return
                if not held.get(r):
                    for h, n in held.items():
                        if n and h != r:
                            self.order.add((names.get(h, "lock"), names.get(r, "lock"), e.loc))
                held[r] = held.get(r, 0) + 1
            elif e.name == "release":
                r = e.get("lock").oid
                held[r] = held.get(r, 0) - 1
                if held[r] < 0:
                    self.fail("C10", "release-unheld", f"releases the {names.get(r, 'lock')} lock without holding it", node, act, e, o[2])
                    return
                if guarded and common and r in common and held[r] == 0:
                    common = common - {r}
                    gone = e
            elif guarded and self.touches(e):
                now = {r for r, n in held.items() if n > 0 and names.get(r, "").startswith("class:")}
                what = e.name if e.name not in ("cread", "cmut") else f"{e.name} of {'/'.join(map(str, e.get('role')))}"
                if not now:
                    self.fail(prop, "unlocked-access", f"{what} without holding the lock of the buffer", node, act, e, o[2])
                    return
                common = now if first is None else common & now
                first = first or e
                if not common:
                    self.fail(prop, "split-critical-section", f"{what} happens in a second critical section: the lock of the buffer was released at {gone.loc[0]}:{gone.loc[1]} in the middle of the step" if gone else f"{what} is guarded by another lock than the previous accesses", node, act, e, o[2])
                    return
        left = [names.get(r, "lock") for r, n in held.items() if n > 0]
        if left:
            ev = [e for e in tr if e.name == "acquire"][-1]
            how = "returns" if o[0] == OK else f"raises {self.exc(o)}"
            inj = o[2].mon.get("inj")
            self.fail("C10 C13", "lock-leak", f"the {', '.join(left)} lock is still held when the step {how}" + (f" ({inj} failure)" if inj else ""), node, act, ev, o[2])

    def find_locks(self):
        out, st = {}, self.w.st
        for oid in st.get(self.w.cls).info.mro:
            c = st.get(oid)
            if not isinstance(c, ClsObj):
                continue
            for a, v in c.attrs.items():
                x = isinstance(v, Ref) and st.get(v.oid)
                if isinstance(x, Inst) and x.cls.oid == "c:RLock":
                    out.setdefault(v.oid, "class:" + a)
                if isinstance(x, DictObj):
                    for k, y in x.items or ():
                        z = isinstance(y, Ref) and st.get(y.oid)
                        if isinstance(z, Inst) and z.cls.oid == "c:RLock":
                            out.setdefault(y.oid, "resource:" + a)
        return out

    # -- failures of the environment -------------------------------------------
    def faults(self, node, act):
        """Every failure of the environment in one step."""
        self.w.hooks.noinj = False
        try:
            outs = getattr(self, "do_" + act[0])(node, act)
        finally:
            self.w.hooks.noinj = True
        for o in outs:
            if "inj" not in o[2].mon:
                continue
            self.stats["injected_failures"] = self.stats.get("injected_failures", 0) + 1
            tr = trace(o[2])
            self.locks(node, act, o, tr)
            self.crash(node, act, o, tr)
            last = act[0] == "exit" and len(node.stack) == 1
            size = self.size(o[2])
            if last and size is not None and size != K(0):
                self.fail("C15", "size-zero", f"the reported buffer size is {show(size)[:100]} after the last context was left with a failure ({o[2].mon['inj']})", node, act, None, o[2])


class Crash:
    """Where the rules for the writing protocol report to."""

    def __init__(self, x, node, act):
        self.x, self.node, self.act = x, node, act

    def fail(self, prop, rule, detail, o, ev=None):
        self.x.fail(prop, rule, detail, self.node, self.act, ev, o[2])


def plain(facts):
    """Facts about data only, without sizes and digests."""
    return {p: v for p, v in facts.items() if not any(x == CAP or x.op in ("md5", "encoded", "stat") for x in subterms(p))}


def flat(vs):
    """Terms in the values of a heap object."""
    for v in vs:
        if isinstance(v, T):
            yield v
        elif isinstance(v, (tuple, frozenset, list)):
            yield from flat(v)
        elif isinstance(v, Tup):
            yield from flat(v.items)


def only(v, ops):
    if isinstance(v, T):
        return v.op in ops and all(only(a, ops) for a in v.args)
    if isinstance(v, (tuple, frozenset)):
        return all(only(a, ops) for a in v)
    return not isinstance(v, (Ref, Tup))


def values_of(o):
    if isinstance(o, (Inst, ClsObj)):
        for k in sorted(o.attrs):
            yield o.attrs[k]
    elif isinstance(o, (DictObj, ListObj)):
        yield o.items if o.items is not None else o.content
        if getattr(o, "factory", None) is not None:
            yield o.factory
    elif isinstance(o, Frame):
        for k in sorted(o.vars):
            yield o.vars[k]
        yield o.parent
    elif isinstance(o, Gen):
        yield o.frame


def refs_of(o):
    out = []

    def go(v):
        if isinstance(v, Ref):
            out.append(v.oid)
        elif isinstance(v, T):
            for a in v.args:
                go(a)
        elif isinstance(v, (tuple, frozenset, list)):
            for a in v:
                go(a)
        elif isinstance(v, Tup):
            go(v.items)
        elif isinstance(v, BM):
            go(v.self)
            go(v.fn)
        elif isinstance(v, (SM, CM)):
            go(v.fn)
        elif isinstance(v, Fn):
            if isinstance(v.env, Ref):
                out.append(v.env.oid)
            elif isinstance(v.env, str):
                out.append(v.env)
        elif isinstance(v, str):
            pass

    for v in values_of(o):
        go(v)
    if isinstance(o, Frame) and isinstance(o.parent, str):
        out.append(o.parent)
    return out
