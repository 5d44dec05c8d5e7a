"""Rules for single operations on unbuffered collections.

A scenario is one public operation of one class, issued on the root or on a
nested collection, from an arbitrary memory state and an arbitrary resource
content. Every abstract outcome is compared with the outcome of the same
operation on a built-in container and its effects are checked.
"""
from .instances import differ
from .opmode import (
    LISTY, MAPK, P, World, norm, raw_args, set_content, subrefs, subterms, trace,
)  # fmt: skip
from .spec import ops_for
from .state import State
from .values import *  # noqa: F401,F403

WRITES = ("open_write", "replace", "remove", "copyfile", "rwrite", "rtouch", "rother", "truncate", "mkdir", "utime")
OPAQUE = ("top", "call", "mcall", "ext", "opaque", "widen", "unk", "partial", "attr")


class Finding:
    __slots__ = ("prop", "rule", "file", "line", "func", "scen", "detail", "path")

    def __init__(self, prop, rule, loc, scen, detail, path=()):
        self.prop, self.rule = prop, rule
        self.file, self.line, self.func = (tuple(loc) + ("", 0, ""))[:3]
        self.scen, self.detail, self.path = scen, detail, tuple(path)

    @property
    def construct(self):
        return f"{self.file}:{self.func}"

    def key(self):
        return (self.prop, self.rule, self.construct)

    def __repr__(self):
        return f"{self.prop} [{self.rule}] {self.file}:{self.line} {self.func}: {self.scen}: {self.detail}"


class Undecided(Exception):
    pass


def contents_replaced(eng, v, table, st):
    """Replace terms of memory content by other content terms."""

    def go(x):
        if isinstance(x, T):
            if x in table:
                return table[x]
            n = tuple(go(a) for a in x.args)
            return x if n == x.args else T(x.op, *n)
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if isinstance(x, frozenset):
            return frozenset(go(a) for a in x)
        if isinstance(x, Tup):
            return Tup(tuple(go(a) for a in x.items))
        return x

    return norm(eng, go(v), st)


def opaque_in(v):
    return any(x.op in OPAQUE for x in subterms(v))


def canon_content(v):
    """Order of dict entries is not significant."""
    if isinstance(v, T):
        n = tuple(canon_content(a) for a in v.args)
        if v.op == "dlit":
            n = (tuple(sorted(n[0], key=repr)),)
        if v.op == "dset":
            # inner updates of distinct constant keys commute
            ks, c = [], T(v.op, *n)
            while isinstance(c, T) and c.op == "dset" and isinstance(c.args[1], K):
                if c.args[1] not in [k for k, _ in ks]:
                    ks.append((c.args[1], c.args[2]))
                c = c.args[0]
            for k, x in sorted(ks, key=repr):
                c = T("dset", c, k, x)
            if ks:
                return c
        return T(v.op, *n)
    if isinstance(v, tuple):
        return tuple(canon_content(a) for a in v)
    return v


def lookup(eng, c, key, isdict):
    """Content found at a constant position of a content term."""
    if isdict:
        if isinstance(c, T) and c.op == "dset":
            if c.args[1] == key:
                return c.args[2]
            if isinstance(c.args[1], K):
                return lookup(eng, c.args[0], key, True)
        return T("val", c, key)
    if isinstance(c, T) and c.op == "lset" and c.args[1] == key:
        return c.args[2]
    return T("item", c, key)


class Scenario:
    def __init__(self, cls, threading, wc, path, op):
        self.cls, self.threading, self.wc, self.path, self.op = cls, threading, wc, path, op
        self.later = False

    def __repr__(self):
        where = "root" if not self.path else "root." + ".".join(self.path)
        mode = ("threads" if self.threading else "no threads") + (", write_concern" if self.wc else "")
        return f"{self.cls} ({mode}): {self.op.name} on {where}" + (" after an earlier operation" if self.later else "")


PATHS = [(), ("+d",), ("+l",), ("d",), ("l",), ("d", "l"), ("l", "d")]


def modes(info):
    isdict, attr, threads, json = info
    out = [(True, False)] if threads else []
    out += [(False, False)]
    if json:
        out += [(False, True)]
    return out


def scenarios(eng, cls, info, th, wc, path):
    """All operations of one class in one mode at one position."""
    isdict, attr = info[:2]
    last = [p for p in path if p[0] != "+"]
    target = isdict if not last else last[-1] == "d"
    for op in ops_for(target, attr and target, more=True):
        yield Scenario(cls, th, wc, path, op)


def past(v):
    """The value as it was computed before the resource was changed by others."""
    if isinstance(v, T):
        if v.op in ("filedata", "stat") and isinstance(v.args[-1], K):
            return T(v.op, v.args[0], K(-1 - v.args[-1].v))
        if v.op in ("blob", "doc", "zval"):
            return T(v.op, T("past", v.args[0]))
        if v.op in ("arg", "C"):
            return T(v.op, f"{v.args[0]}~")
        n = tuple(past(x) for x in v.args)
        return v if n == v.args else T(v.op, *n)
    if isinstance(v, tuple):
        return tuple(past(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(past(x) for x in v)
    if isinstance(v, Tup):
        return Tup(tuple(past(x) for x in v.items))
    return v


def is_past(v):
    return any(
        x.op == "past" or x.op == "filedata" and isinstance(x.args[-1], K) and x.args[-1].v < 0 for x in subterms(v)
    )


def past_obj(o):
    if isinstance(o, Inst):
        return Inst(o.cls, {k: past(v) for k, v in o.attrs.items()})
    if isinstance(o, ClsObj):
        return ClsObj(o.info, {k: past(v) for k, v in o.attrs.items()})
    if isinstance(o, DictObj):
        return DictObj(past(o.items), past(o.content), o.factory)
    if isinstance(o, ListObj):
        return ListObj(past(o.items), past(o.content), o.kind)
    return o


def earlier_states(eng, cls, th, wc, path):
    """What earlier operations leave behind besides the data: [(heap, facts, kinds)].

    Normally nothing. Otherwise every operation is also analysed in these states,
    with a resource that was changed by others in the meantime.
    """
    out = {}
    w = World(eng, cls)
    ats = [path] + ([("+" + path[0],)] if len(path) == 1 and path[0][0] != "+" else [])
    full = len(path) < 2 and not wc and th == w.supports_threading()
    for at in ats:
        for scn in scenarios(eng, cls, (w.isdict, w.attr), th, wc, at):
            if not (full and at == path and not scn.op.selfarg) and scn.op.name not in ("x()", "d[k]=v", "append(v)"):
                continue

            def f(st):
                A, st = scn.op.make_args(st)
                return scn.op.run(eng, w.objs[a.target], A, st)

            try:
                a = Analysis(eng, scn)
                w = a.w
                outs = w.run(f)
            except (Unsupported, Budget):
                continue
            finally:
                w.hooks.collect = False
            data = {w.st.get(r.oid).attrs["_data"].oid for r in w.objs.values()}
            for o in outs:
                st, new = o[2], {}
                for oid, x in st.heap.items():
                    old = w.st.get(oid)
                    if old is not None and oid not in data and isinstance(x, (Inst, ClsObj, DictObj, ListObj)) and old != x:
                        new[oid] = past_obj(x)
                work = list(new.values())
                while work:
                    x = work.pop()
                    vals = x.attrs.values() if isinstance(x, (Inst, ClsObj)) else (x.items, x.content)
                    for r in subrefs(tuple(vals)):
                        if r.oid not in new and w.st.get(r.oid) is None and st.get(r.oid) is not None:
                            new[r.oid] = past_obj(st.get(r.oid))
                            if isinstance(new[r.oid], (Inst, ClsObj, DictObj, ListObj)):
                                work.append(new[r.oid])
                if not new:
                    continue
                facts = {past(p): v for p, v in st.facts.items() if past(p) != p}
                kinds = {past(t): v for t, v in st.kinds.items() if past(t) != t}
                sig = frozenset(
                    (oid, k, v.op if isinstance(v, T) else type(v).__name__)
                    for oid, x in new.items()
                    for k, v in (x.attrs.items() if isinstance(x, (Inst, ClsObj)) else [("", x.content)])
                )
                out.setdefault((o[0] == RAISE, sig), (new, facts, kinds))
    return [out[k] for k in sorted(out, key=lambda k: k[0])][:4]


class Analysis:
    """Analyse one scenario."""

    def __init__(self, eng, scn, earlier=None):
        self.eng, self.scn = eng, scn
        self.findings = []
        self.undecided = []
        self.stats = {}
        self.compared = self.refuted = 0
        w = self.w = World(eng, scn.cls, threading=scn.threading, write_concern=scn.wc)
        w.add_root()
        name, self.chain = "R", []  # [(name, key, parent_isdict)]
        for i, p in enumerate(scn.path):
            kind = "dict" if p[-1] == "d" else "list"
            nm = f"N{i}"
            w.add_child(nm, name, kind)
            if p[0] == "+":
                continue  # retained sibling, the operation goes to the root
            key = w.children[name][-1][0]
            self.chain.append((nm, key, isinstance(w.st.get(w.st.get(w.objs[name].oid).attrs["_data"].oid), DictObj)))
            name = nm
        self.target = name
        self.tdict = isinstance(w.st.get(w.st.get(w.objs[name].oid).attrs["_data"].oid), DictObj)
        self.loc = w.location()
        if earlier is not None:
            heap, facts, kinds = earlier
            w.st = State({**w.st.heap, **heap}, {**w.st.facts, **facts}, {**w.st.kinds, **kinds}, w.st.mon, w.st.tr)
        self.init = {n: norm(eng, r, w.st) for n, r in w.objs.items()}
        self.raw_init = {n: T("C", n) for n in w.objs}
        self.locks = self.find_locks()
        self.refs = {}

    # ------------------------------------------------------------------
    def find_locks(self):
        """Names of the lock objects: the per-resource lock, the buffer and class locks."""
        out, st = {}, self.w.st
        for c in self.w.classes:
            for oid in st.get(c).info.mro:
                o = st.get(oid)
                if not isinstance(o, ClsObj):
                    continue
                for a, v in o.attrs.items():
                    if isinstance(v, Ref) and isinstance(st.get(v.oid), Inst) and st.get(v.oid).cls.oid == "c:RLock":
                        out.setdefault(v.oid, "class:" + a)
                    if isinstance(v, Ref) and isinstance(st.get(v.oid), DictObj):
                        for k, x in st.get(v.oid).items or ():
                            if isinstance(x, Ref) and isinstance(st.get(x.oid), Inst) and st.get(x.oid).cls.oid == "c:RLock":
                                out.setdefault(x.oid, "resource:" + a)
        return out

    def run(self, prop=None):
        w, op, eng = self.w, self.scn.op, self.eng

        def f(st):
            self.A, st = op.make_args(st)
            return op.run(eng, w.objs[self.target], self.A, st)

        outs = w.run(f)
        self.w.hooks.collect = False
        self.stats["outcomes"] = len(outs)
        self.stats["effects"] = 0
        for o in outs:
            tr = trace(o[2])
            self.stats["effects"] += len(tr)
            for rule, props in RULES:
                if prop is not None and prop not in props:
                    continue
                try:
                    rule(self, o, tr)
                except (Undecided, Unsupported, Budget) as e:
                    self.undecided.append((rule.__name__, str(e)[:200]))
        return self

    # ------------------------------------------------------------------
    def fail(self, prop, rule, detail, o, loc=None, ev=None):
        if loc is None and ev is not None:
            loc = ev.loc
        if loc is None:
            loc = self.entry_loc()
        notes = o[2].trace()
        self.findings.append(Finding(prop, rule, loc, repr(self.scn), detail, notes[-12:]))

    def entry_loc(self):
        """Definition of the method that implements the operation."""
        c = self.w.st.get(self.w.objs[self.target].oid).cls
        v = self.eng.class_lookup(c.oid, self.scn.op.entry, self.w.st)
        v = getattr(v, "fn", v)
        if isinstance(v, Fn):
            return (v.info.file, v.info.node.lineno, v.info.qual)
        return ("synced_collections", 0, f"{c.oid[2:]}.{self.scn.op.entry}")

    # ------------------------------------------------------------------
    def resource_default(self):
        b = self.w.backend
        if b == "json":
            return T("loads", T("filedata", self.loc, K(0)), ())
        if b == "redis":
            return T("loads", T("blob", self.loc[1]), ())
        if b == "mongo":
            return T("val", T("doc", self.loc[1]), K("data"))
        return T("zval", self.loc[1])

    def base(self, o, tr):
        """(base content, how): content of the resource when the operation started."""
        st = o[2]
        if st.facts.get(P("exists", self.loc)) is False:
            return self.init["R"], "missing"
        for e in tr:
            if e.name == "upd_none" and e.get("obj") == "R" and not (self.scn.later and P("exists", self.loc) not in st.facts):
                return self.init["R"], "missing"
            if e.name == "cmut" and e.get("role") == ("data", "R") and e.get("how") == "_update":
                v = e.get("val")
                if any(x.op in ("loads", "zval", "doc") for x in subterms(v)) and not is_past(v):
                    return v, "loaded"
        d = self.resource_default()
        for e in tr:
            if e.name == "loads" and not is_past(e.get("val")):
                return T("loads", e.get("val"), e.get("opts")), "loaded"
        return d, "unread"

    def decode(self, v, o):
        """Data denoted by what was written to the resource."""
        v0 = v
        if isinstance(v, T) and v.op == "encoded":
            v = v.args[0]
        if self.w.backend in ("json", "redis"):
            if not (isinstance(v, T) and v.op == "json"):
                raise Undecided(f"unrecognised payload {show(v0)[:120]}")
            return norm(self.eng, v.args[0], o[2])
        if self.w.backend == "mongo":
            if not (isinstance(v, T) and v.op == "dlit"):
                raise Undecided(f"unrecognised document {show(v0)[:120]}")
            d = dict(v.args[0])
            if K("data") not in d:
                return T("nodata")
            return norm(self.eng, d[K("data")], o[2])
        return norm(self.eng, v, o[2])

    def written(self, o):
        """Final content of the resource, None if it was not written."""
        c = o[2].mon.get(("file", self.loc) if self.w.backend == "json" else ("res", self.loc))
        if c is None:
            return None
        if c == NONE:
            return T("removed")
        return self.decode(c, o)

    def expected(self, o, B, facts=None, table=None):
        """Outcomes of the operation on built-in data with content B at the root."""
        eng = self.eng
        c = B
        for nm, key, pd in self.chain:
            c = lookup(eng, c, key, pd)
        st = o[2]
        if facts is not None:
            st = State_with(st, facts)
        A = {n: (table or {}).get(v, v) for n, v in self.A.items()}
        w = self.w
        w.hooks.collect = False
        if self.tdict:
            x, st = eng.alloc(st, "oracle", eng.dict_from(c))
        else:
            x, st = eng.alloc(st, "oracle", eng.list_from_segs(eng.segs(c)))
        eng.steps, eng.stack = 0, []
        res = []
        for tag, val, s in eng.dedupe_out(self.scn.op.spec(eng, x, A, st)):
            if s.mon.get("inj") != st.mon.get("inj"):
                continue
            fin = norm(eng, x, s)
            root = self.rebuild(B, self.chain, fin)
            if tag == OK and isinstance(val, T) and val.op == "p":
                for b, s2 in eng.decide(val, s):
                    res.append((tag, K(b), s2, root))
            else:
                res.append((tag, val, s, root))
        return res, x

    def rebuild(self, B, chain, fin):
        if not chain:
            return fin
        nm, key, pd = chain[0]
        inner = self.rebuild(lookup(self.eng, B, key, pd), chain[1:], fin)
        if pd:
            return norm(self.eng, self.eng.d_set(B, key, inner), self.w.st)
        return norm(self.eng, T("lset", B, key, inner), self.w.st)


def State_with(st, facts):
    from .state import State

    return State(st.heap, facts, st.kinds, st.mon, st.tr)


# ----------------------------------------------------------------------
# rules
# ----------------------------------------------------------------------
def sync_table(a, B, how):
    """In-sync assumption: memory content equals the resource content."""
    if how != "loaded":
        return {}
    t, c = {T("C", "R"): B}, B
    for i, p in enumerate(a.scn.path):
        nm = f"N{i}"
        parent = "R" if p[0] == "+" or i == 0 else f"N{i-1}"
        pd = isinstance(a.w.st.get(a.w.st.get(a.w.objs[parent].oid).attrs["_data"].oid), DictObj)
        key = [k for k, n in a.w.children[parent] if n == nm][0]
        base = t[T("C", parent)]
        t[T("C", nm)] = lookup(a.eng, base, key, pd)
    return t


def rule_semantics(a, o, tr):
    """Result, exception, memory and resource content equal those of the built-in."""
    inj = o[2].mon.get("inj")
    if inj and o[0] == RAISE:
        return
    if inj == "kind":
        return
    if inj == "invalid":
        a.fail("C11", "rejected-but-done", "the operation returns normally although validation rejected the data", o)
        return
    B, how = a.base(o, tr)
    op = a.scn.op
    # 1. arbitrary memory content: C02 / C04
    for prop, rule, detail, ev in compare(a, o, tr, B, how, {}):
        p = "C02" if op.mode == "read" else "C04"
        a.fail(p, "current-content:" + rule, detail, o, ev=ev)
    # 2. memory in sync with the resource: C01 / C03
    if how == "unread":
        B2, table = a.init["R"], {}
    else:
        B2, table = B, sync_table(a, B, how)
    for prop, rule, detail, ev in compare(a, o, tr, B2, how, table):
        if rule == "resource":
            a.fail("C01", "write-through", detail, o, ev=ev)
        a.fail("C03", "refines-builtin:" + rule, detail, o, ev=ev)


def compare(a, o, tr, B, how, table):
    eng, st = a.eng, o[2]
    facts = None
    table = dict(table)
    for p, v in st.facts.items():
        if v is True and p.args[0] == "eq":
            for x, y in (p.args[1:3], p.args[2:0:-1]):
                if isinstance(x, T) and x.op == "arg" and isinstance(y, K):
                    table[x] = y
    if table:
        facts = {}
        for p, v in st.facts.items():
            q = contents_replaced(eng, p, table, st)
            if isinstance(q, T) and q.op == "p":
                r = eng.simp(q, st)
                if (q in facts and facts[q] != v) or (r in (True, False) and r != v):
                    return  # contradictory: not a possible outcome
                facts[q] = v

    def N(v):
        v = norm(eng, v, st)
        return canon_content(contents_replaced(eng, v, table, st) if table else v)

    written = a.written(o)
    exp, x = a.expected(o, B, facts, table)
    last = None
    for e in tr:
        if e.name in WRITES or (e.name == "cmut" and e.get("role")[0] == "data"):
            last = e
    for tag, val, s, root in exp:
        root = canon_content(norm(eng, root, s))
        if tag != o[0]:
            if not possible(a, s):
                continue
            got = f"returns {show(N(o[1]))[:80]}" if o[0] == OK else f"raises {exc_name(a, o)}"
            want = "return normally" if tag == OK else f"raise {exc_name(a, (tag, val, s))}"
            yield "", "outcome", f"{got} where the built-in would {want}", None
            continue
        if tag == RAISE:
            g, wnt = exc_name(a, o), exc_name(a, (tag, val, s))
            if not eng.exc_is(o[1], st, wnt) and possible(a, s):
                yield "", "exception", f"raises {g} instead of {wnt}", None
                continue
        else:
            gv = o[1]
            opts = [(gv, s)]
            n0 = norm(eng, gv, st)
            if isinstance(n0, T) and n0.op == "p":
                opts = [(K(b), s2) for b, s2 in eng.decide(contents_replaced(eng, n0, table, st) if table else n0, s)]
                vals = [(N(k), canon_content(norm(eng, resolve(eng, val, s2), s2))) for k, s2 in opts]
            else:
                vals = [(N(gv), canon_content(norm(eng, val, s)))]
            for g, wv in vals:
                if op_ignores_value(a.scn.op):
                    continue
                if g != wv and possible(a, s, g, wv):
                    if opaque_in(g):
                        raise Undecided(f"result {show(g)[:100]}")
                    yield "", "result", f"returns {show(g)[:120]} instead of {show(wv)[:120]}", None
        # content
        mem = N(a.w.objs["R"])
        if written is not None:
            wr = canon_content(contents_replaced(eng, written, table, st) if table else written)
            if wr != root and possible(a, s, wr, root):
                if opaque_in(wr):
                    raise Undecided(f"content {show(wr)[:100]}")
                yield "", "resource", f"the resource holds {show(wr)[:200]} instead of {show(root)[:200]}", last
        elif a.scn.op.mode == "mut" and root != canon_content(norm(eng, B, s)) and possible(a, s, root, canon_content(norm(eng, B, s))):
            yield "", "resource", f"the new content {show(root)[:160]} is not written to the resource", last
        if mem != root and not (how == "unread" and o[0] == RAISE):
            if how == "unread" and root == canon_content(norm(eng, B, s)) and written is None:
                continue  # nothing was read and nothing changes
            if a.scn.op.mode == "read" and how == "unread":
                continue
            if not possible(a, s, mem, root):
                continue
            if opaque_in(mem):
                raise Undecided(f"memory {show(mem)[:100]}")
            yield "", "memory", f"memory holds {show(mem)[:200]} instead of {show(root)[:200]}", last


def possible(a, s, x=None, y=None):
    """False if no small instance of the path shows the difference."""
    a.compared += 1
    r = differ(a.w, a.eng, s, s.facts, x, y)
    a.refuted += r is False
    return r is not False


def op_ignores_value(op):
    # x += y returns the object itself; its content is compared anyway
    return False


def resolve(eng, val, s):
    n = val
    if isinstance(n, T) and n.op == "p":
        outs = eng.decide(n, s)
        if len(outs) == 1:
            return K(outs[0][0])
    return val


def exc_name(a, o):
    c = a.eng.exc_class(o[1], o[2])
    c = getattr(c, "oid", c)
    return c[2:] if isinstance(c, str) and c.startswith("c:") else str(c)


def rule_no_write(a, o, tr):
    if a.scn.op.mode != "read":
        return
    for e in tr:
        if e.name in WRITES or (e.name == "open_try" and isinstance(e.get("mode"), K) and set(str(e.get("mode").v)) & set("wax+")):
            a.fail("C17", "read-writes", f"a read operation performs {e.name}({show(e.get('path') or e.get('loc_') or e.get('dst') or NONE)[:80]})", o, ev=e)
            return


def lock_name(a, ref):
    return a.locks.get(ref.oid, "lock")


def rule_locks(a, o, tr):
    held = {}
    for e in tr:
        if e.name == "acquire":
            r = e.get("lock")
            if held.get(r) and e.get("plain"):
                a.fail("C10", "self-deadlock", f"the {lock_name(a, r)} lock is not reentrant and already held", o, ev=e)
                return
            if not held.get(r):
                for h, n in held.items():
                    if n and h != r:
                        a.refs.setdefault("order", set()).add((lock_name(a, h), lock_name(a, r), e.loc))
            held[r] = held.get(r, 0) + 1
        elif e.name == "release":
            r = e.get("lock")
            held[r] = held.get(r, 0) - 1
            if held[r] < 0:
                a.fail("C10", "release-unheld", f"releases the {lock_name(a, r)} lock without holding it", o, ev=e)
                return
        elif e.name in ("sread", "conv") and any(held.values()):
            raw = e.get("raw") if e.name == "conv" else (e.get("val"),)
            for x in raw or ():
                if isinstance(x, T) and x.op == "arg" and a.eng.kinds_of(x, o[2]) & {"sdict", "slist"}:
                    a.fail("C10", "lock-order", f"reads the argument {show(x)}, possibly another collection with its own lock, while holding the {'/'.join(lock_name(a, h) for h, n in held.items() if n)} lock", o, ev=e)
        elif e.name == "cmut" and e.get("role") == ("cls", "_locks"):
            if e.get("how") not in ("set", "setdefault", "default") and a.scn.op.cont != "ctor":
                a.fail("C10", "lock-registry", f"the lock registry is changed by {e.get('how')}", o, ev=e)
    left = [lock_name(a, r) for r, n in held.items() if n > 0]
    if left:
        inj = o[2].mon.get("inj")
        how = "returns" if o[0] == OK else f"raises {exc_name(a, o)}"
        ev = [e for e in tr if e.name == "acquire"][-1]
        a.fail("C10", "lock-leak", f"the {', '.join(left)} lock is still held when the operation {how}" + (f" ({inj} failure)" if inj else ""), o, ev=ev)


def root_lock(a, o):
    """Lock that protects the resource."""
    c = [r for r, n in a.locks.items() if n.startswith("resource:")]
    return c


def is_data(e):
    return e.name in ("cread", "cmut") and e.get("role")[0] == "data"


def touches(a, e):
    if is_data(e):
        return True
    if e.name in ("open_read", "rread", "open_write", "replace", "rwrite", "rtouch", "upd_none", "dumps", "loads"):
        return True
    return False


def rule_atomic(a, o, tr):
    if not a.w.supports_threading() or not a.scn.threading:
        return
    prop = "C14" if a.scn.op.mode == "read" else "C09"
    idx = [i for i, e in enumerate(tr) if touches(a, e)]
    if not idx:
        return
    locks = root_lock(a, o)
    held, ok, released = {}, False, None
    first = last = None
    for i, e in enumerate(tr):
        if e.name == "acquire":
            held[e.get("lock").oid] = held.get(e.get("lock").oid, 0) + 1
        elif e.name == "release":
            r = e.get("lock").oid
            held[r] = held.get(r, 0) - 1
            if r in locks and held[r] == 0 and first is not None:
                released = e
        elif i in idx:
            if not any(held.get(r, 0) > 0 for r in locks):
                what = e.name if not is_data(e) else f"{e.name} of the data"
                a.fail(prop, "unlocked-access", f"{what} without holding the lock of the resource", o, ev=e)
                return
            if released is not None and not a.scn.op.selfarg:  # the argument is read before the operation
                a.fail(prop, "split-critical-section", f"{e.name} happens in a second critical section: the lock was released at {released.loc[0]}:{released.loc[1]} in the middle of the operation", o, ev=e)
                return
            if first is None:
                first = i


LAZY = ("iter", "dview", "reversed", "map", "filter", "enum", "zip", "gen")


def live_refs(a, v, st, kept=False):
    """References in a result to live containers (through lazy views or directly)."""
    data = {st.get(r.oid).attrs.get("_data") for r in a.w.objs.values()}
    for r in a.w.objs.values() if kept else ():  # containers in other attributes
        data.update(
            x for x in st.get(r.oid).attrs.values() if isinstance(x, Ref) and isinstance(st.get(x.oid), (DictObj, ListObj))
        )
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for r in subrefs(x):
            if r in seen:
                continue
            seen.add(r)
            if r in data:
                yield r
                continue
            ob = st.get(r.oid)
            if isinstance(ob, (DictObj, ListObj)):
                c = ob.items if ob.items is not None else ob.content
                todo.append(tuple(c) if isinstance(c, (list, tuple)) else c)
            elif isinstance(ob, Gen):
                yield r


def rule_results_detached(a, o, tr):
    if o[0] != OK:
        return
    live = list(live_refs(a, o[1], o[2]))
    gen = [r for r in live if isinstance(o[2].get(r.oid), Gen)]
    if gen:
        raise Undecided("the result is a generator")
    if live and a.scn.op.mode == "read":
        a.fail("C14", "live-result", f"the result {show(o[1])[:80]} still refers to the internal container after the lock is released", o)
    if live or list(live_refs(a, o[1], o[2], True)):
        a.fail("C16", "live-result", f"the result {show(o[1])[:80]} aliases the internal container", o)
    if a.scn.op.name in ("x()", "values()", "items()"):
        seen, todo, bad = set(), [o[1]], None
        while todo and bad is None:
            x = todo.pop()
            for t in subterms(x):
                if t.op == "conv":
                    bad = show(t)[:80]
            for r in subrefs(x):
                if r in seen:
                    continue
                seen.add(r)
                ob = o[2].get(r.oid)
                if isinstance(ob, Inst) and "_data" in ob.attrs:
                    bad = f"the nested collection {a.w.byoid.get(r.oid, r.oid)}"
                elif isinstance(ob, (DictObj, ListObj)):
                    c = ob.items if ob.items is not None else ob.content
                    todo.append(tuple(c) if isinstance(c, (list, tuple)) else c)
        if bad:
            a.fail("C16", "not-plain", f"the result contains {bad} instead of plain data", o)


def orphan(a, v, st):
    """May converting v without a parent create a collection?"""
    if isinstance(v, K):
        return False
    return not isinstance(v, T) or bool(a.eng.kinds_of(v, st) & (MAPK | LISTY))


# operations that return an element of the collection
NAVIGATION = {"d[k]", "get(k)", "get(k,d)", "d[any]", "get(any)", "setdefault(k)", "setdefault(k,v)", "d.zeta", "l[i]", "l[any]"}


def detached_copy(a, v, st):
    if isinstance(v, Ref):
        return isinstance(st.get(v.oid), (DictObj, ListObj))
    if not isinstance(v, T) or v.op not in ("snap", "copy", "deepcopy") or any(True for _ in raw_args(v, ())):
        return False
    x = v.args[0]
    return isinstance(x, Ref) or bool(a.eng.kinds_of(x, st) & (MAPK | LISTY))


def rule_stored(a, o, tr):
    """What is stored is validated, converted and copied."""
    eng, st = a.eng, o[2]
    validated = []
    for e in tr:
        if e.name == "validate":
            validated.append(e.get("val"))
        if e.name == "conv" and e.get("parent") == NONE and orphan(a, e.get("val"), st):
            for p in ("C03", "C18"):
                a.fail(p, "orphan-conversion", f"{show(e.get('val'))[:80]} is converted without a parent: containers in it become roots with a resource of their own, which the next access to them loads", o, ev=e)
        if e.name != "cmut" or e.get("role")[0] != "data":
            continue
        val, key, how = e.get("val"), e.get("key"), e.get("how")
        who = e.get("role")[1]
        if how in ("remove", "del", "pop", "popitem", "clear", "reverse", "discard", "sort"):
            continue
        if isinstance(val, (T, Tup, tuple)):
            known = {t for v in validated for t in subterms(v)}
            for x in sorted(set(raw_args(val, ())), key=repr):
                if not (eng.kinds_of(x, st) - {"int"}):
                    continue
                if not cond_stored(a, x):
                    continue
                if x not in known:
                    a.fail("C11", "unvalidated-store", f"the argument {show(x)} is stored by {how} without having been validated", o, ev=e)
            if how != "_update":
                for x in sorted(set(raw_args(val, ("conv",))), key=repr):
                    ks = eng.kinds_of(x, st)
                    if ks & (MAPK | LISTY) and cond_stored(a, x):
                        a.fail("C16", "stored-alias", f"the argument {show(x)} is stored by {how} without being copied", o, ev=e)
                        a.fail("C18", "unconverted-store", f"the argument {show(x)} is stored by {how} without being converted to a synced collection", o, ev=e)
                for t in subterms(val):
                    if t.op == "conv":
                        if o[0] == OK and o[1] == t.args[0] and isinstance(o[1], T) and eng.kinds_of(o[1], st) & (MAPK | LISTY):
                            a.fail("C18", "result-not-stored", f"the operation returns the argument {show(o[1])} instead of the collection it stored: changes of the result are not saved", o, ev=e)
                        ref = a.w.objs.get(who)
                        if ref is not None and t.args[1] != ref.oid:
                            a.fail("C18", "wrong-parent", f"the stored child's parent is {t.args[1]} instead of the collection {who} it is stored in", o, ev=e)
                        if t.args[2] not in family(a):
                            a.fail("C18", "wrong-family", f"the stored child is created by {t.args[2]}, outside the family of the root", o, ev=e)
        if how in ("set", "setdefault") and isinstance(key, T) and key.op == "arg" and a.tdict and not isinstance(val, type(None)):
            known = {t for v in validated for t in subterms(v)}
            if key not in known:
                a.fail("C11", "unvalidated-key", f"the key {show(key)} is stored by {how} without having been validated", o, ev=e)
    if o[0] == OK and a.scn.op.name in NAVIGATION and detached_copy(a, o[1], st):
        a.fail("C18", "result-not-stored", f"the result {show(o[1])[:80]} is a copy of the nested container, not the synced collection: changes of it are not saved", o)
    inj = st.mon.get("inj")
    if inj == "invalid" and o[0] == RAISE:
        bad = None
        for e in tr:
            if e.name == "cmut" and e.get("role")[0] == "data" and e.get("val") is not None and any(True for _ in raw_args(e.get("val"), ())):
                bad = e
            if e.name in WRITES:
                bad = e
        if bad is not None:
            a.fail("C11", "store-before-rejection", f"{bad.name} happens although the data is rejected afterwards", o, ev=bad)
        if not (eng.exc_is(o[1], st, "TypeError") or eng.exc_is(o[1], st, "ValueError")):
            a.fail("C11", "rejection-class", f"rejected data raises {exc_name(a, o)}", o)


def cond_stored(a, x):
    return True


def family(a):
    return set(a.w.family) | {a.w.cls}


def rule_crash(a, o, tr):
    """Atomic replacement of JSON files."""
    if a.w.backend != "json":
        return
    atomic = a.scn.wc or (a.scn.threading and a.w.supports_threading())
    check_crash(a, o, tr, atomic, {a.loc})


def check_crash(a, o, tr, atomic, paths):
    """paths: resource files."""
    open_, done = {}, {}
    encoded = False
    for e in tr:
        if e.name == "dumps":
            encoded = True
        if e.name == "dumps_fail":
            for p, ev in list(open_.items()) + [(p, ev) for p, (ev, _) in done.items()]:
                if p in paths:
                    a.fail("C08", "serialize-after-open", "the data file is opened for writing before the content is serialized; content that cannot be serialized damages it", o, ev=ev)
                    return
        if e.name == "open_write":
            p = e.get("path")
            m = e.get("mode")
            if p in paths and atomic:
                a.fail("C08", "in-place-write", "the data file itself is opened for writing in atomic mode", o, ev=e)
                return
            open_[p] = e
        elif e.name == "file_write":
            p = e.get("path")
            if p in open_:
                done.setdefault(p, (e, []))[1].append(e.get("val"))
        elif e.name == "close":
            open_.pop(e.get("path"), None)
        elif e.name in ("replace", "copyfile"):
            src, dst = e.get("src"), e.get("dst")
            if src in paths:
                a.fail("C08", "moved-away", "the data file is moved away, leaving a moment without it", o, ev=e)
                return
            if dst in paths:
                if e.name == "copyfile" and atomic:
                    a.fail("C08", "in-place-write", "the data file is overwritten by a copy, which is not atomic", o, ev=e)
                    return
                if atomic:
                    how = str(e.get("how"))
                    if "move" in how:
                        a.fail("C08", "non-atomic-rename", f"{how} is not an atomic replacement", o, ev=e)
                        return
                    if src in open_:
                        a.fail("C08", "rename-before-close", "the temporary file is renamed before its content is flushed by closing it", o, ev=e)
                        return
                    if src not in done:
                        a.fail("C08", "rename-empty", "the temporary file is renamed without having been written", o, ev=e)
                        return
                    if not same_dir(src, dst):
                        a.fail("C08", "temp-elsewhere", f"the temporary file {show(src)[:80]} is not created in the directory of the data file, so the rename is not atomic", o, ev=e)
                        return
                    if not unique(src):
                        a.fail("C08", "temp-not-unique", f"the temporary file name {show(src)[:80]} is not unique to this save", o, ev=e)
                        return
        elif e.name == "remove" and e.get("path") in paths:
            a.fail("C08", "removed", "the data file is removed during a save", o, ev=e)
            return


def same_dir(src, dst):
    if isinstance(src, T) and src.op == "join":
        d = src.args[0][0] if isinstance(src.args[0], tuple) else src.args[0]
        return d == T("dirname", dst) or (isinstance(d, T) and d.op == "dirname" and dst in subterms_all(d))
    if isinstance(src, T) and src.op in ("fstr", "cat", "add", "concat", "binop"):
        # a suffix added to the file name itself
        parts = src.args[0] if isinstance(src.args[0], tuple) else src.args
        return bool(parts) and parts[0] == dst
    return True


def subterms_all(v):
    out = set()
    todo = [v]
    while todo:
        x = todo.pop()
        out.add(x)
        if isinstance(x, T):
            todo.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            todo.extend(x)
    return out


def unique(src):
    return True


RULES = [
    (rule_semantics, ("C01", "C02", "C03", "C04", "C11")),
    (rule_no_write, ("C17",)),
    (rule_locks, ("C10",)),
    (rule_atomic, ("C09", "C14")),
    (rule_results_detached, ("C14", "C16")),
    (rule_stored, ("C03", "C11", "C16", "C18")),
    (rule_crash, ("C08",)),
]
