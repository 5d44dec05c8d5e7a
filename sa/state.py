"""Abstract states."""


class State:
    __slots__ = ("heap", "facts", "kinds", "mon", "tr")
    base = {}  # static part of the heap (after module initialisation)

    def __init__(self, heap=None, facts=None, kinds=None, mon=None, tr=None):
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.kinds = kinds if kinds is not None else {}
        self.mon = mon if mon is not None else {}
        self.tr = tr

    def copy(self):
        return State(
            dict(self.heap), dict(self.facts), dict(self.kinds), dict(self.mon), self.tr
        )

    def get(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = State.base.get(oid)
        return o

    def put(self, oid, obj):
        s = State(dict(self.heap), self.facts, self.kinds, self.mon, self.tr)
        s.heap[oid] = obj
        return s

    def drop(self, oid):
        s = State(dict(self.heap), self.facts, self.kinds, self.mon, self.tr)
        s.heap.pop(oid, None)
        return s

    def fact(self, pred, val):
        s = State(self.heap, dict(self.facts), self.kinds, self.mon, self.tr)
        s.facts[pred] = val
        return s

    def kind(self, t, ks):
        s = State(self.heap, self.facts, dict(self.kinds), self.mon, self.tr)
        s.kinds[t] = ks
        return s

    def setmon(self, **kw):
        s = State(self.heap, self.facts, self.kinds, dict(self.mon), self.tr)
        s.mon.update(kw)
        return s

    def setm(self, key, val):
        s = State(self.heap, self.facts, self.kinds, dict(self.mon), self.tr)
        s.mon[key] = val
        return s

    def note(self, msg):
        return State(self.heap, self.facts, self.kinds, self.mon, (self.tr, msg))

    def key(self):
        return (
            frozenset(self.heap.items()),
            frozenset(self.facts.items()),
            frozenset(self.kinds.items()),
            frozenset(self.mon.items()),
        )

    def trace(self):
        out = []
        t = self.tr
        while t is not None:
            t, m = t
            out.append(m)
        return out[::-1]
