"""Evaluating several calls one after another on one abstract document: iterators, accessors, text."""
from absint import *
from facts import AnalysisError
from world import *
from roundtrip import DocView, un, strip, items, slot_at, opt_


class Undecided(Exception):
    """why the outcome of a call is not what it must be: it may panic, or has several outcomes"""


class Raw(Rule):
    recursion = 40
    strict = True

    def __init__(self):
        self.out = []
        self.panics = []

    def on_return(self, I, st, v):
        self.out.append((v, st))

    def on_panic(self, I, st, kind, info):
        import ev

        self.panics.append((kind, ev.panic_site(I, st, info)))


def spec_table(c):
    """(value, cells): the element specification - the properties of each element type, evaluated - as a known map"""
    t = getattr(c, "_spec_table", None)
    if t is None:
        import ev

        cells, seq = {}, []

        def thaw(v):
            if v.k == "frozen":
                v = v.a[0]
                root = ("k", v)
                if root not in cells:
                    cells[root] = None
                    cells[root] = thaw(v)
                return mk("ref", root, ())
            if v.k in ("adt", "tup", "arr", "vec"):
                return mk(v.k, *[thaw(x) if type(x) is V else x for x in v.a])
            return v

        m = mk("newmap", "std::collections::HashMap")
        at = c.adt("types::ElementType")
        for i, _ in enumerate(at["vs"]):
            et = mk("adt", at["path"], i)
            p = ev.const_eval(c, "specification::Properties::new", [et])
            if p is None:
                raise AnalysisError("the properties of %s are not constant" % at["vs"][i]["n"])
            m = mk("mapins", m, et, thaw(p))
        t = c._spec_table = (struct(c, "specification::Specification", properties=m), cells)
    return t


def with_spec(c, doc):
    """the document with its element specification known, and the memory that needs"""
    v, cells = spec_table(c)
    es = strip(field(c, doc, "elementstore"))
    sub = lambda s, n, x: mk("adt", s.a[0], s.a[1], *[x if f[0] == n else y for f, y in zip(c.adt(s.a[0])["vs"][s.a[1]]["f"], s.a[2:])])
    return sub(doc, "elementstore", sub(es, "specification", v)), cells


class World:
    """a store with a document in it, on which functions are evaluated in sequence"""

    def __init__(self, c, doc, facts=None, spec=False):
        self.c = c
        doc, self.mem = with_spec(c, doc) if spec else (doc, {})
        self.mem = dict(self.mem)
        self.facts = dict(facts or {})
        self.doc = self.place("doc", doc)
        self.calls = 0
        self.paths = 0
        self.I = Interp(c, Raw())

    def place(self, name, value):
        """a location holding value; returns a reference to it"""
        root = ("w", name)
        self.mem[root] = value
        self.mem[("keep", root)] = mk("ref", root, ())
        return mk("ref", root, ())

    def save(self):
        return dict(self.mem), dict(self.facts)

    def restore(self, saved):
        self.mem, self.facts = dict(saved[0]), dict(saved[1])

    def paths_of(self, key, *args):
        """all outcomes of a call: [(value, state)]; panics are outcomes too: ("panic", site)"""
        r = Raw()
        I = Interp(self.c, r, cap=10**6, max_depth=60, lazy=32, max_steps=2000000, deep=400)
        b = self.c.fn(key)
        self.calls += 1
        I.run(b["name"], list(args), mem=dict(self.mem), facts=dict(self.facts), fid="F%d" % self.calls)
        self.I = I
        self.paths += len(r.out) + len(r.panics)
        return r

    def call(self, key, *args):
        """the value a call returns on its only path; the store is as it leaves it"""
        r = self.paths_of(key, *args)
        if r.panics:
            raise Undecided("%s may panic (%s in %s)" % (key, r.panics[0][0], r.panics[0][1][0]))
        if len(r.out) != 1:
            raise Undecided("%s has %d outcomes: %s" % (key, len(r.out), "; ".join(show(self.I.freeze(s, v), 4)[:120] for v, s in r.out[:4])))
        v, st = r.out[0]
        self.mem = {k: x for k, x in st.mem.items() if k[0] in ("w", "keep", "k")}
        self.keep(st, v)
        self.facts = dict(st.facts)
        return v

    def keep(self, st, v):
        todo = [v]
        while todo:
            for root in refs_of(todo.pop()):
                if root in st.mem and root not in self.mem:
                    self.mem[root] = st.mem[root]
                    todo.append(st.mem[root])

    def content(self, v):
        """v with its references followed"""
        st = State((), dict(self.mem), dict(self.facts), None)
        return self.I.freeze(st, v)

    def follow(self, it, nextkey, limit=200):
        """all items of an iterator"""
        ref = self.place("it%d" % self.calls, it)
        out = []
        while True:
            x = self.call(nextkey, ref)
            if x.k != "adt":
                raise Undecided("%s returns %s" % (nextkey, show(x, 4)))
            if len(x.a) == 2:
                return out
            out.append(x.a[2])
            if len(out) > limit:
                raise Undecided("%s does not come to an end" % nextkey)
