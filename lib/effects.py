"""Effects of a function on the document's stores, per path: writes through symbolic element/declaration/processor
slots, and mutations of the vectors in them. A slot is named by the term of the key it was reached with."""
from ev import *
from world import *

STORES = {"elementstore": "element", "declarationstore": "declaration", "provenancestore": "processor"}


def unkey(i):
    """slot index -> key term"""
    while i.k in ("cast",):
        i = i.a[0]
    return i


def slot(proj):
    """(store, key term, field path) of a location inside the document, or None"""
    names = [p[2] if p[0] == "." else p[0] for p in proj]
    for n, (i, x) in enumerate([(i, x) for i, x in enumerate(names) if x in STORES][:1]):
        rest = proj[i + 1 :]
        if rest and rest[0][0] == "." and rest[0][2] == "items" and len(rest) > 1 and rest[1][0] == "[]":
            key = unkey(rest[1][1])
            f = tuple(p[2] if p[0] == "." else p[0] for p in rest[2:] if p[0] not in ("box",) and not (p[0] == "." and p[2].startswith("Some.")))
            return STORES[x], key, f
        f = tuple(p[2] if p[0] == "." else p[0] for p in rest)
        return STORES[x], None, f
    if names and proj[0][0] == ".":
        return "document", None, tuple(p[2] if p[0] == "." else p[0] for p in proj)
    return None


class Effects(Collect):
    """aux = tuple of (op, store, key, field, operands...)"""

    aux0 = ()
    recursion = 0
    docroot = ("h", "arg0")
    inline_stop = ()
    cap_effects = 24

    def on_write(self, I, st, root, proj, value):
        if root[0] in ("h", "obj") and (root == self.docroot or self.isdoc(I, st, root)):
            s = slot(proj)
            if s is not None:
                self.add(st, ("write", s[0], s[1], s[2], value))

    def aux_sites(self, aux):
        s = frozenset()
        for e in aux:
            for x in e:
                if type(x) is V:
                    s |= x.sites
        return s

    def isdoc(self, I, st, root):
        return root == ("h", "arg0", "*")

    def add(self, st, e):
        if len(st.aux) < self.cap_effects:
            st.aux = st.aux + (e,)

    VEC = ("push", "remove", "retain", "insert", "clear", "pop", "truncate", "extend", "swap", "append", "drain", "swap_remove", "sort")

    def on_event(self, I, st, call, ret):
        n = call.path.rsplit("::", 1)[-1]
        if n in self.VEC and call.args and call.args[0].k == "ref":
            r, p = call.args[0].a
            if r == self.docroot or self.isdoc(I, st, r):
                s = slot(p)
                if s is not None:
                    # the write event of the same call precedes; replace it
                    if st.aux and st.aux[-1][0] == "write" and st.aux[-1][1:4] == (s[0], s[1], s[2]):
                        st.aux = st.aux[:-1]
                    self.add(st, (n, s[0], s[1], s[2]) + tuple(I.freeze(st, a) for a in call.args[1:]) + (ret,))


# ---------- reading the facts of an outcome
def fint(v):
    """fact value -> int or None"""
    if type(v) is V and v.k == "int":
        return int(v.a[0])
    return None


def excl(v):
    """fact value -> set of excluded ints"""
    if type(v) is frozenset:
        return {int(x.a[0]) for x in v if x.k == "int"}
    return set()


def isb(v, b):
    """does the fact value say boolean/int b?"""
    i = fint(v)
    return i == b if i is not None else (1 - b) in excl(v) if b in (0, 1) else False


def slotkey(t, items):
    """t = idx(items, cast(key)) -> key"""
    if t.k == "idx" and t.a[0] is items:
        return unkey(t.a[1])
    return None


class View:
    """the facts of an outcome about one store's slots"""

    def __init__(self, o, items):
        self.o = o
        self.items = items
        self.there = {}
        self.other = []
        self.optf = {}  # (key, field) -> True (Some) / False (None)
        self.ne = set()
        self.eq = set()
        self.elem = []  # (collection, index, payload term) : collection[index] is Element(payload) / equals payload
        for t, v in o.facts.items():
            if t.k == "lt" and t.a[1].k == "len" and t.a[1].a[0] is items:
                if isb(v, 0):
                    self.there[unkey(t.a[0])] = False
                continue
            if t.k == "discr":
                k = slotkey(t.a[0], items)
                if k is not None:
                    self.there[k] = isb(v, 1)
                    continue
                f = self.fieldof(t.a[0])
                if f is not None:
                    self.optf[f] = isb(v, 1)
                    continue
            if t.k == "eq":
                (self.eq if isb(v, 1) else self.ne).add(frozenset(t.a))
                continue
            self.other.append((t, v))

    def fieldof(self, t):
        """deref(idx(items,key).Some.0).field -> (key, field)"""
        if t.k == "fld" and t.a[0].k == "deref":
            b = t.a[0].a[0]
            while b.k == "fld" and b.a[1] in ("Some.0", "0"):
                b = b.a[0]
            k = slotkey(b, self.items)
            if k is not None:
                return k, t.a[1]
        return None

    def equal(self, a, b):
        return a is b or frozenset((a, b)) in self.eq

    def differ(self, a, b):
        return frozenset((a, b)) in self.ne


class Final(Collect):
    """collects (result, first argument afterwards, facts)"""

    recursion = 8
    stop = ()

    def on_return(self, I, st, v):
        self.out.append((I.freeze(st, v), I.freeze(st, st.mem[("h", "arg0")]), dict(st.facts)))

    def inline(self, I, key, body, depth):
        return not any(key.endswith(s) for s in self.stop)


def bare(t):
    """strip references"""
    while t.k in ("ref", "refto", "frozen", "deref", "box") and type(t.a[0]) is V:
        t = t.a[0]
    if t.k == "adt" and t.a[0] == "std::borrow::Cow":
        return bare(t.a[2])
    return t


def lookup(t):
    """(map, key) of a HashMap lookup term"""
    t = bare(t)
    while t.k == "fld" and t.a[1] in ("Some.0",):
        t = bare(t.a[0])
    if t.k == "call" and t.a[1].endswith(("::get", "::contains_key")) and len(t.a) == 4:
        return bare(t.a[2]), bare(t.a[3])
    return None


def lookups_in(facts_):
    """{(map, key): found} from the facts of an outcome"""
    out = {}
    for t, v in facts_.items():
        q = t.a[0] if t.k == "discr" else t
        l = lookup(q)
        if l is not None and (t.k == "discr" or t.k == "call"):
            out[l] = isb(v, 1)
    return out
