"""Transfer functions for std iterators: sources with known items, lazy adaptors and consumers.

Adaptors and consumers are small MIR-shaped programs (so they go through the same interpreter as the code of the crate,
with the same joins, splits and widening); sources with known items are turned around, skipped, zipped etc. as lists.
"""
from models import *
from models import _iter_arg
import models


# ---------------------------------------------------------------- a little assembler with labels
class Prog:
    def __init__(self, I, name, argc):
        self.asm = Asm(I, name, argc, 80)
        self.code = []
        self.argc = argc

    def place(self, x):
        return [x] if isinstance(x, int) else list(x)

    def op(self, x):
        if isinstance(x, dict):
            return x
        return {"o": "copy", "p": self.place(x)}

    def k(self, n):
        return self.asm.kint(n)

    def kb(self, n):
        return {"o": "const", "c": {"c": "int", "ty": self.asm.BOOL, "v": n}}

    def lab(self, n):
        self.code.append(("lab", n))

    def set(self, d, x):
        self.code.append(("asg", self.place(d), {"r": "use", "a": self.op(x)}))

    def ref(self, d, p):
        self.code.append(("asg", self.place(d), {"r": "ref", "mut": True, "p": self.place(p)}))

    def tup(self, d, *xs):
        self.code.append(("asg", self.place(d), {"r": "agg", "k": "tuple", "ops": [self.op(x) for x in xs]}))

    def some(self, d, x):
        self.code.append(("asg", self.place(d), self.asm.some(self.op(x))))

    def none(self, d):
        self.code.append(("asg", self.place(d), self.asm.none()))

    def bin(self, d, o, a, b):
        self.code.append(("asg", self.place(d), {"r": "bin", "op": o, "a": self.op(a), "b": self.op(b)}))

    def next(self, d, p, tmp=70):
        self.ref(tmp, p)
        self.code.append(("call", "next", self.op(tmp), self.place(d)))

    def call(self, d, f, *args, tmp=72):
        """d = f(args...): f is the place of a closure"""
        self.ref(tmp, f)
        self.tup(tmp + 1, *args)
        self.code.append(("call", "fn", self.op(tmp), self.op(tmp + 1), self.place(d)))

    def py(self, d, path, *args):
        self.code.append(("call", "path", path, [self.op(a) for a in args], self.place(d)))

    def opt(self, l, none, some, tmp=75):
        self.code.append(("asg", [tmp], {"r": "discr", "p": self.place(l), "ty": self.asm.OPT}))
        self.code.append(("sw", {"o": "copy", "p": [tmp]}, self.asm.INT, [(0, none), (1, some)], None))

    def sw(self, x, arms, other=None):
        self.code.append(("sw", self.op(x), self.asm.INT, arms, other))

    def swb(self, x, f, t):
        self.code.append(("sw", self.op(x), self.asm.BOOL, [(0, f)], t))

    def goto(self, l):
        self.code.append(("goto", l))

    def ret(self, x=None):
        if x is not None:
            self.set(0, x)
        self.code.append(("ret",))

    def ret_none(self):
        self.none(0)
        self.code.append(("ret",))

    def ret_some(self, x):
        self.some(0, x)
        self.code.append(("ret",))

    def done(self):
        labels = {}
        n = 0
        opened = False
        for c in self.code:
            if c[0] == "lab":
                if opened:
                    n += 1
                    opened = False
                labels[c[1]] = n
            elif c[0] == "asg":
                opened = True
            else:
                n += 1
                opened = False
        a = self.asm
        for i, c in enumerate(self.code):
            if c[0] == "lab":
                if a.cur:
                    a.goto(labels[c[1]])
            elif c[0] == "asg":
                a.asg(c[1], c[2])
            elif c[0] == "call":
                to = len(a.blocks) + 1
                if c[1] == "next":
                    a.call_next(c[2], c[3], to)
                elif c[1] == "fn":
                    a.call_fn(c[2], c[3], c[4], to)
                else:
                    a.call_path(c[2], c[3], c[4], to, [a.ANY] * len(c[3]))
            elif c[0] == "sw":
                a.term({"t": "switch", "d": c[1], "ty": c[2], "vs": [[v, labels[l]] for v, l in c[3]], "else": -1 if c[4] is None else labels[c[4]]})
            elif c[0] == "goto":
                a.goto(labels[c[1]])
            elif c[0] == "ret":
                a.ret()
        for l, t in labels.items():
            assert t < len(a.blocks), (a.name, l)
        return a.done()


def SELF(i):
    return [1, ["*"], fld(i)]


def PAY(l):
    return [l, ["v", 1], SOMEF]


# ---------------------------------------------------------------- sources with known items
RANGE = "std::ops::Range"
RANGEI = "std::ops::RangeInclusive"


def seq_of(I, st, v):
    """(sequence, remaining positions in order) of a plain iterator over a known sequence"""
    mode, seq, pos = v.a[0], v.a[1], v.a[2]
    rev = v.a[3] if len(v.a) > 3 else None
    if mode not in ("ref", "val") or not isinstance(pos, int) or pos < 0:
        return None
    x = I.deref(st, seq) if mode == "ref" else seq
    if x.k not in ("arr", "vec", "bytes"):
        return None
    n = len(x.a) if x.k != "bytes" else len(x.a[0])
    if rev is None:
        return x, list(range(pos, n))
    if isinstance(rev, int):
        return x, [rev - j for j in range(pos, rev + 1)]
    return None


def listed(I, st, v):
    """the remaining items of an iterator, if they are known without running anything"""
    if v.k == "it":
        if v.a[0] == "opt":
            if v.a[2] == 1:
                return []
            o = I.resolve(st, v.a[1])
            if o.k == "adt":
                return [o.a[2]] if o.a[1] == 1 else []
            return None
        s = seq_of(I, st, v)
        if s is None:
            return None
        x, pos = s
        if v.a[0] == "ref":
            r, p = v.a[1].a if v.a[1].k == "ref" else I.pointee(st, v.a[1])
            return [mk("ref", r, p + (("[]", INT(i)),)) for i in pos]
        return [I.step_get(x, ("[]", INT(i)), st) for i in pos]
    if v.k == "enum":
        c = v.a[1] if len(v.a) > 1 else 0
        xs = listed(I, st, v.a[0])
        if xs is None or not isinstance(c, int):
            return None
        return [TUP(INT(c + i), x) for i, x in enumerate(xs)]
    if v.k == "cloned":
        xs = listed(I, st, v.a[0])
        return None if xs is None else [I.deref(st, x) for x in xs]
    if v.k == "adt":
        n = v.a[0]
        if n in (RANGE, RANGEI):
            lo, hi = v.a[2], v.a[3]
            if lo.k == "int" and hi.k == "int" and hi.a[0] - lo.a[0] <= 4096:
                if n == RANGEI and len(v.a) > 4 and v.a[4] is not FALSE:
                    return [] if v.a[4] is TRUE else None
                return [INT(i) for i in range(lo.a[0], hi.a[0] + (n == RANGEI))]
            return None
        if n == "lz::chain":
            a = listed(I, st, v.a[2]) if v.a[4] is INT(0) else []
            b = listed(I, st, v.a[3])
            return None if a is None or b is None else a + b
        if n in ("lz::skip", "lz::take"):
            a = listed(I, st, v.a[2])
            if a is None or v.a[3].k != "int":
                return None
            return a[v.a[3].a[0] :] if n == "lz::skip" else a[: v.a[3].a[0]]
        if n == "lz::zip":
            a, b = listed(I, st, v.a[2]), listed(I, st, v.a[3])
            return None if a is None or b is None else [TUP(x, y) for x, y in zip(a, b)]
        if n == "lz::stepby":
            a = listed(I, st, v.a[2])
            if a is None or v.a[3].k != "int" or v.a[4].k != "int":
                return None
            return a[(0 if v.a[4].a[0] else v.a[3].a[0] - 1) :: v.a[3].a[0]]
        if n == "lz::peek" and v.a[3].k == "int":
            a = listed(I, st, v.a[2])
            if a is None:
                return None
            if v.a[3].a[0] == 0:
                return a
            o = v.a[4]
            if o.k == "adt":
                return [o.a[2]] + a if o.a[1] == 1 else a
    return None


def known(xs):
    return mk("it", "val", mk("vec", *xs), 0)


def countable(I, st, v):
    """is the number of items the iterator has delivered so far known on every path (no widened source)?"""
    while v.k == "ref":
        v = I.read(st, *v.a)
    if v.k == "it":
        return v.a[0] == "opt" or seq_of(I, st, v) is not None
    if v.k in ("enum", "cloned"):
        return countable(I, st, v.a[0])
    if v.k == "adt":
        if v.a[0] in (RANGE, RANGEI):
            return v.a[2].k == "int" and v.a[3].k == "int"
        if v.a[0].startswith("lz::") or v.a[0] in ADAPTORS:
            return all(countable(I, st, x) for i, x in enumerate(v.a[2:]) if is_iter(x) and i < 2)
        return bool(I.lazy) and local_next(I, v.a[0]) is not None
    return False


def is_iter(v):
    return v.k in ("it", "enum", "cloned", "rev") or (v.k == "adt" and type(v.a[0]) is str and (v.a[0].startswith("lz::") or v.a[0] in ADAPTORS or v.a[0] in (RANGE, RANGEI)))


REVADAPT = ("std::iter::Map", "std::iter::Filter", "std::iter::FilterMap", "std::iter::Inspect")


def plain(I, st, v):
    """an iterator over all of a sequence that is not known"""
    return v.k == "it" and v.a[0] in ("ref", "val") and v.a[2] == 0 and seq_of(I, st, v) is None


def rev_of(I, st, v):
    """the iterator delivering the same items in the opposite order (or None)"""
    xs = listed(I, st, v)
    if xs is not None:
        return known(xs[::-1])
    if plain(I, st, v):
        return mk("it", v.a[0], v.a[1], 0, "rev") if len(v.a) == 3 else mk("it", v.a[0], v.a[1], 0)
    if v.k == "rev":
        return v.a[0]
    if v.k == "cloned":
        w = rev_of(I, st, v.a[0])
        return None if w is None else mk("cloned", w)
    if v.k == "enum" and plain(I, st, v.a[0]):
        return mk("enum", rev_of(I, st, v.a[0]), -1)
    if v.k == "adt" and v.a[0] in REVADAPT:
        w = rev_of(I, st, v.a[2])
        return None if w is None else mk("adt", v.a[0], v.a[1], w, *v.a[3:])
    if v.k == "adt" and v.a[0] == "lz::chain":
        a, b = rev_of(I, st, v.a[2]), rev_of(I, st, v.a[3])
        if a is not None and b is not None:
            return mk("adt", "lz::chain", 0, b, a, INT(0)) if v.a[4] is INT(0) else b
    return None


@model("std::iter::Iterator::rev")
def m_rev(I, st, cl, dest, ret):
    v = cl.args[0]
    w = rev_of(I, st, v)
    return one(st, w if w is not None else mk("rev", v))


@premodel(lambda cl: cl.path == "std::iter::DoubleEndedIterator::next_back")
def m_next_back(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    while v.k == "ref":
        r, p = v.a
        v = I.read(st, r, p)
    if v.k == "adt" and I.body(cl.fn.get("key") or "") is not None and I.c.bodies[cl.fn["key"]].get("local"):
        return NotImplemented
    w = rev_of(I, st, v)
    if w is None:
        return generic_next(I, st, cl, r, p)
    I.write(st, r, p, w)
    res = next_on(I, st, cl, ("py", _turn_back, r, p, dest, ret), None, r, p, w)
    if res is NotImplemented:
        res = generic_next(I, st, cl, r, p)
    if res is not None:
        for s, x in res:
            _turn_back(I, s, x, r, p, dest, ret)
    return None


def _turn_back(I, st, x, r, p, dest, ret):
    w = rev_of(I, st, I.read(st, r, p))
    I.write(st, r, p, w if w is not None else mk("rev", I.read(st, r, p)))
    I.finish(st, dest, ret, x)
    return ()


@model("std::iter::ExactSizeIterator::len")
def m_exact_len(I, st, cl, dest, ret):
    v = I.content(st, cl.args[0])
    xs = listed(I, st, v)
    return NotImplemented if xs is None else one(st, INT(len(xs)))


# ---------------------------------------------------------------- adaptors
def lz(kind, *fields):
    return mk("adt", "lz::" + kind, 0, *fields)


def adaptor(path, f):
    def m(I, st, cl, dest, ret):
        return one(st, f(*cl.args))

    MODELS[path] = m


IT = "std::iter::Iterator::"
adaptor(IT + "skip", lambda a, n: lz("skip", a, n))
adaptor(IT + "take", lambda a, n: lz("take", a, n))
adaptor(IT + "step_by", lambda a, n: lz("stepby", a, n, INT(1)))
adaptor(IT + "peekable", lambda a: lz("peek", a, INT(0), NONE()))
adaptor(IT + "skip_while", lambda a, f: lz("skipwhile", a, f, INT(0)))
adaptor(IT + "take_while", lambda a, f: lz("takewhile", a, f, INT(0)))
adaptor(IT + "map_while", lambda a, f: lz("mapwhile", a, f))
adaptor(IT + "scan", lambda a, s, f: lz("scan", a, f, s))
adaptor(IT + "flatten", lambda a: lz("flatten", a, NONE(), INT(0)))
adaptor(IT + "flat_map", lambda a, f: lz("flatten", mk("adt", "std::iter::Map", 0, a, f), NONE(), INT(0)))
adaptor(IT + "map", lambda a, f: mk("adt", "std::iter::Map", 0, a, f))
adaptor(IT + "filter", lambda a, f: mk("adt", "std::iter::Filter", 0, a, f))
adaptor(IT + "filter_map", lambda a, f: mk("adt", "std::iter::FilterMap", 0, a, f))
adaptor(IT + "inspect", lambda a, f: mk("adt", "std::iter::Inspect", 0, a, f))
adaptor(IT + "fuse", lambda a: a)
adaptor(IT + "by_ref", lambda a: a)
adaptor("std::iter::once", lambda x: mk("it", "opt", SOME(x), 0))
adaptor("std::iter::empty", lambda: mk("it", "opt", NONE(), 0))
adaptor("std::iter::repeat", lambda x: lz("repeat", x))
adaptor("std::iter::from_fn", lambda f: lz("fromfn", f))
adaptor("std::iter::successors", lambda x, f: lz("succ", x, f))


def iter_of(I, st, v):
    """IntoIterator::into_iter of a value, by the value alone (None: not known)"""
    v0 = v
    if is_iter(v):
        return v
    if v.k == "vec" or v.k == "arr":
        return mk("it", "val", v, 0)
    if v.k == "adt" and v.a[0] == "std::option::Option":
        return mk("it", "opt", v, 0)
    if v.k == "adt" and v.a[0] == "std::result::Result":
        return mk("it", "opt", SOME(v.a[2]) if v.a[1] == 0 else NONE(), 0)
    if v.k == "ref":
        x = I.read(st, *v.a)
        while x.k == "ref":
            v, x = x, I.read(st, *x.a)
        if is_iter(x):
            return v
        if x.k in ("vec", "arr"):
            return mk("it", "ref", v, 0)
        if x.k == "adt" and x.a[0] == "std::option::Option":
            r, p = v.a
            return known([mk("ref", r, p + ((".", 0, "0"),))] if x.a[1] == 1 else [])
    if v.k == "adt" and type(v.a[0]) is str and local_next(I, v.a[0]) is not None:
        return v
    return None


def m_two(kind, *more):
    def m(I, st, cl, dest, ret):
        b = cl.args[1]
        t = I.c.types[cl.fn["targs"][1]] if len(cl.fn.get("targs", ())) > 1 else None
        w = iter_of(I, st, b)
        if w is None and t is not None and t["k"] == "ref":
            r, p, x = seqloc(I, st, b)
            w = mk("it", "ref", mk("ref", r, p), 0)
        if w is None and t is not None and t.get("path") == "std::vec::Vec":
            w = mk("it", "val", b, 0)
        if w is None:
            w = mk("it", "val", b, -1)
        return one(st, lz(kind, cl.args[0], w, *more))

    return m


MODELS[IT + "chain"] = m_two("chain", INT(0))
MODELS[IT + "zip"] = m_two("zip")


@model("std::option::Option::<T>::iter", "std::option::Option::<T>::iter_mut")
def m_opt_iter(I, st, cl, dest, ret):
    r, p, x = seqloc(I, st, cl.args[0])
    ti = cl.fn["targs"][0]
    x = I.resolve(st, x)
    if x.k == "adt":
        return one(st, known([mk("ref", r, p + ((".", 0, "0"),))] if x.a[1] == 1 else []))
    return NotImplemented


@model("verif::into")
def m_into_any(I, st, cl, dest, ret):
    w = iter_of(I, st, cl.args[0])
    return one(st, w if w is not None else mk("it", "val", cl.args[0], -1))


@model("verif::clone")
def m_clone_any(I, st, cl, dest, ret):
    return one(st, cl.args[0])


@model("verif::less")
def m_less(I, st, cl, dest, ret):
    a, b = (I.resolve(st, I.content(st, x)) for x in cl.args)
    r = less(I, st, a, b)
    if r is None:
        r = I.resolve(st, mk("lt", I.summary(st, a), I.summary(st, b)))
    return one(st, r)


def less(I, st, a, b):
    """a < b for the derived or primitive order on known values (None: not known)"""
    if a.k == "int" and b.k == "int":
        return INT(int(a.a[0] < b.a[0]))
    if a.k == "str" and b.k == "str":
        return INT(int(a.a[0].encode() < b.a[0].encode()))
    if a.k in ("tup", "vec", "arr") and b.k == a.k:
        for x, y in zip(a.a, b.a):
            x, y = I.resolve(st, I.content(st, x)), I.resolve(st, I.content(st, y))
            l = less(I, st, x, y)
            if l is None:
                return None
            if l is TRUE:
                return TRUE
            g = less(I, st, y, x)
            if g is None:
                return None
            if g is TRUE:
                return FALSE
        return INT(int(len(a.a) < len(b.a)))
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[0] in ("std::option::Option", "std::cmp::Reverse"):
        if a.a[0] == "std::cmp::Reverse":
            return less(I, st, I.content(st, b.a[2]), I.content(st, a.a[2]))
        if a.a[1] != b.a[1]:
            return INT(int(a.a[1] < b.a[1]))
        return FALSE if a.a[1] == 0 else less(I, st, I.resolve(st, I.content(st, a.a[2])), I.resolve(st, I.content(st, b.a[2])))
    return None


def lazy_body(I, kind):
    name = "synth::lz::%s::next" % kind
    if name in I.c.bodies:
        return name
    p = Prog(I, name, 1)
    F = SELF
    if kind == "chain":
        p.sw(F(2), [(0, "a"), (1, "b")])
        p.lab("a")
        p.next(3, F(0))
        p.opt(3, "n", "r")
        p.lab("n")
        p.set(F(2), p.k(1))
        p.goto("b")
        p.lab("b")
        p.next(3, F(1))
        p.goto("r")
        p.lab("r")
        p.ret(3)
    elif kind in ("skip", "take", "stepby"):
        if kind == "skip":
            p.lab("l")
            p.bin(2, "Eq", F(1), p.k(0))
            p.swb(2, "s", "d")
            p.lab("s")
            p.bin(F(1), "Sub", F(1), p.k(1))
            p.next(3, F(0))
            p.opt(3, "n", "l")
            p.lab("n")
            p.ret_none()
        elif kind == "take":
            p.bin(2, "Eq", F(1), p.k(0))
            p.swb(2, "s", "n")
            p.lab("n")
            p.ret_none()
            p.lab("s")
            p.bin(F(1), "Sub", F(1), p.k(1))
            p.goto("d")
        else:
            p.set(5, F(1))
            p.sw(F(2), [(1, "f"), (0, "l")])
            p.lab("f")
            p.set(F(2), p.k(0))
            p.goto("d")
            p.lab("l")
            p.bin(2, "Eq", 5, p.k(1))
            p.swb(2, "s", "d")
            p.lab("s")
            p.bin(5, "Sub", 5, p.k(1))
            p.next(3, F(0))
            p.opt(3, "n", "l")
            p.lab("n")
            p.ret_none()
        p.lab("d")
        p.next(3, F(0))
        p.ret(3)
    elif kind == "zip":
        p.next(3, F(0))
        p.opt(3, "n", "a")
        p.lab("n")
        p.ret_none()
        p.lab("a")
        p.next(4, F(1))
        p.opt(4, "n", "b")
        p.lab("b")
        p.tup(5, PAY(3), PAY(4))
        p.ret_some(5)
    elif kind == "peek":
        p.sw(F(1), [(0, "a"), (1, "b")])
        p.lab("a")
        p.next(3, F(0))
        p.ret(3)
        p.lab("b")
        p.set(3, F(2))
        p.set(F(1), p.k(0))
        p.none(F(2))
        p.ret(3)
    elif kind in ("skipwhile", "takewhile"):
        if kind == "takewhile":
            p.sw(F(2), [(0, "l"), (1, "n")])
        p.lab("l")
        p.next(3, F(0))
        p.opt(3, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.set(8, PAY(3))
        if kind == "skipwhile":
            p.sw(F(2), [(0, "t"), (1, "r")])
            p.lab("t")
        p.ref(9, 8)
        p.call(7, F(1), 9)
        p.swb(7, "f", "l" if kind == "skipwhile" else "r")
        p.lab("f")
        p.set(F(2), p.k(1))
        p.goto("r" if kind == "skipwhile" else "n")
        p.lab("r")
        p.ret_some(8)
    elif kind == "mapwhile":
        p.next(3, F(0))
        p.opt(3, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.call(7, F(1), PAY(3))
        p.ret(7)
    elif kind == "scan":
        p.next(3, F(0))
        p.opt(3, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.ref(9, F(2))
        p.call(7, F(1), 9, PAY(3))
        p.ret(7)
    elif kind == "flatten":
        p.lab("l")
        p.sw(F(2), [(0, "o"), (1, "i")])
        p.lab("i")
        p.next(3, F(1))
        p.opt(3, "e", "r")
        p.lab("r")
        p.ret(3)
        p.lab("e")
        p.set(F(2), p.k(0))
        p.none(F(1))
        p.goto("o")
        p.lab("o")
        p.next(3, F(0))
        p.opt(3, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.py(6, "verif::into", PAY(3))
        p.set(F(1), 6)
        p.set(F(2), p.k(1))
        p.goto("l")
    elif kind == "fromfn":
        p.call(3, F(0))
        p.ret(3)
    elif kind == "succ":
        p.opt(F(0), "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.set(3, F(0))
        p.set(8, PAY(3))
        p.ref(9, 8)
        p.call(7, F(1), 9)
        p.set(F(0), 7)
        p.ret_some(8)
    elif kind == "repeat":
        p.ret_some(F(0))
    else:
        raise AnalysisError("no iterator adaptor " + kind)
    return p.done()


def prog(I, name, argc, build):
    full = "synth::" + name
    if full not in I.c.bodies:
        p = Prog(I, full, argc)
        build(p)
        p.done()
    return full


@model("std::iter::Peekable::<I>::peek", "std::iter::Peekable::<I>::peek_mut")
def m_peek(I, st, cl, dest, ret):
    def b(p):
        p.sw(SELF(1), [(0, "a"), (1, "b")])
        p.lab("a")
        p.next(3, SELF(0))
        p.set(SELF(2), 3)
        p.set(SELF(1), p.k(1))
        p.goto("b")
        p.lab("b")
        p.opt(SELF(2), "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.ref(4, SELF(2) + [["v", 1], SOMEF])
        p.ret_some(4)

    if I.content(st, cl.args[0]).k != "adt":
        return NotImplemented
    enter_synth(I, st, prog(I, "peek", 1, b), [cl.args[0]], dest, ret, cl.site)
    return None


@model("std::iter::Peekable::<I>::next_if")
def m_next_if(I, st, cl, dest, ret):
    def b(p):
        p.sw(SELF(1), [(0, "a"), (1, "b")])
        p.lab("a")
        p.next(3, SELF(0))
        p.set(SELF(2), 3)
        p.set(SELF(1), p.k(1))
        p.goto("b")
        p.lab("b")
        p.opt(SELF(2), "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.ref(4, SELF(2) + [["v", 1], SOMEF])
        p.call(5, 2, 4)
        p.swb(5, "n", "y")
        p.lab("y")
        p.set(3, SELF(2))
        p.set(SELF(1), p.k(0))
        p.none(SELF(2))
        p.ret(3)

    if I.content(st, cl.args[0]).k != "adt":
        return NotImplemented
    enter_synth(I, st, prog(I, "next_if", 2, b), [cl.args[0], cl.args[1]], dest, ret, cl.site)
    return None


# ---------------------------------------------------------------- consumers
# programs: _1 the iterator (reference), _2.. further arguments
def c_fold(p):
    p.set(4, 2)
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret(4)
    p.lab("s")
    p.call(6, 3, 4, PAY(5))
    p.set(4, 6)
    p.goto("l")


def c_reduce(p):
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret_none()
    p.lab("s")
    p.set(4, PAY(5))
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "e", "g")
    p.lab("e")
    p.ret_some(4)
    p.lab("g")
    p.call(6, 2, 4, PAY(5))
    p.set(4, 6)
    p.goto("l")


def c_count(p):
    p.set(4, p.k(0))
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret(4)
    p.lab("s")
    p.bin(4, "Add", 4, p.k(1))
    p.goto("l")


def c_sum(op, start):
    def b(p):
        p.set(4, p.k(start))
        p.lab("l")
        p.next(5, [1, ["*"]])
        p.opt(5, "n", "s")
        p.lab("n")
        p.ret(4)
        p.lab("s")
        p.py(6, "verif::arith" + op, 4, PAY(5))
        p.set(4, 6)
        p.goto("l")

    return b


def c_last(p):
    p.none(4)
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret(4)
    p.lab("s")
    p.set(4, 5)
    p.goto("l")


def c_nth(p):
    p.set(4, 2)
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret_none()
    p.lab("s")
    p.bin(6, "Eq", 4, p.k(0))
    p.swb(6, "d", "r")
    p.lab("r")
    p.ret(5)
    p.lab("d")
    p.bin(4, "Sub", 4, p.k(1))
    p.goto("l")


def c_best(how, key):
    """max: the last of the greatest; min: the first of the least. key: None, "key" (closure), "by" (closure giving an Ordering)"""

    def b(p):
        p.next(5, [1, ["*"]])
        p.opt(5, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.set(4, PAY(5))
        if key == "key":
            p.ref(9, 4)
            p.call(10, 2, 9)
        p.lab("l")
        p.next(5, [1, ["*"]])
        p.opt(5, "e", "g")
        p.lab("e")
        p.ret_some(4)
        p.lab("g")
        p.set(6, PAY(5))
        if key == "key":
            p.ref(9, 6)
            p.call(11, 2, 9)
        if key == "by":
            p.ref(9, 4)
            p.ref(12, 6)
            p.call(13, 2, 9, 12)  # cmp(best, item)
            p.py(14, "verif::isgreater", 13)  # best > item
        else:
            a, c = (10, 11) if key else (4, 6)
            p.py(14, "verif::less", c, a)  # item < best
        if how == "max":
            p.swb(14, "t", "l")  # keep only a strictly greater best
        elif key == "by":
            p.swb(14, "l", "t")  # min: replaced when best > item
        else:
            p.swb(14, "l", "t")
        p.lab("t")
        p.set(4, 6)
        if key == "key":
            p.set(10, 11)
        p.goto("l")

    return b


@model("verif::isgreater")
def m_isgreater(I, st, cl, dest, ret):
    o = I.resolve(st, I.content(st, cl.args[0]))
    if o.k == "adt" and o.a[0] == "std::cmp::Ordering":
        return one(st, INT(int(o.a[1] == 2)))
    return one(st, I.resolve(st, mk("bool", "greater", I.summary(st, o))))


def arith(op):
    def m(I, st, cl, dest, ret):
        a, b = (I.resolve(st, I.content(st, x)) for x in cl.args)
        return one(st, I.binop(st, op, a, b))

    MODELS["verif::arith" + op] = m


for _o in ("Add", "Mul"):
    arith(_o)


def c_partition(p):
    # _3, _4: references to the two vectors
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret(p.k(0))
    p.lab("s")
    p.set(8, PAY(5))
    p.ref(9, 8)
    p.call(7, 2, 9)
    p.swb(7, "f", "t")
    p.lab("t")
    p.py(6, "std::vec::Vec::<T, A>::push", 3, 8)
    p.goto("l")
    p.lab("f")
    p.py(6, "std::vec::Vec::<T, A>::push", 4, 8)
    p.goto("l")


def c_unzip(p):
    p.lab("l")
    p.next(5, [1, ["*"]])
    p.opt(5, "n", "s")
    p.lab("n")
    p.ret(p.k(0))
    p.lab("s")
    p.set(8, PAY(5))
    p.py(6, "std::vec::Vec::<T, A>::push", 3, [8, [".", 0, "0", ""]])
    p.py(6, "std::vec::Vec::<T, A>::push", 4, [8, [".", 1, "1", ""]])
    p.goto("l")


def consume(name, build, extra=0):
    def m(I, st, cl, dest, ret):
        it = _iter_arg(I, st, cl, cl.args[0])
        enter_synth(I, st, prog(I, name, 1 + extra, build), [it] + list(cl.args[1 : 1 + extra]), dest, ret, cl.site)
        return None

    MODELS[IT + name] = m


consume("fold", c_fold, 2)
consume("reduce", c_reduce, 1)
consume("count", c_count)
consume("sum", c_sum("Add", 0))
consume("product", c_sum("Mul", 1))
consume("last", c_last)
consume("nth", c_nth, 1)
for _h in ("max", "min"):
    consume(_h, c_best(_h, None))
    consume(_h + "_by_key", c_best(_h, "key"), 1)
    consume(_h + "_by", c_best(_h, "by"), 1)


@premodel(lambda cl: cl.path in (IT + "partition", IT + "unzip"))
def m_partition(I, st, cl, dest, ret):
    name = cl.path.rsplit("::", 1)[1]
    t = I.c.types[cl.dt] if cl.dt is not None else None
    if t is None or t["k"] != "tuple" or any(I.c.types[e].get("path") != "std::vec::Vec" for e in t["es"]):
        return NotImplemented
    it = _iter_arg(I, st, cl, cl.args[0])
    roots = []
    for i in (0, 1):
        root = ("h", ("part%d" % i, cl.site))
        st.mem[root] = mk("vec")
        st.mem[("keep", root)] = mk("ref", root, ())
        roots.append(root)
    args = [it, cl.args[1] if name == "partition" else UNIT] + [mk("ref", r, ()) for r in roots]
    enter_synth(I, st, prog(I, name, 4, c_partition if name == "partition" else c_unzip), args, ("py", _parts, roots[0], roots[1], dest, ret), None, cl.site)
    return None


def _parts(I, st, v, r1, r2, dest, ret):
    out = []
    for r in (r1, r2):
        out.append(I.read(st, r, ()))
        st.mem.pop(("keep", r), None)
        st.mem.pop(r, None)
    I.finish(st, dest, ret, TUP(*out))
    return ()


@model(IT + "rposition")
def m_rposition(I, st, cl, dest, ret):
    a = cl.args[0]
    inner = I.read(st, *a.a) if a.k == "ref" else a
    xs = listed(I, st, inner)
    if xs is None:
        return NotImplemented
    root = ("h", ("iter", cl.site))
    st.mem[root] = known([TUP(INT(i), x) for i, x in enumerate(xs)][::-1])
    enter_synth(I, st, position_body(I), [mk("ref", root, ()), cl.args[1]], dest, ret, cl.site)
    return None


@model("std::iter::DoubleEndedIterator::rfind")
def m_rfind(I, st, cl, dest, ret):
    a = cl.args[0]
    v = I.read(st, *a.a) if a.k == "ref" else a
    w = rev_of(I, st, v)
    if w is None:
        return NotImplemented
    root = ("h", ("iter", cl.site))
    st.mem[root] = w
    enter_synth(I, st, consumer_body(I, "find"), [mk("ref", root, ()), cl.args[1]], dest, ret, cl.site)
    return None


# ---- collecting
def c_try(ok, err):
    """into Result<Vec, E> / Option<Vec>: _2 the vector (reference); returns Some(the failing item) or None"""

    def b(p):
        p.lab("l")
        p.next(5, [1, ["*"]])
        p.opt(5, "n", "s")
        p.lab("n")
        p.ret_none()
        p.lab("s")
        p.set(6, PAY(5))
        p.py(7, "verif::variant", 6)
        p.sw(7, [(ok, "o"), (err, "e")])
        p.lab("o")
        p.py(8, "verif::payload", 6)
        p.py(9, "std::vec::Vec::<T, A>::push", 2, 8)
        p.goto("l")
        p.lab("e")
        p.ret_some(6)

    return b


TRY = {"std::result::Result": 0, "std::option::Option": 1, "std::ops::ControlFlow": 0}  # the variant that goes on


def c_tryfold(path, acc):
    """_1 iterator (reference), with acc: _2 the start and _3 the closure, without: _2 the closure"""
    ok = TRY[path]

    def b(p):
        p.set(4, 2) if acc else p.tup(4)
        p.lab("l")
        p.next(5, [1, ["*"]])
        p.opt(5, "n", "s")
        p.lab("n")
        p.py(8, "verif::goon." + path, 4)
        p.ret(8)
        p.lab("s")
        if acc:
            p.call(6, 3, 4, PAY(5))
        else:
            p.call(6, 2, PAY(5))
        p.py(7, "verif::variant." + path, 6)
        p.sw(7, [(ok, "o"), (1 - ok, "e")])
        p.lab("o")
        p.py(4, "verif::payload", 6)
        p.goto("l")
        p.lab("e")
        p.ret(6)

    return b


@premodel(lambda cl: cl.path in (IT + "try_fold", IT + "try_for_each"))
def m_tryfold(I, st, cl, dest, ret):
    t = I.c.types[cl.dt] if cl.dt is not None else None
    if t is None or t.get("path") not in TRY or cl.args[0].k != "ref":
        return NotImplemented
    acc = cl.path.endswith("try_fold")
    for path, ok in TRY.items():
        if "verif::goon." + path not in MODELS:
            MODELS["verif::goon." + path] = lambda I, st, cl, dest, ret, path=path, ok=ok: one(st, mk("adt", path, ok, cl.args[0]))
            MODELS["verif::variant." + path] = m_variant(path)
    enter_synth(I, st, prog(I, cl.path.rsplit("::", 1)[1] + "." + t["path"], 2 + acc, c_tryfold(t["path"], acc)), list(cl.args[: 2 + acc]), dest, ret, cl.site)
    return None


def m_variant(path):
    def m(I, st, cl, dest, ret):
        v = I.resolve(st, cl.args[0])
        if v.k == "adt":
            return one(st, INT(v.a[1]))
        ti = next((i for i, t in enumerate(I.c.types) if t.get("k") == "adt" and t["path"] == path and "vs" in t), None)
        return one(st, I.resolve(st, I.discr(st, v, ti)))

    return m


def m_payload(I, st, cl, dest, ret):
    v = I.resolve(st, cl.args[0])
    return one(st, I.step_get(v, (".", 0, "0"), st) if v.k == "adt" else mk("fld", v, "0"))


MODELS["verif::payload"] = m_payload


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter")
def m_collect(I, st, cl, dest, ret):
    t = I.c.types[cl.dt] if cl.dt is not None else None
    p = t.get("path") if t else None
    a = cl.args[0]
    if cl.path.endswith("from_iter"):
        w = iter_of(I, st, a)
        if w is None:
            return NotImplemented
        a = w
    if p == "std::boxed::Box" and I.c.types[t["args"][0]]["k"] == "slice":
        p = "std::vec::Vec"
    if p in ("std::vec::Vec", "std::collections::VecDeque"):
        return collect_vec(I, st, cl, a, "extend", ("vec",), dest, ret)
    if p in ("std::result::Result", "std::option::Option"):
        if I.c.types[t["args"][0]].get("path") != "std::vec::Vec":
            return NotImplemented
        MODELS["verif::variant"] = m_variant(p)
        I.models["verif::variant"] = MODELS["verif::variant"]
        name = prog(I, "collect-" + p, 2, c_try(*((0, 1) if p.endswith("Result") else (1, 0))))
        return collect_vec(I, st, cl, a, name, (p,), dest, ret)
    if p == "std::string::String":
        return collect_vec(I, st, cl, a, "extend", ("str",), dest, ret)
    if p == "std::collections::HashMap":
        xs = listed(I, st, a)
        if xs is None:
            return collect_vec(I, st, cl, a, "extend", ("map",), dest, ret)
        return one(st, map_of(xs)) if map_of(xs) is not None else NotImplemented
    return NotImplemented


def map_of(xs):
    m = mk("newmap")
    seen = {}
    for x in xs:
        if x.k != "tup" or x.a[0].k != "str":
            return None
        seen[x.a[0]] = x.a[1]
    for k, v in seen.items():
        m = mk("mapins", m, k, v)
    return m


def collect_vec(I, st, cl, a, name, how, dest, ret):
    it = _iter_arg(I, st, cl, a)
    root = ("h", ("coll", cl.site))
    st.mem[root] = mk("vec")
    ref = mk("ref", root, ())
    st.mem[("keep", root)] = ref
    body = consumer_body(I, "extend") if name == "extend" else name
    enter_synth(I, st, body, [it, ref], ("py", _collected, root, how, cl.rpath, cl.site, dest, ret), None, cl.site)
    return None


def _collected(I, st, v, root, how, rpath, site, dest, ret):
    x = I.read(st, root, ())
    st.mem.pop(("keep", root), None)
    st.mem.pop(root, None)
    h = how[0]
    if h in ("std::result::Result", "std::option::Option"):
        if v.k == "adt" and v.a[1] == 1:
            x = v.a[2] if h.endswith("Result") else NONE()
        else:
            x = OK(x) if h.endswith("Result") else SOME(x)
    elif h == "str":
        if x.k == "vec":
            x = cat([aschar(I.content(st, y)) for y in x.a])
        else:
            x = mk("call", site, rpath, I.summary(st, x))
    elif h == "map":
        m = map_of(x.a) if x.k == "vec" else None
        x = m if m is not None else mk("call", site, rpath, I.summary(st, x))
    I.finish(st, dest, ret, x)
    return ()


def aschar(c):
    return STR(chr(c.a[0])) if c.k == "int" else aspiece(c)


# ---------------------------------------------------------------- vectors and slices
def vecmodel(*paths):
    """method on a vector whose items are known: f(I, st, items, args) -> (new items or None, result) or None"""

    def deco(f):
        def m(I, st, cl, dest, ret):
            r, p, v = seqloc(I, st, cl.args[0])
            if v.k not in ("vec", "arr"):
                return NotImplemented
            res = f(I, st, list(v.a), [I.resolve(st, a) for a in cl.args[1:]], cl)
            if res is None:
                return NotImplemented
            new, out = res
            if new is not None:
                I.rule.on_event(I, st, cl, UNIT)
                I.write(st, r, p, mk(v.k, *new))
            return one(st, out)

        for q in paths:
            MODELS[q] = m
        return f

    return deco


def bounds(v, n):
    """(lo, hi) of a range value over n items"""
    if v.k != "adt" or any(type(y) is not V or y.k != "int" for y in v.a[2:4]):
        return None
    k, a = v.a[0], [y.a[0] for y in v.a[2:]]
    if k.endswith("::Range"):
        lo, hi = a[0], a[1]
    elif k.endswith("::RangeFrom"):
        lo, hi = a[0], n
    elif k.endswith("::RangeTo"):
        lo, hi = 0, a[0]
    elif k.endswith("::RangeFull"):
        lo, hi = 0, n
    elif k.endswith("::RangeInclusive"):
        lo, hi = a[0], a[1] + 1
    elif k.endswith("::RangeToInclusive"):
        lo, hi = 0, a[0] + 1
    else:
        return None
    return (lo, hi) if 0 <= lo <= hi <= n else None


@vecmodel("std::vec::Vec::<T, A>::append")
def v_append(I, st, xs, args, cl):
    r, p, w = seqloc(I, st, args[0])
    if w.k != "vec":
        return None
    I.write(st, r, p, mk("vec"))
    return xs + list(w.a), UNIT


@vecmodel("std::vec::Vec::<T, A>::drain")
def v_drain(I, st, xs, args, cl):
    b = bounds(args[0], len(xs))
    if b is None:
        return None
    return xs[: b[0]] + xs[b[1] :], known(xs[b[0] : b[1]])


@vecmodel("core::slice::<impl [T]>::reverse")
def v_reverse(I, st, xs, args, cl):
    return xs[::-1], UNIT


@vecmodel("core::slice::<impl [T]>::swap")
def v_swap(I, st, xs, args, cl):
    if any(a.k != "int" or a.a[0] >= len(xs) for a in args):
        return None
    i, j = args[0].a[0], args[1].a[0]
    xs[i], xs[j] = xs[j], xs[i]
    return xs, UNIT


@vecmodel("std::vec::Vec::<T, A>::split_off")
def v_split_off(I, st, xs, args, cl):
    if args[0].k != "int" or args[0].a[0] > len(xs):
        return None
    return xs[: args[0].a[0]], mk("vec", *xs[args[0].a[0] :])


@vecmodel("std::vec::Vec::<T, A>::resize")
def v_resize(I, st, xs, args, cl):
    n = args[0]
    if n.k != "int" or n.a[0] > 4096:
        return None
    return (xs + [args[1]] * (n.a[0] - len(xs)))[: n.a[0]], UNIT


def eq_known(I, st, a, b):
    """equality of two values of one type, if both are known down to the leaves"""
    a, b = I.content(st, a), I.content(st, b)
    if const_like(a) and const_like(b):
        return a is b
    return None


@vecmodel("std::vec::Vec::<T, A>::dedup")
def v_dedup(I, st, xs, args, cl):
    t = I.c.types[cl.fn["targs"][0]]
    if not prim_order(I, t):
        return None
    out = []
    for x in xs:
        if out:
            e = eq_known(I, st, out[-1], x)
            if e is None:
                return None
            if e:
                continue
        out.append(x)
    return out, UNIT


def prim_order(I, t):
    """is the order (and equality) of the type that of its (known) content?"""
    while t["k"] == "ref":
        t = I.c.types[t["e"]]
    if t["k"] in ("int", "uint", "bool", "char", "str") or t.get("path") == "std::string::String":
        return True
    if t["k"] == "tuple":
        return all(prim_order(I, I.c.types[e]) for e in t["es"])
    if t.get("path") in ("std::option::Option", "std::vec::Vec"):
        return prim_order(I, I.c.types[t["args"][0]])
    return False


@vecmodel("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def v_split_first(I, st, xs, args, cl):
    if not xs:
        return None, NONE()
    r, p, v = seqloc(I, st, cl.args[0])
    first = cl.path.endswith("first")
    e = mk("ref", r, p + (("[]", INT(0 if first else len(xs) - 1)),))
    rest = I.fresh_cell(st, ("slice",) + tuple(cl.site), mk("vec", *(xs[1:] if first else xs[:-1])))
    return None, SOME(TUP(e, rest))


@vecmodel("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::windows")
def v_chunks(I, st, xs, args, cl):
    n = args[0]
    if n.k != "int" or n.a[0] == 0:
        return None
    n = n.a[0]
    parts = [xs[i : i + n] for i in range(0, len(xs), n)] if cl.path.endswith("chunks") else [xs[i : i + n] for i in range(0, len(xs) - n + 1)]
    return None, known([I.fresh_cell(st, ("slice", j) + tuple(cl.site), mk("vec", *q)) for j, q in enumerate(parts)])


@vecmodel("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def v_starts(I, st, xs, args, cl):
    w = I.content(st, args[0])
    t = I.c.types[cl.fn["targs"][0]]
    if w.k not in ("vec", "arr") or not prim_order(I, t):
        return None
    n = len(w.a)
    if n > len(xs):
        return None, FALSE
    part = xs[:n] if "starts" in cl.path else xs[len(xs) - n :]
    es = [eq_known(I, st, a, b) for a, b in zip(part, w.a)]
    if None in es:
        return None
    return None, INT(int(all(es)))


@premodel(lambda cl: cl.path.endswith("]>::concat") or cl.path.endswith("]>::join"))
def m_concat(I, st, cl, dest, ret):
    v = I.content(st, cl.args[0])
    if v.k not in ("vec", "arr"):
        return NotImplemented
    t = I.c.types[cl.dt] if cl.dt is not None else {}
    xs = [I.content(st, x) for x in v.a]
    if t.get("path") == "std::string::String":
        sep = I.content(st, cl.args[1]) if cl.path.endswith("join") else STR("")
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(aspiece(sep))
            out.append(aspiece(x))
        return one(st, cat(out) if out else STR(""))
    if t.get("path") == "std::vec::Vec" and cl.path.endswith("concat") and all(x.k in ("vec", "arr") for x in xs):
        return one(st, mk("vec", *[y for x in xs for y in x.a]))
    return NotImplemented


@premodel(lambda cl: cl.path.startswith("core::slice::<impl [T]>::sort") or cl.path.startswith("std::slice::<impl [T]>::sort"))
def m_sort(I, st, cl, dest, ret):
    r, p, v = seqloc(I, st, cl.args[0])
    name = cl.path.rsplit("::", 1)[1]
    if v.k not in ("vec", "arr"):
        return NotImplemented
    if len(v.a) < 2:
        return one(st, UNIT)
    t = I.c.types[cl.fn["targs"][0]]
    if name in ("sort", "sort_unstable") and prim_order(I, t):
        import functools

        ok = [True]

        def c(a, b):
            a, b = I.resolve(st, I.content(st, a)), I.resolve(st, I.content(st, b))
            l, g = less(I, st, a, b), less(I, st, b, a)
            if l is None or g is None:
                ok[0] = False
                return 0
            return -1 if l is TRUE else 1 if g is TRUE else 0

        xs = sorted(v.a, key=functools.cmp_to_key(c))
        if ok[0]:
            I.rule.on_event(I, st, cl, UNIT)
            I.write(st, r, p, mk("vec", *xs))
            return one(st, UNIT)
    if v.k == "vec" and name in ("sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key") and I.content(st, cl.args[1]).k in ("clo", "fn"):
        I.rule.on_event(I, st, cl, UNIT)
        # insertion sort (stable) of item 1.. into the sorted prefix, asking the closure
        _sort(I, st, None, r, p, cl.args[1], name, v, (), 0, 0, None, cl.site, dest, ret)
        return None
    return any_order(I, st, cl, dest, ret)


def _sort(I, st, res, r, p, clo, name, v, keys, i, j, cur, site, dest, ret):
    """keys: for ..._key the keys computed so far; (i, j): item i is being compared with position j-1 of the sorted prefix (cur: that prefix)"""
    bykey = "key" in name
    n = len(v.a)
    if bykey:
        if res is not None:
            keys = keys + (res,)
        if len(keys) < n:
            ref = mk("ref", r, p + (("[]", INT(len(keys))),))
            if not I.call_closure(st, clo, TUP(ref), ("py", _sort, r, p, clo, name, v, keys, 0, 0, None, site, dest, ret), None, (site[0], site[1], "sort", len(keys))):
                raise AnalysisError("sort: cannot follow the key function")
            return ()
        import functools

        bad = [False]

        def c(a, b):
            x, y = I.resolve(st, I.content(st, keys[a])), I.resolve(st, I.content(st, keys[b]))
            l, g = less(I, st, x, y), less(I, st, y, x)
            if l is None or g is None:
                bad[0] = True
                return 0
            return -1 if l is TRUE else 1 if g is TRUE else 0

        order = sorted(range(n), key=functools.cmp_to_key(c))
        if bad[0]:
            I.write(st, r, p, mk("mut", site, "sort", 0))
        else:
            I.write(st, r, p, mk("vec", *[v.a[x] for x in order]))
        I.finish(st, dest, ret, UNIT)
        return ()
    if cur is None:
        cur, i, j = (0,), 1, 1
    elif res is not None:
        # res = cmp(prefix[j-1], item i)
        o = I.resolve(st, res)
        if o.k != "adt":
            alts = []
            ti = next((q for q, t in enumerate(I.c.types) if t.get("path") == "std::cmp::Ordering" and "vs" in t), None)
            d = I.discr(st, o, ti)
            s2 = st.copy()
            g = mk("bool", "greater", I.summary(s2, o))
            if I.assume(s2, g, TRUE):
                alts.append((s2, True))
            if I.assume(st, g, FALSE):
                alts.append((st, False))
        else:
            alts = [(st, o.a[1] == 2)]
        for s, greater in alts:
            if greater and j > 1:
                _cmp(I, s, r, p, clo, name, v, i, j - 1, cur, site, dest, ret)
            else:
                at = j - 1 if greater else j
                _sort_next(I, s, r, p, clo, name, v, i + 1, cur[:at] + (i,) + cur[at:], site, dest, ret)
        return ()
    _sort_next(I, st, r, p, clo, name, v, i, cur, site, dest, ret)
    return ()


def _sort_next(I, st, r, p, clo, name, v, i, cur, site, dest, ret):
    if i == len(v.a):
        I.write(st, r, p, mk("vec", *[v.a[x] for x in cur]))
        I.finish(st, dest, ret, UNIT)
        return
    _cmp(I, st, r, p, clo, name, v, i, len(cur), cur, site, dest, ret)


def _cmp(I, st, r, p, clo, name, v, i, j, cur, site, dest, ret):
    a = mk("ref", r, p + (("[]", INT(cur[j - 1])),))
    b = mk("ref", r, p + (("[]", INT(i)),))
    if not I.call_closure(st, clo, TUP(a, b), ("py", _sort, r, p, clo, name, v, (), i, j, cur, site, dest, ret), None, (site[0], site[1], "sort", i, j)):
        raise AnalysisError("sort: cannot follow the comparison")


@premodel(lambda cl: cl.path in ("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge", "std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp", "std::cmp::Ord::max", "std::cmp::Ord::min", "std::cmp::max", "std::cmp::min"))
def m_ord(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    if not prim_order(I, t) or len(cl.args) < 2:
        return NotImplemented
    a, b = (I.resolve(st, I.content(st, x)) for x in cl.args[:2])
    n = cl.path.rsplit("::", 1)[1]
    e = t
    while e["k"] == "ref":
        e = I.c.types[e["e"]]
    l, g = less(I, st, a, b), less(I, st, b, a)
    if (l is None or g is None) and e["k"] in ("int", "uint"):
        if n in ("lt", "le", "gt", "ge"):
            return one(st, I.binop(st, n.capitalize(), a, b))
        return NotImplemented
    if l is None or g is None:
        return NotImplemented
    if n in ("lt", "le", "gt", "ge"):
        return one(st, {"lt": l, "ge": I.neg(l), "gt": g, "le": I.neg(g)}[n])
    if n in ("cmp", "partial_cmp"):
        o = mk("adt", "std::cmp::Ordering", 0 if l is TRUE else 2 if g is TRUE else 1)
        return one(st, SOME(o) if n == "partial_cmp" else o)
    if n == "max":
        return one(st, cl.args[0] if g is TRUE else cl.args[1])
    return one(st, cl.args[1] if g is TRUE else cl.args[0])


@premodel(lambda cl: cl.path in ("std::ops::Add::add", "std::ops::Sub::sub", "std::ops::Mul::mul", "std::ops::Rem::rem", "std::ops::Div::div"))
def m_arith(I, st, cl, dest, ret):
    ts = []
    for i in cl.fn["targs"][:2]:
        t = I.c.types[i]
        while t["k"] == "ref":
            t = I.c.types[t["e"]]
        ts.append(t)
    if len(ts) == 2 and all(t["k"] == "uint" for t in ts):
        op = cl.path.rsplit("::", 1)[1].capitalize()
        a, b = (I.resolve(st, I.content(st, x)) for x in cl.args)
        if a.k == "int" and b.k == "int" and op == "Sub" and a.a[0] < b.a[0]:
            I.rule.on_panic(I, st, "assert-overflow", (st.frames[-1], cl, cl.line))
            return []
        return one(st, I.binop(st, op, a, b))
    return NotImplemented


@premodel(lambda cl: cl.path.startswith("core::num::<impl ") and cl.path.rsplit("::", 1)[1] in ("saturating_sub", "checked_sub", "saturating_add", "checked_add", "wrapping_add", "wrapping_sub", "abs_diff", "min", "max"))
def m_num(I, st, cl, dest, ret):
    if not cl.path.startswith("core::num::<impl u"):
        return NotImplemented
    a, b = (I.resolve(st, I.content(st, x)) for x in cl.args)
    n = cl.path.rsplit("::", 1)[1]
    if a.k != "int" or b.k != "int":
        return NotImplemented
    x, y = a.a[0], b.a[0]
    if n == "saturating_sub":
        return one(st, INT(max(0, x - y)))
    if n == "checked_sub":
        return one(st, SOME(INT(x - y)) if x >= y else NONE())
    if n == "abs_diff":
        return one(st, INT(abs(x - y)))
    bits = {"u8": 8, "u16": 16, "u32": 32}.get(cl.path.split("<impl ")[1].split(">")[0], 64)
    if n in ("checked_add", "saturating_add") and x + y < 1 << bits:
        return one(st, SOME(INT(x + y)) if n == "checked_add" else INT(x + y))
    return NotImplemented


@premodel(lambda cl: cl.path.startswith("std::ops::Range") and cl.path.endswith("::contains"))
def m_range_contains(I, st, cl, dest, ret):
    v = I.content(st, cl.args[0])
    x = I.resolve(st, I.content(st, cl.args[1]))
    if v.k == "adt" and v.a[0] in (RANGE, RANGEI) and x.k == "int" and v.a[2].k == "int" and v.a[3].k == "int":
        return one(st, INT(int(v.a[2].a[0] <= x.a[0] < v.a[3].a[0] + (v.a[0] == RANGEI))))
    return NotImplemented


# ---------------------------------------------------------------- strings (known ones; unknown ones stay terms)
def kstr(I, st, v):
    v = I.content(st, v)
    s = asstr(I, st, I.resolve(st, v))
    return s.a[0] if s.k == "str" else None


def pattern(I, st, cl, i):
    """a constant str / char / [char] pattern argument, as a list of strings"""
    v = I.resolve(st, I.content(st, cl.args[i]))
    if v.k == "int":
        return [chr(v.a[0])]
    if v.k == "str":
        return [v.a[0]]
    if v.k in ("arr", "vec") and all(x.k == "int" for x in v.a):
        return [chr(x.a[0]) for x in v.a]
    return None


STRP = "core::str::<impl str>::"


@premodel(lambda cl: cl.path in (STRP + "starts_with", STRP + "ends_with", STRP + "contains", STRP + "find", STRP + "rfind", STRP + "strip_prefix", STRP + "strip_suffix", STRP + "split", STRP + "split_once", STRP + "rsplit_once", "std::str::<impl str>::replace", "std::str::<impl str>::repeat", STRP + "eq_ignore_ascii_case", STRP + "chars", STRP + "char_indices", STRP + "bytes", STRP + "split_whitespace", STRP + "lines", STRP + "parse", STRP + "is_char_boundary", STRP + "trim_start_matches", STRP + "trim_end_matches", STRP + "trim_matches"))
def m_kstr(I, st, cl, dest, ret):
    n = cl.path.rsplit("::", 1)[1]
    s = kstr(I, st, cl.args[0])
    if s is None:
        return NotImplemented
    off = lambda i: INT(len(s[:i].encode()))
    strs = lambda xs: known([STR(x) for x in xs])
    if n == "chars":
        return one(st, known([INT(ord(c)) for c in s]))
    if n == "char_indices":
        return one(st, known([TUP(off(i), INT(ord(c))) for i, c in enumerate(s)]))
    if n == "bytes":
        return one(st, known([INT(b) for b in s.encode()]))
    if n == "split_whitespace":
        return one(st, strs(s.split())) if s.isascii() else NotImplemented
    if n == "lines":
        return one(st, strs(s.replace("\r\n", "\n").split("\n")[: -1 if s.endswith("\n") or not s else None])) if "\r" not in s.replace("\r\n", "") else NotImplemented
    if n == "parse":
        t = I.c.types[cl.fn["targs"][0]]
        if t["k"] == "uint":
            body = s[1:] if s[:1] == "+" else s
            if body.isascii() and body.isdigit() and int(body) < (1 << {"u8": 8, "u16": 16, "u32": 32}.get(t["s"], 64)):
                return one(st, OK(INT(int(body))))
            return one(st, ERR(mk("adt", "std::num::ParseIntError", 0)))
        return NotImplemented
    if n == "repeat":
        k = I.resolve(st, cl.args[1])
        return one(st, STR(s * k.a[0])) if k.k == "int" else NotImplemented
    if n == "is_char_boundary":
        k = I.resolve(st, cl.args[1])
        b = s.encode()
        if k.k != "int":
            return NotImplemented
        return one(st, INT(int(k.a[0] == len(b) or (k.a[0] < len(b) and b[k.a[0]] & 0xC0 != 0x80))))
    if n == "eq_ignore_ascii_case":
        o = kstr(I, st, cl.args[1])
        low = lambda x: "".join(c.lower() if c.isascii() else c for c in x)
        return one(st, INT(int(low(s) == low(o)))) if o is not None else NotImplemented
    p = pattern(I, st, cl, 1)
    if p is None or not p or (any(x == "" for x in p) and n not in ("starts_with", "ends_with", "contains")):
        return NotImplemented
    if n == "starts_with":
        return one(st, INT(int(any(s.startswith(x) for x in p))))
    if n == "ends_with":
        return one(st, INT(int(any(s.endswith(x) for x in p))))
    if n == "contains":
        return one(st, INT(int(any(x in s for x in p))))
    if n in ("find", "rfind"):
        at = [i for i in ((s.find(x) if n == "find" else s.rfind(x)) for x in p) if i >= 0]
        return one(st, SOME(off(min(at) if n == "find" else max(at))) if at else NONE())
    if n == "strip_prefix":
        q = [x for x in p if s.startswith(x)]
        return one(st, SOME(STR(s[len(q[0]) :])) if q else NONE())
    if n == "strip_suffix":
        q = [x for x in p if s.endswith(x)]
        return one(st, SOME(STR(s[: len(s) - len(q[0])])) if q else NONE())
    if len(p) > 1:
        return NotImplemented
    x = p[0]
    if n == "split":
        return one(st, strs(s.split(x)))
    if n == "split_once":
        return one(st, SOME(TUP(STR(s.split(x, 1)[0]), STR(s.split(x, 1)[1]))) if x in s else NONE())
    if n == "rsplit_once":
        return one(st, SOME(TUP(STR(s.rsplit(x, 1)[0]), STR(s.rsplit(x, 1)[1]))) if x in s else NONE())
    if n == "replace":
        y = kstr(I, st, cl.args[2])
        return one(st, STR(s.replace(x, y))) if y is not None else NotImplemented
    if n in ("trim_start_matches", "trim_end_matches", "trim_matches"):
        while n != "trim_end_matches" and s.startswith(x):
            s = s[len(x) :]
        while n != "trim_start_matches" and s.endswith(x):
            s = s[: len(s) - len(x)]
        return one(st, STR(s))
    return NotImplemented


# ---------------------------------------------------------------- ranges, cells, maps, sets, queues
@premodel(lambda cl: cl.path.startswith("std::ops::RangeInclusive") and cl.path.endswith("::new"))
def m_rangei(I, st, cl, dest, ret):
    return one(st, mk("adt", RANGEI, 0, I.resolve(st, cl.args[0]), I.resolve(st, cl.args[1]), FALSE))


@model("std::cell::Cell::<T>::get", "std::cell::Cell::<T>::set", "std::cell::RefCell::<T>::into_inner", "std::cell::Cell::<T>::into_inner", "std::cell::Cell::<T>::take", "std::cell::RefCell::<T>::get_mut")
def m_cellget(I, st, cl, dest, ret):
    n = cl.path.rsplit("::", 1)[1]
    if n == "into_inner":
        return one(st, I.step_get(cl.args[0], (".", 0, "value"), st))
    r, p = I.pointee(st, cl.args[0])
    p = p + ((".", 0, "value"),)
    if n == "get_mut":
        return one(st, mk("ref", r, p))
    if n == "set":
        I.write(st, r, p, cl.args[1])
        return one(st, UNIT)
    if n == "take":
        return NotImplemented
    return one(st, I.read(st, r, p))


def is_hash(cl):
    return cl.path.startswith(("std::collections::HashMap::<K, V", "std::collections::HashSet::<T", "std::collections::hash_map::Entry::<", "std::collections::BTreeMap::<K, V", "std::collections::BTreeSet::<T"))


def mapsize(m):
    return map_depth(m)


@premodel(lambda cl: is_hash(cl) and "Map::<" in cl.path and cl.path.rsplit("::", 1)[1] in ("len", "is_empty", "remove", "clear", "entry"))
def m_map_more(I, st, cl, dest, ret):
    if cl.args[0].k != "ref":
        return NotImplemented
    r, p, m = seqloc(I, st, cl.args[0])
    n = cl.path.rsplit("::", 1)[1]
    if "BTree" in cl.path or not (complete(m) or n == "entry" and m.k not in ("top", "phi")):
        return NotImplemented
    if n == "len":
        return one(st, INT(mapsize(m)))
    if n == "is_empty":
        return one(st, INT(int(mapsize(m) == 0)))
    if n == "clear":
        I.write(st, r, p, mk("newmap", *base_map(m).a))
        return one(st, UNIT)
    key = I.freeze(st, cl.args[1])
    if n == "entry":
        return one(st, mk("adt", "verif::entry", 0, mk("ref", r, p), key))
    out = []
    for s, hit in find_key(I, st, m, bare_key(key)):
        if hit is None:
            out.append((s, NONE()))
        else:
            old = I.step_get(m, ("mk", hit), s)
            I.write(s, r, p, map_del(m, hit))
            out.append((s, SOME(I.thaw(s, old))))
    return out


def base_map(m):
    while m.k == "mapins":
        m = m.a[0]
    return m


def map_del(m, k):
    if m.k != "mapins":
        return m
    if bare_key(m.a[1]) is k:
        return m.a[0]
    return mk("mapins", map_del(m.a[0], k), m.a[1], m.a[2])


@premodel(lambda cl: cl.path.startswith(("std::collections::hash_map::Entry::<", "std::collections::hash_map::Entry<")))
def m_entry(I, st, cl, dest, ret):
    e = cl.args[0]
    if e.k != "adt" or e.a[0] != "verif::entry":
        return NotImplemented
    n = cl.path.rsplit("::", 1)[1]
    ref, key = e.a[2], e.a[3]
    r, p = ref.a
    m = I.read(st, r, p)
    if n == "key":
        return NotImplemented
    if n not in ("or_insert", "or_insert_with", "or_default", "and_modify"):
        return NotImplemented
    if not complete(m):
        return unknown_entry(I, st, cl, dest, ret, n, m, r, p, key)
    for s, hit in find_key(I, st, m, bare_key(key)):
        if n == "and_modify":
            if hit is None:
                I.finish(s, dest, ret, e)
            else:
                a = TUP(mk("ref", r, p + (("mk", hit),)))
                if not I.call_closure(s, cl.args[1], a, ("py", _const, e, dest, ret), None, (cl.site[0], cl.site[1], "entry")):
                    raise AnalysisError("entry: cannot follow the closure")
        elif hit is not None:
            I.finish(s, dest, ret, mk("ref", r, p + (("mk", hit),)))
        elif n == "or_insert":
            _insert(I, s, cl.args[1], r, p, key, dest, ret)
        elif n == "or_insert_with":
            if not I.call_closure(s, cl.args[1], UNIT if False else mk("tup"), ("py", _insert, r, p, key, dest, ret), None, (cl.site[0], cl.site[1], "entry")):
                raise AnalysisError("entry: cannot follow the closure")
        else:
            t = I.c.types[cl.dt]
            v = default_of(I, I.c.types[t["e"]])
            if v is None:
                raise AnalysisError("entry: unknown default")
            _insert(I, s, v, r, p, key, dest, ret)
    return None


def unknown_entry(I, st, cl, dest, ret, n, m, r, p, key):
    """or_insert on a map that is not known completely: what an earlier lookup of the same key found decides it"""
    import effects

    if n != "or_insert" or m.k == "mapins":
        raise AnalysisError("entry: %s on a map that is not known" % n)
    k = effects.bare(key)
    found = [v for (mm, kk), v in effects.lookups_in(st.facts).items() if mm is m and (kk is k or bare_key(kk) is bare_key(k))]
    if not found or found[0]:
        raise AnalysisError("entry: %s on a map that is not known" % n)
    _insert(I, st, cl.args[1], r, p, key, dest, ret)
    return None


def default_of(I, t):
    if t["k"] in ("uint", "int"):
        return INT(0)
    if t["k"] == "bool":
        return FALSE
    if t.get("path") == "std::vec::Vec":
        return mk("vec")
    if t.get("path") == "std::string::String":
        return STR("")
    if t.get("path") == "std::option::Option":
        return NONE()
    return None


def _const(I, st, v, e, dest, ret):
    I.finish(st, dest, ret, e)
    return ()


def _insert(I, st, v, r, p, key, dest, ret):
    m = I.read(st, r, p)
    I.write(st, r, p, mk("mapins", m, key, I.freeze(st, v)))
    I.finish(st, dest, ret, mk("ref", r, p + (("mk", bare_key(key)),)))
    return ()


@premodel(lambda cl: cl.path.startswith("std::collections::HashSet::<T") and cl.path.rsplit("::", 1)[1] in ("new", "with_capacity", "insert", "contains", "len", "is_empty", "remove"))
def m_set(I, st, cl, dest, ret):
    n = cl.path.rsplit("::", 1)[1]
    if n in ("new", "with_capacity"):
        return one(st, mk("newmap", "std::collections::HashSet"))
    if cl.args[0].k != "ref":
        return NotImplemented
    r, p, m = seqloc(I, st, cl.args[0])
    if not complete(m):
        return NotImplemented
    if n == "len":
        return one(st, INT(mapsize(m)))
    if n == "is_empty":
        return one(st, INT(int(mapsize(m) == 0)))
    key = I.freeze(st, cl.args[1])
    out = []
    for s, hit in find_key(I, st, m, bare_key(key)):
        if n == "insert" and hit is None:
            I.write(s, r, p, mk("mapins", m, key, UNIT))
        if n == "remove" and hit is not None:
            I.write(s, r, p, map_del(m, hit))
        out.append((s, INT(int((hit is None) == (n == "insert")))))
    return out


@premodel(lambda cl: cl.path.startswith("std::collections::VecDeque::<T") and cl.path.rsplit("::", 1)[1] in ("new", "with_capacity", "push_back", "push_front", "pop_back", "pop_front", "len", "is_empty", "iter", "front", "back"))
def m_deque(I, st, cl, dest, ret):
    n = cl.path.rsplit("::", 1)[1]
    if n in ("new", "with_capacity"):
        return one(st, mk("vec"))
    r, p, v = seqloc(I, st, cl.args[0])
    if n == "iter":
        return one(st, mk("it", "ref", mk("ref", r, p), 0))
    if v.k != "vec" or len(v.a) >= models.VECMAX:
        return NotImplemented
    xs = list(v.a)
    out = UNIT
    if n == "push_back":
        xs = xs + [cl.args[1]]
    elif n == "push_front":
        xs = [cl.args[1]] + xs
    elif n in ("pop_back", "pop_front"):
        out = SOME(xs[-1 if n == "pop_back" else 0]) if xs else NONE()
        xs = xs[:-1] if n == "pop_back" else xs[1:]
    elif n == "len":
        out = INT(len(xs))
    elif n == "is_empty":
        out = INT(int(not xs))
    else:
        out = SOME(mk("ref", r, p + (("[]", INT(0 if n == "front" else len(xs) - 1)),))) if xs else NONE()
    if n.startswith(("push", "pop")):
        I.rule.on_event(I, st, cl, UNIT)
        I.write(st, r, p, mk("vec", *xs))
    return one(st, out)


@premodel(lambda cl: cl.path.startswith("std::borrow::Cow::<") and cl.path.rsplit("::", 1)[1] in ("into_owned", "to_mut", "is_borrowed"))
def m_cow(I, st, cl, dest, ret):
    v = cl.args[0]
    if cl.path.endswith("into_owned"):
        v = I.content(st, v)
        if v.k == "adt" and v.a[0] == "std::borrow::Cow" and len(v.a) == 3:
            v = I.content(st, v.a[2])
        return one(st, v)
    return NotImplemented


def map_index(I, st, cl):
    """map[key] of a completely known map"""
    r, p, m = seqloc(I, st, cl.args[0])
    if not complete(m):
        return NotImplemented
    out = []
    for s, hit in find_key(I, st, m, bare_key(I.freeze(st, cl.args[1]))):
        if hit is None:
            I.rule.on_panic(I, s, "index", cl)
        else:
            out.append((s, mk("ref", r, p + (("mk", hit),))))
    return out
