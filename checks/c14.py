"""Metadata, submetadata, declarations and provenance through reading and writing. Documents of many shapes (which fields
are present, how many entries, which types, which provenance tree), all of whose strings are unconstrained parameters, are
given to the reader as quick-xml events; the resulting abstract document must have exactly that content (encoded
references resolved through the stores). The writer is then evaluated on that document: the events must be well-formed
and, given to the reader again, lead to the same content. Nothing is executed: both directions are abstract
interpretation of the crate's MIR, partitioned by path; every path must succeed."""
import models
from roundtrip import *
from tables import AT, const_fn, enums

KINDS = ("id", "metadata", "submetadata", "declarations", "provenance")


def proc(n, kids=(), **over):
    a = {k: P(n + "." + k) for k in ("xml:id", "name") + PSTR}
    a["type"] = STR("auto")
    a["begindatetime"] = dttext(P(n + ".begin"))
    a["enddatetime"] = dttext(P(n + ".end"))
    a.update({k.replace("__", ":"): v for k, v in over.items()})
    return (a, list(kids))


def forests(n):
    """ordered forests with n nodes, as nested tuples"""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):  # size of the first tree
        for first in forests(k - 1):
            for rest in forests(n - k):
                out.append((first,) + rest)
    return out


def grow(f, cnt=None):
    cnt = cnt if cnt is not None else [0]
    out = []
    for t in f:
        n = "p%d" % cnt[0]
        cnt[0] += 1
        out.append(proc(n, grow(t, cnt)))
    return out


def flat(procs):
    for p in procs:
        yield p
        yield from flat(p[1])


def spec(**k):
    d = dict(
        mtype=P("mtype"), msrc=P("msrc"), metas=[(P("k0"), P("v0"))],
        subs=[(P("s0"), P("stype"), P("ssrc"), [(P("sk0"), P("sv0"))])],
        decls=[("pos", "POS", P("set0"), P("alias0"), P("fmt0"), [P("p0.xml:id")])],
        procs=[proc("p0")],
    )
    d.update(k)
    s = Spec(**d)
    ps = list(flat(s.procs))
    s.distinct = [[p[0]["xml:id"] for p in ps], [x for x, _ in s.metas], [x[0] for x in s.subs]] + [[x for x, _ in q[3]] for q in s.subs]
    s.distinct.append([d[2] for d in s.decls if d[2] is not None])
    s.nonempty = [p[0][k] for p in ps for k in PSTR if p[0].get(k) is not None and p[0][k].k == "param"]
    return s


def shapes(types, thorough):
    """(label, spec)"""
    yield "everything once", spec()
    yield "nothing", spec(mtype=None, msrc=None, metas=[], subs=[], decls=[], procs=[])
    yield "metadata type only", spec(msrc=None)
    yield "metadata source only", spec(mtype=None)
    for n in range(4):
        yield "%d meta entries" % n, spec(metas=[(P("k%d" % i), P("v%d" % i)) for i in range(n)])
    for n in range(3):
        yield "submetadata with %d entries" % n, spec(subs=[(P("s0"), P("stype"), P("ssrc"), [(P("sk%d" % i), P("sv%d" % i)) for i in range(n)])])
    yield "submetadata without type", spec(subs=[(P("s0"), None, P("ssrc"), [(P("sk0"), P("sv0"))])])
    yield "submetadata without source", spec(subs=[(P("s0"), P("stype"), None, [(P("sk0"), P("sv0"))])])
    # values must not leak from one submetadata block into the next
    yield "two submetadata", spec(subs=[(P("s0"), P("t0"), P("r0"), [(P("a"), P("b"))]), (P("s1"), P("t1"), P("r1"), [(P("c"), P("d"))])])
    yield "two submetadata, one bare", spec(subs=[(P("s0"), P("t0"), P("r0"), [(P("a"), P("b"))]), (P("s1"), None, None, [(P("c"), P("d"))])])
    yield "two submetadata with the same entries", spec(metas=[(P("a"), P("m"))], subs=[(P("s0"), None, None, [(P("a"), P("b"))]), (P("s1"), P("t1"), None, [(P("a"), P("d"))])])
    for n, k in (("set", 2), ("alias", 3), ("format", 4)):
        d = ["pos", "POS", P("set0"), P("alias0"), P("fmt0"), [P("p0.xml:id")]]
        d[k] = None
        yield "declaration without %s" % n, spec(decls=[tuple(d)])
        d[5] = []
        yield "declaration without annotators and %s" % n, spec(decls=[tuple(d)])
    yield "two annotators", spec(decls=[("pos", "POS", P("set0"), None, None, [P("p1.xml:id"), P("p0.xml:id")])], procs=[proc("p0"), proc("p1")])
    yield "annotator below", spec(decls=[("pos", "POS", P("set0"), None, None, [P("p1.xml:id")])], procs=[proc("p0", [proc("p1")])])
    yield "two sets", spec(decls=[("pos", "POS", P("set0"), P("alias0"), None, [P("p0.xml:id")]), ("pos", "POS", P("set1"), None, P("fmt1"), [])])
    yield "two types", spec(decls=[("pos", "POS", P("set0"), P("alias0"), None, [P("p0.xml:id")]), ("lemma", "LEMMA", P("set0"), None, P("fmt1"), [P("p0.xml:id")])])
    yield "with and without set", spec(decls=[("pos", "POS", P("set0"), P("alias0"), None, [P("p0.xml:id")]), ("pos", "POS", None, None, P("fmt1"), [])])
    n = 6
    for i in range(0, len(types), n):
        chunk = types[i : i + n]
        yield "declarations of %s" % ", ".join(t for t, _ in chunk), spec(decls=[(t, v, P("set%d" % j), P("alias%d" % j), P("fmt%d" % j), [P("p0.xml:id")] if j % 2 else []) for j, (t, v) in enumerate(chunk)])
    for k in PSTR:
        yield "processor without %s" % k, spec(procs=[proc("p0", [], **{k: STR("")})])
    yield "processor with empty strings", spec(procs=[proc("p0", [], **{k: STR("") for k in PSTR})])
    for k in ("begindatetime", "enddatetime"):
        yield "processor without %s" % k, spec(procs=[proc("p0", [], **{k: None})])
    for t in PTYPE:
        yield "%s processor" % t, spec(procs=[proc("p0", [], type=STR(t))])
    for size in range(2, 7 if thorough else 6):
        for f in forests(size):
            yield "provenance tree %s" % str(f).replace(" ", ""), spec(procs=grow(f))


def run(job):
    c, label, s = job
    want = expected(s)

    def check_read(v):
        for k in KINDS:
            d = differ(want[k], getattr(v, k), k)
            if d:
                yield k, d

    def check_trip(v, v2):
        for k in KINDS:
            d = differ(getattr(v, k), getattr(v2, k), k)
            if d:
                yield k, d

    return trip(c, label, s, check_read, check_trip)


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    types = []
    for n, v in enums(c, AT):
        s = const_fn(c, ctx, "types::AnnotationType::as_str", [v], "name(%s)" % n)
        if s is not NotImplemented:
            types.append((s, n))
    jobs = [(c, label, s) for label, s in shapes(types, ctx.thorough)]
    from checks.c13 import fromfile

    run_shapes(ctx, run, jobs + fromfile(jobs, 9))
    ctx.floor("document shapes", 50)
    ctx.floor("round trips", 50)
