"""Refusal of input that is not a complete, well-formed, valid FoLiA document. The reader is evaluated on event sequences
of complete documents while (1) the input may end before any event, and (2) any operation of the XML library (reading an
event, an attribute, decoding or unescaping a value or text, parsing a timestamp) may fail: every path on which that
happens must return an error. It is then evaluated on (3) one sequence for each kind of error a document can contain (unknown
tags, attributes and declarations, tags outside the FoLiA namespace, missing body, missing or duplicate IDs, invalid
values, tags that are not UTF-8), in every place where it can occur: every path must return an error. No path panics. The
unconstrained IDs of several elements are compared by the path condition: it succeeds exactly if they are different.
Nothing is executed: the reader's MIR is interpreted abstractly, partitioned by path, with quick-xml modelled."""
import itertools
import models
from roundtrip import *
from checks.c13 import N, T, C, Node, spec, decl, proc, ATNAME
import checks.c14 as c14

FULL = dict(eof=True, fail=True)


def base():
    """a document with something of everything"""
    s = c14.spec(subs=[(P("s0"), P("stype"), P("ssrc"), [(P("sk0"), P("sv0"))])], procs=[c14.proc("p0", [c14.proc("p1")])],
                 decls=[("pos", "POS", P("set0"), P("alias0"), P("fmt0"), [P("p0.xml:id")]), ("entity", "ENTITY", P("set1"), None, None, []), ("text", "TEXT", P("tset"), None, None, [])])
    b = spec(N("s", N("w", N("t", T("t1"), N("t-style", T("t2")), C("c1"), ("cdata", P("cd"))), N("pos", N("feat", subset="ss", class_="f"), class_="x", set="set0", processor="p0.xml:id"), xml__id="w1", n="n"),
                     N("w", N("gap", n="g"), xml__id="w2"), N("entities", N("entity", N("wref", id="w1", t="tt"), N("wref", id="w2"), xml__id="e", class_="y")), xml__id="s"))
    s.body = b.body
    s.distinct += [[P(x) for x in ("bodyid", "s", "w1", "w2", "e", "nowhere")], [P("x"), P("y"), P("f")]]
    s.nonblank += b.nonblank
    return s


def documents():
    yield "everything", base()
    yield "nothing but an empty body", spec(Node("text", [("xml:id", P("bodyid"))]))
    yield "an empty speech body", spec(Node("speech", [("xml:id", P("bodyid")), ("src", P("src"))]))
    yield "a speech body", spec(Node("speech", [("xml:id", P("bodyid"))], [N("utt", N("ph", T("phon")), xml__id="u")]))
    yield "numbers and dates", spec(N("w", N("pos", datetime="dt", confidence="cf", class_="x", annotatortype=STR("auto")), N("t", T("tt"), offset="off"), N("br", linenr="ln", pagenr="pn", newpage=STR("yes")), xml__id="w", space=STR("no")), [decl("POS")])
    yield "feature attributes", spec(N("w", N("morphology", N("morpheme", function="fn", class_="x")), N("sense", synset="syn", class_="y"), xml__id="w"), [decl("MORPHOLOGICAL"), decl("SENSE")])


def E(k, n=None, *attrs, text=None):
    return Event(k, n.encode() if isinstance(n, str) else n, at([a for a in attrs]), text)


def wrong(label):
    return (P("docid"), label)


def errors():
    """(label, function from the events of `base` to the lists of events with that error)"""
    sc = script(base())
    idx = lambda kind, name, nth=0: [i for i, e in enumerate(sc) if e.kind == kind and e.name == name][nth]
    beg, fin = idx("Start", b"text") + 1, idx("End", b"text")
    dbeg, dfin = idx("Start", b"annotations") + 1, idx("End", b"annotations")
    pbeg, pfin = idx("Start", b"provenance") + 1, idx("End", b"provenance")
    mbeg, mfin = pfin + 1, idx("End", b"metadata")
    ins = lambda i, *evs: sc[:i] + list(evs) + sc[i:]
    rep = lambda i, *evs: sc[:i] + list(evs) + sc[i + 1 :]
    NOTUTF8 = b"w\xff\xfe"

    def both(i, name, *attrs):
        yield ins(i, E("Empty", name, *attrs))
        yield ins(i, E("Start", name, *attrs), E("End", name))

    # in the body
    for name in ("xyz", "W", "words", "wor", "", "annotations", "metadata", "FoLiA", "pos-annotation", "processor", NOTUTF8):
        for i in range(beg, fin + 1):
            for evs in both(i, name):
                yield "<%s> in the body" % (name if isinstance(name, str) else "not UTF-8"), evs
    for i in range(beg - 1, fin):
        e = sc[i]
        if e.kind in ("Start", "Empty"):
            for a in ("xyz", "Class", "langs", "xmlid", "", "wclass", "head2"):
                for k in (0, len(e.attrs)):
                    at_ = list(e.attrs)
                    at_.insert(k, (a.encode(), P("av")))
                    yield "an unknown attribute %s of <%s>" % (a, e.name.decode()), rep(i, Event(e.kind, e.name, at_))
            if i != beg - 1:
                yield "an attribute of <%s> whose name is not UTF-8" % e.name.decode(), rep(i, Event(e.kind, e.name, list(e.attrs) + [(b"n\xff", P("av"))]))
            for a, v in (("annotatortype", "someone"), ("annotatortype", "Auto"), ("annotatortype", ""), ("space", "maybe"), ("newpage", ""), ("offset", "-1"), ("offset", "70000"), ("offset", ""), ("linenr", "one"), ("linenr", "1.5"), ("confidence", "high"), ("confidence", ""), ("datetime", "yesterday"), ("datetime", "2020-01-01")):
                yield "%s=%s of <%s>" % (a, v, e.name.decode()), rep(i, Event(e.kind, e.name, list(e.attrs) + [(a.encode(), STR(v))]))
            if any(k == b"xml:id" for k, _ in e.attrs):
                for other in ("w1", "s", "e", "w2", "bodyid"):
                    own = dict(e.attrs)[b"xml:id"]
                    if own is not esc(P(other), "plain"):
                        yield "the ID %s twice" % other, rep(i, Event(e.kind, e.name, [(k, esc(P(other), "plain") if k == b"xml:id" else v) for k, v in e.attrs]))
            if e.name == b"wref":
                yield "a wref without an ID", rep(i, Event(e.kind, e.name, [a for a in e.attrs if a[0] != b"id"]))
                yield "a wref to an element that does not exist", rep(i, Event(e.kind, e.name, [(b"id", esc(P("nowhere"), "plain"))]))
    for i in range(beg, fin + 1):
        depth = [e.name for e in sc[beg:i] if e.kind == "Start"]
        for e in sc[beg:i]:
            if e.kind == "End":
                depth.remove(e.name)
        if not any(x == b"entity" for x in depth):
            seen = any(dict(e.attrs).get(b"xml:id") is esc(P("w1"), "plain") for e in sc[beg:i])
            if seen:
                yield "a wref outside of span annotation", ins(i, E("Empty", "wref", ("id", P("w1"))))
    # declarations
    for name in ("pos", "xyz-annotation", "pos-annotations", "pos-annotatio", "posannotation", "-annotation", "pos-", "annotation", "POS-annotation", "w-annotation", "pos-tag-annotation", "submetadata2", NOTUTF8):
        for i in range(dbeg, dfin + 1):
            inside = any(e.kind == "Start" for e in sc[dbeg:i]) and sum((e.kind == "Start") - (e.kind == "End") for e in sc[dbeg:i]) > 0
            for evs in both(i, name, ("set", P("aset"))):
                yield "the declaration <%s>%s" % (name if isinstance(name, str) else "not UTF-8", " in a declaration" if inside else ""), evs
    # provenance
    for i in range(pbeg, pfin):
        e = sc[i]
        if e.name == b"processor" and e.kind in ("Start", "Empty"):
            for k in ("xyz", "id", "set", "n", ""):
                yield "an unknown attribute %s of a processor" % k, rep(i, Event(e.kind, e.name, list(e.attrs) + [(k.encode(), P("av"))]))
                yield "an unknown attribute %s of a processor" % k, rep(i, Event(e.kind, e.name, [(k.encode(), P("av"))] + list(e.attrs)))
            for v in ("xyz", "", "Auto", "MANUAL", "data source"):
                yield "a processor of type %r" % v, rep(i, Event(e.kind, e.name, [(k, STR(v) if k == b"type" else x) for k, x in e.attrs]))
            for k in (b"begindatetime", b"enddatetime"):
                for v in ("", "2020-01-01", "yesterday", "2020-13-01T00:00:00"):
                    yield "a processor with %s=%r" % (k.decode(), v), rep(i, Event(e.kind, e.name, [(a, STR(v) if a == k else x) for a, x in e.attrs]))
    # metadata
    for i in range(mbeg, mfin + 1):
        inmeta = [e.name for e in sc[mbeg:i] if e.kind == "Start"]
        for e in sc[mbeg:i]:
            if e.kind == "End":
                inmeta.remove(e.name)
        for name in ("xyz", "w", "text", "speech", "processor", "pos-annotation", "FoLiA", "Meta"):
            yield "<%s> in the metadata" % name, ins(i, E("Start", name), E("End", name))
        yield "a submetadata block without ID", ins(i, E("Start", "submetadata", ("type", P("x"))), E("End", "submetadata")) if not inmeta else None
        for name in ("x:foreign", "{none}tag"):
            yield "<%s> in the metadata" % name, ins(i, E("Start", name), E("End", name))
    # the frame
    for name in ("folia", "FoLiA2", "text", "metadata", "x:FoLiA", "{none}FoLiA", "TEI", NOTUTF8):
        yield "the root element <%s>" % (name if isinstance(name, str) else "not UTF-8"), [Event(e.kind, name.encode() if isinstance(name, str) else name, e.attrs) if e.name == b"FoLiA" else e for e in sc]
    for name in ("body", "w", "s", "x:text", "{none}text", "FoLiA", "metadata", "Text", "event", NOTUTF8):
        yield "<%s> as the body" % (name if isinstance(name, str) else "not UTF-8"), [Event(e.kind, name.encode() if isinstance(name, str) else name, e.attrs) if e.name == b"text" else e for e in sc]
    yield "no body", sc[: beg - 1] + sc[fin + 1 :]
    yield "no body and no end", sc[: beg - 1]
    yield "no end", sc[: fin + 1]
    yield "nothing", []
    yield "only text", [Event("Text", text=P("text"))]
    yield "only a comment", [Event("Comment", text=P("text"))]
    yield "an empty root element", [Event("Empty", b"FoLiA", sc[0].attrs)]


def run(job):
    c, label, evs, s, kind = job
    bad, n = [], {}

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    if kind == "document":
        r = read(c, evs, assumptions(s), entry=FROMFILE if label.endswith("file") else FROMSTR, **FULL)
        ok, err = results(r)
        count("documents with every failure and end", 1)
        count("paths that fail", len([o for o in err if o.aux[2]]))
        for o in ok:
            if o.aux[2]:
                what, i = o.aux[2][0]
                e = evs[i - 1] if 0 < i <= len(evs) else None
                bad.append(("accepted:%s:%s" % (what, label), "reading succeeds although %s (%s at %r)" % ("the input ends early" if what == "end of input" else "an operation of the XML reader failed", what, e)))
        if not any(not o.aux[2] for o in ok):
            bad.append(("never:%s" % label, "the document (%s) itself is refused" % label))
    elif kind == "ids":
        r = read(c, evs, assumptions(s))
        ok, err = results(r)
        ids = [P("a"), P("b"), P("c")]
        for o in ok + err:
            eqs = []
            for x, y in itertools.combinations(ids, 2):
                u, w = (x, y) if x.n < y.n else (y, x)
                eqs.append(o.facts.get(mk("eq", u, w)))
            count("ID conditions")
            if o in ok and any(e is not FALSE for e in eqs):
                bad.append(("ids:accepted:%s" % label, "a document (%s) is read although two IDs may be the same: %s" % (label, [show(e, 2) if e is not None else "unknown" for e in eqs])))
            if o in err and not any(e is TRUE for e in eqs):
                bad.append(("ids:refused:%s" % label, "a document (%s) whose IDs are different is refused: %s" % (label, show(o.value.a[2], 5)[:200])))
        if not ok or not err:
            bad.append(("ids:%s" % label, "documents (%s) are %s accepted" % (label, "always" if ok else "never")))
    else:
        r = None
        for e in evs:
            r = read(c, e, assumptions(s))
            ok, err = results(r)
            count("documents with an error")
            if ok:
                bad.append(("accepted:%s" % label, "a document with %s is read without an error" % label))
            for k, site, f in r.panics:
                bad.append(("panic:%s:%s" % (site[0], label), "reading a document with %s may panic (%s in %s)" % (label, k, site[0])))
    if r is not None:
        for k, site, f in r.panics:
            bad.append(("panic:%s:%s" % (site[0], label), "reading a document (%s) that fails or ends early may panic (%s in %s)" % (label, k, site[0])))
    return list(dict.fromkeys(bad)), n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    jobs = [(c, l + how, script(s), s, "document") for l, s in documents() for how in ("", ", from a file")]
    for l, body in (
        ("siblings", [N("w", xml__id="a"), N("w", xml__id="b"), N("s", xml__id="c")]),
        ("nested", [N("s", N("w", N("pos", xml__id="c"), xml__id="b"), xml__id="a")]),
        ("with children", [N("s", N("w", xml__id="a"), xml__id="b"), N("gap", C("cc"), xml__id="c")]),
    ):
        s = spec(Node("text", [], body))
        s.distinct = []
        jobs.append((c, "IDs of %s" % l, script(s), s, "ids"))
    by = {}
    for label, evs in errors():
        if evs is not None:
            by.setdefault(label, []).append(evs)
    b = base()
    for label, evs in by.items():
        jobs.append((c, label, evs, b, "error"))
    run_shapes(ctx, run, jobs)
    ctx.floor("documents with an error", 300)
    ctx.floor("paths that fail", 100)
    ctx.floor("ID conditions", 6)
