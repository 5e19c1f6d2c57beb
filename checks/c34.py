"""Documents made or changed through the API, written and read again. Documents are made by the reader (abstract evaluation on symbolic
XML events) and changed by annotate, annotate_span and declare, or made with Document::new, by abstract evaluation; the
resulting document is given to Document::xml and what that writes to the reader, both evaluated abstractly, too. The
document read must be the one written: same declarations, provenance and metadata, same elements, attributes, content
and back-references. Nothing is executed."""
import itertools
import models
from checks import c13, c19, c26
from checks.c13 import N, P, T, Node, norm
from roundtrip import *
from walk import World, Undecided, spec_table

COUNT = {}


def count(k, m=1):
    COUNT[k] = COUNT.get(k, 0) + m


def plain(c, doc):
    """the document without the evaluated specification"""
    doc = strip(doc)
    es = strip(field(c, doc, "elementstore"))
    sub = lambda s, n, x: mk("adt", s.a[0], s.a[1], *[x if f[0] == n else y for f, y in zip(c.adt(s.a[0])["vs"][s.a[1]]["f"], s.a[2:])])
    return sub(doc, "elementstore", sub(es, "specification", P("spec")))


def refs(v, e, path, out):
    """place of an element -> places of the span annotations it refers back to"""
    for k in e[2]:
        if k[0] == "SpanReference":
            out.setdefault(path, []).append(v.paths.get(k[1]))
    for i, k in enumerate(x for x in e[2] if x[0] != "SpanReference"):
        if len(k) == 3:
            refs(v, k, path + (i,), out)
    return {k: sorted(x, key=str) for k, x in out.items()}


def bare(e):
    """without back-references, attributes sorted"""
    return norm((e[0], e[1], [bare(k) if len(k) == 3 else k for k in e[2] if k[0] != "SpanReference"])) if len(e) == 3 else e


def attributed(v, e):
    """elements without processor are taken to be by the only one their declaration has"""
    if len(e) != 3:
        return e
    at = dict(e[1])
    one = [d[4] for d in v.declarations if (d[0], d[1]) == (at.get("declared as"), at.get("Set")) and len(d[4]) == 1]
    if "declared as" in at and "Processor" not in at and one and e[0] != "Feature":
        e = (e[0], e[1] + [("Processor", one[0][0])], e[2])
    return (e[0], e[1], [attributed(v, k) for k in e[2]])


def compare(v, v2):
    """what of v differs in v2"""
    for what, a, b in [
        ("ID", v.id, v2.id), ("metadata", v.metadata, v2.metadata), ("submetadata", v.submetadata, v2.submetadata),
        ("declarations", v.declarations, v2.declarations), ("provenance", v.provenance, v2.provenance),
        ("body", bare(attributed(v, v.root)), bare(attributed(v2, v2.root))), ("back-references", refs(v, v.root, (), {}), refs(v2, v2.root, (), {})),
        ("ID index", {k: v.paths.get(x) for k, x in v.index.items()}, {k: v2.paths.get(x) for k, x in v2.index.items()}),
    ]:
        d = differ(a, b, "the " + what)
        if d:
            yield what, d


def survive(c, W, what, doc=None):
    bad = []
    doc = plain(c, W.content(W.doc) if doc is None else doc)
    try:
        v = DocView(c, doc)
    except Bad as e:
        return [("view:%s" % what, "%s: %s" % (what, e))]
    for o in results_of(bad, write(c, doc, W.facts), "writing", what):
        count("documents written")
        count("events written", len(o.aux[1]))
        why = wellformed(o.aux[1]) or escaping(o.aux[1])
        if why:
            bad.append(("form:%s" % what, "%s, written: %s" % (what, why)))
            continue
        for y in results_of(bad, read(c, merge_text(o.aux[1]), o.facts), "reading", what):
            count("round trips")
            try:
                for k, d in compare(v, DocView(c, y.value.a[2])):
                    bad.append(("%s:%s" % (k, what), "%s, written and read: %s" % (what, d)))
            except Bad as e:
                bad.append(("view:%s" % what, "%s, written and read: %s" % (what, e)))
    return bad


def results_of(bad, r, doing, what):
    for k, site, f in r.panics:
        bad.append(("panic:%s:%s" % (doing, site[0]), "%s, %s may panic (%s in %s)" % (what, doing, k, site[0])))
    ok, err = results(r)
    for o in err:
        bad.append(("%s:%s" % (doing, what), "%s: %s it fails: %s" % (what, doing, shown(o.value.a[2], 6))))
    if not ok and not err and not r.panics:
        bad.append(("%s:%s" % (doing, what), "%s: %s it never succeeds" % (what, doing)))
    return ok


COM = STR("what is -- a comment")
ED_ = "element::ElementData::%s"


def grown(c, where, bodytype, declares, processor, order):
    """a new document to which structure, text and annotation is added with the builder functions"""
    bad = []
    what = "new %s document, declared %s, processor %s, filled in order %s with %s" % (bodytype, declares, processor, order, where)
    W = World(c, NONE())
    names = ["id", "pid", "sub0", "sub1", "bodyid", "s1", "s2", "w1", "w2", "w3", "e1", "set", "set2"]
    s = Spec(distinct=[[P(x) for x in names] + [STR(c19.TEXTSET), STR("current"), P("x"), P("k")]], nonblank=[P(x) for x in ("t1", "t2", "t3", "t4", "k", "x")],
             nonempty=[P(x) for x in names + ["t1", "t2", "t3", "t4"]])
    W.facts.update(assumptions(s))
    try:
        p = W.call("<document::DocumentProperties as std::default::Default>::default")
        if bodytype:
            p = W.call(c19.PROPS_ + "::with_bodytype", p, variant(c, "types::BodyType", bodytype))
        for at, st in declares:
            p = W.call(c19.PROPS_ + "::with_declaration", p, c19.at_value(c, at), c19.STRING(st))
        if processor:
            p = W.call(c19.PROPS_ + "::with_processor", p, c19.processor_(W, processor - 1))
        r = W.content(W.call("document::Document::new", P("id"), p))
        if r.a[1]:
            return [("made:%s" % what, "%s: refused: %s" % (what, shown(r, 5)))]
        F = W.facts
        W = World(c, r.a[2], F, spec=True)

        def new(etype, *data, **attrs):
            e = W.call(ED_ % "new", variant(c, "types::ElementType", etype))
            for k, v in attrs.items():
                e = W.call(ED_ % "with_attrib", e, variant(c, ATTR, k, P(v)))
            for d in data:
                if d[0] == "words":
                    for w in d[1]:
                        e = W.call(ED_ % "add_element", e, new("WordReference", Idref=w))
                elif d[0] == "string":
                    e = W.call(ED_ % "with_text", e, P(d[1]))
                elif d[0] in ("Text", "Comment"):
                    e = W.call(ED_ % "with", e, variant(c, DT, d[0], COM if d[0] == "Comment" else P(d[1])))
                else:
                    e = W.call(ED_ % "add_element", e, d[1])
            return W.content(e)

        def add(key, e):
            count("elements added")
            f = {"annotate": "annotate", "add_element_to": "add_element_to"}[where]
            r = W.content(W.call("document::Document::" + f, W.doc, INT(key), e))
            if r.a[1]:
                raise Undecided("adding an element is refused: %s" % shown(r, 5))
            return un(strip(r.a[2])).a[0]

        def span(e):
            count("elements added")
            r = W.content(W.call("document::Document::annotate_span", W.doc, e))
            if r.a[1]:
                raise Undecided("adding an annotation is refused: %s" % shown(r, 5))
            return un(strip(r.a[2])).a[0]

        kid = lambda *a, **k: ("new", new(*a, **k))
        want = N("speech" if bodytype == "Speech" else "text")
        keys = {}

        def word(i, text):
            return new("Word", ("Comment", "com"), ("string", text), Id="w%d" % i, N="n"), N("w", ("comment", COM), N("t", T(text)), xml__id="w%d" % i, n="n")

        for st in order:
            if st == "s1":  # an empty sentence, and words in it one by one
                k = add(0, new("Sentence", Id="s1"))
                n1, n2 = N("w", ("comment", COM), N("t", T("t1")), xml__id="w1", n="n"), N("w", ("comment", COM), N("t", T("t2")), xml__id="w2", n="n")
                keys["w1"], keys["w2"] = add(k, word(1, "t1")[0]), add(k, word(2, "t2")[0])
                want.children.append(N("s", n1, n2, xml__id="s1"))
                nodes = {"w1": n1, "w2": n2}
            elif st == "s2":  # a sentence with all that is in it
                add(0, new("Sentence", ("string", "t4"), ("new", word(3, "t3")[0]), ("Comment", "com"), Id="s2"))
                want.children.append(N("s", N("t", T("t4")), word(3, "t3")[1], ("comment", COM), xml__id="s2"))
            elif st == "pos":
                k = add(keys["w1"], new("PosAnnotation", ("Comment", "com"), Class="x", Set="set"))
                add(k, new("Feature", Subset="k", Class="x"))
                nodes["w1"].children.append(N("pos", ("comment", COM), N("feat", subset="k", class_="x"), class_="x", set="set"))
            elif st == "sense":
                add(keys["w1"], new("SenseAnnotation", Class="k"))
                nodes["w1"].children.append(N("sense", class_="k"))
            elif st == "entity":
                span(new("Entity", ("words", ["w1", "w2"]), Class="x", Set="set2", Id="e1"))
                want.children[[dict(x.attrs).get("xml:id") for x in want.children].index(P("s1"))].children.append(N("entities", N("entity", N("wref", id="w1"), N("wref", id="w2"), class_="x", set="set2", xml__id="e1"), set="set2"))
        doc = W.content(W.doc)
        v = DocView(c, plain(c, doc))
    except (Undecided, Bad) as e:
        return [("undecided:%s" % what, "%s: %s" % (what, e))]
    e = Spec(decls=[(None, d[0], d[1], None, None, list(d[4])) for d in v.declarations])
    for k, d in c13.compare(want, (v.root[0], v.root[1], v.root[2]), e, ""):
        bad.append(("%s:%s" % (k, what), "%s: %s" % (what, d)))
    return bad + survive(c, W, what)


def run(job):
    kind, args = job[0], job[1:]
    mine = []
    COUNT.clear()

    def after(W, what, doc=None):
        mine.extend(survive(args[0], W, what, doc))
        return []

    if kind == "annotate":
        c26.run(args, after)
    elif kind == "grown":
        mine = grown(*args)
    elif kind == "made":
        c19.made(*args, after)
    else:
        c19.changes(*args, after, 16)
    return mine, dict(COUNT)


INSIDE = {"s1": ("w1", "w2", "w3", "w4"), "p1": ("w1", "w2", "w3", "w4", "w5"), "d2": ("w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "m1", "m2")}


def jobs(c, thorough):
    for nr, x in enumerate(c26.cases(thorough)):
        label, s, S, calls, active = x
        # words that come after what they are annotated on: what is written then cannot be read (not promised)
        calls = [x for x in calls if all(y in INSIDE.get(x[0], x[1]) for y in x[1])]
        step = 9 if thorough else 43
        yield "annotate", c, label, s, S, calls[nr % step :: step], active
    for i, (label, s) in enumerate(list(c19.docs(thorough))[:: 2 if thorough else 5]):
        yield "change", c, label, s, i * 5 % 16, False
    orders = [o for n in range(6) for o in itertools.permutations(("s1", "s2", "pos", "sense", "entity"), n) if all("s1" in o[: o.index(x)] for x in o if x in ("pos", "sense", "entity"))]
    news = [(b, ds, p) for b in (None, "Speech") for ds in ([], [("POS", "set")], [("POS", "set"), ("ENTITY", "set2"), ("SENSE", None)]) for p in (0, 1, 3)]
    for i, (o, (b, ds, p), f) in enumerate(itertools.product(orders, news, ("annotate", "add_element_to"))):
        if i % (8 if thorough else 29) == 0:
            yield "grown", c, f, b, ds, p, o
    for x in c19.news(c, thorough):
        yield ("made", *x)


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    spec_table(c)
    run_shapes(ctx, run, list(jobs(c, ctx.thorough)))
    ctx.floor("round trips", 250)
