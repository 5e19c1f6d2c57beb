"""Panic-freedom of reading. The reader (from_str and from_file, with everything they call in the crate) is evaluated on the
events of documents of many shapes, where the input may end before any event and any operation of the XML library may
fail. The shapes are (1) documents with something of everything and with every attribute carrying any string whatsoever, and
(2) those obtained from them by one change anywhere: an element, declaration, processor or metadata entry removed, repeated,
moved to another place, replaced by its content, put into another one or given another tag, an attribute removed, emptied,
given the value of another or a number, text, comments, CDATA, processing instructions, document types and foreign elements
inserted; with document properties that declare sets and a processor. Every path must return; a reachable panic, failed
unwrap, expect or assertion, index out of bounds or overflow is a violation, reported with the function it is in. Nothing
is executed: the reader's MIR is interpreted abstractly, partitioned by path, with quick-xml modelled."""
import models
from roundtrip import *
from checks.c13 import N, T, C, Node, spec, decl, proc, ATNAME, TAG, STRATTR
import checks.c14 as c14
import checks.c11 as c11


class Tree:
    __slots__ = ("ev", "kids")

    def __init__(self, ev, kids=()):
        self.ev, self.kids = ev, list(kids)

    def events(self):
        if self.kids:
            yield Event("Start", self.ev.name, self.ev.attrs)
            for k in self.kids:
                yield from k.events()
            yield Event("End", self.ev.name)
        else:
            yield self.ev


def tree(evs):
    """the tree of a well-formed event sequence"""
    stack = [Tree(None)]
    for e in evs:
        if e.kind == "Start":
            t = Tree(e)
            stack[-1].kids.append(t)
            stack.append(t)
        elif e.kind == "End":
            t = stack.pop()
            if not t.kids:
                t.kids.append(Tree(Event("Text", text=STR("\n"))))
        else:
            stack[-1].kids.append(Tree(e))
    return stack[0].kids[0]


def places(t, path=()):
    """paths of all the nodes of a tree"""
    yield path
    for i, k in enumerate(t.kids):
        yield from places(k, path + (i,))


def at_(t, path):
    for i in path:
        t = t.kids[i]
    return t


def change(t, path, f):
    """a copy of t in which the nodes at the place `path` are replaced by f(node), a list of nodes"""
    if not path:
        r = f(t)
        return r[0] if len(r) == 1 else Tree(t.ev, r)
    kids = list(t.kids)
    if len(path) == 1:
        kids[path[0] : path[0] + 1] = f(kids[path[0]])
    else:
        kids[path[0]] = change(kids[path[0]], path[1:], f)
    return Tree(t.ev, kids)


TAGS = ["w", "s", "t", "wref", "pos", "entity", "entities", "feat", "gap", "correction", "new", "t-style", "relation", "xref", "text", "FoLiA", "metadata", "annotations", "provenance", "processor", "annotator", "submetadata", "meta", "pos-annotation", "x:w", "{none}w"]


def mutations(t, thorough):
    """(label, tree)"""
    nodes = [p for p in places(t)]
    tags = [p for p in nodes if at_(t, p).ev.kind in ("Start", "Empty")]
    nm = lambda p: "<%s>" % at_(t, p).ev.name.decode("utf8", "replace") if at_(t, p).ev.name else at_(t, p).ev.kind

    def where(p):
        return nm(p) + " in " + nm(p[:-1]) if p else nm(p)

    for p in nodes[1:]:
        if at_(t, p).ev.kind == "Text" and at_(t, p).ev.text is STR("\n"):
            continue
        yield "without %s" % where(p), change(t, p, lambda x: [])
        yield "with %s twice" % where(p), change(t, p, lambda x: [x, x])
        if at_(t, p).kids:
            yield "with %s replaced by its content" % where(p), change(t, p, lambda x: x.kids)
            yield "with %s emptied" % where(p), change(t, p, lambda x: [Tree(Event("Empty", x.ev.name, x.ev.attrs))])
    for p in tags:
        e = at_(t, p).ev
        for i, (k, v) in enumerate(e.attrs):
            key = k.decode()
            yield "without %s of %s" % (key, where(p)), change(t, p, lambda x: [Tree(Event(e.kind, e.name, e.attrs[:i] + e.attrs[i + 1 :]), x.kids)])
            for what, val in (("empty", STR("")), ("zero", STR("0")), ("like the first word's ID", esc(P("w1"), "plain")), ("like the body's ID", esc(P("bodyid"), "plain")), ("arbitrary", esc(P("anything"), "plain"))):
                yield "with %s of %s %s" % (key, where(p), what), change(t, p, lambda x: [Tree(Event(e.kind, e.name, e.attrs[:i] + ((k, val),) + e.attrs[i + 1 :]), x.kids)])
            if i == 0:
                yield "with %s of %s twice" % (key, where(p)), change(t, p, lambda x: [Tree(Event(e.kind, e.name, e.attrs + ((k, v),)), x.kids)])
        for k in ("xml:id", "class", "set", "processor", "subset", "id"):
            if k.encode() not in dict(e.attrs):
                yield "with an additional %s of %s" % (k, where(p)), change(t, p, lambda x: [Tree(Event(e.kind, e.name, e.attrs + ((k.encode(), esc(P("added"), "plain")),)), x.kids)])
        for tag in TAGS:
            if tag.encode() != e.name:
                yield "with %s named <%s>" % (where(p), tag), change(t, p, lambda x: [Tree(Event(e.kind, tag.encode(), e.attrs), x.kids)])
        for tag in ("w", "entity", "t", "wref", "metadata", "processor"):
            if p:
                yield "with %s in a <%s>" % (where(p), tag), change(t, p, lambda x: [Tree(Event("Start", tag.encode(), ()), [x])])
        for what, ev in (("text", Event("Text", text=P("inserted"))), ("blank text", Event("Text", text=STR(" "))), ("a comment", Event("Comment", text=P("inserted"))), ("CDATA", Event("CData", text=P("inserted"))),
                         ("a processing instruction", Event("PI", text=P("inserted"))), ("a document type", Event("DocType", text=P("inserted"))), ("an XML declaration", Event("Decl", text=P("inserted"))),
                         ("a foreign element", Event("Empty", b"x:foreign")), ("an element that is not UTF-8", Event("Empty", b"\xff")), ("an unknown word reference", Event("Empty", b"wref", [(b"id", P("unknown"))])),
                         ("an element", Event("Empty", b"w", [(b"xml:id", P("newid"))])), ("a feature", Event("Empty", b"feat", [(b"subset", P("su")), (b"class", P("cl"))]))):
            for pos in {0, len(at_(t, p).kids)} if at_(t, p).kids else {0}:
                yield "with %s inserted at %s of %s" % (what, "the start" if pos == 0 else "the end", where(p)), change(t, p, lambda x: [Tree(x.ev, x.kids[:pos] + [Tree(ev)] + x.kids[pos:])])
    for p in tags:
        for q in tags:
            if p and q != p[:-1] and q[: len(p)] != p:
                moved = at_(t, p)
                if len(q) >= len(p) and q[: len(p) - 1] == p[:-1] and q[len(p) - 1] > p[-1]:
                    q2 = q[: len(p) - 1] + (q[len(p) - 1] - 1,) + q[len(p) :]
                else:
                    q2 = q
                u = change(t, p, lambda x: [])
                if q2 in set(places(u)):
                    yield "with %s moved to %s" % (where(p), nm(q)), change(u, q2, lambda x: [Tree(x.ev, x.kids + [moved])])


def documents():
    yield from c11.documents()
    # every attribute with any value, on every element
    for e in sorted(TAG):
        if e != "WordReference":
            some = [(k, P("v." + k)) for k in list(STRATTR) if k not in ("xlink:type", "xlink:href")]
            yield "<%s> with any attributes" % TAG[e], spec(Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], some, [C("c")]), Node(TAG[e], [("class", P("cl"))])]), [decl("POS")])
    for k in ("space", "newpage", "annotatortype", "datetime", "confidence", "offset", "linenr", "xlink:href", "xlink:type", "subset", "set", "processor", "class", "synset", "function", "head", "typegroup", "x:y"):
        for e in ("w", "pos", "entity", "t", "sense", "feat", "br"):
            yield "<%s> with any %s" % (e, k), spec(Node("text", [("xml:id", P("bodyid"))], [Node(e, [(k, P("value"))], [C("c")]), Node(e, [(k, P("value2")), ("class", P("cl"))])]), [decl("POS"), decl("ENTITY", "set2")])


def run(job):
    c, label, evs, s, opts = job
    bad, n = [], {}
    for what, e in evs:
        kw = dict(eof=True, fail=True)
        kw.update(opts)
        r = read(c, merge_text(e), assumptions(s), **kw)
        ok, err = results(r)
        n["inputs"] = n.get("inputs", 0) + 1
        n["paths"] = n.get("paths", 0) + len(ok) + len(err)
        for k, site, f in r.panics:
            bad.append(("panic:%s:%s" % (site[0], k), "reading may panic (%s in %s), for instance on a document (%s) %s" % (k, site[0], label, what)))
    return list(dict.fromkeys(bad)), n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    jobs = []
    for label, s in documents():
        for entry in (FROMSTR, FROMFILE):
            if entry == FROMSTR or "attributes" not in label:
                jobs.append((c, label, [("as it is", script(s))], s, dict(entry=entry)))
    b = c11.base()
    t = tree(script(b))
    props = [
        ("with a processor", dict(processor=SOME(processor(c)))),
        ("with declared sets", dict(declare=[TUP(variant(c, "types::AnnotationType", "TEXT"), SOME(STR("https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"))), TUP(variant(c, "types::AnnotationType", "POS"), NONE()), TUP(variant(c, "types::AnnotationType", "POS"), SOME(P("set0")))])),
    ]
    for label, o in props:
        for l, s in c11.documents():
            jobs.append((c, label, [(l, script(s))], s, o))
    muts = [(l, list(x.events())) for l, x in mutations(t, ctx.thorough)]
    ctx.count("changed documents", len(muts))
    if not ctx.thorough:
        moves = [m for m in muts if " moved to " in m[0]]
        muts = [m for m in muts if " moved to " not in m[0]] + moves[::4]
    k = 25
    for i in range(0, len(muts), k):
        jobs.append((c, "something of everything", muts[i : i + k], b, dict(fail=ctx.thorough)))
    run_shapes(ctx, run, jobs)
    ctx.floor("inputs", 1500)
    ctx.floor("paths", 10000)


def variant(c, path, name):
    t = c.adt(path)
    return mk("adt", path, [v["n"] for v in t["vs"]].index(name))


def processor(c):
    r = evaluate(c, "<metadata::Processor as std::default::Default>::default", [])
    vals = {o.value for o in r.out}
    if len(vals) != 1:
        raise AnalysisError("Processor::default is undetermined")
    return vals.pop()
