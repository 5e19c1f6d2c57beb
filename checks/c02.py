"""Panic-freedom of using what was read. The reader is evaluated on the documents of C01 (something of everything, every
attribute with any value, and every document obtained from them by one change: elements, attributes, declarations, processors
and metadata removed, repeated, moved, renamed, emptied, references to anything, text where it does not belong), and on each
document that it accepts, on every path, the writer, the text of every element, selecting everything, the ancestors and
every accessor of every element, and the lookups of annotations, elements and features (of any type, whether it is declared
or not) are evaluated. Every path must return: a
reachable panic, failed unwrap, expect or assertion, index out of bounds, overflow, or recursion without end is a violation, reported
with the function it is in. Nothing is executed: the crate's MIR is interpreted abstractly, partitioned by path, with
quick-xml modelled."""
import models
import tables
from absint import *
import checks.c01 as c01
import checks.c11 as c11
from checks.c13 import AT_OF, N, P, T, Node, decl, proc, spec
from roundtrip import *
from walk import *

SELECT = "select::SelectIterator::<'_>::new"
NEXT = "<select::SelectIterator<'_> as std::iter::Iterator>::next"
ANEXT = "<select::AncestorIterator<'_> as std::iter::Iterator>::next"
ENEXT = "<select::SelectElementsIterator<'_> as std::iter::Iterator>::next"
LOOK = "element::Element::<'_>::%s"
GETEL = "document::Document::get_element"
TEXT = "text::<impl document::Document>::text"
RE = "<element::Element<'_> as element::ReadElement>::%s"
PARAMS = "text::TextParameters"
ACCESS = ["id", "set", "class", "subset", "processor", "annotator", "annotatortype", "parent_key", "get_parent", "get_index", "resolve", "get_declaration", "get_processor", "class_key", "subset_key", "declaration_key", "processor_key"]
DEFSET = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"


class Use:
    """evaluating functions on a document, on every path"""

    def __init__(self, c, doc, facts_, label):
        self.c, self.label = c, label
        self.W = World(c, doc, facts_, spec=True)
        self.bad, self.n = [], {}

    def count(self, k, m=1):
        self.n[k] = self.n.get(k, 0) + m

    def call(self, what, key, *args):
        """[(value, saved world)] of all the paths of a call that return"""
        W = self.W
        saved = W.save()
        self.count("calls")
        try:
            r = W.paths_of(key, *args)
        except AnalysisError as e:
            self.bad.append(("undecided:%s:%s" % (what, str(e)[:80]), "%s (%s): %s" % (what, self.label, e)))
            return []
        for kind, site in r.panics:
            self.bad.append(("panic:%s:%s" % (site[0], kind), "%s may panic (%s in %s), for instance on a document %s" % (what, kind, site[0], self.label)))
        out = []
        self.count("paths", len(r.out) + len(r.panics))
        for v, st in r.out:
            W.mem = {k: x for k, x in st.mem.items() if k[0] in ("w", "keep", "k")}
            W.keep(st, v)
            W.facts = dict(st.facts)
            out.append((v, W.save()))
        W.restore(saved)
        return out

    def all(self, what, it, key, limit=120):
        """every item of an iterator, on every path"""
        todo = [(it[0], it[1], 0)]
        while todo:
            v, saved, i = todo.pop()
            if i > limit:
                self.bad.append(("endless:%s" % what, "%s does not come to an end on a document %s" % (what, self.label)))
                return
            self.W.restore(saved)
            ref = self.W.place("it", v)
            for x, s in self.call(what, key, ref):
                x = x if x.k == "adt" else self.W.content(x)
                if x.k == "adt" and len(x.a) > 2:
                    todo.append((s[0][("w", "it")], s, i + 1))


def use(c, doc, facts_, label, deep):
    U = Use(c, doc, facts_, label)
    U.count("documents used")
    w = write(c, doc, facts_, fail=deep)
    U.count("paths", len(w.out))
    for k, site, f in w.panics:
        U.bad.append(("panic:%s:%s" % (site[0], k), "writing may panic (%s in %s), for instance a document %s" % (k, site[0], label)))
    try:
        view = DocView(c, doc)
    except Bad as e:
        U.bad.append(("inconsistent:%s" % label, "a document %s is inconsistent after reading: %s" % (label, e)))
        return U
    W = U.W
    base = W.save()
    sel = lambda: evaluate(c, "select::Selector::elements", []).out[0].value
    anything = lambda: evaluate(c, "<select::Selector as std::default::Default>::default", []).out[0].value
    tp = W.place("tp", struct(c, PARAMS, set=NONE(), textclass=NONE(), strict=FALSE, retaintokenisation=FALSE))
    base = W.save()
    for refs in (TRUE, FALSE) if deep and not label.startswith("(<") else (TRUE,):
        rec = variant(c, "select::Recursion", "Always")
        for it in U.call("selecting", SELECT, W.doc, anything(), INT(0), rec, FALSE, refs):
            U.all("selecting", it, NEXT)
        W.restore(base)
    for k in sorted(view.info, key=lambda k: k.a[0]):
        ty, attrs, data, up = view.info[k]
        for r in U.call("the text of an element", TEXT, W.doc, k, tp):
            pass
        W.restore(base)
        # accessors depend on the element's own data and the stores
        els = U.call("get_element", GETEL, W.doc, k)
        for v, s in els:
            if v.k != "adt" or len(v.a) < 3:
                U.bad.append(("gone:%s" % label, "get_element does not find an element of a document %s" % label))
                continue
            W.restore(s)
            el = W.place("el", v.a[2])
            s = W.save()
            for a in ACCESS:
                U.call("%s()" % a, RE % a, el)
                W.restore(s)
            U.call("the text delimiter", "text::<impl element::Element<'_>>::get_textdelimiter", el, FALSE)
            W.restore(s)
            for it in U.call("ancestors", "select::<impl document::Document>::ancestors_by_key", W.doc, k, sel()):
                U.all("ancestors", it, ANEXT, 20)
            if deep and (not label.startswith("(<") or up is not None and up.a[0] == 0):
                # lookups of features below any element, with and without classes, whose sets are declared or not
                cmps = [variant(c, "query::Cmp", "Any"), variant(c, "query::Cmp", "Is", P("any set")), variant(c, "query::Cmp", "None")]
                for q in cmps:
                    W.restore(s)
                    for it in U.call("get_features()", LOOK % "get_features", el, q):
                        U.all("get_features()", it, ENEXT, 20)
                if k.a[0] == 0 and not label.startswith("(<"):
                    for q in cmps:
                        for t in tables.variants(c, "types::AnnotationType"):
                            W.restore(s)
                            for it in U.call("get_annotations()", LOOK % "get_annotations", el, variant(c, "types::AnnotationType", t), q, rec):
                                U.all("get_annotations()", it, ENEXT)
                        for t in sorted(AT_OF):
                            W.restore(s)
                            for it in U.call("get_elements()", LOOK % "get_elements", el, variant(c, "types::ElementType", t), q, rec):
                                U.all("get_elements()", it, ENEXT)
                            W.restore(s)
                            U.call("get_ancestor()", LOOK % "get_ancestor", el, variant(c, "types::ElementType", t), q)
            W.restore(base)
    return U


def run(job):
    c, label, evs, s, opts, deep = job
    bad, n = [], {}
    for what, e in evs:
        r = read(c, merge_text(e), assumptions(s), **opts)
        ok, err = results(r)
        n["inputs"] = n.get("inputs", 0) + 1
        for o in ok:
            if o.aux and len(o.aux) > 2 and o.aux[2]:
                continue
            U = use(c, o.value.a[2], o.facts, "(%s) %s" % (label, what), deep and what == "as it is")
            bad += U.bad
            for k, m in U.n.items():
                n[k] = n.get(k, 0) + m
    return list(dict.fromkeys(bad)), n


def cyclic():
    """references to everything"""
    w = lambda i, *k: N("w", N("t", T("t%d" % i)), *k, xml__id="w%d" % i)
    ids = ["bodyid", "s1", "w1", "e1", "l1", "w2", "e2"]
    for x in ids[:5]:
        yield "a reference to %s" % x, spec(Node("text", [("xml:id", P("bodyid"))], [N("s", w(1), N("entities", N("entity", N("wref", id=x), xml__id="e1"), xml__id="l1"), xml__id="s1")]), [decl("ENTITY")])
        yield "a reference to %s in structure" % x, spec(Node("text", [("xml:id", P("bodyid"))], [N("s", N("p", xml__id="l1"), w(1), N("entity", N("wref", id=x), N("wref", id="w1"), xml__id="e1"), xml__id="s1")]), [decl("ENTITY")])
    for x in ids:
        for y in ids:
            if x in ("w2", "e2"):
                continue
            yield "references to %s and %s" % (x, y), spec(Node("text", [("xml:id", P("bodyid"))], [N("s", w(1), N("quote", N("entity", N("wref", id=x), xml__id="e1"), xml__id="l1"), w(2, N("entity", N("wref", id=y), N("wref", id=x), xml__id="e2")), xml__id="s1")]), [decl("ENTITY")])


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    models.CATMAX = 500
    spec_table(c)
    jobs = []
    for label, s in list(c01.documents()) + list(cyclic()):
        jobs.append((c, label, [("as it is", script(s))], s, dict(), ctx.thorough or not label.startswith("<")))
    b = c11.base()
    t = c01.tree(script(b))
    muts = [(l, list(x.events())) for l, x in c01.mutations(t, ctx.thorough)]
    if not ctx.thorough:
        moves = [m for m in muts if " moved to " in m[0]]
        muts = [m for m in muts if " moved to " not in m[0]][::3] + moves[::12]
    k = 10
    for i in range(0, len(muts), k):
        jobs.append((c, "something of everything", muts[i : i + k], b, dict(), False))
    run_shapes(ctx, run, jobs)
    ctx.floor("inputs", 500)
    ctx.floor("documents used", 300)
    ctx.floor("paths", 20000)
