"""Selecting: on documents of many shapes (all small trees of elements, text and comments; span annotation referring to
words; sets and features) obtained by evaluating the reader on symbolic XML, the selecting iterators are evaluated item by
item, for several selectors, starting points, recursion, inclusive or not, with and without span references. The sequence
of items, with their parent, position and depth, must be the depth-first walk over the store. Likewise the ancestors of
every element, the common ancestors of every pair, and the high-level lookups (get_annotation(s), get_element(s),
get_feature(s), get_ancestor(s)). Nothing is executed: abstract interpretation of the crate's MIR; every call must have a
single outcome and must not panic."""
import models
from checks.c13 import AT_OF, C, GROUPS, N, P, T, TYPE, Node, decl, grow, outer, shown_node, spec, trees
from roundtrip import *
from walk import *

SELECT = "select::SelectIterator::<'_>::new"
NEXT = "<select::SelectIterator<'_> as std::iter::Iterator>::next"
ENEXT = "<select::SelectElementsIterator<'_> as std::iter::Iterator>::next"
ANEXT = "<select::AncestorIterator<'_> as std::iter::Iterator>::next"
GETEL = "document::Document::get_element"


def docs(thorough):
    size = 5 if thorough else 4
    inner, struc, seen = [], [], set()
    for n in range(1, size):
        for f in trees(n):
            inner.append(f)
            o = outer(f)
            key = repr([shown_node(x) for x in o])
            if o and key not in seen:
                seen.add(key)
                struc.append(f)
    for name, fs in (("text content", inner), ("structure", struc)):
        for i in range(0, len(fs), 6):
            cnt = [0]
            g = grow if name == "text content" else outer
            yield "%s, shapes %d-%d" % (name, i, i + 5), spec(
                Node("text", [("xml:id", P("bodyid"))], [N("w" if g is grow else "div", *([Node("t", [], g(f, 0, cnt))] if g is grow else g(f, 0, cnt)), xml__id="w%d" % j) for j, f in enumerate(fs[i : i + 6])]))
    yield "empty body", spec(Node("text", [("xml:id", P("bodyid"))]))
    words = lambda n, *k: [N("w", N("t", T("t%d" % i)), xml__id="w%d" % i) for i in range(n)]
    yield "annotations in sets", spec(
        Node("text", [("xml:id", P("b"))], [
            N("s", N("w", N("pos", class_="x", set="set"), N("lemma", class_="x"), N("pos", class_="y", set="set2"), xml__id="w1"), N("pos", class_="z", set="set2"), xml__id="s1"),
            N("s", N("w", N("pos", N("pos", N("pos", N("pos", class_="x", set="set"), class_="z", set="set2"), N("pos", class_="v", set="set"), class_="y", set="set2"), class_="x", set="set"), xml__id="w2"), N("w", xml__id="w3"), xml__id="s2"), N("pos", class_="z", set="set")]),
        [decl("POS"), decl("POS", "set2"), decl("LEMMA", "lset")])
    yield "features", spec(
        Node("text", [("xml:id", P("b"))], [
            N("w", N("pos", N("feat", subset="ss", class_="f"), N("comment"), N("feat", subset="ss2", class_="g"), N("feat", subset="ss", class_="h"), class_="x"), N("lemma", N("feat", subset="ss", class_="f"), class_="x"), N("sense", class_="x"), xml__id="w")]),
        [decl("POS"), decl("LEMMA", "lset"), decl("SENSE", None)])
    yield "spans", spec(
        Node("text", [("xml:id", P("b"))], [
            N("s", *words(3), N("entities", N("entity", N("wref", id="w1"), class_="x"), N("entity", N("wref", id="w1"), N("wref", id="w0"), class_="y"), N("entity", N("wref", id="w0"), N("wref", id="w2"), class_="z")), xml__id="s"),
            N("s", N("w", xml__id="w9"), N("chunking", N("chunk", N("wref", id="w9"), N("wref", id="w0"), class_="x"), N("chunk", N("wref", id="w9"), class_="x")), xml__id="s2")]),
        [decl("ENTITY"), decl("CHUNKING")])
    yield "spans in spans", spec(
        N("s", *words(3), N("syntax", N("su", N("su", N("wref", id="w2"), class_="x"), N("su", N("su", N("wref", id="w1"), N("wref", id="w2"), class_="z"), N("wref", id="w2"), class_="y"), N("wref", id="w0"), class_="x")), N("dependencies", N("dependency", N("hd", N("wref", id="w0")), N("dep", N("wref", id="w1")), class_="x")), xml__id="s"),
        [decl("SYNTAX"), decl("DEPENDENCY")])


class Walker:
    def __init__(self, c, doc, facts):
        self.c = c
        self.view = DocView(c, doc)
        self.info = {k.a[0]: (t, dict(at), [(n, x.a[0] if n in ("Element", "SpanReference") else x) for n, x in data], up.a[0] if up is not None else None) for k, (t, at, data, up) in self.view.info.items()}
        self.w = World(c, doc, facts)
        self.n = 0

    def depth_first(self, k, match, recurse, inclusive, refs):
        """(kind, what, parent, cursor, depth) in the order they must be given"""
        out, given = [], set()

        def emit(kind, x, parent, cursor, depth):
            t = self.info[x][0] if kind in ("Element", "SpanReference") else None
            if not match(kind, t, x):
                return
            if refs and (kind == "SpanReference" or t in GROUPS["Span"]):
                if x in given:
                    return
                given.add(x)
            out.append((kind, x, parent, cursor, depth))

        def visit(k, depth):
            t, _, data, _ = self.info[k]
            for i, (kind, x) in enumerate(data):
                emit(kind, x, k, i, depth)
                if kind == "Element" and recurse(t):
                    visit(x, depth + 1)

        if inclusive and match("Element", self.info[k][0], k):
            up = self.info[k][3]
            out.append(("Element", k, k if up is None else up, 0, 0))
        visit(k, 1)
        return out

    def ups(self, k, match):
        out = []
        k = self.info[k][3]
        while k is not None:
            if match(k):
                out.append(k)
            k = self.info[k][3]
        return out

    # the code's answers
    def item(self, x):
        x = self.w.content(x)
        d, parent, cursor, depth = [strip(y) for y in x.a[2:]]
        kind = vname(self.c, d)
        v = un(d.a[2])
        return (kind, v.a[0] if kind in ("Element", "SpanReference") else v, parent.a[0], cursor.a[0], depth.a[0])

    def key_of(self, x):
        """key of an Element or SelectElementsItem value"""
        x = strip(self.w.content(x))
        while x.k == "adt" and x.a[0] in ("select::SelectElementsItem", "element::Element"):
            x = strip(field(self.c, x, "element" if x.a[0].endswith("Item") else "data"))
        k = opt_(field(self.c, x, "key"))
        return None if k is None else k.a[0]

    def element(self, k):
        e = self.w.call(GETEL, self.w.doc, INT(k))
        if e.k != "adt" or len(e.a) != 3:
            raise Undecided("element %d is not found" % k)
        return self.w.place("el%d" % k, e.a[2])


def run(job):
    c, label, s, thorough = job
    bad, n = [], {}

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    ok, err = results(read(c, script(s), assumptions(s)))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    W = Walker(c, ok[0].value.a[2], ok[0].facts)
    w = W.w
    count("documents")
    cmp_ = lambda name, *a: variant(c, "query::Cmp", name, *a)
    et = lambda t: variant(c, "types::ElementType", t)
    atv = lambda t: variant(c, "types::AnnotationType", t)
    primary = lambda t: vname(c, strip(w.call("types::AnnotationType::elementtype", w.place("at", atv(t)))))
    grp = lambda t: variant(c, "types::ElementGroup", t)

    def sel(kind, *a):
        if kind == "all":
            return w.call("select::Selector::all_data"), lambda k, t, x: True
        if kind == "elements":
            return w.call("select::Selector::elements"), lambda k, t, x: t is not None
        if kind == "text":
            return w.call("select::Selector::with_text", w.call("<select::Selector as std::default::Default>::default")), lambda k, t, x: k == "Text"
        if kind == "comments":
            return w.call("select::Selector::with_comments", w.call("<select::Selector as std::default::Default>::default")), lambda k, t, x: k == "Comment"
        if kind == "type":
            return w.call("select::Selector::element", w.call("select::Selector::elements"), cmp_("Is", et(a[0]))), lambda k, t, x: t == a[0]
        if kind == "group":
            return w.call("select::Selector::elementgroup", w.call("select::Selector::elements"), cmp_("Is", grp(a[0]))), lambda k, t, x: t in GROUPS[a[0]]
        raise AnalysisError(kind)

    types = sorted({i[0] for i in W.info.values()})
    keys = sorted(W.info)
    few = keys if thorough else keys[:2] + keys[len(keys) // 2 :: max(1, len(keys) // 6)]
    sels = [("all",), ("elements",), ("text",), ("comments",), ("group", "Span"), ("group", "Structure")] + [("type", t) for t in types]
    rec = lambda name, *a: variant(c, "select::Recursion", name, *a)

    def report(what, have, want):
        i = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
        bad.append(("%s:%s" % (what, label), "%s (%s): item %d is %s instead of %s" % (what, label, i, shown(have[i]) if i < len(have) else "missing", shown(want[i]) if i < len(want) else "the end")))

    def attempt(what, f, want):
        count(what)
        saved = w.save()
        try:
            have = f()
        except Undecided as e:
            bad.append(("%s:undecided:%s" % (what, label), "%s (%s): %s" % (what, label, e)))
            return
        finally:
            w.restore(saved)
        if have != want:
            report(what, have, want)

    # data
    for k in few:
        for sk in sels:
            for r, rf in (("Always", lambda t: True), ("No", lambda t: False)):
                for incl in (0, 1):
                    for refs in (0, 1):
                        if sk[0] in ("text", "comments") and (refs or incl) or sk[0] == "type" and not (incl and refs):
                            continue

                        def f():
                            sv, _ = sel(*sk)
                            it = w.call("<document::Document as select::SelectData<'_>>::select_data_by_key", w.doc, INT(k), sv, rec(r), INT(incl), INT(refs))
                            xs = [W.item(x) for x in w.follow(it, NEXT)]
                            return xs if refs else [x for x in xs if x[0] != "SpanReference"]

                        want = W.depth_first(k, sel(*sk)[1], rf, incl, refs)
                        if not refs:
                            want = [x for x in want if x[0] != "SpanReference"]
                        attempt("selecting", f, want)
    # elements, through Document and Element
    for k in few:
        for sk in sels:
            if sk[0] in ("text", "comments", "all"):
                continue
            for r, rf in (("Always", lambda t: True), ("No", lambda t: False)):
                want = [x[1] for x in W.depth_first(k, sel(*sk)[1], rf, 0, 1)]
                attempt("selecting elements", lambda: [W.key_of(x) for x in w.follow(w.call("<element::Element<'_> as select::SelectElements<'_>>::select", W.element(k), sel(*sk)[0], rec(r)), ENEXT)], want)
                if k == 0:
                    attempt("selecting elements", lambda: [W.key_of(x) for x in w.follow(w.call("<document::Document as select::SelectElements<'_>>::select", w.doc, sel(*sk)[0], rec(r)), ENEXT)], want)
    # ancestors
    for k in keys:
        for sk in sels:
            if sk[0] in ("text", "comments", "all"):
                continue
            m = sel(*sk)[1]
            want = W.ups(k, lambda a: m("Element", W.info[a][0], a))
            attempt("ancestors", lambda: [W.key_of(x) for x in w.follow(w.call("select::<impl document::Document>::ancestors_by_key", w.doc, INT(k), sel(*sk)[0]), ANEXT)], want)
        sv = sel("elements")
    few2 = keys if thorough and len(keys) < 16 else few
    for a in few2:
        for b in few2:
            for x in (None, few2[-1]):
                ks = [a, b] + ([x] if x is not None else [])
                each = [W.ups(k, lambda y: True) for k in ks]
                want = [y for y in each[0] if all(y in e for e in each)]

                def f():
                    v = w.call("select::<impl document::Document>::common_ancestors", w.doc, sel("elements")[0], w.place("ks", mk("vec", *map(INT, ks))))
                    return [un(y).a[0] for y in items(w.content(v))]

                attempt("common ancestors", f, want)
    # high-level lookups
    ats = sorted({AT_OF[t] for t in types if AT_OF[t]})
    sets = sorted({str(d[2]): d[2] for d in s.decls}.items())
    if s.decls:
        prim = {d[1]: None for d in s.decls}
        for k in keys:
            e = None
            for t in types:
                if AT_OF[t] not in prim or t == "Feature" or t in GROUPS["Layer"]:
                    continue
                for q, qv in [("Any", None)] + [("Is", st) for _, st in sets if st is not None]:
                    if q == "Is" and not any(d[1] == AT_OF[t] and d[2] is qv for d in s.decls):
                        want_all = lambda x: False
                    elif q == "Is":
                        want_all = lambda x: W.info[x][1].get("Set") is qv
                    else:
                        want_all = lambda x: True
                    qs = cmp_("Any") if q == "Any" else cmp_("Is", qv)
                    m = lambda kind, t2, x: t2 == t and want_all(x)
                    for r, rf in (("Always", lambda t: True), ("No", lambda t: False)):
                        want = [x[1] for x in W.depth_first(k, m, rf, 0, 1)]
                        attempt("lookups", lambda: [W.key_of(x) for x in w.follow(w.call("element::Element::<'_>::get_elements", W.element(k), et(t), qs, rec(r)), ENEXT)], want)
                        attempt("lookups", lambda: [W.key_of(y) for y in [opt_(w.call("element::Element::<'_>::get_element", W.element(k), et(t), qs, rec(r)))] if y is not None], want[:1])
                        if primary(AT_OF[t]) == t:
                            attempt("lookups", lambda: [W.key_of(x) for x in w.follow(w.call("element::Element::<'_>::get_annotations", W.element(k), atv(AT_OF[t]), qs, rec(r)), ENEXT)], want)
                            attempt("lookups", lambda: [W.key_of(y) for y in [opt_(w.call("element::Element::<'_>::get_annotation", W.element(k), atv(AT_OF[t]), qs, rec(r)))] if y is not None], want[:1])
                    want = W.ups(k, lambda x: m("Element", W.info[x][0], x))
                    attempt("lookups", lambda: [W.key_of(x) for x in w.follow(w.call("element::Element::<'_>::get_ancestors", W.element(k), et(t), qs), ANEXT)], want)
                    attempt("lookups", lambda: [W.key_of(y) for y in [opt_(w.call("element::Element::<'_>::get_ancestor", W.element(k), et(t), qs))] if y is not None], want[:1])
            if AT_OF[W.info[k][0]] in prim and "Class" in W.info[k][1]:
                subs = sorted({str(x[1]["Subset"]): x[1]["Subset"] for x in W.info.values() if "Subset" in x[1]}.items())
                for q, qv in [("Any", None)] + [("Is", v) for _, v in subs]:
                    want = [x for kind, x in W.info[k][2] if kind == "Element" and W.info[x][0] == "Feature" and (q == "Any" or W.info[x][1].get("Subset") is qv)]
                    qs = cmp_("Any") if q == "Any" else cmp_("Is", qv)
                    attempt("features", lambda: [W.key_of(x) for x in w.follow(w.call("element::Element::<'_>::get_features", W.element(k), qs), ENEXT)], want)
                    attempt("features", lambda: [W.key_of(y) for y in [opt_(w.call("element::Element::<'_>::get_feature", W.element(k), qs))] if y is not None], want[:1])
    count("calls evaluated", w.calls)
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    run_shapes(ctx, run, [(c, label, s, ctx.thorough) for label, s in docs(ctx.thorough)])
    ctx.floor("documents", 10)
    ctx.floor("selecting", 1000)
    ctx.floor("ancestors", 200)
    ctx.floor("features", 5)
