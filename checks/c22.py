"""Text. On documents obtained by evaluating the reader on symbolic XML (every element type as text-bearing element, among
words, and inside text content; nested structure; corrections, span annotation and references; several text classes and
sets; missing text at any place; space="no"), Document::text and text_by_key are evaluated for every element, for several text
classes and with and without retaining tokenisation; the result - a sequence of symbolic and literal parts - must be the one
the composition rule dictates, or an error if there is none. Nothing is executed: abstract interpretation of the crate's MIR;
every call must have a single outcome and must not panic."""
import models
from checks.c13 import AT_OF, C, GROUPS, N, P, PROPS, REF, T, TYPE, Node, decl, spec
from roundtrip import *
from walk import *

TEXT = "text::<impl document::Document>::text"
PARAMS = "text::TextParameters"
DEFSET = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"
TAGOF = {v: k for k, v in TYPE.items()}


def t(*kids, **a):
    return N("t", *[T(k) if isinstance(k, str) else k for k in kids], **a)


def w(i, *kids, **a):
    return N("w", *kids, xml__id="w%s" % i, **a)


def docs(thorough):
    D = [decl("TEXT", None)]
    D[0] = D[0][:2] + (STR(DEFSET),) + D[0][3:]
    NO = STR("no")
    one = lambda b: spec(b, D)
    # text containers
    yield "text content", one(N("s",
        w(1, t("a")), w(2, t("a", N("t-style", T("b")), "c")), w(3, t(N("t-style", T("b")), N("t-str", T("c"), N("t-style", T("d")), T("e")))),
        w(4, t("a", C("x"), "b")), w(5, t("a", N("br"), "b")), w(6, t(N("br"), "b", N("br"))), w(7, t("a", N("whitespace"), N("t-hspace"), "b")),
        w(8, t(N("br"))), w(9, t("a", N("desc", T("b")), "c")), w("A", t("a", N("feat", subset="ss", class_="f"), "c")), w("B", t("a", N("comment", T("b")), N("t-gap"), "c"))))
    # every element type, on its own, among words, inside text
    names = [n for n in sorted(TYPE) if TYPE[n] not in ("Text", "Speech", "WordReference", "Feature") and TYPE[n] not in GROUPS["Feature"]]
    for i in range(0, len(names), 6):
        ws = []
        for j, n in enumerate(names[i : i + 6]):
            bare = lambda: N(n, t("x%d" % j)) if not PROPS[TYPE[n]]["textcontainer"] else N(n, T("x%d" % j))
            ws += [N("p", bare(), xml__id="p%d" % j), N("p", w(j, t("a%d" % j)), bare(), w("b%d" % j, t("c%d" % j)), xml__id="q%d" % j), N("p", t("d%d" % j, bare(), "e%d" % j), xml__id="r%d" % j)]
            ws += [N("p", N(n, w("c%d" % j, t("f%d" % j))), w("d%d" % j, t("g%d" % j)), xml__id="z%d" % j)] if not PROPS[TYPE[n]]["textcontainer"] else []
        yield "element types %s-%s" % (names[i], names[min(i + 5, len(names) - 1)]), one(N("div", *ws))
    # structure
    yield "structure", one(N("div",
        N("head", w(0, t("h"))), N("p", N("s", w(1, t("a")), w(2, t("b"))), N("s", w(3, t("c"))), xml__id="p1"), N("p", N("s", xml__id="s3"), N("s", w(4, t("d"))), N("s", w(5)), N("s", w(6, t("e"))), xml__id="p2"),
        N("p", t("own"), xml__id="p3"), N("p", t("own"), N("s", w(7, t("f"))), xml__id="p4"), N("p", N("s", w(8)), t("own"), xml__id="p5"), N("p", N("s", t("x"), w(9)), N("s", w("A", t("g")), t("y")), xml__id="p6")))
    yield "spaces", one(N("p",
        N("s", w(1, t("a"), space=NO), w(2, t("b")), w(3, t("c"), space=NO), xml__id="s1"), N("s", w(4, t("d"), space=STR("yes")), w(5, space=NO), w(6, t("e")), xml__id="s2", space=NO), N("s", w(7, space=NO), w(8, t("f"), space=NO), w(9), w("A", t("g")), xml__id="s3"), N("s", w("B", N("morphology", N("morpheme", t("m1")), N("morpheme", t("m2"))), t("f")), xml__id="s4")))
    yield "hidden", one(N("s", w(1, t("a")), N("hiddenw", t("h"), xml__id="h"), w(2, t("b")), N("hiddenw", xml__id="h2"), w(3, t("c"))))
    yield "corrections", one(N("s",
        w(1, t("a")), N("correction", N("new", w(2, t("b"), space=NO)), N("original", w(3, t("c"))), xml__id="c1"), w(4, t("d")),
        N("correction", N("original", w(5, t("e"))), N("new", w(6, t("f")), w(7, t("g"))), xml__id="c2"), w(8, t("h")),
        w(9, N("correction", N("new", t("i")), N("original", t("j")), xml__id="c3")), N("correction", N("new"), N("original", w("A", t("k"))), N("comment"), xml__id="c4"), w("B", t("l")), N("correction", N("suggestion", w("C", t("m"))), N("current", w("D", t("n"))), xml__id="c5")))
    yield "spans", one(N("s", w(1, t("a")), w(2, t("b"), space=NO), w(3, t("c")), w(4), N("entities", N("entity", N("wref", id="w1"), N("wref", id="w2"), xml__id="e1"), N("entity", N("wref", id="w2"), N("wref", id="w3"), N("wref", id="w1"), xml__id="e2"), N("entity", N("wref", id="w4"), xml__id="e3"), N("entity", N("wref", id="w4"), t("own"), N("wref", id="w3"), xml__id="e4"), N("entity", t("own"), xml__id="e5")),
        N("dependencies", N("dependency", N("hd", N("wref", id="w1"), xml__id="hd"), N("dep", N("wref", id="w3")), xml__id="d1")), N("syntax", N("su", N("su", N("wref", id="w1"), xml__id="u2"), N("su", N("wref", id="w2"), N("wref", id="w4")), N("wref", id="w3"), xml__id="u1"))))
    yield "references around", one(N("s",
        w(1, t("a")), N("entity", N("wref", id="s1"), N("wref", id="w1"), xml__id="e1"), w(2, N("entity", N("wref", id="w2"), N("wref", id="e1"), xml__id="e2"), t("b")),
        N("entities", N("entity", N("wref", id="e3"), N("wref", id="w2"), N("entity", N("wref", id="e3"), N("wref", id="bodyid"), N("wref", id="e4"), N("wref", id="e2"), xml__id="e4"), xml__id="e3"), xml__id="l1"), w(3, t("c")), xml__id="s1"))
    # classes and sets
    two = [(D[0][0], "TEXT", STR(DEFSET), None, None, []), (D[0][0], "TEXT", P("set2"), None, None, [])]
    cur = STR("current")
    yield "classes", one(N("s",
        w(1, t("a"), t("b", class_="k")), w(2, t("c", class_="k"), t("d")), w(3, t("e", class_=cur), t("f", class_="k")), w(4, t("g", class_="k"), t("h", class_="k2")), w(5, t("i")), w(6, t("j"), t("k"))))
    yield "sets", spec(N("s",
        w(1, t("a", set=STR(DEFSET)), t("b", set="set2")), w(2, t("c", set="set2", class_="k"), t("d", set=STR(DEFSET), class_="k"), t("e", set="set2", class_=cur)), w(3, t("f", set=STR(DEFSET), class_=cur)), w(4, t("g", set="set2", class_="k"), t("h", set=STR(DEFSET), class_="k"))), two)


def cat(parts):
    """parts with literal text joined"""
    out = []
    for p in parts:
        p = un(p.a[2] if p.k == "show" and p.a[0] == "disp" else p)
        for p in cat(p.a) if p.k == "cat" else [p]:
            if p.k == "str" and out and out[-1].k == "str":
                out[-1] = STR(out[-1].a[0] + p.a[0])
            elif p.k != "str" or p.a[0]:
                out.append(p)
    return out


class Texts:
    """the oracle: text of the elements of a document read"""

    def __init__(self, c, view, docset, cls):
        self.info = {k.a[0]: (ty, dict(at), [(n, x.a[0] if n in ("Element", "SpanReference") else x) for n, x in data]) for k, (ty, at, data, up) in view.info.items()}
        self.ids = {}
        for k, (ty, at, _) in self.info.items():
            if "Id" in at:
                self.ids[at["Id"]] = k
        self.set, self.cls = docset, cls
        self.up = {k.a[0]: None if up is None else up.a[0] for k, (ty, at, data, up) in view.info.items()}

    def prop(self, k, n):
        return PROPS[self.info[k][0]][n]

    def delim(self, k, retain):
        d = self.prop(k, "textdelimiter")
        if d is None:
            for kind, x in reversed(self.info[k][2]):
                if kind == "Element":
                    return self.delim(x, retain)
            return []
        d = STR(d["Some"] if isinstance(d, dict) else d)
        if "SPACE" in self.prop(k, "optional_attribs") and not retain and self.info[k][1].get("Space") is FALSE:
            return []
        return [d]

    def around(self, k):
        while self.up[k] is not None:
            k = self.up[k]
            yield k

    def text(self, k, retain):
        """list of parts, or None"""
        ty, at, data = self.info[k]
        out = []
        if self.prop(k, "textcontainer"):
            for kind, x in data:
                if kind == "Text":
                    out.append(x)
                elif kind == "Element" and self.prop(x, "printable"):
                    p = self.text(x, retain)
                    if p is not None:
                        d = self.prop(x, "textdelimiter")
                        if cat(out) and d is not None:
                            out.append(STR(d["Some"] if isinstance(d, dict) else d))
                        out += p
            return out
        if not self.prop(k, "printable") or self.prop(k, "hidden"):
            return None
        own, d = None, []
        for kind, x in data:
            if kind != "Element":
                continue
            ty = self.info[x][0]
            y = None
            if ty in GROUPS["Structure"] or ty in GROUPS["Span"] or ty in ("Correction", "New", "Current"):
                y = x
            elif ty == "WordReference":
                y = self.ids.get(self.info[x][1].get("Idref"))
                if y in self.around(x):
                    y = None
            elif ty == "TextContent":
                a = self.info[x][1]
                if a.get("Set", self.set) is self.set and a.get("Class", STR("current")) is self.cls:
                    own = x
            if y is not None:
                p = self.text(y, retain)
                if p is not None:
                    out += d + p
                    d = self.delim(y, retain)
        if not out and own is not None:
            out = self.text(own, retain)
        return out if cat(out or []) else None


def borrowed(x):
    """the string in a Cow"""
    x = strip(x)
    return strip(x.a[2]) if x.k == "adt" else x


def run(job):
    c, label, s, thorough = job
    bad, n = [], {}

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    s.nonempty = list(s.nonblank)
    ok, err = results(read(c, script(s), assumptions(s), declare=[mk("tup", variant(c, "types::AnnotationType", "TEXT"), SOME(STR(DEFSET)))]))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    doc = ok[0].value.a[2]
    view = DocView(c, doc)
    count("documents")
    W = World(c, doc, ok[0].facts, spec=True)
    classes = {"current": STR("current")}
    for k, (ty, at, _, _) in view.info.items():
        if "Class" in dict(at) and ty == "TextContent":
            classes[str(dict(at)["Class"])] = dict(at)["Class"]
    O = Texts(c, view, None, None)
    for k in sorted(O.info):
        for retain in (0, 1):
            want = cat(O.delim(k, retain))
            count("delimiters")
            saved = W.save()
            try:
                e = W.call("document::Document::get_element", W.doc, INT(k))
                r = W.content(W.call("text::<impl element::Element<'_>>::get_textdelimiter", W.place("el", e.a[2]), TRUE if retain else FALSE))
                have = None if r.a[1] else cat([borrowed(r.a[2])])
            except Undecided as e:
                bad.append(("undecided:delimiter:%s:%s" % (O.info[k][0], label), "delimiter of %s (%s): %s" % (O.info[k][0], label, e)))
                continue
            finally:
                W.restore(saved)
            if have != want:
                bad.append(("delimiter:%s:%s" % (O.info[k][0], label), "the text delimiter of %s #%d (%s%s) is %s instead of %s" % (O.info[k][0], k, label, ", retaining tokenisation" if retain else "", shown(have), shown(want))))
    for set_ in [d[2] for d in s.decls if d[1] == "TEXT"]:
        for cls in classes.values():
            O = Texts(c, view, set_, cls)
            # a class that the set does not have is refused, not taken for a class without text
            known = cls is STR("current") and set_ is STR(DEFSET) or any(i[0] == "TextContent" and i[1].get("Set") is set_ and i[1].get("Class") is cls for i in O.info.values())
            for k in sorted(O.info):
                for retain in (0, 1):
                    want = O.text(k, retain) if known else None
                    tp = struct(c, PARAMS, set=SOME(set_) if set_ is not s.decls[0][2] else NONE(), textclass=SOME(cls) if cls is not STR("current") else NONE(), strict=FALSE, retaintokenisation=INT(retain) if False else (TRUE if retain else FALSE))
                    count("texts")
                    saved = W.save()
                    try:
                        r = W.call(TEXT, W.doc, INT(k), W.place("tp", tp))
                        r = W.content(r)
                    except Undecided as e:
                        bad.append(("undecided:%s:%s" % (O.info[k][0], label), "text of %s (%s): %s" % (O.info[k][0], label, e)))
                        continue
                    finally:
                        W.restore(saved)
                    if r.a[1] == 1:
                        have = None
                    else:
                        v = strip(r.a[2])
                        have = cat(v.a if v.k == "cat" else [v])
                    want = None if want is None else cat(want)
                    if have != want:
                        bad.append(("text:%s:%s" % (O.info[k][0], label), "the text of %s #%d (%s, class %s%s) is %s instead of %s" % (O.info[k][0], k, label, show(cls, 2), ", retaining tokenisation" if retain else "", shown(have), shown(want))))
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    models.CATMAX = 500
    spec_table(c)
    run_shapes(ctx, run, [(c, label, s, ctx.thorough) for label, s in docs(ctx.thorough)])
    ctx.floor("documents", 10)
    ctx.floor("texts", 500)
