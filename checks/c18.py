"""Accessors. On documents obtained by evaluating the reader on symbolic XML (all combinations of declared sets and annotators,
elements with and without set, class and processor, features, every attribute, span annotation, references, nesting), every
accessor of Element is evaluated for every element - set, class, subset, processor, annotator, annotatortype, id, attrib and
has_attrib for every attribute type, the keys, declaration and processor, parent, index, resolve - and must return what the
element store holds, with references resolved through the declarations, the provenance and the ID index. The functions that
look up, set and delete attributes of ElementData are evaluated for every kind of attribute on data with every other kind.
Nothing is executed: abstract interpretation of the crate's MIR; every call must have one outcome and must not panic."""
import models
from checks import c13
from checks.c13 import N, P, PROPS, T, Node, decl, proc, spec
from roundtrip import *
from walk import *

RE = "<element::Element<'_> as element::ReadElement>::%s"
ED_ = "element::ElementData::%s"
ENC = {"DeclarationRef": "Set", "ClassRef": "Class", "ProcessorRef": "Processor", "SubsetRef": "Subset"}
WANT = ("declared sets", "feature", "Feature", "attribute", "span", "layer", "correction", "everything", "processor", "two ", "set only", "class only", "no attributes", "with set and class", "text around")


def docs(thorough):
    for label, s in c13.shapes(False):
        if any(w in label for w in WANT) or thorough and not ("text content, shapes" in label or "structure" in label):
            yield label, s
    A = [("annotator", P("ann")), ("annotatortype", STR("manual"))]
    ann = lambda at, **k: Node("pos", [("class", P("x"))] + at + [(n, v) for n, v in k.items()])
    els = lambda: [ann([]), ann(A), ann(A[:1]), ann(A[1:]), ann(A, processor=P("p0")), ann(A[:1], processor=P("p1")), ann([], processor=P("p1"))]
    for anns in ([], ["p0"], ["p0", "p1"]):
        ps = [proc("p0"), proc("p1")]
        ps[1] = (dict(ps[1][0], type=STR("manual")), [])
        yield "annotators, processors %s declared" % (anns,), spec(N("w", *[e for e in els() if anns or "processor" not in dict(e.attrs)], xml__id="w"), [decl("POS", "set", anns)], ps)
    yield "references", spec(N("s", N("w", N("t", T("a")), xml__id="w1"), N("w", xml__id="w2"), N("entities", N("entity", N("wref", id="w2"), N("wref", id="w1"), xml__id="e")), N("w", xml__id="w3"), N("relation", N("xref", id="w1"), N("xref", id="w3"), xml__id="r")))


ATT = "attrib::Attribute"


def attribtypes(c):
    """attribute variant -> attribute type (the reader's and the API's notion of which attributes are of one kind)"""
    t = c.adt("attrib::AttribType")
    names = {v["n"] for v in t["vs"]}
    out = {}
    for v in c.adt(ATT)["vs"]:
        n = v["n"]
        base = ENC.get(n, n)
        if base == "Ignore":
            base = "None"
        if base.upper() not in names:
            raise AnalysisError("no attribute type for attribute %s" % n)
        out[n] = base.upper()
    return out


class Element_:
    def __init__(self, c, W, view, k):
        self.c, self.W, self.view, self.k = c, W, view, k
        self.ref = W.place("el", W.call("document::Document::get_element", W.doc, INT(k)).a[2])

    def get(self, name, *args):
        return self.W.call(RE % name, self.ref, *args)

    def opt(self, name, *args):
        """an optional value, None if there is none; references followed"""
        r = self.W.content(self.get(name, *args))
        if r.k != "adt":
            raise Undecided("%s returns %s" % (name, show(r, 4)))
        return un(strip(r.a[2])) if len(r.a) > 2 else None

    def elkey(self, r):
        """key of the element in an Option<Element>"""
        r = self.W.content(r)
        if len(r.a) == 2:
            return None
        return opt_(field(self.c, strip(field(self.c, r.a[2], "data")), "key"))


def run(job):
    c, label, s = job
    bad, n = [], {}
    s.nonempty = list(s.nonblank)
    # identifiers that no element has
    s.distinct[0] += [v for x in c13.walk(s.body) for k, v in x.attrs if k == "id" and v not in s.distinct[0]]
    ok, err = results(read(c, script(s), assumptions(s)))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    doc = ok[0].value.a[2]
    view = DocView(c, doc)
    n["documents"] = 1
    W = World(c, doc, ok[0].facts)
    TY = attribtypes(c)
    procs = {}

    def flat(ps):
        for a, kids in ps:
            procs[a["xml:id"]] = a
            flat(kids)

    flat(view.provenance)
    for k, (ty, attrs, data, up) in sorted(view.info.items(), key=lambda x: x[0].a[0]):
        at = dict(attrs)
        slot = strip(slot_at(view.els, k))
        raw = [strip(a) for a in items(field(c, slot, "attribs"))]
        rawof = {vname(c, a): a for a in raw}
        keyof = lambda v: un(rawof[v].a[2]) if v in rawof else None
        p = procs.get(at.get("Processor"))
        own = lambda v: at.get(v)
        pos = None
        if up is not None:
            pos = next(i for i, (kind, x) in enumerate(view.info[up][2]) if kind == "Element" and x is k)
        want = [
            ("key", k), ("id", own("Id")), ("set", own("Set") if "DeclarationRef" in rawof else None), ("class", own("Class") if "ClassRef" in rawof else None), ("subset", own("Subset") if "SubsetRef" in rawof else None),
            ("processor", p and p["xml:id"]), ("annotator", p["name"] if p else own("Annotator")), ("annotatortype", p["type"] if p else own("AnnotatorType")),
            ("class_key", keyof("ClassRef")), ("subset_key", keyof("SubsetRef")), ("declaration_key", keyof("DeclarationRef")), ("processor_key", keyof("ProcessorRef")),
            ("parent_key", up), ("get_parent", up), ("get_index", None if pos is None else INT(pos)), ("resolve", view.index.get(at["Idref"]) if "Idref" in at else None),
            ("get_declaration", (at.get("declared as"), own("Set")) if "DeclarationRef" in rawof else None), ("get_processor", p and p["xml:id"]),
        ]
        saved = W.save()
        try:
            el = Element_(c, W, view, k.a[0])
        except Undecided as e:
            bad.append(("undecided:get_element:%s" % label, "element #%d (%s): %s" % (k.a[0], label, e)))
            continue
        for name, w in want:
            n["accessor results"] = n.get("accessor results", 0) + 1
            inner = W.save()
            try:
                if name in ("get_parent", "resolve"):
                    h = el.elkey(el.get(name))
                else:
                    h = el.opt(name)
                    if h is not None and name == "get_declaration":
                        h = (vname(c, strip(field(c, h, "annotationtype"))), opt_(field(c, h, "set")))
                    elif h is not None and name == "get_processor":
                        h = un(field(c, h, "id"))
                    elif h is not None and name == "annotatortype" and p:
                        h = vname(c, h)
            except Undecided as e:
                bad.append(("undecided:%s:%s" % (name, label), "%s() of %s (%s): %s" % (name, ty, label, e)))
                continue
            finally:
                W.restore(inner)
            if h is not w and h != w:
                bad.append(("%s:%s:%s" % (name, ty, label), "%s() of %s #%d (%s) is %s instead of %s" % (name, ty, k.a[0], label, shown(h), shown(w))))
        try:
            et = vname(c, strip(W.content(el.get("elementtype"))))
            if et != ty:
                bad.append(("elementtype:%s" % label, "elementtype() of %s is %s" % (ty, et)))
            have = {TY[vname(c, a)]: a for a in raw}
            for t in sorted(set(TY.values())):
                n["attribute lookups"] = n.get("attribute lookups", 0) + 1
                tv = variant(c, "attrib::AttribType", t)
                x, b = el.opt("attrib", tv), W.content(el.get("has_attrib", tv))
                w = have.get(t)
                if x is not w or b is not (TRUE if w is not None else FALSE):
                    bad.append(("attrib:%s:%s" % (t, label), "attrib(%s) of %s (%s) is %s instead of %s, has_attrib %s" % (t, ty, label, shown(x), shown(w), shown(b))))
        except Undecided as e:
            bad.append(("undecided:attrib:%s" % label, "attributes of %s (%s): %s" % (ty, label, e)))
        W.restore(saved)
    return bad, n


def build(job):
    """ElementData::{attrib, has_attrib, set_attrib, with_attrib, del_attrib} and what the data itself says about set, class..."""
    c, label, v, only = job
    bad, n = [], {}
    TY = attribtypes(c)
    W = World(c, document(c))
    par = lambda nm, i: variant(c, ATT, nm, *([mk("param", "%s.%d" % (nm, i))] if nm != "Ignore" else []))
    names = [x for x in TY if x not in ENC and x != "Ignore"] if v not in ENC else [x for x in TY if x not in ENC.values() and x != "Ignore"]
    one = {"ElementData": None}

    def data(attrs):
        return element(c, "Word", attrs)

    def attrs_of(ref):
        return [strip(a) for a in items(field(c, strip(W.content(ref)), "attribs"))]

    def expect(what, have, want):
        n["attribute operations"] = n.get("attribute operations", 0) + 1
        if have != want:
            bad.append(("%s:%s" % (what, v), "%s of attribute %s on data with %s: %s instead of %s" % (what, v, label, shown(have), shown(want))))

    base = [x for x in names if only is None or x in only]
    for withit in (True, False):
        ats = [par(x, 1) for x in base if withit or TY[x] != TY[v]]
        mine = next((a for a in ats if TY[vname(c, a)] == TY[v]), None)
        tv = variant(c, "attrib::AttribType", TY[v])
        try:
            saved = W.save()
            d = W.place("d", data(ats))
            r = W.content(W.call(ED_ % "attrib", d, tv))
            expect("attrib", strip(r.a[2]) if len(r.a) > 2 else None, mine)
            expect("has_attrib", W.content(W.call(ED_ % "has_attrib", d, tv)), TRUE if mine is not None else FALSE)
            r = W.content(W.call(ED_ % "del_attrib", d, tv))
            expect("del_attrib", (strip(r.a[2]) if len(r.a) > 2 else None, attrs_of(d)), (mine, [a for a in ats if a is not mine]))
            W.restore(saved)
            d = W.place("d", data(ats))
            new = par(v, 2)
            W.call(ED_ % "set_attrib", d, new)
            have = attrs_of(d)
            expect("set_attrib", (len(have), [a for a in have if a is not new]), (len([a for a in ats if a is not mine]) + 1, [a for a in ats if a is not mine]))
            W.restore(saved)
            r = W.content(W.call(ED_ % "with_attrib", data(ats), new))
            expect("with_attrib", [strip(a) for a in items(field(c, r, "attribs"))], have)
            W.restore(saved)
        except Undecided as e:
            bad.append(("undecided:%s" % v, "attribute %s: %s" % (v, e)))
            W.restore(saved)
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    run_shapes(ctx, run, [(c, label, s) for label, s in docs(ctx.thorough)])
    TY = attribtypes(c)
    jobs = []
    for v in TY:
        if v != "Ignore":
            jobs.append((c, "all others", v, None))
            jobs.append((c, "nothing else", v, [v]))
    run_shapes(ctx, build, jobs)
    ctx.floor("documents", 60)
    ctx.floor("accessor results", 2000)
    ctx.floor("attribute operations", 300)
