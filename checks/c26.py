"""Adding annotations. On documents obtained by evaluating the reader on symbolic XML (sentences in paragraphs in divisions, quotes,
subtokens; existing layers with and without sets, on sentences, words and paragraphs; several declarations and processors),
annotate and annotate_span are evaluated for inline annotation and every type of span annotation, over words of the same and
of different sentences, paragraphs and divisions, for every place to add from, own, default and new sets. The document that
results is compared, element by element, with the one before plus what the rule says is added. Nothing is executed: abstract
interpretation of the crate's MIR; every call must have one outcome and must not panic."""
import itertools
import models
from checks.c13 import AT_OF, GROUPS, N, P, PROPS, REF, T, TYPE, Node, decl, proc, spec
from checks.c20 import accepted
from roundtrip import *
from walk import *

LAYER = {k: (v or {}).get("Some") for k, v in REF["layertype"].items()}
TAGOF = {v: k for k, v in TYPE.items()}


def w(i, *kids):
    return N("w", *kids, xml__id="w%d" % i)


def base(layertag=None, spantag=None, where=(), sets=("set",)):
    """nested structure with ten words; layers with one span in the places given"""

    def lay(x):
        out = []
        for i, (place, st) in enumerate(where):
            if place == x:
                a = {"set": st} if st else {}
                out.append(Node(layertag, [(k, P(v)) for k, v in a.items()], [N(spantag, N("wref", id="w1"), xml__id="l%s%s%s" % (x, st, "-%d" % i if i else ""), class_="k", **a)]))
        return out

    return Node("text", [("xml:id", P("bodyid"))], [
        N("div", N("p", N("s", w(1, *lay("w1")), w(2), N("quote", w(3), w(4), xml__id="q1"), *lay("s1"), xml__id="s1"), N("s", w(5), *lay("s2"), xml__id="s2"), *lay("p1"), xml__id="p1"),
          N("p", N("s", w(6), xml__id="s3"), xml__id="p2"), *lay("d1"), xml__id="d1"),
        N("div", N("s", N("correction", N("new", w(7)), xml__id="c1"), w(8, N("morphology", N("morpheme", xml__id="m1"), N("morpheme", xml__id="m2"))), *lay("s4"), xml__id="s4"), xml__id="d2"), *lay("t")])


WORDS = [("w2",), ("w1", "w2"), ("w3", "w4"), ("w2", "w3"), ("w4", "w2"), ("w1", "w5", "w2"), ("w5", "w1", "w2"), ("w1", "w6"), ("w6", "w5", "w1"), ("w1", "w5"), ("w1", "w7"), ("w1", "w6", "w5"), ("w7",), ("w8", "w7"), ("m1", "m2"), ("m1", "w8"), ("m2", "w7"), ("w3", "m1"), ("w2", "w2")]


def cases(thorough):
    """(label, spec, span type, [(where from, words, attributes)], active processor)"""
    A = lambda **k: k
    froms = ["span", "first", "s1", "p1", "d2", "text"]
    attrs = [A(Class="x"), A(Class="k", Set="set"), A(Set="set2", Class="x", Id="new"), A(N="n"), A(Set="set3")]
    for decls in (["set"], ["set", "set2"], [None], [None, "set"], []):
        for where in ([], [("s1", "set")], [("s1", "set2"), ("s1", "set")], [("s1", None), ("p1", "set")], [("s1", "set2"), ("s1", "set"), ("s1", "set"), ("s1", "set2")], [("w1", "set"), ("t", "set"), ("d1", "set2")], [("s4", "set")]):
            if any((st or "set") not in decls for _, st in where) or ((None in [x[1] for x in where]) and len(decls) > 1):
                continue
            yield "entities, declared %s, layers %s" % (decls, where), spec(base("entities", "entity", where), [decl("ENTITY", d) for d in decls]), "Entity", [(f, ws, a) for f in froms for ws in (WORDS if f == "span" and decls == ["set"] and (thorough or len(where) < 2) else WORDS[1:9:2]) for a in (attrs if f in ("span", "s1") else attrs[:3])], None
    for S in sorted(GROUPS["Span"]):
        at = AT_OF[S]
        L = LAYER[at]
        for where in ([], [("s1", "set")]):
            ds = [decl(at, "set")] + ([decl(AT_OF[L], "set")] if AT_OF[L] != at else [])
            yield "%s, layers %s" % (S, where), spec(base(TAGOF[L], TAGOF[S], where), ds), S, [(f, ws, a) for f in froms for ws in WORDS[: 9 if thorough else 6] for a in attrs[:3]], None
    for anns, active in itertools.product(([], ["p0"], ["p0", "p1"]), (None, "p0")):
        for where in ([], [("s1", "set")]):
            yield "entities, processors %s, active %s, layers %s" % (anns, active, where), spec(base("entities", "entity", where), [decl("ENTITY", "set", anns)], [proc("p0"), proc("p1")]), "Entity", [(f, ws, a) for f in ("span", "s1") for ws in WORDS[1:3] for a in attrs[:3]], active
    # inline annotation: on words, sentences, spans, text; every class of element
    for anns, active in itertools.product(([], ["p0"]), (None, "p0")):
        for t in ("pos", "lemma", "sense", "desc", "comment", "w", "t", "correction", "entities"):
            at = AT_OF[TYPE[t]]
            for ds in (["set"], ["set", "set2"], [None]) if at else ([],):
                yield "%s, declared %s %s, active %s" % (t, ds, anns, active), spec(base("chunking", "chunk", [("s1", "cset")]), [decl("CHUNKING", "cset")] + [decl(at, d, anns) for d in ds], [proc("p0"), proc("p1")]), TYPE[t], [(f, (), a) for f in ("w1", "s1", "w2", "s2", "q1", "ls1cset", "c1") for a in attrs[:2] + attrs[3:]], active


class Doc:
    def __init__(self, c, doc):
        v = self.v = DocView(c, doc)
        self.info = {k.a[0]: (ty, {n: x for n, x in at}, [(n, x.a[0] if n in ("Element", "SpanReference") else x) for n, x in data], None if up is None else up.a[0]) for k, (ty, at, data, up) in v.info.items()}
        self.ids = {k: x.a[0] for k, x in v.index.items()}
        self.decls = [(d[0], d[1], list(d[4])) for d in v.declarations]
        self.slots = len(v.els)

    def ancestors(self, k):
        k = self.info[k][3]
        while k is not None:
            if self.info[k][0] in GROUPS["Structure"]:
                yield k
            k = self.info[k][3]

    def declare(self, at, st, active):
        """what declaring does: index of the declaration; the active processor is associated with it"""
        found = [i for i, d in enumerate(self.decls) if d[0] == at and d[1] is st]
        of = [i for i, d in enumerate(self.decls) if d[0] == at]
        if not found and st is None and len(of) == 1:
            found = of
        if not found:
            found = [len(self.decls)]
            self.decls.append((at, st, []))
        if active is not None and active not in self.decls[found[0]][2]:
            self.decls[found[0]][2].append(active)
        return found[0]

    def encode(self, etype, attrs, active):
        """what becomes of attributes when an element is added"""
        at = AT_OF[etype]
        out = {k: v for k, v in attrs.items() if k not in ("Set", "Class", "Processor")}
        if out == attrs or at is None:
            return out
        d = self.decls[self.declare(at, attrs.get("Set"), active)]
        out["Set"], out["declared as"] = d[1], at
        if "Class" in attrs:
            out["Class"] = attrs["Class"]
        if len(d[2]) == 1:
            out["Processor"] = d[2][0]
        elif active is not None:
            out["Processor"] = active
            if active not in d[2]:
                d[2].append(active)
        return out

    def add(self, etype, attrs, data, parent):
        k = self.slots
        self.slots += 1
        self.info[k] = (etype, attrs, data, parent)
        self.info[parent][2].append(("Element", k))
        if "Id" in attrs:
            self.ids[attrs["Id"]] = k
        return k

    def annotate(self, S, frm, words, attrs, active):
        """the rule; returns the key of the new element, or None if it must be refused"""
        target = parent = frm
        at, st = AT_OF[S], attrs.get("Set")
        if S in GROUPS["Span"] and (PROPS[self.info[parent][0]]["wrefable"] or self.info[parent][0] in GROUPS["Structure"]):
            if st is None:
                of = [d for d in self.decls if d[0] == at]
                st = of[0][1] if len(of) == 1 else None
            if st is None:
                return None
            if PROPS[self.info[parent][0]]["wrefable"]:
                target = None
                for a in self.ancestors(words[0]) if words else ():
                    if all(a in self.ancestors(x) for x in words) and accepted(self.info[a][0], LAYER[at]):
                        target = a
                        break
                if target is None:
                    return None
            L = next((x for kind, x in self.info[target][2] if kind == "Element" and self.info[x][0] == LAYER[at] and self.info[x][1].get("Set") is st), None)
            if L is None:
                if not accepted(self.info[target][0], LAYER[at]):
                    return None
                L = self.add(LAYER[at], self.encode(LAYER[at], {"Set": st}, active), [], target)
            target = L
        if not accepted(self.info[target][0], S):
            return None
        refs = []
        for x in words:
            self.slots += 1
            refs.append(self.slots - 1)
        a = self.encode(S, attrs, active)
        k = self.slots
        for r, x in zip(refs, words):
            i = next(i for i, j in self.ids.items() if j == x)
            self.info[r] = ("WordReference", {"Idref": i}, [], k)
            self.info[x][2].append(("SpanReference", k))
        return self.add(S, a, [("Element", r) for r in refs], target)

    def flat(self):
        return (
            {k: (ty, {n: shown(x) for n, x in at.items()}, [(n, shown(x)) for n, x in data], up) for k, (ty, at, data, up) in self.info.items()},
            {shown(i): k for i, k in self.ids.items()}, [(a, shown(s), tuple(shown(p) for p in ps)) for a, s, ps in self.decls], self.slots)


def run(job, after=None):
    """after: what else must hold of the document annotated: f(world, description) -> (key, message) pairs"""
    c, label, s, S, calls, active = job
    bad, n = [], {"documents": 1}
    s.distinct[0] += [P("new")]
    s.distinct[1] += [x for x in (P("x"), P("k")) if x not in s.distinct[1]]
    s.distinct[3] += [x for x in (P("set"), P("set2"), P("set3"), P("cset")) if x not in s.distinct[3]]
    ok, err = results(read(c, script(s), assumptions(s)))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    doc = ok[0].value.a[2]
    W = World(c, doc, ok[0].facts, spec=True)
    act = None
    if active:
        act = P(active)
        key = DocView(c, doc).pindex[act]
        W.call("document::Document::activate_processor", W.doc, key)
        doc = W.content(W.doc)
    words_ = {}
    for frm, words, attrs in calls:
        what = "%s over %s from %s with %s (%s)" % (S, ",".join(words) or "nothing", frm, attrs, label)
        D = Doc(c, doc)
        ids = {shown(i): k for i, k in D.ids.items()}
        of = lambda x: D.ids[P(x)]
        ws = [of(x) for x in words]
        span = frm == "span"
        key = 0 if frm == "text" else ws[0] if frm in ("first", "span") else of(frm)
        at = {k: P(v) for k, v in attrs.items()}
        el = element(c, S, [variant(c, ATTR, k, v) for k, v in at.items()], [variant(c, DT, "AddElement", element(c, "WordReference", [variant(c, ATTR, "Idref", P(x))])) for x in words])
        n["annotations"] = n.get("annotations", 0) + 1
        saved = W.save()
        try:
            r = W.content(W.call("document::Document::annotate_span", W.doc, el) if span else W.call("document::Document::annotate", W.doc, INT(key), el))
            then = Doc(c, W.content(W.doc))
        except (Undecided, Bad) as e:
            bad.append(("undecided:%s" % what, "%s: %s" % (what, e)))
            W.restore(saved)
            continue
        want = D.annotate(S, key, ws, at, act)
        if want is None:
            n["refusals"] = n.get("refusals", 0) + 1
        if (want is None) != (r.a[1] == 1):
            bad.append(("outcome:%s" % what, "%s is %s" % (what, "refused: %s" % shown(r.a[2], 5) if r.a[1] else "not refused")))
        elif want is not None:
            d = differ(D.flat(), then.flat())
            if d or un(strip(r.a[2])) is not INT(want):
                bad.append(("result:%s" % what, "%s: %s" % (what, d or "returns %s instead of %d" % (shown(r.a[2]), want))))
            elif after:
                bad += after(W, what)
        W.restore(saved)
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    spec_table(c)
    run_shapes(ctx, run, [(c, *x) for x in cases(ctx.thorough)])
    ctx.floor("documents", 50)
    ctx.floor("annotations", 1000)
    ctx.floor("refusals", 50)
