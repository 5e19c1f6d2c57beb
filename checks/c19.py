"""Declaring and attribution. On documents obtained by evaluating the reader on symbolic XML (declarations of several sets, with and
without sets and annotators, several annotation types, no declarations), and on documents made by evaluating Document::new,
the functions that declare annotation (declare, and adding an element, with any combination of set, class and processor, while any or
no processor is active) and those that tell the default declaration, set and processor are evaluated, several in a row. The
declarations, elements and keys that result are compared with the rule. Documents are also read with properties that declare
annotation and name a processor: what is read must not be attributed to it. Nothing is executed: abstract interpretation of the crate's
MIR; every call must have one outcome and must not panic."""
import itertools
import models
from checks.c13 import AT_OF, N, P, T, TYPE, Node, decl, proc, spec
from checks.c26 import Doc
from roundtrip import *
from walk import *

TEXTSET = "https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl"
STRING = lambda x: NONE() if x is None else SOME(x if type(x) is V else P(x))


def at_value(c, at):
    return variant(c, "types::AnnotationType", at)


class Doc2(Doc):
    """c26's document, with aliases and formats, the active processor and the classes of declarations"""

    def __init__(self, c, doc):
        Doc.__init__(self, c, doc)
        v = self.v
        self.more = [(d[2], d[3]) for d in v.declarations]
        self.active = opt_(v.f(doc, "active_processor"))
        self.classes = []
        for d in (opt_(x) for x in v.decs):
            self.classes.append([])
            for store in ("classes", "subsets", "subclasses"):
                st = opt_(v.f(d, store))
                self.classes[-1].append(frozenset() if st is None else frozenset(shown(opt_(x)) for x in items(v.f(st, "items"))))
        self.procs = [un(v.f(strip(slot_at(v.prs, INT(i))), "id")) for i in range(len(v.prs))]
        self.chain = [un(k).a[0] for k in items(v.f(v.f(doc, "provenancestore"), "chain"))]

    def declare2(self, at, st, alias, form):
        n = len(self.decls)
        k = self.declare(at, st, self.procs[self.active.a[0]] if self.active is not None else None)
        if len(self.decls) > n:
            self.more.append((alias, form))
            self.classes.append([frozenset()] * 3)
        return k

    def note(self, k, store, name):
        if name is not None:
            self.classes[k][store] |= {shown(name)}

    def attribute(self, etype, attrs, parent=None):
        """what becomes of set, class, subset and processor of an element that has one of them"""
        out = {k: v for k, v in attrs.items() if k not in ("Set", "Class", "Processor", "Subset")}
        at = AT_OF[etype]
        p = None
        act = self.procs[self.active.a[0]] if self.active is not None else None
        if etype == "Feature":
            pt, pat = self.info[parent][0], self.info[parent][1]
            k = next(i for i, d in enumerate(self.decls) if d[0] == pat["declared as"] and d[1] is pat["Set"]) if "declared as" in pat else self.declare2(AT_OF[pt], None, None, None)
            self.note(k, 2, attrs.get("Class"))
            self.note(k, 1, attrs.get("Subset"))
        elif at:
            k = self.declare2(at, attrs.get("Set"), None, None)
            self.note(k, 0, attrs.get("Class"))
            ps = self.decls[k][2]
            p = ps[0] if len(ps) == 1 else act
        else:
            k = None
        if attrs.get("Processor") is not None:
            p = attrs["Processor"]
        if k is not None:
            out["Set"], out["declared as"] = self.decls[k][1], self.decls[k][0]
            if p is not None and p not in self.decls[k][2]:
                self.decls[k][2].append(p)
        for n in ("Class", "Subset"):
            if n in attrs:
                out[n] = attrs[n]
        if p is not None:
            out["Processor"] = p
        return out

    def all(self):
        return self.flat() + ([(shown(a), shown(f)) for a, f in self.more], self.classes, shown(self.active), [shown(p) for p in self.procs], self.chain)


def docs(thorough):
    ps = [proc("p0"), proc("p1")]
    body = lambda: N("s", N("w", xml__id="w1"), N("w", N("pos", class_="k"), xml__id="w2"), xml__id="s1")
    plain = lambda: N("s", N("w", xml__id="w1"), N("w", xml__id="w2"), xml__id="s1")
    sets = [[], ["set"], ["set", "set2"], [None], [None, "set"], ["set", "set2", "set3"]]
    for pos, anns in itertools.product(sets, ([], ["p0"], ["p0", "p1"])):
        if anns and not pos:
            continue
        for lemma in sets[: 6 if thorough else 3]:
            for swap in (0, 1) if pos and lemma else (0,):
                a, b = [decl("POS", x, anns) for x in pos], [decl("LEMMA", x) for x in lemma]
                yield "pos %s by %s, lemma %s%s" % (pos, anns, lemma, " first" if swap else ""), spec(body() if len(pos) == 1 else plain(), b + a if swap else a + b, ps)
    for one, two in ((["p0"], ["p1"]), (["p0"], []), ([], ["p1"]), (["p0", "p1"], ["p0"])):
        yield "pos set by %s, set2 by %s" % (one, two), spec(plain(), [decl("POS", "set", one), decl("LEMMA", "set"), decl("POS", "set2", two)], ps)


def compare(bad, key, what, want, have):
    d = differ(want.all(), have.all())
    if d:
        bad.append((key, "%s: %s" % (what, d)))


def run(job):
    return (made if job[1] == "made" else reading if job[1] == "reading" else changes)(*job)


def changes(c, label, s, nr, thorough, after=None, step=4):
    """every call on the document; every fourth if not thorough (all of them are made on some documents)
    after: what else must hold of the document changed: f(world, description)"""
    bad, n = [], {"documents": 1}
    s.distinct[0] += [P("new")]
    s.distinct[1] += [x for x in (P("x"), P("k")) if x not in s.distinct[1]]
    s.distinct[3] += [x for x in (P("set"), P("set2"), P("set3"), P("set4")) if x not in s.distinct[3]]
    ok, err = results(read(c, script(s), assumptions(s)))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    doc = ok[0].value.a[2]
    W = World(c, doc, ok[0].facts, spec=True)
    ids = {shown(i): k for i, k in Doc2(c, doc).ids.items()}
    of = lambda x: ids[shown(P(x))]
    acts = (None, "p0", "p1")

    turn = itertools.count(nr)

    def each(what, f):
        if not thorough and next(turn) % step:
            return
        saved = W.save()
        n["calls"] = n.get("calls", 0) + 1
        had = len(bad)
        try:
            f(what)
            if after and len(bad) == had:
                after(W, what)
        except (Undecided, Bad) as e:
            bad.append(("undecided:%s" % what, "%s: %s" % (what, e)))
        W.restore(saved)

    def declare(at, st, alias, form):
        return W.content(W.call("document::Document::declare", W.doc, at_value(c, at), *[W.place("a%d" % i, STRING(x)) for i, x in enumerate((st, alias, form))]))

    def now():
        return Doc2(c, W.content(W.doc))

    def defaults(what):
        D = now()
        n["defaults"] = n.get("defaults", 0) + 1
        ds = W.place("ds", strip(field(c, strip(W.content(W.doc)), "declarationstore")))
        mask = [x.a[0] for x in items(W.content(W.call("metadata::DeclarationStore::default_mask", ds)))]
        want = [int(sum(1 for x in D.decls if x[0] == d[0]) == 1) for d in D.decls]
        if mask != want:
            bad.append(("mask:%s" % what, "%s: default_mask is %s instead of %s" % (what, mask, want)))
        for at in ("POS", "LEMMA", "SENSE"):
            one = [i for i, d in enumerate(D.decls) if d[0] == at]
            want = INT(one[0]) if len(one) == 1 else None
            h = opt_(W.content(W.call("metadata::DeclarationStore::get_default_key", ds, at_value(c, at))))
            if h is not want:
                bad.append(("default:%s:%s" % (at, what), "%s: the default declaration of %s is %s instead of %s" % (what, at, shown(h), shown(want))))
            want = D.decls[one[0]][1] if want is not None else None
            h = opt_(W.content(W.call("document::Document::get_default_set", W.doc, at_value(c, at))))
            if (h is None) != (want is None) or h is not None and un(h) is not want:
                bad.append(("set:%s:%s" % (at, what), "%s: the default set of %s is %s instead of %s" % (what, at, shown(h), shown(want))))
        for i, d in enumerate(D.decls):
            want = d[2][0] if len(d[2]) == 1 else None
            h = opt_(W.content(W.call("metadata::Declaration::default_processor", W.place("d", strip(slot_at(D.v.decs, INT(i)))))))
            h = h if h is None else D.procs[un(h).a[0]]
            if h is not want:
                bad.append(("processor:%d:%s" % (i, what), "%s: the default processor of declaration %d is %s instead of %s" % (what, i, shown(h), shown(want))))

    each("as read, %s" % label, defaults)
    for act in acts:
        saved = W.save()
        if act:
            W.call("document::Document::activate_processor", W.doc, DocView(c, doc).pindex[P(act)])
        tail = "active %s, %s" % (act, label)
        seqs = [[(at, st, x, y)] for at in ("POS", "LEMMA", "SENSE") for st in (None, "set", "set2", "set4") for x, y in ((None, None), ("al", "fo"))]
        seqs += [[("POS", "set4", None, None), (at, st, "al", None)] for at in ("POS", "SENSE") for st in (None, "set", "set4")] + [[("SENSE", x, None, "fo"), ("SENSE", y, "al", None)] for x, y in itertools.product((None, "set", "set4"), repeat=2)]
        for seq in seqs:
            def f(what):
                for i, (at, st, alias, form) in enumerate(seq):
                    D = now()
                    want = D.declare2(at, *[x and P(x) for x in (st, alias, form)])
                    r = declare(at, st, alias, form)
                    if r.a[1] != 0 or un(strip(r.a[2])) is not INT(want):
                        bad.append(("key:%s" % what, "%s: call %d returns %s instead of %d" % (what, i + 1, shown(r, 5), want)))
                        return
                    compare(bad, "declared:%s" % what, "%s, call %d" % (what, i + 1), D, now())
                    n["declarations"] = n.get("declarations", 0) + 1
                if len(seq) > 1 or seq[0][1] == "set4":
                    defaults(what)

            each("declare %s (%s)" % (seq, tail), f)
        # elements: any of set, class, processor
        adds = []
        for e in ("pos", "lemma", "sense"):
            for st, cl, pr in itertools.product((None, "set", "set2", "set4"), (None, "x", "k"), (None, "p0", "p1")):
                if st or cl or pr:
                    adds.append((TYPE[e], "w1", {k: P(v) for k, v in (("Set", st), ("Class", cl), ("Processor", pr)) if v}))
        for el, attrs in (("w2", {"Class": P("x")}), ("w1", {"Class": P("k"), "Id": P("new")})):
            adds.append((TYPE["pos"], el, attrs))
        for etype, where, attrs in adds:
            def f(what):
                D = now()
                want = D.add(etype, D.attribute(etype, attrs), [], of(where))
                r = W.content(W.call("document::Document::annotate", W.doc, INT(of(where)), element(c, etype, [variant(c, ATTR, k, v) for k, v in attrs.items()])))
                if r.a[1] != 0 or un(strip(r.a[2])) is not INT(want):
                    bad.append(("added:%s" % what, "%s returns %s instead of %d" % (what, shown(r, 5), want)))
                    return
                compare(bad, "attributed:%s" % what, what, D, now())
                n["elements added"] = n.get("elements added", 0) + 1
                # features of it belong to its declaration
                if etype == TYPE["pos"] and "Set" in attrs and "Class" in attrs and where == "w1":
                    fa = {"Subset": P("su"), "Class": P("fc")}
                    if "Processor" in attrs:
                        fa["Processor"] = P("p1")
                    D = now()
                    D.add("Feature", D.attribute("Feature", fa, want), [], want)
                    r = W.content(W.call("document::Document::annotate", W.doc, INT(want), element(c, "Feature", [variant(c, ATTR, k, v) for k, v in fa.items()])))
                    if r.a[1] != 0:
                        bad.append(("feature:%s" % what, "%s: a feature on it is refused: %s" % (what, shown(r, 5))))
                    else:
                        compare(bad, "feature:%s" % what, what + ", feature on it", D, now())
                    n["elements added"] += 1

            each("add %s %s to %s (%s)" % (etype, shown(attrs), where, tail), f)
        W.restore(saved)
    return bad, n


PROPS_ = "document::DocumentProperties"


def processor_(W, subs=0):
    """a processor made with the builder functions, with subprocessors"""
    def new(i):
        return W.call(PROC + "::with_id", W.call("<metadata::Processor as std::default::Default>::default"), P(i))

    p = new("pid")
    for i in range(subs):
        p = W.call(PROC + "::with_new_subprocessor", p, new("sub%d" % i))
    return p


def made(c, _, bodytype, declares, processor, thorough, after=None):
    """Document::new with properties made with the builder functions"""
    bad, n = [], {"documents made": 1}
    what = "new %s document, declared %s, processor %s" % (bodytype, declares, processor)
    W = World(c, NONE())
    try:
        p = W.call("<document::DocumentProperties as std::default::Default>::default")
        if bodytype:
            p = W.call(PROPS_ + "::with_bodytype", p, variant(c, "types::BodyType", bodytype))
        for at, st in declares:
            p = W.call(PROPS_ + "::with_declaration", p, at_value(c, at), STRING(st))
        if processor:
            for i, j in itertools.combinations(["pid", "sub0", "sub1"], 2):
                W.facts[mk("eq", *sorted((P(i), P(j)), key=lambda x: x.n))] = INT(0)
            p = W.call(PROPS_ + "::with_processor", p, processor_(W, processor - 1))
        for i, j in itertools.combinations(["set", "set2"], 2):
            W.facts[mk("eq", *sorted((P(i), P(j)), key=lambda x: x.n))] = INT(0)
        for i in ("set", "set2"):
            W.facts[mk("eq", *sorted((P(i), STR(TEXTSET)), key=lambda x: x.n))] = INT(0)
        r = W.content(W.call("document::Document::new", P("id"), p))
        if r.a[1] != 0:
            return [("refused:%s" % what, "%s: refused: %s" % (what, shown(r, 5)))], n
        D = Doc2(c, r.a[2])
    except (Undecided, Bad) as e:
        return [("undecided:%s" % what, "%s: %s" % (what, e))], n
    want = []
    for at, st in [("TEXT", STR(TEXTSET))] + [(a, x and (x if type(x) is V else P(x))) for a, x in declares]:
        if not any(d[0] == at and d[1] is st for d in want) and not (st is None and sum(d[0] == at for d in want) == 1):
            want.append((at, st, [P("pid")] if processor else []))

    def need(name, w, h):
        n["facts of new documents"] = n.get("facts of new documents", 0) + 1
        if w != h:
            bad.append(("%s:%s" % (name, what), "%s: %s is %s instead of %s" % (what, name, h, w)))

    need("ID", shown(P("id")), shown(D.v.id))
    need("body", {0: (bodytype or "Text", {}, [], None)}, D.info)
    need("slots", 1, D.slots)
    need("declarations", [(a, shown(x), [shown(p) for p in ps]) for a, x, ps in want], [(a, shown(x), [shown(p) for p in ps]) for a, x, ps in D.decls])
    need("classes", [[frozenset({shown(STR("current"))}) if d[1] is STR(TEXTSET) else frozenset()] + [frozenset()] * 2 for d in want], D.classes)
    need("processors", [shown(P(x)) for x in ("pid", "sub0", "sub1")[:processor]], [shown(x) for x in D.procs])
    need("provenance", [(shown(P("pid")), [shown(P("sub%d" % i)) for i in range(processor - 1)])] if processor else [], [(shown(a["xml:id"]), [shown(b["xml:id"]) for b, _ in kids]) for a, kids in D.v.provenance])
    need("chain", [0] if processor else [], D.chain)
    need("active processor", shown(INT(0)) if processor else shown(None), shown(D.active))
    need("metadata", ("None", "None", 0), (shown(D.v.metadata[0]), shown(D.v.metadata[1]), len(D.v.metadata[2])))
    if after and not bad:
        after(W, what, r.a[2])
    return bad, n


def reading(c, _, label, s, declares, thorough):
    """reading with properties: the processor becomes active for what comes after"""
    bad, n = [], {"documents read with a processor": 1}
    s.distinct[4] += [P("pid")]
    s.distinct[3] += [x for x in (P("set"), P("set2")) if x not in s.distinct[3]]
    F = assumptions(s)
    for x in [x for x in s.distinct[3]]:
        F.setdefault(mk("eq", *sorted((x, STR(TEXTSET)), key=lambda y: y.n)), INT(0))
    out = []
    ds = [mk("tup", at_value(c, a), STRING(x)) for a, x in declares]
    for pr in (NONE(), SOME(World(c, NONE()).content(processor_(World(c, NONE()))))):
        ok, err = results(read(c, script(s), F, declare=list(ds), processor=pr))
        if len(ok) != 1 or err:
            return [("read:%s" % label, "the document (%s) is not read with declarations %s%s: %s" % (label, declares, " and a processor" if pr.a[1] else "", [show(e.value, 6)[:200] for e in err]))], n
        out.append(Doc2(c, ok[0].value.a[2]))
    D, H = out
    k = len(D.procs)
    D.procs.append(P("pid"))
    D.chain.append(k)
    D.active = INT(k)
    compare(bad, "reading:%s:%s" % (declares, label), "reading (%s) with declarations %s and a processor" % (label, declares), D, H)
    # and without it what is declared in the properties is declared, nothing else
    base = results(read(c, script(s), F))[0]
    B = Doc2(c, base[0].value.a[2])
    for a, x in declares:
        j = B.declare2(a, x if x is None or type(x) is V else P(x), None, None)
        if x is not None and type(x) is V:
            B.note(j, 0, STR("current"))
    del D.procs[-1], D.chain[-1]
    D.active = None
    compare(bad, "declaring:%s:%s" % (declares, label), "reading (%s) with declarations %s" % (label, declares), B, D)
    return bad, n


def news(c, thorough):
    """new documents to make"""
    opts = [("POS", "set"), ("POS", "set2"), ("POS", None), ("TEXT", None), ("TEXT", "set"), ("TEXT", STR(TEXTSET)), ("TOKEN", None)]
    for b in (None, "Text", "Speech"):
        for r in range(4 if thorough else 3):
            for ds in itertools.product(opts, repeat=r):
                for p in (0, 1, 3) if r < 2 else (0, 1):
                    if b == "Speech" or r < 2 or p:
                        yield (c, "made", b, list(ds), p, thorough)


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    spec_table(c)
    jobs = [(c, *x, i, ctx.thorough) for i, x in enumerate(docs(ctx.thorough))]
    jobs += news(c, ctx.thorough)
    for label, s in list(docs(False))[:: 1 if ctx.thorough else 3]:
        for ds in ([], [("POS", "set")], [("TEXT", STR(TEXTSET)), ("POS", None)], [("SENSE", "set2"), ("SENSE", "set2")]):
            jobs.append((c, "reading", label, s, ds, ctx.thorough))
    run_shapes(ctx, run, jobs)
    ctx.floor("documents", 60)
    ctx.floor("declarations", 2500)
    ctx.floor("elements added", 5000)
    ctx.floor("documents made", 100)
    ctx.floor("documents read with a processor", 100)
