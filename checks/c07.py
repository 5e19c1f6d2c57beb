"""Queries. Cmp::matches, the Query setters, Selector::from_query, Selector::matches/and/matchable and
Recursion::eval are evaluated (partitioned constant propagation) for every variant of every criterion, for
elements with and without the attribute concerned, with unconstrained values; each result must be the one the
criterion's meaning dictates."""
import json, os
from tables import *
from world import *
from facts import VERIF

REF = json.load(open(os.path.join(VERIF, "spec", "reference.json")))
CMP = "query::Cmp"
CRIT = ("elementtype", "elementgroup", "contexttype", "set", "class", "processor", "subset", "confidence", "annotator", "annotatortype")
KEYED = {"set": "DeclarationRef", "class": "ClassRef", "subset": "SubsetRef"}


class Rec(Collect):
    recursion = 3


def run(c, key, args, **kw):
    return evaluate(c, key, args, rule=Rec(), **kw)


def cmpv(c, n, *a):
    return variant(c, CMP, n, *a)


def fresh(c, path, action=True):
    """all criteria Any"""
    return {f[0]: cmpv(c, "Any") for f in c.adt(path)["vs"][0]["f"] if f[0] in CRIT}


def selector(c, **kw):
    f = fresh(c, "select::Selector")
    f.update(datatypes=vec(), next=NONE())
    f.update(kw)
    return struct(c, "select::Selector", **f)


def query(c, **kw):
    f = fresh(c, "query::Query")
    f.update(kw)
    return struct(c, "query::Query", **f)


def eqf(t, p, q):
    """is t the equality of p and q (or of their discriminants)?"""
    if t.k != "eq":
        return False
    s = set()
    for x in t.a:
        while x.k in ("discr", "refto", "frozen", "deref"):
            x = x.a[0]
        s.add(x)
    return s == {p, q}


def truth(r, pairs):
    """outcomes as {frozenset of pairs known equal or not}: returns a function deciding each outcome:
    list of (value True/False/None, {pair: bool})"""
    out = []
    for o in r.out:
        known = {}
        for t, v in o.facts.items():
            for i, (p, q) in enumerate(pairs):
                if eqf(t, p, q) and type(v) is V and v.k == "int":
                    known[i] = bool(v.a[0])
        v = o.value
        neg = False
        while v.k == "not":
            v = v.a[0]
            neg = not neg
        if v.k == "int":
            out.append((bool(v.a[0]) != neg, known))
            continue
        for i, (p, q) in enumerate(pairs):
            if eqf(v, p, q):
                out.append((True != neg, dict(known, **{i: True})) if False else (True != neg, {**known, i: True}))
                out.append((False != neg, {**known, i: False}))
                break
        else:
            out.append((None, known))
    return out


def expect(ctx, label, r, pairs, f):
    """f(assignment dict or None) -> expected bool; every outcome consistent with an assignment must give it"""
    ctx.count("criterion evaluations")
    if r.panics:
        ctx.bad(label + ":panic", "%s may panic at %s" % (label, r.panics[0][1]))
    t = truth(r, pairs)
    if not t:
        ctx.bad(label, "%s: no result" % label)
    import itertools

    for bits in itertools.product((True, False), repeat=len(pairs)):
        want = f(bits)
        got = {v for v, known in t if all(bits[i] == b for i, b in known.items())}
        if got != {want}:
            ctx.bad(label, "%s: with %s the result is %s, expected %s" % (label, ["equal" if b else "different" for b in bits], sorted(map(str, got)), want))
            return


def check(ctx):
    c = ctx.crate
    P, Q = mk("param", "present"), mk("param", "queried")
    VAR = ("Any", "Is", "Some", "None", "Unmatchable")

    def wanted(v, present):
        return {"Any": True, "Is": None if present else False, "Some": present, "None": not present, "Unmatchable": False}[v]

    # 1. the comparison itself
    insts = [k for k in c.bodies if k.startswith("query::Cmp::<") and k.endswith(">::matches")]
    for k in insts:
        ctx.count("comparison instances")
        for v in VAR:
            for present in (True, False):
                a = [cmpv(c, v, Q) if v == "Is" else cmpv(c, v), SOME(mk("ref", ("h", "val"), ())) if present else NONE()]
                r = eval_ref(c, k, a, P)
                w = wanted(v, present)
                expect(ctx, "Cmp::matches(%s,%s)" % (v, "present" if present else "absent"), r, [(P, Q)] if w is None else [], lambda b: b[0] if w is None else w)
    # 2. setters of the query, constructors and setters of the selector
    setters = {"element": "elementtype", "contexttype": "contexttype", "elementgroup": "elementgroup", "set": "set", "class": "class", "processor": "processor", "annotator": "annotator", "annotatortype": "annotatortype", "subset": "subset", "confidence": "confidence"}
    QP = struct(c, "query::Query")
    for m, f in setters.items():
        r = run(c, "query::Query::" + m, [QP, Q])
        names = [x[0] for x in c.adt("query::Query")["vs"][0]["f"]]
        for o in r.out:
            ctx.count("setters evaluated")
            for n in names:
                want = Q if n == f else field(c, QP, n)
                if o.value.k != "adt" or field(c, o.value, n) is not want:
                    ctx.bad("setter:%s:%s" % (m, n), "Query::%s leaves %s as %s" % (m, n, show(field(c, o.value, n), 3) if o.value.k == "adt" else "?"))
    for key in ("query::Query::select",):
        for o in run(c, key, []).out:
            for n in CRIT:
                if vname(c, field(c, o.value, n)) != "Any":
                    ctx.bad("select:%s" % n, "a new query has a criterion on %s" % n)
    SP = selector(c)
    for m, n in (("element", "elementtype"), ("elementgroup", "elementgroup")):
        for o in run(c, "select::Selector::" + m, [SP, Q]).out:
            ctx.count("setters evaluated")
            if o.value is not selector(c, action=field(c, SP, "action"), **{n: Q}):
                ctx.bad("selector-setter:%s" % m, "Selector::%s does not set exactly %s" % (m, n))
    for m, want in (("elements", {"Elements"}), ("all_data", {"Elements", "Text", "Comments"})):
        for o in run(c, "select::Selector::" + m, []).out:
            ctx.count("setters evaluated")
            d = field(c, o.value, "datatypes")
            got = {vname(c, x) for x in d.a} if d.k == "vec" else None
            if got != want or any(vname(c, field(c, o.value, n)) != "Any" for n in CRIT) or field(c, o.value, "next").a[1] != 0:
                ctx.bad("constructor:%s" % m, "Selector::%s selects %s" % (m, got))
    # 3. from_query
    from_query(ctx, c)
    # 4. matches, one criterion at a time
    CK, SK, DK = mk("param", "class_key"), mk("param", "subset_key"), INT(0)
    MDOC = lambda etype, attrs: document(c, [element(c, etype, attrs, key=0)], declarations=(), processors=[struct(c, PROC, name=P if False else mk("param", "proc.name"))])
    item = variant(c, DT, "Element", INT(0))

    def att(n, p):
        return variant(c, ATTR, n, p)

    PN, PT = mk("param", "processor.name"), mk("param", "processor.processortype")
    CONF = mk("param", "confidence")
    OLDN, OLDT = mk("param", "annotator"), mk("param", "annotatortype")
    full = [att("DeclarationRef", mk("param", "set_key")), att("ClassRef", CK), att("SubsetRef", SK), att("ProcessorRef", INT(0)), att("Confidence", CONF), att("Annotator", OLDN), att("AnnotatorType", OLDT)]
    ET0 = mk("param", "etype")
    PROCS = [struct(c, PROC)]
    present = {"set": mk("param", "set_key"), "class": CK, "subset": SK, "processor": INT(0), "confidence": CONF, "annotator": PN, "annotatortype": PT, "elementtype": ET0}
    drop = {"set": ("DeclarationRef",), "class": ("ClassRef",), "subset": ("SubsetRef",), "processor": ("ProcessorRef",), "confidence": ("Confidence",), "annotator": ("ProcessorRef", "Annotator"), "annotatortype": ("ProcessorRef", "AnnotatorType")}

    def matches(sel, attrs, etype=ET0):
        d = document(c, [element(c, etype, attrs, key=0)], processors=PROCS)
        return run(c, "select::Selector::matches", [sel, d, item])

    crit = [n for n in CRIT if n not in ("contexttype", "elementgroup")]
    for n in crit:
        for v in VAR:
            for pres in (True, False):
                if n == "elementtype" and not pres:
                    continue
                attrs = [a for a in full if pres or vname(c, a) not in drop[n]]
                w = wanted(v, pres)
                r = matches(selector(c, **{n: cmpv(c, v, Q) if v == "Is" else cmpv(c, v)}), attrs)
                expect(ctx, "matches:%s:%s:%s" % (n, v, "present" if pres else "absent"), r, [(present[n], Q)] if w is None else [], lambda b: b[0] if w is None else w)
    # without a processor the annotator attributes count
    for n, p in (("annotator", OLDN), ("annotatortype", OLDT)):
        r = matches(selector(c, **{n: cmpv(c, "Is", Q)}), [a for a in full if vname(c, a) != "ProcessorRef"])
        expect(ctx, "matches:%s:Is:attribute" % n, r, [(p, Q)], lambda b: b[0])
    # conjunction: every criterion Is, and one criterion failing while the others are Is
    qs = {n: mk("param", "q_" + n) for n in crit}
    allis = {n: cmpv(c, "Is", qs[n]) for n in crit}
    pairs = [(present[n], qs[n]) for n in crit]
    expect(ctx, "matches:conjunction", matches(selector(c, **allis), full), pairs, all)
    for i, n in enumerate(crit):
        for v in ("Any", "Some", "None", "Unmatchable"):
            w = wanted(v, True)
            r = matches(selector(c, **dict(allis, **{n: cmpv(c, v)})), full)
            rest = pairs[:i] + pairs[i + 1 :]
            expect(ctx, "matches:conjunction:%s:%s" % (n, v), r, rest, lambda b: w and all(b))
    # element groups
    groups = enums(c, EG)
    ets = enums(c, ET)
    for gi, (g, gv) in enumerate(groups):
        for j, (en, ev) in enumerate(ets):
            want = en in REF["groups"][g]
            if not ctx.thorough and not want and (gi + j) % 4:
                continue
            r = matches(selector(c, elementgroup=cmpv(c, "Is", gv)), [], ev)
            expect(ctx, "matches:elementgroup:%s:%s" % (g, en), r, [], lambda b: want)
    for v, w in (("Any", True), ("Some", True), ("None", False), ("Unmatchable", False)):
        expect(ctx, "matches:elementgroup:%s" % v, matches(selector(c, elementgroup=cmpv(c, v)), []), [], lambda b: w)
    inlayer = dict(elementgroup=cmpv(c, "Is", enum_value(c.adt(EG), [g for g, _ in groups].index("Structure"))), **{"class": cmpv(c, "Is", Q)})
    expect(ctx, "matches:group-and-class", matches(selector(c, **inlayer), full, dict(ets)["Sentence"]), [(CK, Q)], lambda b: b[0])
    expect(ctx, "matches:othergroup-and-class", matches(selector(c, **inlayer), full, dict(ets)["PosAnnotation"]), [], lambda b: False)
    # kinds of data
    DTS = dict(enums(c, "select::DataTypeSelector"))
    import itertools

    d1 = document(c, [element(c, ET0, (), key=0)])
    items = {"Element": INT(0), "SpanReference": INT(0), "Text": mk("param", "text"), "Comment": mk("param", "comment"), "AddElement": struct(c, ED)}
    for k in range(4):
        for sub in itertools.combinations(sorted(DTS), k):
            for it, pl in items.items():
                if not sub and it in ("Text", "Comment"):
                    continue  # a selector without data types is not specified for these
                want = {"Element": not sub or "Elements" in sub, "SpanReference": not sub or "Elements" in sub, "Text": "Text" in sub, "Comment": "Comments" in sub, "AddElement": False}[it]
                r = run(c, "select::Selector::matches", [selector(c, datatypes=vec(*[DTS[x] for x in sub])), d1, variant(c, DT, it, pl)])
                expect(ctx, "matches:data:%s:%s" % (it, "+".join(sub)), r, [], lambda b: want)
    r = run(c, "select::Selector::matches", [selector(c), document(c, [None]), item])
    expect(ctx, "matches:deleted", r, [], lambda b: False)
    # 5. union
    Q1, Q2, Q3 = mk("param", "q1"), mk("param", "q2"), mk("param", "q3")
    one = lambda q: selector(c, **{"class": cmpv(c, "Is", q)})
    d2 = document(c, [element(c, ET0, full, key=0)], processors=PROCS)

    def chain(*qs):
        outs = None
        cur = {one(qs[0])}
        for q in qs[1:]:
            nxt = set()
            for s in cur:
                for o in run(c, "select::Selector::and", [s, one(q)]).out:
                    nxt.add(o.value)
            cur = nxt
        return cur

    for qs_ in ((Q1, Q2), (Q1, Q2, Q3)):
        for s in chain(*qs_):
            r = run(c, "select::Selector::matches", [s, d2, item])
            expect(ctx, "union:%d" % len(qs_), r, [(CK, q) for q in qs_], any)
    um = {n: selector(c, **{n: cmpv(c, "Unmatchable")}) for n in ("set", "class", "subset", "processor")}
    for n, s in um.items():
        expect(ctx, "matchable:%s" % n, run(c, "select::Selector::matchable", [s]), [], lambda b: False)
        for o in run(c, "select::Selector::and", [s, selector(c)]).out:
            expect(ctx, "matchable:%s:union" % n, run(c, "select::Selector::matchable", [o.value]), [], lambda b: True)
        for o in run(c, "select::Selector::and", [selector(c), s]).out:
            expect(ctx, "matchable:%s:union2" % n, run(c, "select::Selector::matchable", [o.value]), [], lambda b: True)
    for v in ("Any", "Is", "Some", "None"):
        s = selector(c, **{n: cmpv(c, v, Q) if v == "Is" else cmpv(c, v) for n in ("set", "class", "subset", "processor")})
        expect(ctx, "matchable:%s" % v, run(c, "select::Selector::matchable", [s]), [], lambda b: True)
    # 6. recursion
    AD = c.adt("specification::AcceptedData")
    REC = "select::Recursion"
    accs = lambda l: vec(*[variant(c, "specification::AcceptedData", "AcceptElementType", v) if k == "t" else variant(c, "specification::AcceptedData", "AcceptElementGroup", v) for k, v in l])
    E1, E2, E3 = dict(ets)["Word"], dict(ets)["Sentence"], dict(ets)["PosAnnotation"]
    G = dict(groups)["Structure"]
    cases = [([], E1, False), ([("t", E1)], E1, True), ([("t", E2)], E1, False), ([("t", E2), ("t", E1)], E1, True), ([("t", E3), ("g", G)], E2, True), ([("g", G)], E3, False), ([("g", G), ("t", E3)], E3, True)]
    for n, w in (("No", False), ("Always", True)):
        expect(ctx, "Recursion:%s" % n, run(c, REC + "::eval", [variant(c, REC, n), ET0]), [], lambda b: w)
    for l, e, w in cases:
        expect(ctx, "Recursion:LimitedTo:%d" % len(l), run(c, REC + "::eval", [variant(c, REC, "LimitedTo", accs(l)), e]), [], lambda b: w)
        expect(ctx, "Recursion:ExceptFor:%d" % len(l), run(c, REC + "::eval", [variant(c, REC, "ExceptFor", accs(l)), e]), [], lambda b: not w)
    T1, T2 = mk("param", "t1"), mk("param", "t2")
    for l in ([T1], [T1, T2]):
        expect(ctx, "Recursion:LimitedTo:any", run(c, REC + "::eval", [variant(c, REC, "LimitedTo", accs([("t", t) for t in l])), ET0]), [(t, ET0) for t in l], any)
        expect(ctx, "Recursion:ExceptFor:any", run(c, REC + "::eval", [variant(c, REC, "ExceptFor", accs([("t", t) for t in l])), ET0]), [(t, ET0) for t in l], lambda b: not any(b))
    ctx.floor("comparison instances", 6)
    ctx.floor("criterion evaluations", 400)
    ctx.floor("setters evaluated", 14)


def eval_ref(c, k, a, P):
    r = Rec()
    I = Interp(c, r)
    mem = {("h", "val"): P, ("keep", 1): mk("ref", ("h", "val"), ())}
    b = c.fn(k)
    v0 = bind(c, mem, ("h", "arg0"), c.types[b["locals"][1]], a[0])
    I.run(b["name"], [v0, a[1]], mem=mem)
    r.I = I
    return r


def lookups(t):
    """map lookups inside a term, outermost first: (map term, key term)"""
    out = []
    for x in subterms(t):
        if x.k == "call" and x.a[1].endswith("::get") and "HashMap" in x.a[1]:
            out.append((x.depth, x))
    return [x for _, x in sorted(out, key=lambda p: -p[0])]


def strip(t):
    while t.k in ("refto", "frozen", "deref") and type(t.a[0]) is V:
        t = t.a[0]
    return t


def from_query(ctx, c):
    ds = struct(c, "metadata::DeclarationStore")
    ps = struct(c, "metadata::ProvenanceStore")
    doc = document(c, declarationstore=ds, provenancestore=ps)
    KEY = "select::Selector::from_query"

    def outs(label, **kw):
        r = run(c, KEY, [doc, query(c, **kw)])
        ctx.count("queries compiled")
        if r.panics:
            ctx.bad("from_query:%s:panic" % label, "compiling a query on %s may panic at %s" % (label, r.panics[0][1]))
        ok = [o for o in r.out if o.value.a[1] == 0]
        return ok, [o for o in r.out if o.value.a[1] == 1]

    def others(label, o, names, **kept):
        for n in CRIT:
            if n in names:
                continue
            v = field(c, o.value.a[2], n)
            want = kept.get(n, cmpv(c, "Any"))
            if v is not want:
                ctx.bad("from_query:%s:%s" % (label, n), "a query on %s alone compiles to a selector with %s = %s" % (label, n, show(v, 3)))

    Q = mk("param", "queried")
    S = mk("param", "setname")
    # plain copies
    for n in ("elementtype", "elementgroup", "contexttype", "annotator", "annotatortype", "confidence"):
        for v in ("Any", "Is", "Some", "None", "Unmatchable"):
            q = cmpv(c, v, Q) if v == "Is" else cmpv(c, v)
            ok, err = outs(n, **{n: q})
            if not ok or err:
                ctx.bad("from_query:%s:fails" % n, "a query on %s does not compile" % n)
            for o in ok:
                others(n, o, (), **{n: q})
    # variants other than Is / None of the encoded ones are copied (no set: nothing to look up)
    for n in ("set", "class", "subset", "processor"):
        for v in ("Any", "Some", "None", "Unmatchable"):
            if n == "set" and v == "None":
                continue
            ok, err = outs(n, **{n: cmpv(c, v)})
            if not ok or err:
                ctx.bad("from_query:%s:fails" % n, "a query on %s does not compile" % n)
            for o in ok:
                others(n, o, (), **{n: cmpv(c, v)})
    # the set, by the annotation type of the element type
    at = {}
    ets = enums(c, ET)
    for en, ev in ets if ctx.thorough else [x for i, x in enumerate(ets) if i % 5 == 0 or x[0] in ("Word", "PosAnnotation", "Feature", "Entity")]:
        a = const_fn(c, ctx, "types::ElementType::annotationtype", [ev], "annotationtype(%s)" % en)
        if a is NotImplemented:
            continue
        atv = None
        if a:
            atv = dict(enums(c, AT))[a["Some"] if isinstance(a, dict) else a]
        for setv, opt in ((cmpv(c, "Is", S), SOME(mk("ref", ("obj", S), ())) if False else None), (cmpv(c, "None"), NONE())):
            ids = None
            if atv is not None:
                ids = index_ids(c, atv, S if setv.a[1] == cmpv(c, "Is", S).a[1] else None)
            lbl = "set:%s:%s" % (en, vname(c, setv))
            ok, err = outs(lbl, elementtype=cmpv(c, "Is", ev), set=setv)
            if err or not ok:
                ctx.bad("from_query:set:fails", "a query on set and element type %s does not compile" % en)
            hit = 0
            for o in ok:
                others("set", o, ("set",), elementtype=cmpv(c, "Is", ev))
                sv = field(c, o.value.a[2], "set")
                n = vname(c, sv)
                if n == "Is":
                    hit += 1
                    ls = lookups(sv.a[2])
                    if len(ls) != 1 or not strip(ls[0].a[2]) is field(c, ds, "index") or ids is None or strip(ls[0].a[3]) not in ids:
                        ctx.bad("from_query:set:lookup", "the set of a query on %s is looked up as %s, declarations are indexed as %s" % (en, show(ls[0].a[3], 4) if ls else None, [show(i, 4) for i in ids or []]))
                elif n == "Unmatchable":
                    if atv is not None and not any(type(v) is V and v is not TRUE and t.k == "discr" and lookups(t) for t, v in o.facts.items()):
                        ctx.bad("from_query:set:unmatchable", "the set of a query on %s is unmatchable although the declaration exists" % en)
                else:
                    ctx.bad("from_query:set:%s" % n, "a query on a set of %s compiles to set = %s" % (en, n))
            if atv is not None and not hit:
                ctx.bad("from_query:set:never", "a query on the set of %s never matches a declaration" % en)
    # class and subset and processor, as looked up in their own index
    W = dict(ets)["PosAnnotation"]
    F = dict(ets)["Feature"]
    base = dict(elementtype=cmpv(c, "Is", W), set=cmpv(c, "Is", S))
    fbase = dict(elementtype=cmpv(c, "Is", F), contexttype=cmpv(c, "Is", W), set=cmpv(c, "Is", S))
    ids = index_ids(c, dict(enums(c, AT))["POS"], S)
    SUB = mk("param", "subsetname")
    cases = [
        ("class", dict(base, **{"class": cmpv(c, "Is", Q)}), "class", ".classes", Q, "_key"),
        ("subset", dict(fbase, subset=cmpv(c, "Is", Q)), "subset", ".subsets", Q, "_key"),
        ("subclass", dict(fbase, subset=cmpv(c, "Is", SUB), **{"class": cmpv(c, "Is", Q)}), "class", ".subclasses", Q, "_key"),
        ("subclass-nosubset", dict(fbase, **{"class": cmpv(c, "Is", Q)}), "class", ".subclasses", Q, "_key"),
        ("subclass-anysubset", dict(fbase, subset=cmpv(c, "Some"), **{"class": cmpv(c, "Is", Q)}), "class", ".subclasses", Q, "_key"),
    ]
    for label, q, n, store, key, _ in cases:
        ok, err = outs(label, **q)
        hit = 0
        if not ok or err:
            ctx.bad("from_query:%s:fails" % label, "a query on %s does not compile" % label)
        for o in ok:
            sel = o.value.a[2]
            sv = field(c, sel, n)
            dk = field(c, sel, "set")
            if vname(c, field(c, sel, "subset")) == "Unmatchable" and n != "subset":
                continue  # matches nothing whatever the class
            if vname(c, sv) == "Is":
                hit += 1
                ls = lookups(sv.a[2])
                top = ls[0] if ls else None
                good = top is not None and strip(top.a[3]) is key and store in show(strip(top.a[2]), 12) + "." and any(x.k == "fld" and x.a[1] == store[1:] for x in subterms(top.a[2]))
                good = good and vname(c, dk) == "Is" and strip(dk.a[2]) in set(subterms(sv.a[2]))
                good = good and any(strip(l.a[3]) in ids and strip(l.a[2]) is field(c, ds, "index") for l in ls)
                if not good:
                    ctx.bad("from_query:%s:lookup" % label, "the %s of a query is encoded by %s, expected a lookup of it in %s of the declaration of its set" % (label, show(top, 6) if top else show(sv, 4), store[1:]))
            elif vname(c, sv) == "Unmatchable":
                # some lookup on the way must have failed
                if not any(t.k in ("discr", "lt") and (type(v) is frozenset or v is FALSE) for t, v in o.facts.items()):
                    ctx.bad("from_query:%s:unmatchable" % label, "a query on a known %s is unmatchable" % label)
            else:
                ctx.bad("from_query:%s:%s" % (label, vname(c, sv)), "a query on %s compiles to %s" % (label, show(sv, 3)))
        if not hit:
            ctx.bad("from_query:%s:never" % label, "a query on %s never finds it" % label)
    ok, err = outs("processor", processor=cmpv(c, "Is", Q))
    hit = 0
    for o in ok:
        others("processor", o, ("processor",))
        sv = field(c, o.value.a[2], "processor")
        if vname(c, sv) == "Is":
            hit += 1
            ls = lookups(sv.a[2])
            if len(ls) != 1 or strip(ls[0].a[2]) is not field(c, ps, "index") or strip(ls[0].a[3]) is not Q:
                ctx.bad("from_query:processor:lookup", "the processor of a query is not looked up by its ID")
        elif vname(c, sv) != "Unmatchable":
            ctx.bad("from_query:processor", "a query on a processor compiles to %s" % show(sv, 3))
    if not hit or err:
        ctx.bad("from_query:processor:never", "a query on a processor never finds it")
    ctx.floor("queries compiled", 90)


def index_ids(c, atv, S):
    """the terms Declaration::index_id may produce for an annotation type and a set"""
    r = Rec()
    I = Interp(c, r)
    b = c.fn("metadata::Declaration::index_id")
    mem = {}
    opt = NONE() if S is None else SOME(mk("ref", ("h", "s"), ()))
    if S is not None:
        mem[("h", "s")] = S
    mem[("h", "o")] = opt
    mem[("keep", 1)] = mk("ref", ("h", "o"), ())
    I.run(b["name"], [atv, mk("ref", ("h", "o"), ())], mem=mem)
    return {o.value for o in r.out}
