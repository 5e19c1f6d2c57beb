"""Document structure. attach_element, detach_element, attach_processor are evaluated over a document with unknown
contents and unknown keys; the effects (writes and vector mutations on element and processor slots) on every
path must be exactly those that keep parent and children consistent: Ok paths set the parent, append the child once
and remove the entry for the child from the old parent, Err paths change nothing, and every ancestor of the
new parent has been compared with the child. add_element and add_element_to are evaluated for elements with nested
children over documents with unknown contents; in the result every child entry and the parent of the child agree."""
from effects import *
from tables import enums
import models

models.VECMAX = 24

P, C = mk("param", "P"), mk("param", "C")
STORE = {"element": "elementstore", "processor": "provenancestore"}
CHILDREN = {"element": "data", "processor": "processors"}


def items_of(kind):
    return mk("fld", mk("param", "document." + STORE[kind]), "items")


def parent_term(K, items):
    return mk("fld", mk("fld", mk("deref", mk("fld", mk("idx", items, mk("cast", K, "usize")), "Some.0")), "parent"), "Some.0")


def child_value(c, kind):
    return variant(c, DT, "Element", C) if kind == "element" else C


def clean(aux):
    """drop the summary write that follows a push"""
    out = []
    for e in aux:
        if e[0] == "write" and out and out[-1][0] in Effects.VEC and out[-1][1:4] == e[1:4]:
            continue
        out.append(e)
    return out


def bare(t):
    while t.k in ("ref", "refto", "frozen", "deref") and type(t.a[0]) is V:
        t = t.a[0]
    return t


def keeps_all_but_child(c, clo, kind, K):
    """does the closure of a retain keep exactly the items other than K?"""
    clo = bare(clo)
    if clo.k != "clo":
        return False
    X = mk("param", "X")
    try:
        r = evaluate(c, clo.a[0], [clo, X])
    except AnalysisError:
        return False
    if r.panics or not r.out:
        return False
    want = {bare(K), X} if kind == "processor" else None

    def is_eq(t):
        if t.k != "eq":
            return False
        s = {bare(x) for x in t.a}
        if kind == "processor":
            return s == {K, X}
        return K in s and any(x.k == "fld" and x.a[1] == "Element.0" and bare(x.a[0]) is X for x in s)

    got = set()
    for o in r.out:
        t, neg = o.value, False
        while t.k == "not":
            t, neg = t.a[0], not neg
        eqs = [isb(v, 1) for q, v in o.facts.items() if is_eq(q)]
        other = [isb(v, 1) for q, v in o.facts.items() if q.k == "discr" and bare(q.a[0]) is X] if kind == "element" else []
        if is_eq(t) and neg:
            got |= {"keep", "drop"}
        elif fint(t) is not None:
            keep = bool(fint(t)) != neg
            same = bool(eqs) and all(eqs)
            if keep == same:
                return False
            if not eqs and kind == "processor":
                return False
            got.add("keep" if keep else "drop")
        else:
            return False
    return got == {"keep", "drop"}


def removal(c, e, kind, v, K, items):
    """effect e removes (only) the entry for C from the children of slot K"""
    op, store, key, f = e[:4]
    if store != kind or f != (CHILDREN[kind],) or key is not K:
        return "changes %s %s.%s" % (store, show(key, 4) if key else "", ".".join(f))
    if op == "retain":
        return None if keeps_all_but_child(c, e[4], kind, C) else "keeps or removes other children than the one attached"
    if op in ("remove", "swap_remove") and op == "remove":
        i = e[4]
        coll = None
        for s in v.eq:
            for x in s:
                y = x.a[0] if x.k == "fld" and x.a[1] == "Element.0" else x
                if y.k == "idx" and y.a[1] is i and s == frozenset((C, x)):
                    return None
        return "removes an entry that was not compared with the child"
    return "%s on the children of the old parent" % op


def attach(ctx, c, kind, fn):
    items = items_of(kind)
    r = Effects()
    evaluate(c, fn, [struct(c, DOC), P, C], rule=r)
    ctx.count("functions evaluated")
    name = fn.rsplit("::", 1)[1]
    for k, s, f in r.panics:
        ctx.bad("%s:panic" % name, "%s may panic (%s in %s)" % (name, k, s[0]))
    OLD = parent_term(C, items)
    oks = removed = deepest = 0
    for o in r.out:
        ctx.count("paths")
        v = View(o, items)
        ef = clean(o.aux)
        if o.value.k != "adt" or o.value.a[0] != RESULT:
            ctx.bad("%s:result" % name, "%s returns %s" % (name, show(o.value, 3)))
            continue
        if o.value.a[1] == 1:
            ctx.count("failing paths")
            if ef:
                ctx.bad("%s:err-effect" % name, "%s fails after it has changed %s" % (name, ", ".join("%s of %s %s" % (".".join(e[3]), e[1], show(e[2], 3) if e[2] else "") for e in ef)))
            known_bad = v.there.get(P) is False or v.there.get(C) is False or any(isx and C in s for s in v.eq for isx in (True,))
            if not known_bad:
                ctx.bad("%s:refuses" % name, "%s refuses although parent and child exist and the child is no ancestor of the parent" % name)
            continue
        oks += 1
        # both exist
        for K, n in ((P, "parent"), (C, "child")):
            if not v.there.get(K):
                ctx.bad("%s:%s-exists" % (name, n), "%s succeeds without checking that the %s exists" % (name, n))
        # cycle guard
        A, n = P, 0
        while True:
            n += 1
            if not v.differ(A, C):
                ctx.bad("%s:cycle" % name, "%s succeeds on a path where the child was not compared with %s" % (name, "the parent" if n == 1 else "ancestor %d of the parent" % (n - 1)))
                break
            if v.there.get(A) is False:
                break
            pf = v.optf.get((A, "parent"))
            if pf is None:
                ctx.bad("%s:cycle" % name, "%s succeeds on a path that never looks at the parent of %s" % (name, "the parent" if n == 1 else "ancestor %d" % (n - 1)))
                break
            if pf is False:
                break
            A = parent_term(A, items)
            if A.depth > 32:
                break  # beyond the depth up to which chains are told apart
        deepest = max(deepest, n)
        # effects
        sets = [e for e in ef if e[0] == "write" and e[1] == kind and e[3] == ("parent",)]
        push = [e for e in ef if e[0] == "push" and e[1] == kind and e[3] == (CHILDREN[kind],)]
        rest = [e for e in ef if e not in sets and e not in push]
        if len(sets) != 1 or sets[0][2] is not C or sets[0][4] is not SOME(P):
            ctx.bad("%s:parent" % name, "%s leaves the parent of the child as %s" % (name, [show(e[4], 3) for e in sets]))
        if len(push) != 1 or push[0][2] is not P or push[0][4] is not child_value(c, kind):
            ctx.bad("%s:append" % name, "%s appends %s" % (name, ["%s to %s" % (show(e[4], 3), show(e[2], 3)) for e in push] or "nothing"))
        if kind == "processor":
            ch = [e for e in rest if e[3] == ("chain",)]
            rest = [e for e in rest if e not in ch]
            if len(ch) != 1 or ch[0][0] != "retain" or not keeps_all_but_child(c, ch[0][4], kind, C):
                ctx.bad("%s:chain" % name, "%s leaves an attached processor in the provenance chain" % name)
        old = v.optf.get((C, "parent"))
        if old is None:
            ctx.bad("%s:old" % name, "%s does not look at the old parent of the child" % name)
        elif old is False:
            if rest:
                ctx.bad("%s:extra" % name, "%s changes %s" % (name, ".".join(rest[0][3])))
        else:
            for e in rest:
                why = removal(c, e, kind, v, OLD, items)
                if why:
                    ctx.bad("%s:removal" % name, "%s %s" % (name, why))
                removed += 1
            if len(rest) > 1:
                ctx.bad("%s:removal" % name, "%s removes the child from its old parent more than once" % name)
            if not rest and v.there.get(OLD):
                # the entry was looked for and not found
                for t, x in v.other:
                    if t.k == "len" or (t.k == "lt" and t.a[1].k == "len") or any(x.k == "deep" for x in subterms(t)):
                        continue
                    ctx.bad("%s:not-removed" % name, "%s leaves the child with its old parent depending on %s" % (name, show(t, 4)))
            if not rest and v.there.get(OLD) is None:
                ctx.bad("%s:not-removed" % name, "%s does not remove the child from its old parent" % name)
    if not oks:
        ctx.bad("%s:never" % name, "%s never succeeds" % name)
    if not removed:
        ctx.bad("%s:not-removed" % name, "%s never removes the child from its old parent" % name)
    if deepest < 4:
        ctx.bad("%s:cycle-depth" % name, "%s only looks at %d ancestors" % (name, deepest))


def detach(ctx, c):
    kind, fn, name = "element", "document::Document::detach_element", "detach_element"
    items = items_of(kind)
    r = Effects()
    evaluate(c, fn, [struct(c, DOC), C], rule=r)
    ctx.count("functions evaluated")
    for k, s, f in r.panics:
        ctx.bad("%s:panic" % name, "%s may panic (%s in %s)" % (name, k, s[0]))
    OLD = parent_term(C, items)
    removed = 0
    for o in r.out:
        ctx.count("paths")
        v = View(o, items)
        ef = clean(o.aux)
        if o.value.a[1] == 1:
            if ef:
                ctx.bad("%s:err-effect" % name, "%s fails after it has changed something" % name)
            if v.there.get(C) is not False:
                ctx.bad("%s:refuses" % name, "%s refuses although the child exists" % name)
            continue
        sets = [e for e in ef if e[0] == "write" and e[3] == ("parent",)]
        rest = [e for e in ef if e not in sets]
        if len(sets) != 1 or sets[0][2] is not C or sets[0][4] is not NONE():
            # a child without a parent may be left alone
            if not (not sets and v.optf.get((C, "parent")) is False):
                ctx.bad("%s:parent" % name, "%s leaves the parent of the child as it was" % name)
        old = v.optf.get((C, "parent"))
        if old is None or (old is False and rest):
            ctx.bad("%s:old" % name, "%s does not look at the old parent of the child" % name)
        if old:
            for e in rest:
                why = removal(c, e, kind, v, OLD, items)
                if why:
                    ctx.bad("%s:removal" % name, "%s %s" % (name, why))
                removed += 1
            if not rest and v.there.get(OLD) is None:
                ctx.bad("%s:not-removed" % name, "%s does not remove the child from its old parent" % name)
            if not rest and v.there.get(OLD):
                for t, x in v.other:
                    if t.k == "len" or (t.k == "lt" and t.a[1].k == "len") or any(x.k == "deep" for x in subterms(t)):
                        continue
                    ctx.bad("%s:not-removed" % name, "%s leaves the child with its old parent depending on %s" % (name, show(t, 4)))
    if not removed:
        ctx.bad("%s:not-removed" % name, "%s never removes the child from its old parent" % name)


# ---------- adding elements with children
def shapes(c, thorough):
    """(label, element type, children) of trees of new elements mixed with text and comments"""
    leaf = ("Word", [])
    t = "text"
    S = [
        ("leaf", ("Sentence", [])),
        ("text", ("Sentence", [t])),
        ("one", ("Sentence", [leaf])),
        ("two", ("Sentence", [leaf, t, leaf])),
        ("nested", ("Paragraph", [("Sentence", [leaf, leaf]), t])),
        ("deep", ("Division", [("Paragraph", [t, ("Sentence", [leaf, t])]), ("Paragraph", [leaf])])),
    ]
    if thorough:
        S += [
            ("deeper", ("Division", [("Division", [("Paragraph", [("Sentence", [leaf]), t, ("Sentence", [leaf, leaf])])]), leaf, t, ("Division", [])])),
            ("wide", ("Sentence", [leaf, leaf, leaf, leaf])),
        ]
    return S


def build(c, tree, n):
    """ElementData value, in the form the builder makes it"""
    ty, kids = tree
    data = []
    for k in kids:
        if k == "text":
            n[0] += 1
            data.append(variant(c, DT, "Text", mk("param", "text%d" % n[0])))
        else:
            data.append(variant(c, DT, "AddElement", build(c, k, n)))
    return element(c, ty, (), data)


def tree_of(c, els, k, seen):
    """tree of a stored element; None when inconsistent"""
    e = els[k]
    kids = []
    for d in field(c, e, "data").a:
        n = vname(c, d)
        if n == "Text":
            kids.append("text")
        elif n == "Element":
            i = fint(d.a[2])
            if i is None or not (0 <= i < len(els)) or i in seen:
                return None, "the children of element %d are %s" % (k, show(d, 3))
            seen.add(i)
            p = field(c, els[i], "parent")
            if p is not SOME(INT(k)):
                return None, "element %d is a child of element %d but its parent is %s" % (i, k, show(p, 3))
            s, why = tree_of(c, els, i, seen)
            if why:
                return None, why
            kids.append(s)
        else:
            return None, "a child of the stored element is %s" % n
    return (vname(c, field(c, e, "elementtype")), kids), None


def norm(t):
    return (t[0], [k if k == "text" else norm(k) for k in t[1]])


def unslot(x):
    if x.k == "adt" and x.a[1] == 1:
        y = x.a[2]
        return y.a[0] if y.k == "box" else y
    return None


def adding(ctx, c):
    for fn, under in (("document::Document::add_element", None), ("document::Document::add_element_to", 1)):
        name = fn.rsplit("::", 1)[1]
        for label, tree in shapes(c, ctx.thorough):
            pre = variant(c, DT, "Text", mk("param", "before"))
            base = [
                element(c, "Text", (), [variant(c, DT, "Element", INT(1))], key=0),
                element(c, "Division", (), [pre], parent=0, key=1),
            ]
            d = document(c, base)
            new = build(c, tree, [0])
            args = [d, new] if under is None else [d, INT(under), new]
            r = Final()
            evaluate(c, fn, args, rule=r, max_depth=40)
            ctx.count("additions evaluated")
            for k, s, f in r.panics:
                ctx.bad("%s:panic" % name, "%s may panic (%s in %s)" % (name, k, s[0]))
            n_ok = 0
            for val, doc, facts_ in r.out:
                if val.k != "adt" or val.a[1] != 0:
                    continue
                n_ok += 1
                key = fint(val.a[2])
                raw = field(c, field(c, doc, "elementstore"), "items")
                if raw.k != "vec" or key is None:
                    raise AnalysisError("%s: the resulting document is not determined: %s" % (name, show(raw, 3)))
                els = [unslot(x) for x in raw.a]
                if any(e is None or e.k != "adt" for e in els):
                    raise AnalysisError("%s: the resulting elements are not determined" % name)
                ctx.count("resulting elements", len(els))
                where = "%s of an element (%s)" % (name, label)
                for i, e in enumerate(els):
                    if field(c, e, "key") is not SOME(INT(i)):
                        ctx.bad("%s:key" % name, "after %s the element in slot %d has key %s" % (where, i, show(field(c, e, "key"), 3)))
                got, why = tree_of(c, els, key, {key})
                if why:
                    ctx.bad("%s:structure" % name, "after %s: %s" % (where, why))
                elif got != norm(tree):
                    ctx.bad("%s:children" % name, "after %s the children are %s, expected %s" % (where, got[1], norm(tree)[1]))
                # texts in order
                order = []

                def texts(k):
                    for x in field(c, els[k], "data").a:
                        if vname(c, x) == "Text":
                            order.append(x.a[2])
                        elif vname(c, x) == "Element":
                            texts(fint(x.a[2]))

                if not why:
                    texts(key)
                    if order != sorted(order, key=lambda x: x.a[0]) or len(order) != len(set(order)):
                        ctx.bad("%s:order" % name, "after %s the text is %s" % (where, [show(x, 2) for x in order]))
                # the rest of the document
                p = field(c, els[key], "parent")
                want = NONE() if under is None else SOME(INT(under))
                if p is not want:
                    ctx.bad("%s:parent" % name, "after %s the parent of the element is %s" % (where, show(p, 3)))
                if els[0] is not base[0]:
                    ctx.bad("%s:other" % name, "%s changes an unrelated element" % where)
                d1 = field(c, els[1], "data")
                wantd = vec(pre) if under is None else vec(pre, variant(c, DT, "Element", INT(key)))
                if d1 is not wantd:
                    ctx.bad("%s:append" % name, "after %s the children of the parent are %s" % (where, show(d1, 4)))
            if not n_ok:
                ctx.bad("%s:never" % name, "%s never succeeds for an element (%s)" % (name, label))


def check(ctx):
    c = ctx.crate
    attach(ctx, c, "element", "document::Document::attach_element")
    attach(ctx, c, "processor", "document::Document::attach_processor")
    detach(ctx, c)
    adding(ctx, c)
    ctx.floor("paths", 100)
    ctx.floor("failing paths", 20)
    ctx.floor("resulting elements", 30)
