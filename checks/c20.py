"""What may be added where. For every element type as parent and every element type as child (all pairs), check_element_addable is
evaluated on a document obtained by evaluating the reader, with the element specification evaluated to a complete map, and must
accept exactly the pairs that the specification (spec/reference.json) accepts, by type or by group. annotate is evaluated
for every pair (span annotation on structure, which goes into a layer, apart): a pair that is not accepted must be refused with
the document left as it was; one that is accepted must give a new element of that type as last child of that parent and change
nothing else. Nothing is executed: abstract interpretation of the crate's MIR; every call must have one outcome and not panic."""
import models
from checks.c13 import AT_OF, GROUPS, N, P, PROPS, TAG, Node, spec
from roundtrip import *
from walk import *


def accepted(parent, child):
    return any(v == child if k == "AcceptElementType" else child in GROUPS[v] for k, v in PROPS[parent]["accepted_data"])


def state(c, doc):
    """everything about the elements: what is stored and in which order, and the ID index"""
    v = DocView(c, doc)
    info = {k.a[0]: (ty, tuple((n, shown(x)) for n, x in at), tuple((n, shown(x)) for n, x in data), up and up.a[0]) for k, (ty, at, data, up) in v.info.items()}
    return info, {shown(k): shown(x) for k, x in v.index.items()}, len([e for e in v.els if opt_(e) is not None]), (v.declarations, v.provenance)


def run(job):
    c, label, parent, kids = job
    bad, n = [], {}
    body = Node(TAG[parent], [("xml:id", P("pid"))]) if parent in ("Text", "Speech") else Node("text", [("xml:id", P("bodyid"))], [Node(TAG[parent], [("xml:id", P("pid"))] if parent != "WordReference" else []), N("w", xml__id="wid")])
    if parent == "WordReference":
        body = Node("text", [("xml:id", P("bodyid"))], [N("w", xml__id="wid"), N("entities", N("entity", N("wref", id="wid")))])
    s = spec(body)
    ok, err = results(read(c, script(s), assumptions(s)))
    if len(ok) != 1 or err:
        return [("read:%s" % label, "the document (%s) is not read: %s" % (label, [show(e.value, 6)[:200] for e in err]))], n
    doc = ok[0].value.a[2]
    W = World(c, doc, ok[0].facts, spec=True)
    before = state(c, doc)
    key = next(k for k in sorted(before[0]) if before[0][k][0] == parent)
    for child in kids:
        want = accepted(parent, child)
        n["pairs"] = n.get("pairs", 0) + 1
        saved = W.save()
        d = element(c, child)
        try:
            r = W.content(W.call("document::Document::check_element_addable", W.doc, INT(key), W.place("d", d)))
            if (r.a[1] == 0) != want:
                bad.append(("addable:%s:%s" % (parent, child), "check_element_addable %s a %s in a %s, the specification %s" % ("accepts" if r.a[1] == 0 else "refuses", child, parent, "accepts it" if want else "does not")))
        except Undecided as e:
            bad.append(("undecided:addable:%s:%s" % (parent, child), "%s in %s: %s" % (child, parent, e)))
        W.restore(saved)
        if child in GROUPS["Span"] and (PROPS[parent]["wrefable"] or parent in GROUPS["Structure"]) or child == "WordReference" and want:
            continue
        n["annotate calls"] = n.get("annotate calls", 0) + 1
        try:
            r = W.content(W.call("document::Document::annotate", W.doc, INT(key), d))
            after = state(c, W.content(W.doc))
        except (Undecided, Bad) as e:
            bad.append(("undecided:annotate:%s:%s" % (parent, child), "annotating a %s with a %s: %s" % (parent, child, e)))
            W.restore(saved)
            continue
        if (r.a[1] == 0) != want:
            bad.append(("annotate:%s:%s" % (parent, child), "annotate %s a %s in a %s, the specification %s" % ("accepts" if r.a[1] == 0 else "refuses", child, parent, "accepts it" if want else "does not")))
        elif not want:
            if after != before:
                bad.append(("refused-changes:%s:%s" % (parent, child), "annotate refuses a %s in a %s but changes the document: %s" % (child, parent, differ(before, after))))
        else:
            new = un(strip(r.a[2]))
            ex = dict(before[0])
            ty, at, data, up = ex[key]
            ex[key] = (ty, at, data + (("Element", shown(new)),), up)
            ex[new.a[0] if new.k == "int" else None] = (child, (), (), key)
            d_ = differ((ex,) + before[1:2] + (before[2] + 1,) + before[3:], after)
            if d_:
                bad.append(("annotate-result:%s:%s" % (parent, child), "annotating a %s with a %s: %s" % (parent, child, d_)))
        W.restore(saved)
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    spec_table(c)
    types = sorted(TAG)
    if {v["n"] for v in c.adt("types::ElementType")["vs"]} != set(types):
        ctx.bad("types", "the element types are not those of the reference specification")
    run_shapes(ctx, run, [(c, p, p, types) for p in types])
    ctx.floor("pairs", 14000)
    ctx.floor("annotate calls", 10000)
