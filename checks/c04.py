"""Annotation-type names, declaration tags, layer types and element types, evaluated by constant
propagation for every AnnotationType variant (and the inverse functions for every name and for an
unconstrained string); compared with each other and with spec/reference.json."""
import json, os
from tables import *
from facts import VERIF

REF = json.load(open(os.path.join(VERIF, "spec", "reference.json")))


def check(ctx):
    c = ctx.crate
    t = c.adt(AT)
    names = {}
    ets = dict(enums(c, ET))
    at_of = {}
    for n, v in ets.items():
        at_of[n] = const_fn(c, ctx, "types::ElementType::annotationtype", [v], "annotationtype(%s)" % n)
        ctx.count("element types classified")
        if n in REF["element_annotationtype"] and at_of[n] is not NotImplemented and at_of[n] != REF["element_annotationtype"][n]:
            ctx.bad("annotationtype:%s" % n, "element %s belongs to annotation type %s, FoLiA says %s" % (n, at_of[n], REF["element_annotationtype"][n]))
    layers = const_fn(c, ctx, "types::ElementGroup::elementtypes", [dict(enums(c, EG))["Layer"]], "elementtypes(Layer)")
    for n, v in enums(c, AT):
        ctx.count("annotation types evaluated")
        s = const_fn(c, ctx, "types::AnnotationType::as_str", [v], "as_str(%s)" % n)
        if s in names.values():
            ctx.bad("name:%s" % n, "two annotation types share the name %r" % s)
        names[n] = s
        if REF["annotationtypes"].get(n, s) != s:
            ctx.bad("name:%s" % n, "annotation type %s is named %r, FoLiA names it %r" % (n, s, REF["annotationtypes"][n]))
        i = const_fn(c, ctx, "<types::AnnotationType as std::convert::Into<&str>>::into", [v], "into(%s)" % n)
        if i != s:
            ctx.bad("into:%s" % n, "Into<&str> of %s is %r, as_str is %r" % (n, i, s))
        if isinstance(s, str):
            back = {o.value for o in evaluate(c, "types::AnnotationType::from_str", [STR(s)]).out}
            if back != {SOME(v)}:
                ctx.bad("from_str:%s" % n, "from_str(%r) is %s, not %s" % (s, ", ".join(show(x, 3) for x in back), n))
            dec = evaluate(c, "parser::get_declaration_type", [STR(s + "-annotation")])
            if {o.value for o in dec.out} != {OK(v)} or dec.panics:
                ctx.bad("declaration:%s" % n, "the declaration <%s-annotation> is read as %s" % (s, ", ".join(show(o.value, 3) for o in dec.out)))
            ctx.count("declaration tags read back")
        e = const_fn(c, ctx, "types::AnnotationType::elementtype", [v], "elementtype(%s)" % n)
        if e is not NotImplemented:
            if at_of.get(e) != {"Some": n}:
                ctx.bad("elementtype:%s" % n, "primary element %s of %s belongs to %s" % (e, n, at_of.get(e)))
            if REF["annotation_elementtype"].get(n, e) != e:
                ctx.bad("elementtype:%s" % n, "primary element of %s is %s, FoLiA says %s" % (n, e, REF["annotation_elementtype"][n]))
            es = const_fn(c, ctx, "types::AnnotationType::as_element_str", [v], "as_element_str(%s)" % n)
            tag = const_fn(c, ctx, "types::ElementType::as_str", [ets[e]], "as_str(%s)" % e) if e in ets else None
            if es != tag:
                ctx.bad("element_str:%s" % n, "element name of %s is %r but its element %s is tagged %r" % (n, es, e, tag))
        l = const_fn(c, ctx, "types::AnnotationType::layertype", [v], "layertype(%s)" % n)
        if l is not NotImplemented:
            if l and l["Some"] not in layers:
                ctx.bad("layertype:%s" % n, "layer type %s of %s is not a layer element" % (l["Some"], n))
            if REF["layertype"].get(n, l) != l:
                ctx.bad("layertype:%s" % n, "layer type of %s is %s, FoLiA says %s" % (n, l, REF["layertype"][n]))
    # the span elements all have a layer to live in
    spans = const_fn(c, ctx, "types::ElementGroup::elementtypes", [dict(enums(c, EG))["Span"]], "elementtypes(Span)")
    for n in spans if isinstance(spans, list) else []:
        a = at_of.get(n)
        ctx.count("span elements checked for a layer")
        if not a or a is NotImplemented or not const_fn(c, ctx, "types::AnnotationType::layertype", [dict(enums(c, AT))[a["Some"]]], "layertype(%s)" % a["Some"]):
            ctx.bad("span-layer:%s" % n, "span element %s has no layer type" % n)
    for fn, wrap in (("types::AnnotationType::from_str", lambda s: s), ("parser::get_declaration_type", lambda s: s)):
        p = mk("param", "s")
        r = evaluate(c, fn, [p])
        for pn in r.panics:
            ctx.bad("%s:panic" % fn, "%s may panic: %s" % (fn, pn[:2]))
        for o in r.out:
            ctx.count("inverse outcomes")
            v = o.value
            if v.k != "adt" or (v.a[0] == RESULT and v.a[1] == 1) or (v.a[0] == OPTION and v.a[1] == 0):
                continue
            name = variant_name(t, v.a[2])
            eqs = [cstr(b) for x, y in o.facts.items() if x.k == "eq" and y is TRUE for b in x.a if cstr(b) is not None]
            eqs += [cstr(y) for x, y in o.facts.items() if type(y) is V and cstr(y) is not None]
            ok = names.get(name)
            if name is None or not (ok in eqs or (ok and ok + "-annotation" in eqs)):
                ctx.bad("%s:alias:%s" % (fn, name), "%s yields %s for a string compared equal to %s" % (fn, name, sorted(set(eqs))))
    for bad in ("token", "token-set", "-annotation", "nosuch-annotation", "token-annotation-x", "token_annotation", "annotation", "Token-annotation", ""):
        for o in evaluate(c, "parser::get_declaration_type", [STR(bad)]).out:
            ctx.count("non-declaration tags rejected")
            if not (o.value.k == "adt" and o.value.a[1] == 1):
                ctx.bad("declaration:accepts:%s" % bad, "<%s> is accepted as a declaration: %s" % (bad, show(o.value, 3)))
    for n in REF["annotationtypes"]:
        if n not in names:
            ctx.bad("missing:%s" % n, "annotation type %s is gone" % n)
    ctx.floor("annotation types evaluated", len(REF["annotationtypes"]))
