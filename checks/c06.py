"""The FoLiA specification table: `Properties::new` is evaluated by constant propagation to a constant
structure for every ElementType variant and compared, field by field (lists as sets), with
spec/reference.json and with the tag/annotation-type tables; ElementGroup membership likewise."""
import json, os
from tables import *
from facts import VERIF

REF = json.load(open(os.path.join(VERIF, "spec", "reference.json")))


def norm(x):
    return sorted(map(json.dumps, x)) if isinstance(x, list) else x


def check(ctx):
    c = ctx.crate
    props = {}
    for n, v in enums(c, ET):
        p = const_fn(c, ctx, "specification::Properties::new", [v], "properties(%s)" % n)
        if p is NotImplemented:
            continue
        ctx.count("element types evaluated")
        props[n] = p
        ref = REF["properties"].get(n)
        if ref is None:
            continue
        for f in ref:
            ctx.count("fields compared")
            if f not in p:
                ctx.bad("properties:%s.%s" % (n, f), "property %s of %s is gone" % (f, n))
            elif norm(p[f]) != norm(ref[f]):
                ctx.bad("properties:%s.%s" % (n, f), "%s of %s is %s, FoLiA says %s" % (f, n, json.dumps(p[f])[:150], json.dumps(ref[f])[:150]))
        for f in ("accepted_data", "required_data", "required_attribs", "optional_attribs"):
            if isinstance(p.get(f), list) and len(set(norm(p[f]))) != len(p[f]):
                ctx.bad("properties:%s.%s:dup" % (n, f), "%s of %s lists an entry twice" % (f, n))
        at = const_fn(c, ctx, "types::ElementType::annotationtype", [v], "annotationtype(%s)" % n)
        if at is not NotImplemented and at != p["annotationtype"]:
            ctx.bad("annotationtype:%s" % n, "specification and type table disagree on the annotation type of %s: %s / %s" % (n, p["annotationtype"], at))
    members = {}
    ets = enums(c, ET)
    for g, gv in enums(c, EG):
        m = const_fn(c, ctx, "types::ElementGroup::elementtypes", [gv], "elementtypes(%s)" % g)
        if m is NotImplemented:
            continue
        members[g] = m
        ctx.count("groups evaluated")
        if g in REF["groups"] and sorted(m) != sorted(REF["groups"][g]):
            d = set(m) ^ set(REF["groups"][g])
            ctx.bad("group:%s" % g, "group %s differs from FoLiA's in %s" % (g, sorted(d)))
        for n, v in ets:
            ctx.count("memberships evaluated")
            for fn, args in (("types::ElementGroup::contains", [gv, v]), ("types::ElementType::is_in_group", [v, gv])):
                x = const_fn(c, ctx, fn, args, "%s(%s,%s)" % (fn, g, n))
                if x is not NotImplemented and bool(x) != (n in m):
                    ctx.bad("%s:%s:%s" % (fn, g, n), "%s says %s for %s in %s" % (fn, bool(x), n, g))
    for n in REF["properties"]:
        if n not in dict(ets):
            ctx.bad("missing:%s" % n, "element type %s is gone" % n)
    # the document hands out the table entry of the element type asked for, for every element type
    ins = []

    class R(Collect):
        def on_call(self, I, st, call):
            if call.path.startswith("std::collections::HashMap") and call.path.endswith("::insert"):
                ins.append((I.content(st, call.args[1]), I.freeze(st, I.content(st, call.args[2]))))
            return None

    evaluate(c, "<specification::Specification as std::default::Default>::default", [], rule=R())
    for k, v in ins:
        ctx.count("table insertions checked")
        try:
            k, v = pyval(c, k), pyval(c, v)
        except AnalysisError as e:
            ctx.bad("table:entry", "the specification table is filled with an undetermined entry (%s)" % e)
            continue
        if v != props.get(k):
            ctx.bad("table:entry:%s" % k, "the specification table stores other properties under %s than its own" % k)
    have = {pyval(c, k) for k, v in ins if k.k == "adt"}
    for n, _ in ets:
        if n not in have:
            ctx.bad("table:missing:%s" % n, "the specification table has no entry for %s" % n)
    look = []

    class G(Collect):
        def on_call(self, I, st, call):
            if call.path.startswith("std::collections::HashMap") and call.path.endswith(("::get", "::index")):
                look.append(I.content(st, call.args[1]))
            return None

    et = mk("param", "elementtype")
    g = evaluate(c, "specification::Specification::get", [mk("param", "self"), et], rule=G())
    ctx.count("table lookups", len(look))
    if not look or any(x is not et for x in look):
        ctx.bad("table:lookup", "the specification is looked up under another key than the element type asked for")
    ctx.floor("element types evaluated", len(REF["properties"]))
    ctx.floor("groups evaluated", len(REF["groups"]))
