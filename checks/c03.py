"""Element-type <-> tag tables, evaluated by constant propagation for every ElementType variant, the
inverse for every tag and for an unconstrained string (partitioned by the equalities the code tests);
compared with spec/reference.json (FoLiA tags)."""
import json, os
from tables import *
from facts import VERIF

REF = json.load(open(os.path.join(VERIF, "spec", "reference.json")))
FROM = "<types::ElementType as std::str::FromStr>::from_str"


def check(ctx):
    c = ctx.crate
    t = c.adt(ET)
    tags = {}
    for n, v in enums(c, ET):
        tag = const_fn(c, ctx, "types::ElementType::as_str", [v], "as_str(%s)" % n)
        if tag is NotImplemented:
            continue
        ctx.count("element types evaluated")
        if not isinstance(tag, str) or not tag:
            ctx.bad("tag:%s" % n, "element type %s has no tag" % n)
            continue
        if tag in tags.values():
            ctx.bad("tag:%s" % n, "tag <%s> denotes both %s and %s" % (tag, [k for k in tags if tags[k] == tag][0], n))
        tags[n] = tag
        if n in REF["tags"] and REF["tags"][n] != tag:
            ctx.bad("tag:%s" % n, "element type %s is named <%s>, FoLiA names it <%s>" % (n, tag, REF["tags"][n]))
        back = evaluate(c, FROM, [STR(tag)])
        vals = {o.value for o in back.out}
        if vals != {OK(v)} or back.panics:
            ctx.bad("from_str:%s" % n, "reading the tag <%s> written for %s gives %s" % (tag, n, ", ".join(show(x, 3) for x in vals)))
        ctx.count("tags read back")
        # Display is what serialisation and error messages use
        for d in display_text(c, "<types::ElementType as std::fmt::Display>::fmt", v):
            if d is not STR(tag):
                ctx.bad("display:%s" % n, "Display of %s writes %s instead of its tag %r" % (n, show(d) if d else "nothing", tag))
        ctx.count("displayed names")
    for n in REF["tags"]:
        if n not in tags:
            ctx.bad("missing:%s" % n, "element type %s has no entry" % n)
    # an arbitrary string: accepted only if it was compared equal to the tag of the result
    p = mk("param", "s")
    r = evaluate(c, FROM, [p])
    for pn in r.panics:
        ctx.bad("from_str:panic", "from_str may panic: %s" % (pn[:2],))
    for o in r.out:
        ctx.count("from_str outcomes")
        if o.value.k == "adt" and o.value.a[0] == RESULT and o.value.a[1] == 1:
            continue
        name = variant_name(t, o.value.a[2]) if o.value.k == "adt" and o.value.a[0] == RESULT else None
        eqs = [s for x, s in eq_facts(o, p)]
        if name is None:
            ctx.bad("from_str:opaque", "from_str accepts a string with an undetermined element type")
        elif tags.get(name) not in eqs:
            ctx.bad("from_str:alias:%s:%s" % (name, ",".join(sorted(set(eqs)))), "from_str yields %s for %r, which is not its tag" % (name, eqs))
    ctx.floor("element types evaluated", len(REF["tags"]))
