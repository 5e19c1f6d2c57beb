"""Evaluate the crate's constant tables by constant propagation."""
from ev import *
from facts import AnalysisError

ET = "types::ElementType"
AT = "types::AnnotationType"
EG = "types::ElementGroup"
AB = "attrib::AttribType"


def pyval(c, v, lim=12):
    """abstract constant -> python structure; enums of the crate by variant name; None if not constant"""
    if lim == 0:
        raise AnalysisError("value too deep")
    k = v.k
    if k == "int":
        return v.a[0]
    if k in ("str", "bytes"):
        return v.a[0]
    if k == "frozen":
        return pyval(c, v.a[0], lim)
    if k in ("arr", "vec", "tup"):
        return [pyval(c, x, lim - 1) for x in v.a]
    if k == "box" or k == "boxptr":
        return pyval(c, v.a[0], lim - 1)
    if k == "adt":
        p, i = v.a[0], v.a[1]
        if p == OPTION:
            return None if i == 0 else {"Some": pyval(c, v.a[2], lim - 1)}
        t = c.adt(p)
        n = t["vs"][i]["n"]
        if len(v.a) == 2:
            return n
        fs = t["vs"][i]["f"]
        names = [f[0] for f in fs]
        if all(x.isdigit() for x in names):
            return [n] + [pyval(c, x, lim - 1) for x in v.a[2:]]
        return {x: pyval(c, y, lim - 1) for x, y in zip(names, v.a[2:])}
    raise AnalysisError("not a constant: %s" % show(v, 3))


def variants(c, path):
    return [v["n"] for v in c.adt(path)["vs"]]


def const_fn(c, ctx, key, args, label):
    """python value of a total constant function application, or report"""
    r = evaluate(c, key, args)
    vals = {o.value for o in r.out}
    if r.panics:
        ctx.bad("%s:panics" % label, "%s may panic: %s" % (label, r.panics[0][:2],))
    if len(vals) != 1:
        ctx.bad("%s:undetermined" % label, "%s has no single constant value (%d abstract results)" % (label, len(vals)))
        return NotImplemented
    try:
        return pyval(c, vals.pop())
    except AnalysisError as e:
        ctx.bad("%s:undetermined" % label, "%s: %s" % (label, e))
        return NotImplemented


def enums(c, path):
    t = c.adt(path)
    return [(v["n"], enum_value(t, i)) for i, v in enumerate(t["vs"])]


def eq_facts(o, p):
    """constants the outcome's facts equate (directly or through a derived string) with a term over p"""
    out = []
    for t, v in o.facts.items():
        if type(v) is V and cstr(v) is not None and p in set(subterms(t)):
            out.append((t, cstr(v)))
        if t.k == "eq" and v is TRUE:
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if cstr(b) is not None and p in set(subterms(a)):
                    out.append((a, cstr(b)))
    return out


def cstr(v):
    if v.k in ("str", "bytes"):
        return v.a[0]
    if v.k in ("opaque", "frozen", "ref", "deref"):
        return cstr(v.a[0]) if type(v.a[0]) is V else None
    return None


def display_text(c, key, v):
    """set of abstract texts `<T as Display>::fmt` writes for value v; None entry when it may fail or panic"""
    r = Collect()
    out = set()

    def ret(I, st, val):
        b = st.mem.get(("h", "arg1"))
        ok = val.k == "adt" and val.a[0] == RESULT and val.a[1] == 0
        out.add(I.freeze(st, cat_pieces(list(b.a))) if ok and b is not None and b.k == "fmtbuf" else None)

    r.on_return = ret
    r.on_panic = lambda I, st, kind, info: out.add(None)
    evaluate(c, key, [v, mk("fmtbuf")], rule=r)
    return out


def cat_pieces(ps):
    import models

    return models.cat(ps)
