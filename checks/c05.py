"""Attribute tables. Every Attribute variant, with an unconstrained payload, is pushed (by constant
propagation) through attribtype/Into<&str>/to_string/Display and back through Attribute::parse with that
name and that text; parse is also evaluated for an unconstrained name (partitioned by the bytes the code
tests). The specification's attribute lists must be covered by the reader."""
import json, os
from tables import *
from facts import VERIF

REF = json.load(open(os.path.join(VERIF, "spec", "reference.json")))
NAME = "<attrib::AttribType as std::convert::Into<&str>>::into"
FMT_FULL = ("%Y-%m-%dT%H:%M:%S", "%FT%T", "%Y-%m-%dT%T", "%FT%H:%M:%S")
REFS = {"DeclarationRef": "Set", "ClassRef": "Class", "ProcessorRef": "Processor", "SubsetRef": "Subset"}


class P(Collect):
    """Attribute::parse with the decoded attribute value given"""

    def __init__(self, val):
        Collect.__init__(self)
        self.val = val
        self.decoded = 0

    def on_call(self, I, st, call):
        if call.path.endswith("::unescape_and_decode_value") or call.path.endswith("::unescape_and_decode"):
            self.decoded += 1
            return [(st, OK(self.val))]
        return None


def payloads(c, vs):
    """representative abstract payloads of a variant: all values of small types, a parameter otherwise"""
    if not vs["f"]:
        return [None]
    t = c.types[vs["f"][0][1]]
    if t["k"] == "bool":
        return [TRUE, FALSE]
    if t["k"] == "adt" and t.get("enum") and t.get("local"):
        return [v for _, v in enums(c, t["path"])]
    return [mk("param", "payload")]


def same_payload(c, ty, p, q, text):
    """does reading `text` (as evaluated) restore payload p of type ty?"""
    if p is None or q is p:
        return True
    s = c.types[ty]["s"]
    while q.k in ("fld", "dc", "variant"):  # result of a fallible parse
        q = q.a[0]
    if text.k == "show" or (text.k == "cat" and len(text.a) == 1):
        sh = text if text.k == "show" else text.a[0]
    else:
        return False
    if q.k != "call":
        return False
    if text not in set(subterms(q)):
        return False
    if "parse_from_str" in q.a[1]:
        fm = [x for x in subterms(sh) if x.k == "call" and x.a[1].endswith("::format")]
        a = [cstr(x) for x in q.a[2:] if cstr(x)]
        b = [cstr(x) for f in fm for x in f.a[2:] if cstr(x)]
        return len(a) == 1 and a == b and a[0] in FMT_FULL and p in set(subterms(sh))
    return "FromStr for %s" % s in q.a[1] and sh.a[0] == "disp" and sh.a[1] == s and sh.a[2] is p


def check(ctx):
    c = ctx.crate
    att = c.adt("attrib::Attribute")
    parse = [k for k in c.bodies if k.startswith("attrib::Attribute::parse::<") and "closure" not in k and "promoted" not in k]
    if not parse:
        raise AnalysisError("anchor function attrib::Attribute::parse not found")
    names = {}
    for n, v in enums(c, AB):
        s = const_fn(c, ctx, NAME, [v], "name(%s)" % n)
        ctx.count("attribute types evaluated")
        if s in names.values():
            ctx.bad("name:%s" % n, "two attribute types are written as %r" % s)
        names[n] = s
        if REF["attribtypes"].get(n, s) != s:
            ctx.bad("name:%s" % n, "attribute type %s is written as %r, FoLiA names it %r" % (n, s, REF["attribtypes"][n]))
        for d in display_text(c, "<attrib::AttribType as std::fmt::Display>::fmt", v):
            if d is None or d is not STR(s):
                ctx.bad("typedisplay:%s" % n, "Display of attribute type %s does not write its name (it writes %s)" % (n, show(d, 3) if d else "nothing, or recurses"))
                break
    t2 = c.types[c.bodies[parse[0]]["locals"][2]]
    apath = c.types[t2["e"]]["path"]

    def read(pk, key, val):
        r = P(val)
        evaluate(c, pk, [mk("param", "reader"), mk("adt", apath, 0, key, mk("param", "raw"))], rule=r)
        return r

    byname = {}
    for i, vs in enumerate(att["vs"]):
        n = vs["n"]
        ctx.count("attribute variants")
        for p in payloads(c, vs):
            val = mk("adt", att["path"], i, p) if p is not None else mk("adt", att["path"], i)
            at = const_fn(c, ctx, "attrib::Attribute::attribtype", [val], "attribtype(%s)" % n)
            enc = const_fn(c, ctx, "attrib::Attribute::encodable", [val], "encodable(%s)" % n)
            dec = const_fn(c, ctx, "attrib::Attribute::decodable", [val], "decodable(%s)" % n)
            if bool(dec) != (n in REFS) or bool(enc) != (n in REFS.values()):
                ctx.bad("encoding:%s" % n, "%s: encodable=%s decodable=%s" % (n, enc, dec))
            byname.setdefault(n, at)
            r = evaluate(c, "attrib::Attribute::to_string", [val])
            texts = [o.value for o in r.out]
            if r.panics:
                ctx.bad("to_string:%s:panic" % n, "the text of attribute %s may panic" % n)
            if n in REFS or n == "Ignore":
                if not all(x.k == "adt" and x.a[1] == 1 for x in texts):
                    ctx.bad("to_string:%s" % n, "%s has no textual form but to_string gives %s" % (n, [show(x, 3) for x in texts]))
                continue
            if len(set(texts)) != 1 or texts[0].k != "adt" or texts[0].a[1] != 0:
                ctx.bad("to_string:%s" % n, "attribute %s has no single textual form: %s" % (n, [show(x, 3) for x in texts][:3]))
                continue
            text = texts[0].a[2]
            dt = display_text(c, "<attrib::Attribute as std::fmt::Display>::fmt", val)
            if dt != {text}:
                ctx.bad("display:%s" % n, "attribute %s is displayed as %s but its text is %s" % (n, [show(x, 3) if x else None for x in dt], show(text, 3)))
            st = evaluate(c, "attrib::Attribute::as_str", [val])
            for o in st.out:
                if o.value.k == "adt" and o.value.a[1] == 0:
                    x = o.value.a[2]
                    x = x.a[0] if x.k in ("frozen", "refto") else x
                    if x is not text:
                        ctx.bad("as_str:%s" % n, "as_str of %s is %s but its text is %s" % (n, show(x, 3), show(text, 3)))
            if at is NotImplemented:
                continue
            for pk in parse:
                b = read(pk, mk("bytes", names[at].encode()), text)
                ctx.count("attributes written and read back")
                oks = [o for o in b.out if o.value.k == "adt" and o.value.a[1] == 0]
                errs = [o for o in b.out if o.value.k == "adt" and o.value.a[1] == 1]
                good = [o for o in oks if o.value.a[2].k == "adt" and o.value.a[2].a[1] == i and (p is None or same_payload(c, vs["f"][0][1], p, o.value.a[2].a[2], text))]
                fallible = p is not None and p.k == "param" and c.types[vs["f"][0][1]]["s"] != "std::string::String"
                if b.panics or len(good) != len(oks) or not good or (errs and not fallible):
                    ctx.bad("read:%s" % n, "%s=%s written for Attribute::%s is read as %s" % (names[at], show(text, 3), n, [show(o.value, 4) for o in b.out][:3]))
    for r, plain in REFS.items():
        if byname.get(r) is not None and byname.get(r) != byname.get(plain):
            ctx.bad("encoding:%s" % r, "%s and %s have different attribute types" % (r, plain))
    # an arbitrary attribute name
    accepted = set()
    for pk in parse:
        key = mk("param", "key")
        r = P(mk("param", "val"))
        evaluate(c, pk, [mk("param", "reader"), mk("adt", apath, 0, key, mk("param", "raw"))], rule=r, cap=4000)
        import models

        for o in r.out:
            v = o.value
            if v.k != "adt" or v.a[1] == 1:
                continue
            ctx.count("accepting outcomes for an arbitrary name")
            vn = att["vs"][v.a[2].a[1]]["n"] if v.a[2].k == "adt" else None
            k = models.known_bytes(r.I, o.st, key)
            k = k or models.known_bytes(r.I, o.st, mk("deref", key))
            if vn is None:
                ctx.bad("parse:opaque", "parse accepts a name with an undetermined attribute")
            elif vn == "Ignore":
                continue
            elif k is None:
                ctx.bad("parse:anyname:%s" % vn, "parse yields %s without testing the whole attribute name" % vn)
            else:
                accepted.add(byname[vn])
                if names.get(byname[vn]) != k.a[0]:
                    ctx.bad("parse:alias:%s:%s" % (vn, k.a[0]), "attribute %r is read as %s, which is written as %r" % (k.a[0], vn, names.get(byname[vn])))
    for n, v in enums(c, ET):
        p = const_fn(c, ctx, "specification::Properties::new", [v], "properties(%s)" % n)
        if p is NotImplemented:
            continue
        ctx.count("element types checked for readable attributes")
        for a in p["required_attribs"] + p["optional_attribs"]:
            if a not in accepted:
                ctx.bad("unreadable:%s" % a, "the specification allows attribute %r (on %s) but the reader rejects it" % (names.get(a), n))
    ctx.floor("attribute variants", 33)
    ctx.floor("accepting outcomes for an arbitrary name", 28)
