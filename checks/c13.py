"""Elements, attributes and text through reading and writing. Documents whose body has many shapes (every element type,
every attribute, all small trees of elements, text and comments, mixed text content, sets, classes and processors given or
defaulted, features, span annotation), with unconstrained parameters for all strings, are given to the reader as quick-xml
events; the element store must then hold exactly that tree, with encoded attributes resolved through the declarations. The
writer is evaluated on it; the events must be well-formed and lead the reader to the same tree. Nothing is executed: both
directions are abstract interpretation of the crate's MIR, partitioned by path; every path must succeed (except that a
comment containing --> cannot be written)."""
import json, os
import models, facts
from roundtrip import *

REF = json.load(open(os.path.join(facts.VERIF, "spec", "reference.json")))
TAG = REF["tags"]
TYPE = {t: e for e, t in TAG.items()}
AT_OF = {e: (v or {}).get("Some") for e, v in REF["element_annotationtype"].items()}
ATNAME = REF["annotationtypes"]
GROUPS = REF["groups"]
STRATTR = {"n": "N", "src": "Src", "speaker": "Speaker", "textclass": "Textclass", "metadata": "Metadata", "begintime": "BeginTime", "endtime": "EndTime",
           "xlink:href": "Href", "xlink:type": "XLinkType", "format": "Format", "t": "Text", "type": "Type", "auth": "Auth", "ref": "Ref", "original": "Original",
           "pagenr": "PageNr", "tag": "Tag", "id": "Idref", "annotator": "Annotator"}
VARIANT = dict(STRATTR, **{"xml:id": "Id", "set": "Set", "class": "Class", "processor": "Processor", "subset": "Subset", "space": "Space", "newpage": "NewPage", "annotatortype": "AnnotatorType"})


PROPS = REF["properties"]


def shortcuts(e):
    """attribute names that stand for a feature of element type e"""
    out = []
    for k, v in PROPS[e]["accepted_data"]:
        if k == "AcceptElementType" and v in GROUPS["Feature"]:
            n = (PROPS[v].get("subset") or {}).get("Some") if isinstance(PROPS[v].get("subset"), dict) else None
            if n and n not in VARIANT:
                out.append(n)
    return out


def N(tag, *kids, **attrs):
    a = [(k.replace("__", ":").rstrip("_"), P(v) if isinstance(v, str) else v) for k, v in attrs.items()]
    return Node(tag, a, list(kids))


def T(n):
    return ("text", P(n))


def C(n):
    return ("comment", P(n))


def walk(n):
    yield n
    for k in n.children:
        if isinstance(k, Node):
            yield from walk(k)


def spec(body, decls=(), procs=(), **k):
    s = Spec(decls=list(decls), procs=list(procs), **k)
    s.body = body if body.tag in ("text", "speech") and isinstance(body, Node) else Node("text", [("xml:id", P("bodyid"))], [body])
    ids, cls, subs = [], {}, {}
    for n in walk(s.body):
        a = dict(n.attrs)
        if "xml:id" in a:
            ids.append(a["xml:id"])
        for x in n.children:
            if not isinstance(x, Node) and x[1] not in s.nonblank:
                s.nonblank.append(x[1])
        for nm, d in (("class", cls), ("subset", subs)):
            if nm in a:
                d[a[nm]] = 1
        for k in a:
            if k not in VARIANT:
                cls[a[k]] = 1
                subs[STR(k)] = 1
                s.nonblank.append(a[k])
    s.distinct = [ids, list(cls), list(subs), [d[2] for d in s.decls if d[2] is not None], [p[0]["xml:id"] for p in flat(s.procs)]]
    s.distinct = [list(dict.fromkeys(g)) for g in s.distinct]
    return s


def flat(procs):
    for p in procs:
        yield p
        yield from flat(p[1])


def proc(n, kids=()):
    a = {"xml:id": P(n), "name": P(n + ".name"), "type": STR("auto")}
    return (a, list(kids))


def decl(at, st="set", ann=()):
    return (ATNAME[at], at, P(st) if st else None, None, None, [P(x) for x in ann])


def trees(n):
    """ordered trees of n nodes; leaves may be text or comments; no two texts next to each other"""
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for rest in trees(n - k):
            if k == 1:
                if not (rest and rest[0] == "T"):
                    out.append(("T",) + rest)
                out.append(("C",) + rest)
                out.append((("E", ()),) + rest)
            else:
                for kids in trees(k - 1):
                    out.append((("E", kids),) + rest)
    return out


def grow(f, depth=0, cnt=None):
    cnt = cnt if cnt is not None else [0]
    out = []
    for x in f:
        cnt[0] += 1
        i = cnt[0]
        if x == "T":
            out.append(T("text%d" % i))
        elif x == "C":
            out.append(C("comment%d" % i))
        else:
            out.append(Node(MARK[depth % len(MARK)], [("xml:id", P("id%d" % i))], grow(x[1], depth + 1, cnt)))
    return out


MARK = ["t-style", "comment", "t-str"]
OUTER = ["div", "p", "s", "w"]


def outer(f, depth=0, cnt=None):
    cnt = cnt if cnt is not None else [0]
    out = []
    for x in f:
        cnt[0] += 1
        i = cnt[0]
        if x == "C":
            out.append(C("comment%d" % i))
        elif x != "T":
            out.append(Node(OUTER[min(depth, 3)], [("xml:id", P("id%d" % i))], outer(x[1], depth + 1, cnt)))
    return out


def shapes(thorough):
    yield "empty body", spec(Node("text", [("xml:id", P("bodyid"))]))
    yield "empty speech body", spec(Node("speech", [("xml:id", P("bodyid"))]))
    yield "speech body", spec(Node("speech", [("xml:id", P("bodyid"))], [N("utt", N("ph", T("phon")), xml__id="u")]))
    special = ("WordReference", "Text", "Speech", "Feature")
    plain = [e for e in sorted(TAG) if e not in special]
    for i in range(0, len(plain), 6):
        ch = plain[i : i + 6]
        nm = ", ".join(TAG[e] for e in ch)
        yield "empty %s" % nm, spec(Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], [("xml:id", P("id%d" % j))]) for j, e in enumerate(ch)]))
        yield "%s with content" % nm, spec(Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], [("xml:id", P("id%d" % j))], [C("c%d" % j), N("comment", C("d%d" % j))]) for j, e in enumerate(ch)]))
        yield "%s with text" % nm, spec(Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], [("xml:id", P("id%d" % j))], [T("t%d" % j)]) for j, e in enumerate(ch)]))
        yield "%s amid text" % nm, spec(Node("text", [("xml:id", P("bodyid"))], [N("w", Node("t", [], [x for j, e in enumerate(ch) for x in (T("t%d" % j), Node(TAG[e], [("xml:id", P("id%d" % j))], [Node(TAG[e], [])]))] + [T("last")]))]))
        an = [e for e in ch if AT_OF[e]]
        ats = list(dict.fromkeys(AT_OF[e] for e in an))
        if an:
            yield "%s with set and class" % nm, spec(
                Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], [("xml:id", P("id%d" % j)), ("set", P("set")), ("class", P("class%d" % j))]) for j, e in enumerate(an)]), [decl(a) for a in ats])
    for k in STRATTR:
        yield "attribute %s" % k, spec(Node("w", [("xml:id", P("wid")), (k, P("value"))]))
    yield "all attributes", spec(Node("w", [("xml:id", P("wid"))] + [(k, P("v" + k)) for k in STRATTR]))
    for k, v in (("space", "yes"), ("space", "no"), ("newpage", "yes"), ("newpage", "no"), ("annotatortype", "auto"), ("annotatortype", "manual")):
        yield "attribute %s=%s" % (k, v), spec(Node("w", [("xml:id", P("wid")), (k, STR(v))]))
    # trees: inside text content every text counts; outside, layout is added
    size = 6 if thorough else 5
    inner, struc, seen = [], [], set()
    for n in range(1, size):
        for f in trees(n):
            inner.append(f)
            o = outer(f)
            key = repr([shown_node(x) for x in o])
            if o and key not in seen:
                seen.add(key)
                struc.append(f)
    k = 8
    for i in range(0, len(inner), k):
        cnt = [0]
        yield "text content, shapes %d-%d" % (i, i + k - 1), spec(Node("text", [("xml:id", P("bodyid"))], [N("w", Node("t", [], grow(f, 0, cnt)), xml__id="w%d" % j) for j, f in enumerate(inner[i : i + k])]))
    for i in range(0, len(struc), k):
        cnt = [0]
        yield "structure, shapes %d-%d" % (i, i + k - 1), spec(Node("text", [("xml:id", P("bodyid"))], [Node("div", [("xml:id", P("x%d" % j))], outer(f, 0, cnt)) for j, f in enumerate(struc[i : i + k])]))
    for i, f in enumerate(struc[: 40 if thorough else 12]):
        yield "body structure %d" % i, spec(Node("text", [("xml:id", P("bodyid")), ("src", P("bodysrc"))], outer(f)))
    yield "two text contents", spec(N("w", N("t", T("a")), N("t", T("b"), class_="cls"), xml__id="w"), [decl("TEXT")])
    yield "cdata", spec(N("w", Node("t", [], [("cdata", P("cd"))]), xml__id="w"))
    yield "text around markup", spec(N("w", Node("t", [], [T("a"), N("t-style", T("b")), T("c")]), N("pos", class_="x"), xml__id="w"), [decl("POS")])
    # sets, classes, processors
    for e in ("pos", "lemma", "sense"):
        at = AT_OF[TYPE[e]]
        yield "%s: class only, one declaration" % e, spec(N("w", N(e, class_="x"), xml__id="w"), [decl(at)])
        yield "%s: set only" % e, spec(N("w", N(e, set="set"), xml__id="w"), [decl(at)])
        yield "%s: no attributes" % e, spec(N("w", N(e), xml__id="w"), [decl(at)])
        yield "%s: two sets" % e, spec(N("w", N(e, class_="x", set="set"), N(e, class_="x", set="set2"), xml__id="w"), [decl(at), decl(at, "set2")])
        yield "%s: same and different classes" % e, spec(Node("text", [("xml:id", P("b"))], [N("w", N(e, class_="x"), xml__id="w1"), N("w", N(e, class_="y"), xml__id="w2"), N("w", N(e, class_="x"), xml__id="w3")]), [decl(at)])
        yield "%s: declaration without set" % e, spec(N("w", N(e, class_="x"), xml__id="w"), [decl(at, None)])
        yield "%s: default processor" % e, spec(N("w", N(e, class_="x"), xml__id="w"), [decl(at, "set", ["p0"])], [proc("p0")])
        yield "%s: explicit processor" % e, spec(N("w", N(e, class_="x", processor="p0"), xml__id="w"), [decl(at, "set", ["p0"])], [proc("p0")])
        yield "%s: one of two processors" % e, spec(N("w", N(e, class_="x", processor="p1"), xml__id="w"), [decl(at, "set", ["p0", "p1"])], [proc("p0"), proc("p1")])
        yield "%s: no processor among two" % e, spec(N("w", N(e, class_="x"), xml__id="w"), [decl(at, "set", ["p0", "p1"])], [proc("p0"), proc("p1")])
        yield "%s: subprocessor" % e, spec(N("w", N(e, class_="x", processor="p1"), xml__id="w"), [decl(at, "set", ["p0", "p1"])], [proc("p0", [proc("p1")])])
        yield "%s: two sets with processors" % e, spec(
            N("w", N(e, class_="x", set="set", processor="p0"), N(e, class_="x", set="set2", processor="p1"), xml__id="w"), [decl(at, "set", ["p0"]), decl(at, "set2", ["p1"])], [proc("p0"), proc("p1")])
        yield "%s: everything" % e, spec(N("w", N(e, C("c"), xml__id="e", class_="x", set="set", processor="p0", n="n", src="src"), xml__id="w"), [decl(at, "set", ["p0", "p1"])], [proc("p0"), proc("p1")])
    # every combination of declared sets and annotators, for elements with and without set, class and processor
    for sets in ([None], ["set"], [None, "set"], ["set", None], ["set", "set2"], [None, "set", "set2"], ["set", "set2", None]):
        for ann in ([], ["p0"], ["p0", "p1"], ["p1", "p0"]):
            els = []
            for st in sets:
                for cl in ("x", "y", None) if st else ("x", None):
                    for pr in [None] + ann:
                        a = {}
                        if st:
                            a["set"] = st
                        if cl:
                            a["class_"] = cl
                        if pr:
                            a["processor"] = pr
                        els.append(N("pos", xml__id="e%d" % len(els), **a))
            yield "declared sets %s, annotators %s" % (sets, ann), spec(N("w", *els, xml__id="w"), [decl("POS", st, ann) for st in sets], [proc("p0", [proc("p1")])] if len(ann) > 1 else [proc(p) for p in ann])
    yield "two annotation types, one set", spec(N("w", N("pos", class_="x"), N("lemma", class_="x"), xml__id="w"), [decl("POS"), decl("LEMMA")])
    # features
    yield "feature", spec(N("w", N("pos", N("feat", subset="ss", class_="f"), class_="x"), xml__id="w"), [decl("POS")])
    yield "two features", spec(N("w", N("pos", N("feat", subset="ss", class_="f"), N("feat", subset="ss2", class_="g"), class_="x"), xml__id="w"), [decl("POS")])
    yield "feature of the same class", spec(N("w", N("pos", N("feat", subset="ss", class_="x"), N("feat", subset="ss2", class_="x"), class_="x"), xml__id="w"), [decl("POS")])
    yield "features of two elements", spec(
        N("w", N("pos", N("feat", subset="ss", class_="f"), class_="x", set="set"), N("pos", N("feat", subset="ss", class_="f"), class_="y", set="set2"), xml__id="w"), [decl("POS"), decl("POS", "set2")])
    for ann in ([], ["p0"], ["p0", "p1"]):
        for pr in (None, "p0"):
            for by in (["p0"], ["p1"], ["p0", "p1"]):
                if not ann and not pr and len(by) == 1:
                    continue  # a processor that is used becomes an annotator; if it is the only one, it is that of the element too
                fs = [N("feat", subset="ss%d" % i, class_="f", **a) for i, a in enumerate([{}, *[{"processor": p} for p in by], {"n": "n", "src": "src"}])]
                yield "features with processors %s, element by %s of %s" % (by, pr, ann), spec(
                    N("w", N("pos", *fs, class_="x", **({"processor": pr} if pr else {})), xml__id="w"), [decl("POS", "set", ann)], [proc("p0"), proc("p1")])
    for e in plain:
        ss = shortcuts(e)
        if ss and AT_OF[e]:
            yield "%s with feature attributes" % TAG[e], spec(
                Node("text", [("xml:id", P("bodyid"))], [Node(TAG[e], [("xml:id", P("id")), ("class", P("x"))] + [(n, P("v." + n)) for n in ss], [C("c")])]), [decl(AT_OF[e])])
    # span annotation
    words = lambda n, *k: [N("w", N("t", T("t%d" % i)), xml__id="w%d" % i) for i in range(n)]
    sent = lambda *k: N("s", *k, xml__id="s")
    yield "span", spec(sent(*words(2), N("entities", N("entity", N("wref", id="w0", t="tt"), N("wref", id="w1"), xml__id="e", class_="x"))), [decl("ENTITY")])
    yield "span over words without text", spec(sent(N("w", xml__id="w0"), N("w", xml__id="w1"), N("entities", N("entity", N("wref", id="w0"), class_="x"))), [decl("ENTITY")])
    yield "two spans on a word", spec(sent(*words(1), N("entities", N("entity", N("wref", id="w0"), class_="x"), N("entity", N("wref", id="w0"), class_="y"))), [decl("ENTITY")])
    yield "two layers", spec(sent(*words(1), N("entities", N("entity", N("wref", id="w0"), class_="x", set="set"), set="set"), N("entities", N("entity", N("wref", id="w0"), class_="y", set="set2"), set="set2")), [decl("ENTITY"), decl("ENTITY", "set2")])
    yield "layer with a set", spec(sent(*words(1), N("entities", N("entity", N("wref", id="w0"), class_="x"), set="set")), [decl("ENTITY")])
    yield "layer with attributes but no set", spec(sent(*words(1), N("entities", N("entity", N("wref", id="w0"), class_="x", set="set2"), xml__id="layer", n="n"), N("chunking", xml__id="layer2")), [decl("ENTITY"), decl("ENTITY", "set2")])
    yield "nested spans", spec(sent(*words(2), N("dependencies", N("dependency", N("hd", N("wref", id="w0")), N("dep", N("wref", id="w1")), class_="x"))), [decl("DEPENDENCY")])
    yield "spans in spans", spec(
        sent(*words(3), N("syntax", N("su", N("su", N("wref", id="w0"), class_="x"), N("su", N("su", N("wref", id="w1"), N("wref", id="w2"), class_="z"), N("wref", id="w2"), class_="y"), N("wref", id="w0"), class_="x"))), [decl("SYNTAX")])
    yield "spans in several layers", spec(
        Node("text", [("xml:id", P("b"))], [N("s", *words(2), N("entities", N("entity", N("wref", id="w0"), class_="x"), N("entity", N("wref", id="w1"), N("wref", id="w0"), class_="y")), N("chunking", N("chunk", N("wref", id="w1"), class_="x")), xml__id="s1"),
        N("s", N("w", xml__id="w9"), N("chunking", N("chunk", N("wref", id="w9"), N("wref", id="w0"), class_="x")), xml__id="s2")]), [decl("ENTITY"), decl("CHUNKING")])
    yield "correction", spec(N("w", N("correction", N("new", N("t", T("new"))), N("original", N("t", T("old"))), xml__id="c", class_="x"), xml__id="w"), [decl("CORRECTION")])


def shown_node(n):
    return (n.tag, [shown_node(k) for k in n.children]) if isinstance(n, Node) else n[0]


def compare(n, e, s, path, up=None):
    """differences between a described node and the element read"""
    etype, attrs, kids = e
    here = path + "/" + n.tag
    if etype != TYPE[n.tag]:
        yield "type", "%s is read as %s" % (here, etype)
        return
    have = {}
    for k, v in attrs:
        if k in have:
            yield "attributes", "%s has two attributes %s" % (here, k)
        have[k] = v
    at = AT_OF[etype]
    mine = [d for d in s.decls if d[1] == at]
    want = {}
    children = []
    for k, v in n.attrs:
        if k in VARIANT:
            want[VARIANT[k]] = v
        else:  # stands for a feature
            children.append(Node("feat", [("subset", STR(k)), ("class", v)], [("text", v)]))
    children += n.children
    for k, v in want.items():
        if k not in have:
            yield "attributes", "%s has lost its attribute %s=%s" % (here, k, shown(v))
        elif have[k] is not v and not attr_equal(k, v, have[k]):
            yield "attributes", "%s has %s=%s instead of %s" % (here, k, shown(have[k]), shown(v))
    for k, v in have.items():
        if k in want:
            continue
        if k == "declared as":
            if v != at and etype != "Feature":
                yield "attributes", "%s is declared as %s" % (here, v)
        elif k == "Set" and (v is None or etype == "Feature" or (len(mine) == 1 and mine[0][2] is v) or ("Layer" in GROUPS and etype in GROUPS["Layer"] and any(d[2] is v for d in mine))):
            pass
        elif k == "Processor" and (etype == "Feature" or any(len(d[5]) == 1 and d[5][0] is v for d in mine)):
            pass
        else:
            yield "attributes", "%s has gained the attribute %s=%s" % (here, k, shown(v))
    if etype == "Feature" and "declared as" in (up or {}) and [have.get(k) for k in ("declared as", "Set")] != [up.get(k) for k in ("declared as", "Set")]:
        yield "attributes", "%s is declared as %s with set %s, not as the element it is a feature of" % (here, have.get("declared as"), shown(have.get("Set")))
    kids = [k for k in kids if k[0] != "SpanReference"]
    if len(kids) != len(children):
        yield "content", "%s has %d items of content instead of %d: %s" % (here, len(kids), len(children), shown(kids)[:200])
        return
    for i, (a, b) in enumerate(zip(children, kids)):
        if isinstance(a, Node):
            if len(b) != 3:
                yield "content", "item %d of %s is %s" % (i, here, shown(b))
            else:
                yield from compare(a, b, s, here, have)
        else:
            k = {"text": "Text", "cdata": "Text", "comment": "Comment"}[a[0]]
            if b[0] != k or b[1] is not a[1]:
                yield "content", "item %d of %s is %s instead of %s(%s)" % (i, here, shown(b), k, shown(a[1]))


def attr_equal(k, want, have):
    if k in ("Space", "NewPage"):
        return have is INT(1 if want.a[0] == "yes" else 0)
    if k == "AnnotatorType":
        return have.k == "adt"
    return False


def norm(e):
    if len(e) != 3:
        return e
    return (e[0], tuple(sorted(((k, v) for k, v in e[1]), key=lambda x: x[0])), tuple(norm(k) for k in e[2]))


def run(job):
    c, label, s = job

    def check_read(v):
        yield from compare(s.body, v.root, s, "")
        if v.index != v.ids:
            yield "index", "the ID index is %s, the elements have %s" % (shown(v.index), shown(v.ids))
        have, want = {}, {}
        backrefs(v, v.root, have)
        wrefs(s.body, (), None, want)
        if have != want:
            yield "span", "the words' back-references are to %s instead of %s" % (shown(have), shown(want))

    def check_trip(v, v2):
        d = differ(norm(v.root), norm(v2.root), "the body")
        if d:
            yield "elements", d
        if v.index != v2.index:
            yield "index", "the ID index is %s instead of %s" % (shown(v2.index), shown(v.index))

    def may_fail(o):
        return any(t.k in ("call", "bool") and any(x is STR("-->") for x in t.a if type(x) is V) and v is TRUE for t, v in o.facts.items())

    return trip(c, label, s, check_read, check_trip, may_fail)


def backrefs(v, e, out):
    """ID of a word -> places of the span annotations it refers back to, in order"""
    ident = dict(e[1]).get("Id")
    for k in e[2]:
        if k[0] == "SpanReference":
            out.setdefault(ident, []).append(v.paths.get(k[1]))
        elif len(k) == 3:
            backrefs(v, k, out)


def wrefs(n, path, span, out):
    """what backrefs must be: every wref's nearest span annotation, in document order"""
    if TYPE[n.tag] in GROUPS["Span"]:
        span = path
    if n.tag == "wref":
        out.setdefault(dict(n.attrs)["id"], []).append(span)
    for i, x in enumerate(n.children):
        if isinstance(x, Node):
            wrefs(x, path + (i,), span, out)


def fromfile(jobs, step):
    """some of the shapes, read by from_file"""
    import copy

    out = []
    for c, label, s in jobs[::step]:
        s = copy.copy(s)
        s.entry = FROMFILE
        out.append((c, label + ", from a file", s))
    return out


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    jobs = [(c, label, s) for label, s in shapes(ctx.thorough)]
    run_shapes(ctx, run, jobs + fromfile(jobs, 9))
    ctx.floor("document shapes", 200)
    ctx.floor("round trips", 200)
