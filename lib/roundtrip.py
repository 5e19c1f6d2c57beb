"""Abstract documents as quick-xml events. A document is described by a Spec (all its strings are unconstrained
parameters); `script` gives the events of a file with that content, `read` evaluates the reader on them, `write` evaluates
the writer on a document, and `view` reads a document out of the stores of an abstract Document as plain python data, in
which every encoded attribute is resolved through the stores."""
from xmlio import *
import itertools

FROMSTR = "document::Document::from_str"
FROMFILE = "document::Document::from_file"
XMLFN = "serialiser::<impl document::Document>::xml"
P = lambda n: mk("param", n)
PSTR = ("version", "folia_version", "document_version", "command", "host", "user", "src", "format", "resourcelink")
PATTR = ("xml:id", "name", "type") + PSTR + ("begindatetime", "enddatetime")
FMT = "%Y-%m-%dT%H:%M:%S"


class Node:
    """an element: tag, attributes [(name, term)], children (Node | ('text', term) | ('cdata', term) | ('comment', term))"""

    def __init__(self, tag, attrs=(), children=(), ns=None):
        self.tag, self.attrs, self.children, self.ns = tag, list(attrs), list(children), ns


class Spec:
    def __init__(self, **k):
        self.id = P("docid")
        self.version = P("docversion")
        self.mtype = self.msrc = None
        self.metas = []
        self.subs = []  # (id, type, src, [(k,v)])
        self.decls = []  # (AT display name, variant, set, alias, format, [processor ids])
        self.procs = []  # (dict of attributes, [children])
        self.body = Node("text", [("xml:id", P("bodyid"))])
        self.distinct = []  # groups of terms assumed pairwise different
        self.nonempty = []
        self.nonblank = []
        self.nl = True
        self.entry = FROMSTR
        self.__dict__.update(k)


def datetime_text(c, t):
    """text of a timestamp as the library formats it"""
    return mk("dt", t)


def E(*a, **k):
    return Event(*a, **k)


def at(attrs):
    return [(k.encode(), esc(v, "plain") if v.k != "str" else STR(xescape(v.a[0]))) for k, v in attrs]


def script(s):
    out = []
    nl = (lambda: out.append(E("Text", text=STR("\n")))) if s.nl else (lambda: None)

    def empty(tag, attrs):
        out.append(E("Empty", tag.encode(), at(attrs)))
        nl()

    def start(tag, attrs):
        out.append(E("Start", tag.encode(), at(attrs)))
        nl()

    def end(tag):
        out.append(E("End", tag.encode()))
        nl()

    def opt(*kv):
        return [(k, v) for k, v in kv if v is not None]

    def meta(k, v):
        out.append(E("Start", b"meta", at([("id", k)])))
        out.append(E("Text", text=esc(v, "plain")))
        end("meta")

    def proc(p):
        a, ch = p
        attrs = [(k, a[k]) for k in PATTR if a.get(k) is not None]
        if ch:
            start("processor", attrs)
            for x in ch:
                proc(x)
            end("processor")
        else:
            empty("processor", attrs)

    start("FoLiA", [("xmlns", STR(NSFOLIA.decode())), ("xml:id", s.id), ("version", s.version), ("generator", P("generator"))])
    start("metadata", opt(("type", s.mtype), ("src", s.msrc)))
    start("annotations", [])
    for name, var, st, al, fm, ann in s.decls:
        attrs = opt(("set", st), ("alias", al), ("format", fm))
        if ann:
            start(name + "-annotation", attrs)
            for x in ann:
                empty("annotator", [("processor", x)])
            end(name + "-annotation")
        else:
            empty(name + "-annotation", attrs)
    end("annotations")
    start("provenance", [])
    for p in s.procs:
        proc(p)
    end("provenance")
    for k, v in s.metas:
        meta(k, v)
    for i, ty, src, kv in s.subs:
        start("submetadata", [("xml:id", i)] + opt(("type", ty), ("src", src)))
        for k, v in kv:
            meta(k, v)
        end("submetadata")
    end("metadata")

    def node(n, top=False):
        tag = n.tag.encode()
        if not n.children:
            out.append(E("Empty", tag, at(n.attrs)))
            return
        out.append(E("Start", tag, at(n.attrs)))
        for x in n.children:
            if isinstance(x, Node):
                node(x)
            elif x[0] == "text":
                out.append(E("Text", text=esc(x[1], "plain")))
            elif x[0] == "cdata":
                out.append(E("CData", text=x[1]))
            elif x[0] == "comment":
                out.append(E("Comment", text=x[1]))
        out.append(E("End", tag))

    node(s.body)
    nl()
    out.append(E("End", b"FoLiA"))
    return out


def merge_text(evs):
    """what a reader sees: adjacent text is one event"""
    out = []
    for e in evs:
        if e.kind == "Text" and out and out[-1].kind == "Text":
            a, b = out[-1].text, e.text
            if a.k == "str" and b.k == "str":
                t = STR(a.a[0] + b.a[0])
            else:
                x = [p for q in (a, b) for p in (q.a if q.k == "joined" else (q,))]
                t = mk("joined", *x)
            out[-1] = E("Text", text=t)
        elif e.kind == "Text" and e.text.k == "str" and e.text.a[0] == "":
            pass
        else:
            out.append(e)
    return out


def assumptions(s):
    F = {}

    def eqf(a, b, v):
        if b.n < a.n:
            a, b = b, a
        F[mk("eq", a, b)] = INT(v)

    for g in s.distinct:
        for a, b in itertools.combinations(g, 2):
            eqf(a, b, 0)
    for t in s.nonempty:
        eqf(t, STR(""), 0)
    for t in s.nonblank:
        eqf(mk("call", PURE_SITE, "core::str::<impl str>::trim", t), STR(""), 0)
    return F


class IO(XML):
    def on_call(self, I, st, cl):
        if cl.rpath == "<specification::Specification as std::default::Default>::default":
            return [(st, P("spec"))]
        return XML.on_call(self, I, st, cl)


def read(c, evs, facts_=None, fail=False, eof=False, entry=FROMSTR, **kw):
    """outcomes of Document::from_str (or from_file) on the events; with fail, anything the XML library does may fail, with eof, the input
    may end anywhere (aux[2] tells what has failed)"""
    r = IO()
    r.script = list(evs)
    r.fail = fail
    r.eof = eof
    props = struct(c, "document::DocumentProperties", declare=vec(*kw.pop("declare", ())), processor=kw.pop("processor", NONE()), autodeclare=kw.pop("autodeclare", P("autodeclare")))
    o = dict(max_depth=60, cap=10**6, lazy=32, max_steps=4000000, deep=400)
    o.update(kw)
    evaluate(c, entry, [P("data" if entry == FROMSTR else "filename"), props], rule=r, facts=dict(facts_ or {}), **o)
    return r


def write(c, doc, facts_=None, key=0, fail=False, **kw):
    """outcomes of Document::xml on the document"""
    r = IO()
    r.fail = fail
    o = dict(max_depth=60, cap=10**6, lazy=32, max_steps=4000000, deep=400)
    o.update(kw)
    evaluate(c, XMLFN, [doc, INT(key), INT(0)], rule=r, facts=dict(facts_ or {}), **o)
    return r


# ---------------------------------------------------------------- views
class Bad(Exception):
    pass


def un(t):
    t = strip(t)
    while t.k == "cat" and len(t.a) == 1:
        t = strip(t.a[0])
    return t


def items(t):
    t = strip(t)
    if t.k not in ("vec", "arr"):
        raise Bad("unknown sequence %s" % show(t, 3))
    return list(t.a)


def opt_(t):
    t = strip(t)
    if t.k != "adt" or t.a[0] != OPTION:
        raise Bad("unknown option %s" % show(t, 3))
    return un(t.a[2]) if t.a[1] == 1 else None


def mapping(t):
    """{key: value} of a completely known map, or Bad"""
    t = strip(t)
    out = {}
    seq = []
    while t.k == "mapins":
        seq.append((un(t.a[1]), un(t.a[2])))
        t = strip(t.a[0])
    if t.k != "newmap":
        raise Bad("map with unknown contents %s" % show(t, 3))
    for k, v in reversed(seq):
        out[k] = v
    return out


def slot_at(its, k):
    if k.k != "int" or not 0 <= int(k.a[0]) < len(its):
        raise Bad("no slot %s" % show(k, 3))
    return opt_(its[int(k.a[0])])


class DocView:
    """everything in an abstract Document, resolved"""

    def __init__(self, c, doc):
        self.c = c
        f = lambda v, n: field(c, strip(v), n)
        self.decs = items(f(f(doc, "declarationstore"), "items"))
        self.prs = items(f(f(doc, "provenancestore"), "items"))
        self.els = items(f(f(doc, "elementstore"), "items"))
        self.id = un(f(doc, "id"))
        self.metadata = self.meta(f(doc, "metadata"))
        self.submetadata = {k: self.meta(v) for k, v in mapping(f(doc, "submetadata")).items()}
        self.declarations = [self.decl(d) for d in (opt_(x) for x in self.decs) if d is not None]
        self.provenance = [self.proc(k, None) for k in items(f(f(doc, "provenancestore"), "chain"))]
        self.nprocs = len([x for x in self.prs if opt_(x) is not None])
        self.index = mapping(f(f(doc, "elementstore"), "index"))
        self.dindex = mapping(f(f(doc, "declarationstore"), "index"))
        self.pindex = mapping(f(f(doc, "provenancestore"), "index"))
        self.ids = {}
        self.keys = set()
        self.paths = {}
        self.info = {}  # key -> (element type, attributes, content, parent)
        self.root = self.elem(INT(0), None) if self.els else None

    def f(self, v, n):
        return field(self.c, strip(v), n)

    def meta(self, m):
        return (opt_(self.f(m, "metadatatype")), opt_(self.f(m, "src")), mapping(self.f(m, "data")))

    def decl(self, d):
        ps = []
        for k in items(self.f(d, "processors")):
            p = slot_at(self.prs, un(k))
            if p is None:
                raise Bad("declaration refers to a processor that is gone")
            ps.append(un(self.f(p, "id")))
        return (vname(self.c, strip(self.f(d, "annotationtype"))), opt_(self.f(d, "set")), opt_(self.f(d, "alias")), opt_(self.f(d, "format")), tuple(ps))

    def proc(self, k, parent, depth=0):
        k = un(k)
        p = slot_at(self.prs, k)
        if p is None or depth > 8:
            raise Bad("processor %s is not there" % show(k, 3))
        a = {"xml:id": un(self.f(p, "id")), "name": un(self.f(p, "name")), "type": vname(self.c, strip(self.f(p, "processortype")))}
        for n in PSTR:
            a[n] = un(self.f(p, n))
        for n in ("begindatetime", "enddatetime"):
            a[n] = opt_(self.f(p, n))
        up = opt_(self.f(p, "parent"))
        if up is not parent:
            a["parent"] = "%s instead of %s" % (up and show(up, 2), parent and show(parent, 2))
        return (a, [self.proc(x, k, depth + 1) for x in items(self.f(p, "processors"))])

    def name_in(self, store, k, what):
        s = opt_(store)
        if s is None:
            raise Bad("%s without a store" % what)
        n = slot_at(items(self.f(s, "items")), un(k))
        return n

    def elem(self, k, parent, path=()):
        k = un(k)
        if len(path) > 12:
            raise Bad("elements nested too deep")
        e = slot_at(self.els, k)
        if e is None:
            raise Bad("element %s is not there" % show(k, 2))
        if k in self.keys:
            raise Bad("element %s is in two places" % show(k, 2))
        self.keys.add(k)
        self.paths[k] = path
        up = opt_(self.f(e, "parent"))
        if up is not parent:
            raise Bad("element %s has parent %s instead of %s" % (show(k, 2), up and show(up, 2), parent and show(parent, 2)))
        own = opt_(self.f(e, "key"))
        if own is not k:
            raise Bad("element %s has key %s" % (show(k, 2), own and show(own, 2)))
        etype = vname(self.c, strip(self.f(e, "elementtype")))
        raw = [strip(a) for a in items(self.f(e, "attribs"))]
        d = None
        for a in raw:
            if vname(self.c, a) == "DeclarationRef":
                d = slot_at(self.decs, un(a.a[2]))
        attrs = []
        for a in raw:
            n = vname(self.c, a)
            v = un(a.a[2]) if len(a.a) > 2 else None
            if n == "DeclarationRef":
                attrs.append(("Set", opt_(self.f(d, "set"))))
                attrs.append(("declared as", vname(self.c, strip(self.f(d, "annotationtype")))))
            elif n == "ClassRef":
                attrs.append(("Class", self.name_in(self.f(d, "subclasses" if etype == "Feature" else "classes"), v, "class")))
            elif n == "SubsetRef":
                attrs.append(("Subset", self.name_in(self.f(d, "subsets"), v, "subset")))
            elif n == "ProcessorRef":
                p = slot_at(self.prs, v)
                attrs.append(("Processor", un(self.f(p, "id"))))
            else:
                if n == "Id":
                    self.ids[v] = k
                attrs.append((n, v))
        kids = []
        self.info[k] = (etype, attrs, [], parent)
        for x in items(self.f(e, "data")):
            x = strip(x)
            n = vname(self.c, x)
            self.info[k][2].append((n, un(x.a[2])))
            if n == "Element":
                kids.append(self.elem(x.a[2], k, path + (sum(1 for y in kids if y[0] != "SpanReference"),)))
            elif n in ("Text", "Comment"):
                kids.append((n, un(x.a[2])))
            else:
                kids.append((n, un(x.a[2])))
        return (etype, attrs, kids)


def shown(x, n=4):
    if type(x) is V:
        return show(x, n)
    if isinstance(x, dict):
        return "{" + ", ".join("%s: %s" % (shown(k), shown(v)) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "(" + ", ".join(shown(y) for y in x) + ")"
    return str(x)


# ---------------------------------------------------------------- both directions, compared
PTYPE = {"auto": "Auto", "manual": "Manual", "generator": "Generator", "datasource": "DataSource"}


def dttext(t):
    """the FoLiA text of a timestamp"""
    return mk("cat", mk("show", "disp", "chrono::format::DelayedFormat", mk("call", PURE_SITE, "chrono::NaiveDateTime::format", t, STR(FMT))))


def expected(s):
    """(metadata, submetadata, declarations, provenance) a document with this content must have"""
    dt = {}

    def proc(p):
        a, ch = p
        e = {"xml:id": a["xml:id"], "name": a["name"], "type": PTYPE[a["type"].a[0]]}
        for n in PSTR:
            e[n] = a.get(n) or STR("")
        for n in ("begindatetime", "enddatetime"):
            e[n] = a[n].a[0].a[2].a[2] if a.get(n) else None
        return (e, [proc(x) for x in ch])

    return dict(
        id=s.id,
        metadata=(s.mtype, s.msrc, dict(s.metas)),
        submetadata={i: (ty, src, dict(kv)) for i, ty, src, kv in s.subs},
        declarations=[(var, st, al, fm, tuple(ann)) for name, var, st, al, fm, ann in s.decls],
        provenance=[proc(p) for p in s.procs],
    )


def differ(a, b, path=""):
    """first difference of two views, as text, or None"""
    if type(a) is V or type(b) is V or not isinstance(a, (tuple, list, dict)) or type(a) is not type(b):
        return None if (a is b or a == b) else "%s is %s instead of %s" % (path or "it", shown(b), shown(a))
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return "%s has lost %s" % (path or "it", shown(k))
            d = differ(a[k], b[k], "%s[%s]" % (path, shown(k)))
            if d:
                return d
        for k in b:
            if k not in a:
                return "%s has gained %s" % (path or "it", shown(k))
        return None
    if len(a) != len(b):
        return "%s has %d items instead of %d: %s instead of %s" % (path or "it", len(b), len(a), shown(b), shown(a))
    for i, (x, y) in enumerate(zip(a, b)):
        d = differ(x, y, "%s.%d" % (path, i))
        if d:
            return d
    return None


def results(r):
    """(documents, errors) of evaluating the reader or the writer"""
    ok, err = [], []
    for o in r.out:
        v = o.value
        if v.k != "adt" or v.a[0] != RESULT:
            raise AnalysisError("undetermined result %s" % show(v, 4))
        (ok if v.a[1] == 0 else err).append(o)
    return ok, err


def extra(facts_, F):
    return [(t, v) for t, v in facts_.items() if t not in F]


def wellformed(evs):
    b = balanced(evs)
    if b:
        return b
    depth = 0
    roots = 0
    for e in evs:
        if e.kind in ("Start", "Empty"):
            names = [k for k, _ in e.attrs]
            if len(set(names)) != len(names):
                return "<%s> has an attribute twice: %r" % (e.name, names)
            if depth == 0:
                roots += 1
        if e.kind == "Start":
            depth += 1
        elif e.kind == "End":
            depth -= 1
        elif e.kind in ("Text", "CData", "Comment") and depth == 0:
            return "text outside the root element"
    return None if roots == 1 else "%d root elements" % roots


def escaping(evs):
    """why a string of the document could break the file, or None"""
    for e in evs:
        for k, v in e.attrs:
            why = raw_in(v)
            if why:
                return "attribute %s of <%s> is written as %s: %s" % (k, e.name, show(v, 5), why)
        if e.kind == "Text" and raw_in(e.text):
            return "text is written as %s: %s" % (show(e.text, 5), raw_in(e.text))
    return None


def raw_in(t):
    if t.k == "esc":
        if any(x.k == "esc" for x in subterms(t.a[0])):
            return "escaped twice"
        return None
    if t.k == "joined":
        return next((w for w in map(raw_in, t.a) if w), None)
    if t.k == "str":
        return "not escaped" if any(ch in t.a[0].replace("&amp;", "").replace("&lt;", "").replace("&gt;", "").replace("&quot;", "").replace("&apos;", "") for ch in "<&") else None
    return "not escaped"


JOB_SECONDS = 150
JOB_BYTES = 3 << 30


def pmap(f, jobs, n=8):
    """f over jobs in parallel processes; results must be plain data. A job that runs out of its budget of time or memory
    is undecided, which is reported like a violation."""
    import gc
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing as mp

    if len(jobs) < 3:
        return [f(j) for j in jobs]
    global _F
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 50, 100)
    _F = (f, jobs)  # inherited by the workers: terms must not be pickled (they are compared by identity)
    out = []
    with ProcessPoolExecutor(min(n, len(jobs)), mp_context=mp.get_context("fork"), initializer=_limit) as p:
        fs = [p.submit(_call, i) for i in range(len(jobs))]
        for i, x in enumerate(fs):
            try:
                out.append(x.result())
            except (BrokenProcessPool, MemoryError):
                out.append(_undecided(i, "the analysis was ended"))
    return out


def _limit():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (JOB_BYTES, JOB_BYTES))


def _undecided(i, why):
    j = _F[1][i]
    label = j[1] if type(j) is tuple and len(j) > 1 and isinstance(j[1], str) else str(i)
    return ([("undecided:%s" % label, "not decided for %s: %s" % (label, why))], {})


def _call(i):
    import absint, time

    overall = absint.DEADLINE[0]
    absint.DEADLINE[0] = min(overall, time.time() + JOB_SECONDS)
    try:
        return _F[0](_F[1][i])
    except (AnalysisError, MemoryError, RecursionError) as e:
        why = "%s %s" % (e.__class__.__name__, str(e)[:300])
    finally:
        absint.DEADLINE[0] = overall
    return _undecided(i, why)


def trip(c, label, s, check_read, check_trip, may_fail=None, check_events=None):
    """read the file described by s, check it, write it, read that and check it again: (violations, counts)"""
    bad, n = [], {}

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    def panics(r, what):
        for k, site, f in r.panics:
            bad.append(("%s:panic:%s" % (what.split()[0], site[0]), "%s a document (%s) may panic (%s in %s)" % (what, label, k, site[0])))

    def view(o, key, what):
        try:
            return DocView(c, o.value.a[2])
        except Bad as e:
            bad.append(("%s:%s" % (key, label), "%s a document (%s): %s" % (what, label, e)))

    r = read(c, script(s), assumptions(s), entry=s.entry)
    count("documents read")
    count("paths", len(r.out))
    panics(r, "reading")
    ok, err = results(r)
    for o in err:
        bad.append(("read:error:%s" % label, "reading a document (%s) fails: %s" % (label, show(o.value.a[2], 6)[:300])))
    if not ok:
        bad.append(("read:none:%s" % label, "reading a document (%s) never succeeds" % label))
    for o in ok:
        v = view(o, "read", "after reading")
        if v is None:
            continue
        for k, d in check_read(v):
            bad.append(("read:%s:%s" % (k, label), "reading a document (%s): %s" % (label, d)))
        w = write(c, o.value.a[2], o.facts)
        count("documents written")
        count("paths", len(w.out))
        panics(w, "writing")
        wok, werr = results(w)
        for x in werr:
            if may_fail is None or not may_fail(x):
                bad.append(("write:error:%s" % label, "writing a document (%s) fails: %s" % (label, show(x.value.a[2], 6)[:300])))
        if not wok:
            bad.append(("write:none:%s" % label, "writing a document (%s) never succeeds" % label))
        for x in wok:
            evs = x.aux[1]
            count("events written", len(evs))
            why = wellformed(evs)
            if why:
                bad.append(("write:form:%s" % label, "writing a document (%s): %s" % (label, why)))
                continue
            if check_events is not None:
                for k, d in check_events(evs):
                    bad.append(("write:%s:%s" % (k, label), "writing a document (%s): %s" % (label, d)))
            r2 = read(c, merge_text(evs), x.facts)
            count("paths", len(r2.out))
            panics(r2, "rereading")
            ok2, err2 = results(r2)
            for y in err2:
                bad.append(("reread:error:%s" % label, "reading a written document (%s) fails: %s" % (label, show(y.value.a[2], 6)[:300])))
            for y in ok2:
                count("round trips")
                v2 = view(y, "trip", "after writing and reading")
                if v2 is not None:
                    for k, d in check_trip(v, v2):
                        bad.append(("trip:%s:%s" % (k, label), "after writing and reading a document (%s): %s" % (label, d)))
    return bad, n


def run_shapes(ctx, run, jobs):
    for bad, n in pmap(run, jobs):
        for k, m in bad:
            ctx.bad(k, m)
        for k, m in n.items():
            ctx.count(k, m)
    ctx.count("document shapes", len(jobs))
