"""Writing a part of a document. The stores the reader makes of documents of many shapes (abstract evaluation on symbolic XML events) are
written by abstract evaluation of Document::xml, whole and from every element; the events of the part must be those of
the whole document with the body replaced by that element's own. Nothing is executed."""
import models
from checks import c14
from checks.c13 import shapes, N, T, ATNAME as ATNAMES
from roundtrip import *


def solid(evs):
    """what a reader sees: adjacent text is one, and text that is only layout (constant whitespace) is nothing"""
    return [x for x in merge_text(evs) if not (x.kind == "Text" and x.text.k == "str" and not x.text.a[0].strip())]


def same(a, b):
    return a.kind == b.kind and a.name == b.name and list(a.attrs or ()) == list(b.attrs or ()) and a.text is b.text


def spans(evs):
    """(start, end) of every element, in document order"""
    out, stack = [], []
    for i, e in enumerate(evs):
        if e.kind == "Start":
            stack.append(len(out))
            out.append([i, None])
        elif e.kind == "End":
            out[stack.pop()][1] = i
        elif e.kind == "Empty":
            out.append([i, i])
    return out


def order(v, k, out):
    out.append(k)
    for kind, x in v.info[k][2]:
        if kind == "Element":
            order(v, x, out)
    return out


def run(job):
    c, label, s = job
    bad, n = [], {}

    def count(k, m=1):
        n[k] = n.get(k, 0) + m

    for o in results(read(c, script(s), assumptions(s), entry=s.entry))[0]:
        count("documents read")
        v = DocView(c, o.value.a[2])
        keys = order(v, INT(0), [])
        for x in results(write(c, o.value.a[2], o.facts))[0]:
            whole = solid(x.aux[1])
            sp = spans(whole)
            body = sp[len(sp) - len(keys)]
            for k, (a, b) in zip(keys, sp[len(sp) - len(keys):]):
                if k.k != "int":
                    raise AnalysisError("key of an element is %s" % show(k, 3))
                w = write(c, o.value.a[2], x.facts, key=k.a[0])
                count("parts written")
                name = v.info[k][0]
                for p, site, f in w.panics:
                    bad.append(("panic:%s" % site[0], "writing %s of a document (%s) may panic (%s in %s)" % (name, label, p, site[0])))
                ok, err = results(w)
                for y in err:
                    bad.append(("error:%s:%s" % (name, label), "writing %s of a document (%s) fails: %s" % (name, label, show(y.value.a[2], 6)[:300])))
                if not ok and not w.panics and not err:
                    bad.append(("none:%s:%s" % (name, label), "writing %s of a document (%s) never succeeds" % (name, label)))
                want = whole[: body[0]] + whole[a : b + 1] + whole[body[1] + 1 :]
                for y in ok:
                    have = solid(y.aux[1])
                    count("events compared", len(have))
                    i = next((i for i, (p, q) in enumerate(zip(have, want)) if not same(p, q)), min(len(have), len(want)) if len(have) != len(want) else None)
                    if i is not None:
                        said = lambda l: "%s %s%s" % (l[i].kind, l[i].name or "", shown(l[i].attrs or l[i].text)[:160]) if i < len(l) else "the end"
                        bad.append(("part:%s:%s" % (name, label), "writing %s (element %d) of a document (%s): event %d is %s instead of %s" % (name, k.a[0], label, i, said(have), said(want))))
    return bad, n


def check(ctx):
    models.VECMAX, models.VECDUP = 400, True
    c = ctx.crate
    jobs = [(c, label, s) for label, s in shapes(ctx.thorough)]
    types = sorted((t, n) for n, t in ATNAMES.items())
    several = c14.spec(metas=[(STR("b"), P("v0")), (STR("a"), P("v1"))], subs=[(STR("d"), P("t0"), P("r0"), [(P("k0"), P("v2"))]), (STR("c"), P("t1"), None, [])])
    # with several entries in a map whose keys are not known, each may come first: one with known keys stands for them
    heads = [x for x in c14.shapes(types, False) if len(x[1].metas) < 2 and len(x[1].subs) < 2 and all(len(q[3]) < 2 for q in x[1].subs)]
    for label, s in [("several metadata", several)] + heads[:: 1 if ctx.thorough else 3]:
        s.body = Node("text", [("xml:id", P("bodyid"))], [N("w", N("t", T("t1")), xml__id="w1"), N("s", xml__id="s1")])
        jobs.append((c, label, s))
    run_shapes(ctx, run, jobs)
    ctx.floor("document shapes", 200)
    ctx.floor("parts written", 800)
