"""Determinism. Documents with several entries in every map that is iterated over (metadata, submetadata and entries in it) are read and
written by abstract evaluation under several iteration orders of the maps, with the IDs known and everything else unknown; the result
must be the same XML. Iterating over a map anywhere else is a violation. A second rule over all functions: sources of anything else
that differs between runs - random numbers, the time, the environment, threads, addresses, state that outlives a call - are
used by nothing but the constructors of Processor and the program's own main functions; everything else in the call graph that leads to one is
a violation. Nothing is executed."""
import itertools
import models
from checks.c13 import N, P, T, Node, decl, proc, spec
from roundtrip import *
from tables import evaluate

SOURCES = ("rand::", "getrandom::", "std::time::SystemTime::now", "std::time::Instant", "std::env::", "std::process::id", "std::thread::", "std::hash::", "std::collections::hash_map::RandomState",
           "std::collections::hash_map::DefaultHasher", "std::sync::atomic::", "core::sync::atomic::", "std::sync::Mutex", "std::sync::RwLock", "chrono::Utc", "chrono::Local", "chrono::offset::utc::Utc", "chrono::offset::local::Local",
           "uuid::", "std::ptr::addr", "std::fs::metadata", "std::any::type_name")
ALLOWED = ("metadata::Processor::new", "metadata::Processor::this_library", "metadata::Processor::autofill")
ITERATE = ("iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values", "retain", "extract_if")


def fns(x, f):
    """every function mentioned in a body, called or passed on; casts of pointers to numbers"""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            f("fn", x["fn"])
        if x.get("r") == "cast" and "Expose" in str(x.get("k")):
            f("expose", x)
        if x.get("c") == "static":
            f("static", x)
        for v in x.values():
            fns(v, f)
    elif isinstance(x, list):
        for v in x:
            fns(v, f)


def name(f):
    return f.get("rpath") or f.get("path") or ""


def is_hash(f):
    p = [f.get("path") or "", f.get("rpath") or ""]
    if any(x.startswith("std::collections::Hash") or x.startswith("std::collections::hash_") for x in p):
        return True
    return "std::collections::Hash" in (f.get("key") or "") and any("IntoIterator" in x for x in p)


def scan(ctx, c):
    callers, uses, iterates = {}, {}, {}
    for k, b in c.bodies.items():
        if not b.get("local"):
            continue
        ctx.count("functions scanned")

        def f(kind, x):
            if kind == "expose":
                uses.setdefault(k, set()).add("the address of something as a number")
            elif kind == "static":
                if "static" in x.get("key", "") and x.get("mut"):
                    uses.setdefault(k, set()).add("mutable static %s" % x["key"])
            else:
                g = x.get("key") or name(x)
                callers.setdefault(g, set()).add(k)
                for n in {name(x), x.get("path") or ""}:
                    if n.startswith(SOURCES):
                        uses.setdefault(k, set()).add(n)
                    if "fmt::Pointer" in n or "new_pointer" in n:
                        uses.setdefault(k, set()).add(n)
                if is_hash(x) and (x.get("path") or "").rsplit("::", 1)[1] in ITERATE:
                    iterates.setdefault(k, set()).add(name(x))

        fns(b["blocks"], f)
    bare = lambda k: k.split("@")[0]
    outer = lambda k: bare(k).split("::{closure")[0]
    # a closure runs when the function it is in is called
    closures = {}
    for k in c.bodies:
        if "::{closure" in k:
            closures.setdefault(outer(k), set()).add(k)
    ctx.count("functions that use something that differs between runs", len(uses))
    for k, why in sorted(uses.items()):
        todo, seen = [outer(k)], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in ALLOWED:
                continue
            up = {outer(y) for z in [x] + sorted(closures.get(x, ())) for y in callers.get(z, ()) if outer(y) != x}
            b = c.bodies.get(x) or {}
            if b.get("pub") or not up:
                ctx.bad("source:%s:%s" % (x, sorted(why)[0]), "%s depends on %s, which differs between runs%s" % (x, ", ".join(sorted(why)), "" if x == outer(k) else " (through %s)" % outer(k)))
            else:
                todo += sorted(up)
    for x in ALLOWED:
        for y in sorted(callers.get(x, ())):
            ctx.bad("constructor:%s" % outer(y), "%s makes a processor with %s, whose ID is random" % (outer(y), x)) if outer(y) not in ALLOWED else None
    return {outer(k): v for k, v in iterates.items()}


def docs(thorough):
    ids = ["b", "a", "c", "A"]
    for n in range(5):
        for perm in itertools.permutations(ids[:n]):
            yield "metadata %s" % ",".join(perm), spec(N("s", N("w", T("x"), xml__id="w")), metas=[(STR(x), P("v" + x)) for x in perm])
    for perm in itertools.permutations(["s2", "s1", "s10"]):
        for k in range(4 if thorough else 3):
            yield "submetadata %s with %d entries" % (",".join(perm), k), spec(N("s", N("w", xml__id="w")), metas=[(STR("m"), P("v"))], subs=[(STR(x), P("ty" + x), P("src" + x), [(STR(y), P("v" + x + y)) for y in ids[:k]]) for x in perm])
    for anns in ([], ["p0"], ["p0", "p1"]):
        for ds in (["set"], ["set", "set2"], ["set2", "set", "set3"]):
            yield "classes, sets %s by %s" % (ds, anns), spec(N("s", *[N("w", N("pos", N("feat", subset="su%d" % (i % 2), class_="f%d" % i), class_="k%d" % i, set=st), xml__id="w%d" % i) for i, st in enumerate(ds * 2)]), [decl("POS", x, anns) for x in ds] + [decl("LEMMA", "set")], [proc("p0"), proc("p1")])


def text(t):
    """events, as terms that do not depend on the evaluation"""
    return shown([(e.kind, e.name if hasattr(e, "name") else None, getattr(e, "attrs", None), getattr(e, "text", None)) for e in t], 40)


def run(job):
    c, label, s = job
    bad, n = [], {}
    outs = []
    for order in range(4):
        models.MAPORDER, models.MAPSITES = order, set()
        F = assumptions(s)
        ok, err = results(read(c, script(s), F))
        if len(ok) != 1 or err:
            bad.append(("read:%s" % label, "the document (%s) has %d outcomes with one order of its maps" % (label, len(ok) + len(err))))
            break
        w = write(c, ok[0].value.a[2], ok[0].facts)
        wok, werr = results(w)
        if len(wok) != 1 or werr or w.panics:
            bad.append(("write:%s" % label, "writing the document (%s) has %d outcomes with one order of its maps" % (label, len(wok) + len(werr))))
            break
        n["documents written"] = n.get("documents written", 0) + 1
        outs.append(text(wok[0].aux[1]))
        n["events compared"] = n.get("events compared", 0) + len(wok[0].aux[1])
        for x in models.MAPSITES:
            n["maps iterated over in %s" % x.split("@")[0].split("::{closure")[0]] = 1
        if outs[-1] != outs[0]:
            i = next((i for i, (a, b) in enumerate(zip(outs[0], outs[-1])) if a != b), min(len(outs[0]), len(outs[-1])))
            bad.append(("order:%s" % label, "the document (%s) is written differently with another order of its maps: %s / %s" % (label, outs[0][max(0, i - 60) : i + 60], outs[-1][max(0, i - 60) : i + 60])))
    models.MAPORDER = 0
    return bad, n


def check(ctx):
    c = ctx.crate
    models.VECMAX, models.VECDUP = 400, True
    iterates = scan(ctx, c)
    run_shapes(ctx, run, [(c, *x) for x in docs(ctx.thorough)])
    done = {k[len("maps iterated over in ") :] for k in ctx.counts if k.startswith("maps iterated over in ")}
    for k, v in sorted(iterates.items()):
        ctx.count("functions that iterate over maps")
        if k not in done:
            ctx.bad("iterates:%s" % k, "%s iterates over a map (%s), whose order is different in every run; the analysis does not know what becomes of it" % (k, ", ".join(sorted(v))))
    ctx.floor("documents written", 100)
    ctx.floor("functions scanned", 400)
    ctx.floor("functions that iterate over maps", 1)
