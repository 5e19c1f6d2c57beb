"""Stores. Store::add (elements, declarations, processors) and StringStore::add (classes, subclasses, subsets), the
lookups by key and by ID, and the Document and Declaration methods on top of them are evaluated over stores with
unknown contents. An item is added under the next free key and indexed under its ID; an ID already in the index is never
added or indexed again; a lookup returns exactly what the index or the slot holds, from the right store. A second rule
over all functions: nothing else mutates the items or the index of a store, so keys are never reused or reassigned."""
from effects import *
from tables import enums

N = mk("param", "name")
K = mk("param", "key")
STORES3 = [("elementstore", "element::ElementData", "u32"), ("declarationstore", "metadata::Declaration", "u16"), ("provenancestore", "metadata::Processor", "u16")]


def skey(ty, kt, m):
    return "<document::Document as store::Store<%s, %s>>::%s" % (ty, kt, m)


def store_fields(c, doc, st):
    s = field(c, doc, st)
    if s.k == "adt":
        return field(c, s, "items"), field(c, s, "index")
    if s.k == "upd":
        pass
    return mk("fld", s, "items"), mk("fld", s, "index")


def docp(c):
    S = {}
    for st, p in (("elementstore", "elementstore::ElementStore"), ("declarationstore", "metadata::DeclarationStore"), ("provenancestore", "metadata::ProvenanceStore")):
        S[st] = struct(c, p, prefix=st)
    return struct(c, DOC, **S)


def pushed(new, old):
    """the item appended to a sequence, None if none, False if something else happened"""
    if new is old:
        return None
    if new.k == "bag" and len(new.a) == 2 and new.a[0] is old:
        return new.a[1]
    return False


def inserted(new, old):
    if new is old:
        return None
    if new.k == "mapins" and new.a[0] is old:
        return bare(new.a[1]), new.a[2]
    return False


def add(ctx, c, st, ty, kt, label, item, ident, dup):
    """ident: the ID term(s) of the item or None; dup: what an ID in use must lead to"""
    d = docp(c)
    fn = skey(ty, kt, "add")
    r = Final()
    r.stop = ("::encode",)
    evaluate(c, fn, [d, item, NONE()], rule=r, max_depth=30)
    items, index = store_fields(c, d, st)
    nxt = mk("cast", mk("len", items), kt)
    where = "adding %s" % label
    ctx.count("functions evaluated")
    for k, s, f in r.panics:
        ctx.bad("add:%s:panic" % label, "%s may panic (%s in %s)" % (where, k, s[0]))
    seen = set()
    for val, doc, fs in r.out:
        if any(x.k == "call" and x.a[1].endswith("::encode") for x in subterms(val)):
            continue
        ctx.count("paths")
        i2, x2 = store_fields(c, doc, st)
        for other in ("elementstore", "declarationstore", "provenancestore"):
            if other != st and store_fields(c, doc, other) != store_fields(c, d, other):
                ctx.bad("add:%s:other" % label, "%s changes the %s" % (where, other))
        push, ins = pushed(i2, items), inserted(x2, index)
        if push is False or ins is False:
            ctx.bad("add:%s:effect" % label, "%s leaves the store as %s with index %s" % (where, show(i2, 4), show(x2, 4)))
            continue
        lk = {k[1]: v for k, v in lookups_in(fs).items() if k[0] is index}
        known = [k for k, v in lk.items() if v]
        ok = val.k == "adt" and val.a[0] == RESULT and val.a[1] == 0
        if known and (ident is None or known[0] is not ident):
            ctx.bad("add:%s:lookup" % label, "%s looks up %s in the index" % (where, show(known[0], 3)))
        elif known:
            seen.add("known")
            if push is not None or ins is not None:
                ctx.bad("add:%s:duplicate" % label, "%s with an ID already in the index changes the store" % where)
            if dup == "err" and ok:
                ctx.bad("add:%s:duplicate" % label, "%s with an ID already in use succeeds" % where)
            if dup == "key" and not (ok and lookup(val.a[2]) == (index, ident)):
                ctx.bad("add:%s:duplicate" % label, "%s that is there already returns %s" % (where, show(val, 3)))
        elif not ok:
            seen.add("full")
            if push is not None or ins is not None:
                ctx.bad("add:%s:err-effect" % label, "%s fails but changes the store" % where)
            fits = [v for t, v in fs.items() if t.k == "bool" and t.a[0] == "fits"]
            if not any(isb(v, 0) for v in fits):
                ctx.bad("add:%s:refuses" % label, "%s fails although the ID is free and the key fits: %s" % (where, show(val, 3)))
        else:
            seen.add("new")
            if ident is not None and lk.get(ident) is not False:
                ctx.bad("add:%s:unchecked" % label, "%s succeeds without looking for its ID in the index" % where)
            if bare(val.a[2]) is not nxt:
                ctx.bad("add:%s:key" % label, "%s returns the key %s, not the next free one" % (where, show(val.a[2], 4)))
            if push is None:
                ctx.bad("add:%s:push" % label, "%s returns a key but does not add it" % where)
            elif not (push.k == "adt" and push.a[1] == 1 and slot_item(c, push, item, nxt)):
                ctx.bad("add:%s:push" % label, "%s adds %s" % (where, show(push, 5)))
            if ident is None and ins is not None:
                ctx.bad("add:%s:index" % label, "%s indexes %s, but it has no ID" % (where, show(ins[0], 3)))
            if ident is not None and (ins is None or ins[0] is not ident or ins[1] is not nxt):
                ctx.bad("add:%s:index" % label, "%s indexes %s" % (where, "nothing" if ins is None else "%s as %s" % (show(ins[0], 3), show(ins[1], 3))))
    want = {"new", "full"} | ({"known"} if ident is not None else set())
    if not want <= seen:
        ctx.bad("add:%s:cases" % label, "%s: the cases %s never happen" % (where, sorted(want - seen)))


def slot_item(c, push, item, key):
    x = push.a[2]
    if x.k == "box":
        x = x.a[0]
    if x.k == "adt":
        t = c.adt(x.a[0])
        for (n, *_), v in zip(t["vs"][0]["f"], x.a[2:]):
            if n == "key":
                if v is not SOME(key):
                    return False
            elif v is not field(c, item, n):
                return False
        return True
    if x.k == "upd":
        y = x
        ok = False
        while y.k == "upd":
            if y.a[1] == "key":
                ok = ok or y.a[2] is SOME(key)
            else:
                return False
            y = y.a[0]
        return ok and y is item
    return x is item


def getters(ctx, c):
    d = docp(c)
    for st, ty, kt in STORES3:
        items, index = store_fields(c, d, st)
        slot = mk("idx", items, mk("cast", K, "usize"))
        for m, mut in (("get", False), ("get_mut", True)):
            look(ctx, c, skey(ty, kt, m), [d, K], slot, items, "%s by key (%s)" % (st, m))
        by_id(ctx, c, skey(ty, kt, "id_to_key"), [d, N], index, "%s key by ID" % st)
    names = {
        "elementstore": {"get": ["get_elementdata", "get_mut_elementdata"], "id": ["get_element_key_by_id"], "both": ["get_elementdata_by_id", "get_mut_elementdata_by_id"]},
        "declarationstore": {"get": ["get_declaration", "get_mut_declaration"], "id": ["get_declaration_key_by_id"], "both": ["get_declaration_by_id", "get_mut_declaration_by_id"]},
        "provenancestore": {"get": ["get_processor", "get_mut_processor"], "id": ["get_processor_key_by_id"], "both": ["get_processor_by_id", "get_mut_processor_by_id"]},
    }
    for st, g in names.items():
        items, index = store_fields(c, d, st)
        slot = mk("idx", items, mk("cast", K, "usize"))
        for m in g["get"]:
            look(ctx, c, "document::Document::" + m, [d, K], slot, items, m)
        for m in g["id"]:
            by_id(ctx, c, "document::Document::" + m, [d, N], index, m)
        for m in g["both"]:
            through(ctx, c, "document::Document::" + m, [d, N], items, index, m)
    # elements with their document
    items, index = store_fields(c, d, "elementstore")
    look(ctx, c, "document::Document::get_element", [d, K], mk("idx", items, mk("cast", K, "usize")), items, "get_element", wrap=True)
    through(ctx, c, "document::Document::get_element_by_id", [d, N], items, index, "get_element_by_id", wrap=True)


def content_is(t, slot):
    """does t denote the item in slot?"""
    for x in subterms(t):
        if x is slot:
            break
    else:
        return False
    while True:
        if t is slot:
            return True
        if t.k in ("ref", "refto", "frozen", "deref", "box") and type(t.a[0]) is V:
            t = t.a[0]
        elif t.k == "fld" and t.a[1] in ("Some.0", "0"):
            t = t.a[0]
        elif t.k == "adt" and t.a[0].endswith("Element") and len(t.a) == 4:
            return any(content_is(x, slot) for x in t.a[2:])
        else:
            return False


def look(ctx, c, fn, args, slot, items, label, wrap=False):
    r = Collect()
    evaluate(c, fn, args, rule=r)
    ctx.count("functions evaluated")
    if r.panics:
        ctx.bad("%s:panic" % label, "%s may panic" % label)
    got = set()
    for o in r.out:
        ctx.count("paths")
        v = View(o, items)
        there = v.there.get(unkey(slot.a[1]))
        some = o.value.k == "adt" and o.value.a[1] == 1
        det = o.value.k == "adt"
        if there is True and some and content_is(o.value.a[2], slot):
            got.add(True)
        elif there is False and det and not some:
            got.add(False)
        elif not det and content_is(o.value, slot):
            got |= {True, False}
        else:
            ctx.bad(label, "%s gives %s when the slot is %s" % (label, show(o.value, 4), {True: "occupied", False: "empty or missing", None: "not looked at"}[there]))
    if got != {True, False}:
        ctx.bad(label + ":cases", "%s never returns %s" % (label, "an item" if True not in got else "None"))


def by_id(ctx, c, fn, args, index, label, want_err=False):
    r = Collect()
    evaluate(c, fn, args, rule=r)
    ctx.count("functions evaluated")
    if r.panics:
        ctx.bad("%s:panic" % label, "%s may panic" % label)
    got = set()
    for o in r.out:
        ctx.count("paths")
        lk = lookups_in(o.facts)
        v = o.value
        if v.k != "adt":
            if lookup(v) == (index, N):
                got |= {True, False}
                continue
        elif v.a[1] == 1 and lookup(v.a[2]) == (index, N) and lk.get((index, N)):
            got.add(True)
            continue
        elif v.a[1] == 0 and lk.get((index, N)) is False:
            got.add(False)
            continue
        ctx.bad(label, "%s gives %s with %s" % (label, show(v, 4), ["%s in %s: %s" % (show(k[1], 2), show(k[0], 2), f) for k, f in lk.items()]))
    if got != {True, False}:
        ctx.bad(label + ":cases", "%s never returns %s" % (label, "a key" if True not in got else "None"))


def through(ctx, c, fn, args, items, index, label, wrap=False):
    """by ID: the item in the slot of the key the index holds"""
    r = Collect()
    evaluate(c, fn, args, rule=r)
    ctx.count("functions evaluated")
    got = set()
    for o in r.out:
        ctx.count("paths")
        lk = lookups_in(o.facts)
        v = o.value
        if v.k == "adt" and v.a[1] == 0 and lk.get((index, N)) is False:
            got.add(False)
        elif v.k == "adt" and v.a[1] == 1:
            slots_ = [x for x in subterms(v) if x.k == "idx" and x.a[0] is items]
            if len(slots_) == 1 and lookup(unkey(slots_[0].a[1])) == (index, N) and content_is(v.a[2], slots_[0]):
                got.add(True)
            else:
                ctx.bad(label, "%s gives %s" % (label, show(v, 5)))
        else:
            ctx.bad(label, "%s gives %s" % (label, show(v, 5)))
    if got != {True, False}:
        ctx.bad(label + ":cases", "%s never returns %s" % (label, "an item" if True not in got else "None"))


# ---------- classes, subsets, subclasses
SUB = {"class": ("classes", "metadata::ClassStore", "u32"), "subset": ("subsets", "metadata::SubsetStore", "u16"), "subclass": ("subclasses", "metadata::ClassStore", "u32")}


def strings(ctx, c):
    def decl(some):
        return struct(c, DECL, prefix="declaration", **{f: SOME(struct(c, p, prefix=f)) if some else NONE() for f, p, _ in SUB.values()})

    for n, (f, p, kt) in SUB.items():
        items, index = mk("param", f + ".items"), mk("param", f + ".index")
        for some in (True, False):
            d = decl(some)
            # adding
            label = "add_" + n
            r = Final()
            evaluate(c, "metadata::Declaration::" + label, [d, N], rule=r)
            ctx.count("functions evaluated")
            if r.panics:
                ctx.bad("%s:panic" % label, "%s may panic" % label)
            seen = set()
            for val, d2, fs in r.out:
                ctx.count("paths")
                for o in [x[0] for x in c.adt(DECL)["vs"][0]["f"]]:
                    if o != f and field(c, d2, o) is not field(c, d, o):
                        ctx.bad("%s:other" % label, "%s changes the %s of the declaration" % (label, o))
                s2 = field(c, d2, f)
                ok = val.k == "adt" and val.a[1] == 0
                lk = lookups_in(fs)
                if not some:
                    s2 = s2.a[2] if s2.k == "adt" and s2.a[1] == 1 else None
                    good = ok and bare(val.a[2]) is INT(0) and s2 is not None
                    if good:
                        i2, x2 = field(c, s2, "items"), field(c, s2, "index")
                        good = i2.k == "vec" and len(i2.a) == 1 and bare(i2.a[0].a[2]) is N and x2.k == "mapins" and x2.a[0].k == "newmap" and bare(x2.a[1]) is N and x2.a[2] is INT(0)
                    if not good:
                        ctx.bad("%s:first" % label, "the first %s of a declaration is stored as %s with key %s" % (n, show(s2, 5) if s2 else None, show(val, 3)))
                    seen |= {"new", "known", "full"}
                    continue
                s2 = s2.a[2]
                i2, x2 = (field(c, s2, "items"), field(c, s2, "index")) if s2.k == "adt" else (mk("fld", s2, "items"), mk("fld", s2, "index"))
                push, ins = pushed(i2, items), inserted(x2, index)
                known = lk.get((index, N))
                if any(k != (index, N) for k in lk):
                    ctx.bad("%s:lookup" % label, "%s looks up %s" % (label, [show(k[1], 3) for k in lk]))
                if known:
                    seen.add("known")
                    if push is not None or ins is not None or not ok or lookup(val.a[2]) != (index, N):
                        ctx.bad("%s:known" % label, "%s of a known %s returns %s" % (label, n, show(val, 4)))
                elif ok:
                    seen.add("new")
                    nxt = mk("cast", mk("len", items), kt)
                    if known is None:
                        ctx.bad("%s:unchecked" % label, "%s does not look whether the %s is known" % (label, n))
                    if bare(val.a[2]) is not nxt or not push or bare(push.a[2]) is not N or not ins or ins[0] is not N or ins[1] is not nxt:
                        ctx.bad("%s:new" % label, "%s stores a new %s as %s, indexes %s and returns %s" % (label, n, show(push, 4) if push else push, ins and [show(x, 4) for x in ins], show(val, 4)))
                else:
                    seen.add("full")
                    if push is not None or ins is not None or not any(t.k == "bool" and isb(v, 0) for t, v in fs.items()):
                        ctx.bad("%s:fails" % label, "%s fails with %s" % (label, show(val, 3)))
            if some and seen != {"new", "known", "full"}:
                ctx.bad("%s:cases" % label, "%s: only %s happen" % (label, sorted(seen)))
            # looking up
            label = n + "_key"
            if some:
                by_id(ctx, c, "metadata::Declaration::" + label, [d, N], index, label)
                look(ctx, c, "metadata::Declaration::get_" + n, [d, K], mk("idx", items, mk("cast", K, "usize")), items, "get_" + n)
            else:
                for fn, a in ((label, N), ("get_" + n, K)):
                    r = Collect()
                    evaluate(c, "metadata::Declaration::" + fn, [d, a], rule=r)
                    ctx.count("functions evaluated")
                    if r.panics or any(o.value is not NONE() for o in r.out) or not r.out:
                        ctx.bad("%s:empty" % fn, "%s of a declaration without any is not None" % fn)
    # through the document
    d = docp(c)
    items, _ = store_fields(c, d, "declarationstore")
    for fn, inner in (("add_class", "metadata::Declaration::add_class"), ("class_key", "metadata::Declaration::class_key")):
        r = Collect()
        r.inline = lambda I, key, body, depth, inner=inner: key != inner
        r.keep_fact = lambda t: True
        evaluate(c, "metadata::<impl document::Document>::" + fn, [d, K, N], rule=r)
        ctx.count("functions evaluated")
        got = set()
        for o in r.out:
            ctx.count("paths")
            there = View(o, items).there.get(K)
            if there is False and o.value.k == "adt" and o.value.a[1] == 1:
                got.add(False)
            elif there:
                calls = [x for x in list(subterms(o.value)) + [y for t in o.facts for y in subterms(t)] if x.k == "call" and x.a[1].endswith("Declaration::" + fn)]
                if not calls or bare(calls[0].a[3]) is not N or not content_is(calls[0].a[2], mk("idx", items, mk("cast", K, "usize"))):
                    ctx.bad("Document::%s" % fn, "Document::%s gives %s" % (fn, show(o.value, 4)))
                got.add(True)
            else:
                ctx.bad("Document::%s" % fn, "Document::%s gives %s" % (fn, show(o.value, 4)))
        if got != {True, False}:
            ctx.bad("Document::%s:cases" % fn, "Document::%s: cases %s" % (fn, got))


# ---------- nobody else touches the stores
HOLDERS = ("ElementStore", "DeclarationStore", "ProvenanceStore", "ClassStore", "SubsetStore")


def fnkey(op):
    if isinstance(op, dict) and op.get("o") == "const":
        f = op.get("c", {}).get("fn")
        if f:
            return f.get("key") or f.get("rpath") or f.get("path")
    return None


def who(ctx, c):
    """only add and the accessors it goes through mutate the items or index of a store"""
    callers, touch, calls = {}, set(), {}
    for k, b in c.bodies.items():
        if not b.get("local"):
            continue
        ctx.count("functions scanned")
        for x in b["blocks"]:
            t = x["t"]
            if t["t"] == "call":
                g = fnkey(t["f"])
                if g:
                    callers.setdefault(g, set()).add(k)
            for s in x["s"]:
                if s["t"] != "=":
                    continue
                if held(s["p"]) or (s["r"].get("r") == "ref" and s["r"].get("mut") and held(s["r"]["p"])):
                    touch.add(k)
    ALLOWED = ("::add", "::get_mut")
    state = {}

    def ok(k, path=()):
        """k belongs to the store's own operations: it is one, or is only called from them"""
        if k in state:
            return state[k]
        if k in path:
            return True
        if "store::Store<" in k or "store::StringStore<" in k:
            if k.endswith(ALLOWED):
                return True
        cs = callers.get(k, set())
        r = bool(cs) and all(ok(x, path + (k,)) for x in cs)
        state[k] = r
        return r

    for k in sorted(touch):
        ctx.count("functions that can change a store")
        if k.endswith(("::items_mut", "::index_mut")):
            for x in sorted(callers.get(k, ())):
                ctx.count("uses of the store accessors")
                if not ok(x):
                    ctx.bad("who:%s" % x.split("@")[0], "%s changes the items or the index of a store directly (%s)" % (x, k))
        elif not ok(k):
            ctx.bad("who:%s" % k.split("@")[0], "%s changes the items or the index of a store directly" % k)


def held(place):
    for p in place[1:]:
        if isinstance(p, list) and p and p[0] == "." and p[2] in ("items", "index") and len(p) > 3 and any(h in str(p[3]) for h in HOLDERS):
            return True
    return False


def check(ctx):
    c = ctx.crate
    ID = mk("param", "id")
    A = lambda n, v: variant(c, ATTR, n, v)
    el = lambda *a: element(c, mk("param", "elementtype"), a, data=mk("param", "data"))
    add(ctx, c, "elementstore", "element::ElementData", "u32", "an element with an ID", el(A("Id", ID)), ID, "err")
    add(ctx, c, "elementstore", "element::ElementData", "u32", "an element with a reference and an ID", el(A("Idref", mk("param", "idref")), A("Src", mk("param", "src")), A("Id", ID)), ID, "err")
    add(ctx, c, "elementstore", "element::ElementData", "u32", "an element without ID", el(A("Idref", mk("param", "idref"))), None, "err")
    # every kind of attribute other than the ID leaves an element without ID
    for i, v in enumerate(c.adt(ATTR)["vs"]):
        if v["n"] == "Id":
            continue
        a = mk("adt", ATTR, i, *[mk("param", "payload") for _ in v["f"]])
        r = Collect()
        evaluate(c, "<element::ElementData as store::Storable<u32>>::maybe_id", [el(a)], rule=r)
        ctx.count("functions evaluated")
        if r.panics or {o.value for o in r.out} != {NONE()}:
            ctx.bad("maybe_id:%s" % v["n"], "an element with only the attribute %s has an ID" % v["n"])
    for at, av in enums(c, "types::AnnotationType"):
        for S in (mk("param", "set"), None):
            it = struct(c, DECL, prefix="d", annotationtype=av, set=SOME(S) if S else NONE())
            ids = {bare(o.value) for o in evaluate(c, "metadata::Declaration::index_id", [av, SOME(S) if S else NONE()]).out}
            if len(ids) != 1:
                ctx.bad("index_id:%s" % at, "the index ID of a declaration is not determined")
                continue
            add(ctx, c, "declarationstore", "metadata::Declaration", "u16", "a declaration (%s, %s)" % (at, "set" if S else "no set"), it, ids.pop(), "key")
    # distinct declarations have distinct IDs
    seen = {}
    S = mk("param", "set")
    for at, av in enums(c, "types::AnnotationType"):
        for s in (S, None):
            for o in evaluate(c, "metadata::Declaration::index_id", [av, SOME(s) if s else NONE()]).out:
                t = o.value
                if s is None and t.k != "str":
                    ctx.bad("index_id:%s" % at, "the index ID of a declaration without set is %s" % show(t, 3))
                if s is not None and S not in set(subterms(t)):
                    ctx.bad("index_id:%s" % at, "the index ID of a declaration does not depend on its set")
                if t in seen and seen[t] != (at, s):
                    ctx.bad("index_id:%s" % at, "declarations of %s and %s share an index ID" % (at, seen[t][0]))
                if t.k == "str" and "/" in t.a[0]:
                    ctx.bad("index_id:%s" % at, "the index ID of %s contains the separator" % at)
                if t.k == "cat" and not (t.a[0].k == "str" and t.a[0].a[0].count("/") == 1):
                    ctx.bad("index_id:%s" % at, "the index ID of %s with a set is %s" % (at, show(t, 3)))
                seen[t] = (at, s)
    it = struct(c, PROC, prefix="p", id=ID)
    add(ctx, c, "provenancestore", "metadata::Processor", "u16", "a processor", it, ID, "key")
    getters(ctx, c)
    strings(ctx, c)
    who(ctx, c)
    ctx.floor("paths", 400)
    ctx.floor("functions evaluated", 120)
    ctx.floor("functions that can change a store", 8)
    ctx.floor("uses of the store accessors", 8)
