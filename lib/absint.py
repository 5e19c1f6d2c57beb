"""Partitioned abstract interpretation of the dumped MIR.

Abstract domain. A value is a hash-consed term (class V): a constant, an ADT/tuple/array/closure whose
components are values, a reference to an abstract location, or an *origin term* naming where an unknown
value came from (parameter, field of, result of the call at a site, ...).  A state is (call string, store,
facts, rule state), where facts are equalities/disequalities of origin terms with constants learnt at the
switches on the way.  States at one program point are kept apart while they are few and joined (different
values -> phi) once there are more than `cap`, so the fixpoint exists and is reached; the values bound by a
call site are renamed when the site is executed again (recency abstraction).  No solver is involved and
nothing is executed: a branch is pruned only when a fact decides it syntactically.
"""
import time

from facts import AnalysisError

_tab = {}
_seq = [0]
EMPTY = frozenset()
PURE_SITE = ("pure",)


class V:
    __slots__ = ("k", "a", "n", "sites", "depth", "rf", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k, a)
    v = _tab.get(key)
    if v is not None:
        return v
    v = V()
    v.k = k
    v.a = a
    _seq[0] += 1
    v.n = _seq[0]
    s = None
    d = 0
    for x in a:
        if type(x) is V:
            if x.sites:
                s = x.sites if s is None else (s if x.sites <= s else s | x.sites)
            if x.depth >= d:
                d = x.depth + 1
    if k in ("call", "mut", "item"):
        if a[0] != PURE_SITE:
            own = frozenset([a[0]])
            s = own if s is None else s | own
    elif k in ("ref", "boxptr"):
        if a[0][0] == "obj":
            s = a[0][1].sites
        for p in a[1]:
            if p[0] in ("[]", "mk") and p[1].sites:
                s = p[1].sites if s is None else s | p[1].sites
    v.sites = s or EMPTY
    v.depth = d
    v.rf = None
    _tab[key] = v
    return v


def refs_of(v):
    """the abstract locations a value refers to (cached: values are immutable)"""
    r = v.rf
    if r is not None:
        return r
    if v.k in ("ref", "boxptr"):
        out = {v.a[0]}
        for s in v.a[1]:
            if s[0] == "[]" and s[1].k == "ref":
                out.add(s[1].a[0])
        if v.a[0][0] == "obj":
            out.update(refs_of(v.a[0][1]))
        v.rf = r = frozenset(out)
        return r
    out = None
    for y in v.a:
        if type(y) is V:
            q = y.rf
            if q is None:
                q = refs_of(y)
            if q:
                out = q if out is None or out is q else out | q
    v.rf = r = out or EMPTY
    return r


def show(v, lim=6):
    if type(v) is not V:
        return repr(v)
    k = v.k
    if lim == 0:
        return "…"
    if k == "int":
        return str(v.a[0])
    if k == "str":
        return repr(v.a[0])
    if k == "call":
        return "%s@%s(%s)" % (short(v.a[1]), site_str(v.a[0]), ", ".join(show(x, lim - 1) for x in v.a[2:]))
    if k == "fld":
        return "%s.%s" % (show(v.a[0], lim), v.a[1])
    if k == "adt":
        return "%s#%s{%s}" % (short(v.a[0]), v.a[1], ", ".join(show(x, lim - 1) for x in v.a[2:]))
    return "%s(%s)" % (k, ", ".join(show(x, lim - 1) if type(x) is V else str(x) for x in v.a))


def site_str(s):
    if isinstance(s, tuple) and len(s) > 1:
        return ("b%s" % (s[1],)) + ("'" if len(s) > 2 else "")
    return str(s)


def short(p):
    if not isinstance(p, str):
        return str(p)
    import re

    return re.sub(r"[A-Za-z_0-9]+::", "", p) if len(p) > 30 else p


def INT(n):
    return mk("int", n)


def STR(s):
    return mk("str", s)


UNIT = mk("tup")
TRUE = INT(1)
FALSE = INT(0)
TOP = mk("top")

OPTION = "std::option::Option"
RESULT = "std::result::Result"
CF = "std::ops::ControlFlow"


def NONE():
    return mk("adt", OPTION, 0)


def SOME(v):
    return mk("adt", OPTION, 1, v)


def OK(v):
    return mk("adt", RESULT, 0, v)


def ERR(v):
    return mk("adt", RESULT, 1, v)


def TUP(*v):
    return mk("tup", *v)


def subterms(v, seen=None):
    """all V nodes inside v"""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if type(y) is V:
                stack.append(y)
            elif type(y) is tuple:
                for z in y:
                    if type(z) is V:
                        stack.append(z)
                    elif type(z) is tuple:
                        for w in z:
                            if type(w) is V:
                                stack.append(w)
    return seen


def rewrite(v, f, cache):
    """bottom-up substitution; f(node with rewritten children) -> V"""
    r = cache.get(v)
    if r is not None:
        return r
    na = None
    for i, x in enumerate(v.a):
        if type(x) is V:
            y = rewrite(x, f, cache)
            if y is not x:
                if na is None:
                    na = list(v.a)
                na[i] = y
        elif type(x) is tuple and x and not isinstance(x[0], (str, int)):
            y = tuple(rewrite(z, f, cache) if type(z) is V else z for z in x)
            if y != x:
                if na is None:
                    na = list(v.a)
                na[i] = y
    w = v if na is None else mk(v.k, *na)
    w = f(w)
    cache[v] = w
    return w


class Frame:
    """immutable activation record"""

    __slots__ = ("key", "fid", "blk", "dest", "ret", "h")

    def __init__(self, key, fid, blk, dest, ret):
        self.key = key
        self.fid = fid
        self.blk = blk
        self.dest = dest
        self.ret = ret
        self.h = hash((key, fid, blk, dest, ret))

    def at(self, blk):
        return Frame(self.key, self.fid, blk, self.dest, self.ret)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return (
            self.h == o.h
            and self.blk == o.blk
            and self.key == o.key
            and self.fid == o.fid
            and self.dest == o.dest
            and self.ret == o.ret
        )


class State:
    __slots__ = ("frames", "mem", "facts", "aux", "trace")

    def __init__(self, frames, mem, facts, aux, trace=None):
        self.frames = frames
        self.mem = mem
        self.facts = facts
        self.aux = aux
        self.trace = trace

    def copy(self):
        return State(self.frames, dict(self.mem), dict(self.facts), self.aux, self.trace)


class Body:
    """preprocessed body: successors, join blocks, liveness"""

    def __init__(self, b, crate):
        self.b = b
        self.key = b["name"]
        self.blocks = b["blocks"]
        self.argc = b["argc"]
        self.locals = b["locals"]
        self._boxes(crate)
        n = len(self.blocks)
        self.succ = [self._succ(x) for x in self.blocks]
        preds = [0] * n
        for i, x in enumerate(self.blocks):
            if x["cu"]:
                continue
            for s in self.succ[i]:
                preds[s] += 1
        self.join = [p > 1 for p in preds]
        self._loops()
        self._live()

    def _boxes(self, crate):
        """Boxes are not Copy: a copy of one is made by the compiler to dereference it. The dereference is of the box itself."""
        for x in self.blocks:
            copies = {}
            for s in x["s"]:
                if s["t"] != "=":
                    continue
                r = s["r"]
                if r["r"] == "cast" and r["k"] == "BoxDerefTransmute" and r["a"].get("p") and r["a"]["p"][0] in copies:
                    p = r["a"]["p"]
                    r["a"]["p"] = copies[p[0]] + p[1:]
                if r["r"] == "use" and r["a"]["o"] == "copy" and len(s["p"]) == 1 and crate.types[self.locals[s["p"][0]]].get("path") == "std::boxed::Box":
                    copies[s["p"][0]] = r["a"]["p"]

    def _loops(self):
        """mark targets of back edges (iterative DFS)"""
        n = len(self.blocks)
        color = [0] * n
        self.heads = set()
        st = [(0, iter(self.succ[0]))] if n else []
        if n:
            color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(self.succ[v])))
                    break
                if color[v] == 1:
                    self.heads.add(v)
            else:
                color[u] = 2
                st.pop()
        for h in self.heads:
            self.join[h] = True

    @staticmethod
    def _succ(x):
        t = x["t"]
        k = t["t"]
        if k == "goto":
            return [t["to"]]
        if k == "switch":
            return [y for _, y in t["vs"]] + [t["else"]]
        if k == "call":
            return [t["to"]] if t["to"] >= 0 else []
        if k in ("assert", "drop"):
            return [t["to"]]
        return []

    @staticmethod
    def _op_locals(o, out):
        if o["o"] in ("copy", "move"):
            p = o["p"]
            out.add(p[0])
            for e in p[1:]:
                if e[0] == "[]":
                    out.add(e[1])

    def _rv_locals(self, r, out):
        if "a" in r:
            self._op_locals(r["a"], out)
        if "b" in r and isinstance(r["b"], dict):
            self._op_locals(r["b"], out)
        for o in r.get("ops", ()):
            self._op_locals(o, out)
        if "p" in r:
            out.add(r["p"][0])
            for e in r["p"][1:]:
                if e[0] == "[]":
                    out.add(e[1])

    def _live(self):
        n = len(self.blocks)
        use = []
        de = []
        for x in self.blocks:
            u, d = set(), set()

            def touch(s):
                for l in s:
                    if l not in d:
                        u.add(l)

            for s in x["s"]:
                if s["t"] == "=":
                    ls = set()
                    self._rv_locals(s["r"], ls)
                    p = s["p"]
                    if len(p) > 1:
                        ls.add(p[0])
                        for e in p[1:]:
                            if e[0] == "[]":
                                ls.add(e[1])
                    touch(ls)
                    if len(p) == 1:
                        d.add(p[0])
                elif s["t"] == "sd":
                    touch([s["p"][0]])
                elif s["t"] == "dead":
                    d.add(s["l"])
            t = x["t"]
            ls = set()
            if t["t"] == "call":
                self._op_locals(t["f"], ls)
                for a in t["a"]:
                    self._op_locals(a, ls)
                if len(t["d"]) > 1:
                    ls.add(t["d"][0])
                touch(ls)
                if len(t["d"]) == 1:
                    d.add(t["d"][0])
            elif t["t"] == "switch":
                self._op_locals(t["d"], ls)
                touch(ls)
            elif t["t"] == "assert":
                self._op_locals(t["c"], ls)
                for a in t["ops"]:
                    self._op_locals(a, ls)
                touch(ls)
            elif t["t"] == "ret":
                touch([0])
            use.append(u)
            de.append(d)
        live = [set() for _ in range(n)]
        changed = True
        order = list(range(n - 1, -1, -1))
        while changed:
            changed = False
            for i in order:
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                o -= de[i]
                o |= use[i]
                if o != live[i]:
                    live[i] = o
                    changed = True
        self.live = [frozenset(s) for s in live]


class Limit(AnalysisError):
    pass


DEADLINE = [float("inf")]  # when to give up (time.time()); what is not decided by then is reported as such


class Rule:
    """hooks; override what is needed"""

    aux0 = None
    strict = False  # is deeper recursion an error (or just an unknown result)?
    recursion = 0  # how many activations of a function may be on the stack before it is entered again

    def on_call(self, I, st, call):
        """called before a call is interpreted. May return None (default handling) or a list of
        (state, return value) pairs"""
        return None

    def on_event(self, I, st, call, ret):
        """after an opaque call returned `ret` in state st; may change st.aux"""

    def on_return(self, I, st, value):
        pass

    def on_panic(self, I, st, kind, call):
        pass

    def on_write(self, I, st, root, proj, value):
        pass

    def inline(self, I, key, body, depth):
        return True

    def keep_fact(self, t):
        return False

    def merge_aux(self, aux):
        """the part of aux that may never be joined over"""
        return aux


class Call:
    __slots__ = ("path", "rpath", "key", "fn", "args", "site", "term", "frame", "line", "blk", "argt", "dt")

    def arg(self, i):
        return self.args[i]


class Interp:
    def __init__(self, crate, rule=None, cap=400, max_depth=14, max_steps=400000, models=None, lazy=0, deep=40):
        import models as M

        self.c = crate
        self.rule = rule or Rule()
        self.cap = cap
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.lazy = lazy
        self.deep = deep  # values nested deeper than this are given up (they would not reach a fixpoint)
        self.quiet = 0
        self.models = models if models is not None else M.MODELS
        self.premodels = M.PREFIX_MODELS
        if not hasattr(crate, "prepared"):
            crate.prepared = ({}, {})
        self._bodies, consts = crate.prepared
        self.steps = 0
        self.visited = set()  # (body key, block)
        self.opaque_calls = {}
        self.joined = 0
        self._constcache = consts

    # ---------- bodies
    def body(self, key):
        b = self._bodies.get(key)
        if b is None:
            raw = self.c.bodies.get(key)
            if raw is None:
                return None
            b = self._bodies[key] = Body(raw, self.c)
        return b

    # ---------- memory
    def step_get(self, v, s, st):
        """component s of value v"""
        k = v.k
        t = s[0]
        if t == ".":
            i, name = s[1], s[2]
            if k == "adt":
                if i + 2 < len(v.a):
                    return v.a[2 + i]
                return TOP
            if k == "tup":
                return v.a[i] if i < len(v.a) else TOP
            if k == "clo":
                return v.a[1 + i] if 1 + i < len(v.a) else TOP
            if k == "upd":
                for j in range(1, len(v.a), 2):
                    if v.a[j] == name:
                        return v.a[j + 1]
                return self.step_get(v.a[0], s, st)
            if k == "phi":
                return self.phi_map(v, lambda x: self.step_get(x, s, st))
            if k in ("int", "str", "top"):
                return TOP if k == "top" else mk("fld", v, name)
            return mk("fld", v, name)
        if t == "box":
            if k == "box":
                return v.a[0]
            if k == "phi":
                return self.phi_map(v, lambda x: self.step_get(x, s, st))
            if k == "upd":
                for j in range(1, len(v.a), 2):
                    if v.a[j] == "box":
                        return v.a[j + 1]
                return mk("deref", v.a[0])
            return mk("deref", v)
        if t == "[]":
            i = s[1]
            if k == "arr" and i.k == "int" and i.a[0] < len(v.a):
                return v.a[i.a[0]]
            if k == "bytes" and i.k == "int" and i.a[0] < len(v.a[0]):
                return INT(v.a[0][i.a[0]])
            if k == "str" and i.k == "int" and i.a[0] < len(v.a[0].encode()):
                return INT(v.a[0].encode()[i.a[0]])
            if k == "vec" and i.k == "int" and i.a[0] < len(v.a):
                return v.a[i.a[0]]
            if k == "repeat":
                return v.a[0]
            if k == "upd":
                for j in range(1, len(v.a), 2):
                    if v.a[j] == ("[]", i):
                        return v.a[j + 1]
                return self.step_get(v.a[0], s, st)
            return mk("idx", v, i)
        if t == "sub":
            return mk("sub", v, s[1], s[2])
        if t == "mk":
            while v.k == "mapins":
                if bare_key(v.a[1]) is s[1]:
                    return v.a[2]
                v = v.a[0]
            return mk("fld", v, s[1])
        return TOP

    def phi_map(self, v, f):
        alts = []
        for x in v.a[1:]:
            y = f(x)
            if y not in alts:
                alts.append(y)
        if len(alts) == 1:
            return alts[0]
        return mk_phi(v.a[0], alts)

    def step_set(self, v, s, w):
        k = v.k
        t = s[0]
        if t == ".":
            i, name = s[1], s[2]
            if k in ("adt", "tup", "clo"):
                off = {"adt": 2, "tup": 0, "clo": 1}[k]
                a = list(v.a)
                while len(a) <= off + i:
                    a.append(TOP)
                a[off + i] = w
                return mk(k, *a)
            return upd(v, name, w)
        if t == "box":
            if k == "box":
                return mk("box", w)
            return upd(v, "box", w)
        if t == "[]":
            i = s[1]
            if k in ("arr", "vec") and i.k == "int" and i.a[0] < len(v.a):
                a = list(v.a)
                a[i.a[0]] = w
                return mk(k, *a)
            return upd(v, ("[]", i), w)
        if t == "mk":
            return map_set(v, s[1], w)
        return TOP

    def read(self, st, root, proj):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "obj":
                v = root[1] if root[1].k in ("str", "bytes") else mk("deref", root[1])
            else:
                v = mk("undef", root)
        for s in proj:
            v = self.step_get(v, s, st)
        return v

    def write(self, st, root, proj, val):
        self.rule.on_write(self, st, root, proj, val)
        if not proj:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = mk("deref", root[1]) if root[0] == "obj" else mk("undef", root)
        st.mem[root] = self._wr(v, proj, 0, val)

    def _wr(self, v, proj, i, val):
        if i == len(proj):
            return val
        sub = self.step_get(v, proj[i], None)
        return self.step_set(v, proj[i], self._wr(sub, proj, i + 1, val))

    def loc(self, st, fid, place):
        """place -> (root, proj, boxptr?)"""
        root = (fid, place[0])
        proj = ()
        i = 1
        n = len(place)
        while i < n:
            e = place[i]
            t = e[0]
            if t == "*":
                v = self.read(st, root, proj)
                root, proj = self.pointee(st, v)
            elif t == ".":
                owner = e[3]
                if owner == "std::boxed::Box" and e[1] == 0:
                    # elaborated box deref: (*((b.0).0 as ptr))
                    proj = proj + (("box",),)
                    # swallow Unique.pointer / NonNull.pointer
                    j = i + 1
                    while j < n and place[j][0] == "." and ("Unique" in place[j][3] or "NonNull" in place[j][3]):
                        j += 1
                    if j == n:
                        return root, proj, True
                    i = j
                    continue
                if owner.startswith("std::ptr::") and ("NonNull" in owner or "Unique" in owner):
                    i += 1
                    continue
                name = e[2]
                if "::" in owner and i >= 2 and place[i - 1][0] == "v":
                    name = owner.rsplit("::", 1)[1] + "." + name
                proj = proj + ((".", e[1], name),)
            elif t == "v":
                pass
            elif t == "[]":
                iv = self.read(st, (fid, e[1]), ())
                iv = self.resolve(st, iv)
                proj = proj + (("[]", iv),)
            elif t == "[c]":
                if not e[2]:
                    proj = proj + (("[]", INT(e[1])),)
                else:
                    v = self.read(st, root, proj)
                    ln = None
                    if v.k in ("arr", "vec"):
                        ln = len(v.a)
                    elif v.k == "bytes":
                        ln = len(v.a[0])
                    if ln is not None:
                        proj = proj + (("[]", INT(ln - e[1])),)
                    else:
                        proj = proj + (("[]", INT(-e[1])),)
            elif t == "[s]":
                proj = proj + (("sub", e[1], (e[2], e[3])),)
            else:
                proj = proj + (("?",),)
            i += 1
        return root, proj, False

    def pointee(self, st, v):
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k == "boxptr":
            return v.a[0], v.a[1]
        if v.k == "phi":
            refs = set()
            for x in v.a[1:]:
                refs.add(x)
            if len(refs) == 1:
                return self.pointee(st, refs.pop())
        return ("obj", v), ()

    def deref(self, st, v):
        """value behind a pointer value"""
        if v.k in ("str", "bytes"):
            return v
        r, p = self.pointee(st, v)
        return self.read(st, r, p)

    def content(self, st, v, lim=8):
        """strip references / boxes-as-strings: the value ultimately pointed to"""
        while v.k in ("ref", "boxptr") and lim:
            v = self.read(st, v.a[0], v.a[1])
            lim -= 1
        return v

    def resolve(self, st, v):
        """apply facts"""
        f = st.facts.get(v)
        if f is not None and type(f) is V:
            return f
        return v

    def fresh_cell(self, st, tag, val):
        root = ("h", tag)
        st.mem[root] = val
        return mk("ref", root, ())

    # ---------- constants
    def const(self, st, c):
        k = c["c"]
        if k == "int":
            t = self.c.types[c["ty"]]
            if t["k"] == "adt" and t.get("enum"):
                # niche-encoded or fieldless enum constant
                if t["path"] == OPTION and c["v"] == 0:
                    return NONE()
                vs = t.get("vs") or []
                if vs and all(not v["f"] for v in vs):
                    for i, v in enumerate(vs):
                        if int(v["d"]) == c["v"]:
                            return mk("adt", t["path"], i)
            return INT(self.sign(c["v"], c["ty"]))
        if k == "str":
            return STR(c["v"])
        if k == "bytes":
            return mk("bytes", bytes.fromhex(c["v"]))
        if k == "zst":
            t = self.c.types[c["ty"]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("clo", t["key"])
            if t["k"] == "fndef" and "fn" in t:
                return self.fnval(t["fn"])
            if t["k"] == "adt":
                return mk("adt", t["path"], 0)
            if t["k"] == "array":
                return mk("arr")
            return mk("zst", t["s"])
        if k == "fn":
            return self.fnval(c["fn"])
        if k in ("body", "static"):
            return self.constbody(c["key"], k == "static")
        if k == "named":
            return mk("named", c["name"])
        return mk("opaque", c.get("s", ""))

    def sign(self, v, ty):
        return v

    _fns = {}

    def fnval(self, fn):
        key = fn.get("ctor") or fn.get("key") or fn["path"]
        v = mk("fn", key, fn["path"])
        self._fns[v] = fn
        return v

    def constbody(self, key, static=False):
        r = self._constcache.get(key)
        if r is not None:
            return r
        if key not in self.c.bodies:
            return mk("named", key)
        sub = Interp(self.c, Rule(), cap=50, max_depth=6, max_steps=20000)
        sub._bodies = self._bodies
        rets = []

        class R(Rule):
            def on_return(s, I, st, value):
                rets.append((value, I.freeze(st, value)))

        sub.rule = R()
        try:
            sub.run(key, [])
        except Limit:
            rets = []
        if len(rets) == 1:
            v = rets[0][1]
        else:
            v = mk("named", key)
        if static:
            v = mk("frozen", v)
        self._constcache[key] = v
        return v

    def freeze(self, st, v, depth=0):
        """replace references to local cells by constant references so that a value can leave its store"""
        if depth > 40:
            return TOP
        if v.k == "ref":
            r = v.a[0]
            if r[0] == "obj":
                return v
            inner = self.freeze(st, self.read(st, r, v.a[1]), depth + 1)
            if inner.k in ("str", "bytes"):
                return inner
            return mk("frozen", inner)
        if v.k in ("adt", "tup", "arr", "vec", "clo", "box"):
            return mk(v.k, *[self.freeze(st, x, depth + 1) if type(x) is V else x for x in v.a])
        return v

    def thaw(self, st, v):
        """frozen constants become references to constant cells when used as operands"""
        if v.k == "frozen":
            inner = v.a[0]
            root = ("k", inner)
            if root not in st.mem:
                st.mem[root] = self.thaw(st, inner)
            return mk("ref", root, ())
        if v.k in ("adt", "tup", "arr", "vec", "clo", "box"):
            return mk(v.k, *[self.thaw(st, x) if type(x) is V else x for x in v.a])
        return v

    # ---------- operands / rvalues
    def operand(self, st, fid, o):
        k = o["o"]
        if k in ("copy", "move"):
            root, proj, bp = self.loc(st, fid, o["p"])
            if bp:
                return mk("boxptr", root, proj)
            return self.read(st, root, proj)
        if k == "const":
            return self.thaw(st, self.const(st, o["c"]))
        return TOP

    def rvalue(self, st, fid, r, blk, si):
        k = r["r"]
        if k == "use":
            return self.operand(st, fid, r["a"])
        if k == "ref":
            root, proj, bp = self.loc(st, fid, r["p"])
            if bp:
                return mk("boxptr", root, proj)
            # reborrow of an opaque pointer: &*p == p
            if root[0] == "obj" and not proj:
                return root[1]
            v = None
            if root[0] != "obj":
                v = self.read(st, root, proj)
                if v.k in ("str", "bytes") and not r.get("mut") and root[0] == "obj":
                    return v
            return mk("ref", root, proj)
        if k == "cast":
            v = self.operand(st, fid, r["a"])
            if v.k == "int" and r["k"] == "IntToInt":
                t = self.c.types[r["ty"]]["s"]
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(t)
                if bits:
                    return INT(v.a[0] & ((1 << bits) - 1))
                return v
            if r["k"] == "IntToInt":
                return mk("cast", self.resolve(st, v), self.c.types[r["ty"]]["s"])
            return v
        if k == "bin":
            a = self.resolve(st, self.operand(st, fid, r["a"]))
            b = self.resolve(st, self.operand(st, fid, r["b"]))
            return self.binop(st, r["op"], a, b)
        if k == "un":
            a = self.resolve(st, self.operand(st, fid, r["a"]))
            if r["op"] == "Not":
                return self.neg(a)
            if r["op"] == "PtrMetadata":
                return self.length(st, self.deref(st, a))
            if r["op"] == "Neg" and a.k == "int":
                return INT(-a.a[0])
            return mk("un", r["op"], a)
        if k == "discr":
            root, proj, _ = self.loc(st, fid, r["p"])
            v = self.read(st, root, proj)
            return self.discr(st, v, r["ty"])
        if k == "agg":
            ops = [self.operand(st, fid, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "tuple":
                return mk("tup", *ops)
            if kk == "array":
                return mk("arr", *ops)
            if kk == "adt":
                t = self.c.types[r["ty"]]
                return mk("adt", t["path"], r["v"], *ops)
            if kk == "closure":
                return mk("clo", r["key"], *ops)
            return mk("agg", *ops)
        if k == "repeat":
            v = self.operand(st, fid, r["a"])
            if 0 <= r["n"] <= 64:
                return mk("arr", *([v] * r["n"]))
            return mk("repeat", v, r["n"])
        return mk("opaque", r.get("s", k))

    def neg(self, a):
        if a.k == "int" and a.a[0] in (0, 1):
            return INT(1 - a.a[0])
        if a.k == "not":
            return a.a[0]
        return mk("not", a)

    def length(self, st, v):
        if v.k in ("arr", "vec"):
            return INT(len(v.a))
        if v.k == "bytes":
            return INT(len(v.a[0]))
        if v.k == "str":
            return INT(len(v.a[0].encode()))
        while v.k == "upd" and all(type(v.a[j]) is tuple for j in range(1, len(v.a), 2)):
            v = v.a[0]  # replacing items leaves the length
        t = mk("len", v)
        return self.resolve(st, t)

    def binop(self, st, op, a, b):
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            o = op.replace("WithOverflow", "").replace("Unchecked", "")
            r = None
            if o == "Add":
                r = x + y
            elif o == "Sub":
                r = x - y
            elif o == "Mul":
                r = x * y
            elif o == "Eq":
                return INT(int(x == y))
            elif o == "Ne":
                return INT(int(x != y))
            elif o == "Lt":
                return INT(int(x < y))
            elif o == "Le":
                return INT(int(x <= y))
            elif o == "Gt":
                return INT(int(x > y))
            elif o == "Ge":
                return INT(int(x >= y))
            elif o == "BitAnd":
                return INT(x & y)
            elif o == "BitOr":
                return INT(x | y)
            elif o == "BitXor":
                return INT(x ^ y)
            elif o == "Div" and y:
                return INT(x // y)
            elif o == "Rem" and y:
                return INT(x % y)
            elif o == "Cmp":
                return mk("adt", "std::cmp::Ordering", 0 if x < y else (1 if x == y else 2))
            if r is not None:
                if op.endswith("WithOverflow"):
                    return TUP(INT(r), INT(1 if r < 0 else 0))
                return INT(r)
        o = op
        if o in ("Eq", "Ne"):
            if a is b:
                return INT(1 if o == "Eq" else 0)
            if self.distinct(st, a, b):
                return INT(0 if o == "Eq" else 1)
            if (b.n < a.n and a.k != "int") or (b.k != "int" and a.k == "int"):
                a, b = b, a
            if b.k == "int" and b.a[0] in (0, 1) and a.k in ("eq", "not", "bool"):
                r = a if b.a[0] == 1 else self.neg(a)
                return r if o == "Eq" else self.neg(r)
            r = mk("eq", a, b)
            k = st.facts.get(r)
            if type(k) is V:
                r = k
            return r if o == "Eq" else self.neg(r)
        if o in ("Gt", "Ge"):
            a, b = b, a
            o = {"Gt": "Lt", "Ge": "Le"}[o]
        if o == "Le":
            # a <= b  ==  not (b < a)
            return self.neg(self.lt(st, b, a))
        if o == "Lt":
            return self.lt(st, a, b)
        if o.endswith("WithOverflow"):
            o = o[: -len("WithOverflow")]
            v = mk("bin", o, a, b)
            return TUP(v, mk("ovf", o, a, b))
        if o in ("BitAnd", "BitOr") and (a.k == "int" or b.k == "int"):
            c, x = (a, b) if a.k == "int" else (b, a)
            if o == "BitAnd" and c.a[0] == 0:
                return FALSE
            if o == "BitAnd" and x.k in ("ref", "boxptr"):
                return FALSE  # alignment check
            if o == "BitOr" and c.a[0] == 1 and x.k in ("eq", "not", "lt"):
                return TRUE
            if o == "BitAnd" and c.a[0] == 1 and x.k in ("eq", "not", "lt"):
                return x
            if o == "BitOr" and c.a[0] == 0:
                return x
        return mk("bin", o, a, b)

    def lt(self, st, a, b):
        if a is b:
            return FALSE
        # unsigned: x < 0 is false ; 0 < x  <=>  not (x == 0)
        if b.k == "int" and b.a[0] == 0 and a.k in ("len",):
            return FALSE
        if a.k == "int" and a.a[0] == 0 and b.k == "len":
            return self.neg(self.binop(st, "Eq", b, INT(0)))
        r = mk("lt", a, b)
        k = st.facts.get(r)
        return k if type(k) is V else r

    def distinct(self, st, a, b):
        """a, b certainly different"""
        if (a.k in ("boxptr", "ref") and b.k == "int") or (b.k in ("boxptr", "ref") and a.k == "int"):
            return True
        ca = a if a.k in ("int", "str", "bytes") else None
        cb = b if b.k in ("int", "str", "bytes") else None
        if ca is not None and cb is not None:
            return ca is not cb
        for x, c in ((a, cb), (b, ca)):
            if c is not None:
                if c.k == "str" and c.a[0] == "" and x.k == "cat" and any(self.filled(st, y) for y in x.a):
                    return True
                if c.k == "int" and c.a[0] == 0 and x.k == "len" and x.a[0].k in ("cat", "param", "call") and self.filled(st, x.a[0]):
                    return True
                f = st.facts.get(x)
                if type(f) is V and f.k == c.k:
                    return f is not c
                if type(f) is frozenset and c in f:
                    return True
        return False

    def filled(self, st, x):
        """x, a string or part of one, is certainly not empty"""
        if x.k == "str":
            return bool(x.a[0])
        if x.k == "cat":
            return any(self.filled(st, y) for y in x.a)
        if x.k == "show":
            x = x.a[2]
            if x.k in ("str", "cat"):
                return self.filled(st, x)
        e = STR("")
        return st.facts.get(mk("eq", *sorted((x, e), key=lambda v: v.n))) is FALSE

    def variants(self, ty):
        t = self.c.types[ty]
        return t.get("vs")

    def discr(self, st, v, ty):
        vs = self.variants(ty)
        if v.k == "adt":
            vi = v.a[1]
            if vs and vi < len(vs):
                return INT(int(vs[vi]["d"]))
            return INT(vi)
        if v.k == "upd":
            b = v
            while b.k == "upd":
                b = b.a[0]
            return self.discr(st, b, ty)
        if v.k == "phi":
            ds = [self.discr(st, x, ty) for x in v.a[1:]]
            if len(set(ds)) == 1:
                return ds[0]
        t = mk("discr", v)
        f = st.facts.get(t)
        if type(f) is V:
            return f
        if type(f) is frozenset and vs:
            rest = [x for x in vs if INT(int(x["d"])) not in f]
            if len(rest) == 1:
                return INT(int(rest[0]["d"]))
        return t

    # ---------- facts
    def assume(self, st, v, c):
        """v == constant c ; False when contradictory"""
        if v.k in ("int", "str", "bytes"):
            return v is c
        if v.k == "not":
            if c.k == "int" and c.a[0] in (0, 1):
                return self.assume(st, v.a[0], INT(1 - c.a[0]))
        f = st.facts.get(v)
        if f is not None:
            if type(f) is V:
                return f is c
            if c in f:
                return False
        st.facts[v] = c
        if v.k == "eq" and c.k == "int":
            a, b = v.a
            if c.a[0] == 1:
                if b.k in ("int", "str", "bytes") and b is not c:
                    if not self.assume(st, a, b):
                        return False
                elif a.k in ("int", "str", "bytes"):
                    if not self.assume(st, b, a):
                        return False
            elif c.a[0] == 0:
                if b.k in ("int", "str", "bytes"):
                    if not self.assume_not(st, a, (b,)):
                        return False
                elif a.k in ("int", "str", "bytes"):
                    if not self.assume_not(st, b, (a,)):
                        return False
        elif v.k == "bin" and v.a[0] == "BitAnd" and c is TRUE and v.a[1].k in BOOLISH and v.a[2].k in BOOLISH:
            return self.assume(st, v.a[1], TRUE) and self.assume(st, v.a[2], TRUE)
        elif v.k == "bin" and v.a[0] == "BitOr" and c is FALSE and v.a[1].k in BOOLISH and v.a[2].k in BOOLISH:
            return self.assume(st, v.a[1], FALSE) and self.assume(st, v.a[2], FALSE)
        return True

    def assume_not(self, st, v, cs):
        if v.k in ("int", "str", "bytes"):
            return v not in cs
        if v.k == "not" and len(cs) == 1 and cs[0].k == "int" and cs[0].a[0] in (0, 1):
            return self.assume_not(st, v.a[0], (INT(1 - cs[0].a[0]),))
        f = st.facts.get(v)
        if type(f) is V:
            return f not in cs
        if v.k in BOOLISH and len(cs) == 1 and cs[0].k == "int" and cs[0].a[0] in (0, 1):
            return self.assume(st, v, INT(1 - cs[0].a[0]))
        st.facts[v] = (f or EMPTY) | frozenset(cs)
        return True

    # ---------- recency
    def recycle(self, st, site):
        """the site is about to be executed again: rename what it bound before"""
        hit = False
        for v in st.mem.values():
            if site in v.sites:
                hit = True
                break
        if not hit:
            for f in st.facts:
                if site in f.sites:
                    hit = True
                    break
        if not hit:
            for r in st.mem:
                if r[0] == "obj" and site in r[1].sites:
                    hit = True
                    break
        if not hit:
            return
        emb = []
        for t, c in st.facts.items():
            if site in t.sites and type(c) is V and c.k in ("str", "bytes"):
                emb.append((t, c))
        for t, c in self.rule_embed(st, site):
            emb.append((t, c))
        old = site + ("old",) if not emb else site + ("old", tuple(sorted("%s=%s" % (show(t), c.a[0]) for t, c in emb)))
        cache = {}

        def f(x):
            if x.k in ("call", "mut", "item") and x.a[0] == site:
                return mk(x.k, old, *x.a[1:])
            if x.k == "ref" and site_in_root(x.a[0], site):
                return mk("ref", map_root(x.a[0], g), map_proj(x.a[1], g))
            return x

        def g(x):
            if site not in x.sites and x.k != "ref":
                return x
            return rewrite(x, f, cache)

        nm = {}
        for r, v in st.mem.items():
            if r[0] == "obj" and site in r[1].sites:
                r = ("obj", g(r[1]))
                if r in nm:
                    nm[r] = TOP
                    continue
            nm[r] = g(v) if (site in v.sites or v.k == "ref") else v
        nf = {}
        for t, c in st.facts.items():
            if site in t.sites:
                continue
            nf[t] = c
        st.mem = nm
        st.facts = nf
        if hasattr(self.rule, "rename_aux"):
            st.aux = self.rule.rename_aux(st.aux, g)

    def rule_embed(self, st, site):
        return ()

    # ---------- garbage collection
    def gc(self, st):
        keep_roots = set()
        frames = st.frames
        stack = []
        for i, fr in enumerate(frames):
            b = self.body(fr.key)
            if b is None:
                continue
            top = i == len(frames) - 1
            blk = fr.blk if top else None
            if top:
                lv = b.live[blk]
            else:
                # suspended at a call: what is live after it plus its destination
                lv = b.live[fr.blk] if fr.blk is not None else ()
            for l in lv:
                stack.append((fr.fid, l))
            if fr.dest is not None and fr.dest[0] != "py":
                stack.append(fr.dest[0])
            if fr.dest is not None and fr.dest[0] == "py":
                for x in fr.dest[2:]:
                    if type(x) is V:
                        self._refs(x, stack)
                    elif type(x) is tuple:
                        for y in x:
                            if type(y) is V:
                                self._refs(y, stack)
        for r in st.mem:
            if r[0] == "obj" and not r[1].sites:
                stack.append(r)
            elif r[0] == "keep":
                stack.append(r)
        for r in self.aux_roots(st):
            stack.append(r)
        mem = st.mem
        seen = keep_roots
        while stack:
            r = stack.pop()
            if r in seen:
                continue
            if r not in mem:
                continue
            seen.add(r)
            self._refs(mem[r], stack)
        # opaque pointees whose pointer is still around
        sites = set()
        for r in seen:
            sites |= mem[r].sites
        changed = True
        while changed:
            changed = False
            for r in mem:
                if r[0] == "obj" and r not in seen and r[1].sites and r[1].sites <= sites:
                    seen.add(r)
                    sites |= mem[r].sites
                    st2 = []
                    self._refs(mem[r], st2)
                    while st2:
                        q = st2.pop()
                        if q in mem and q not in seen:
                            seen.add(q)
                            sites |= mem[q].sites
                            self._refs(mem[q], st2)
                    changed = True
        sites |= self.aux_sites(st)
        st.mem = {r: mem[r] for r in mem if r in seen}
        kf = self.rule.keep_fact
        st.facts = {t: c for t, c in st.facts.items() if (not t.sites) or t.sites <= sites or kf(t)}

    def aux_roots(self, st):
        return ()

    def aux_sites(self, st):
        f = getattr(self.rule, "aux_sites", None)
        return f(st.aux) if f else EMPTY

    def _refs(self, v, out):
        out.extend(refs_of(v))

    # ---------- main loop
    def run(self, key, args, aux=None, facts=None, mem=None, fid="R"):
        b = self.body(key)
        if b is None:
            raise AnalysisError("no body for " + key)
        m = dict(mem or {})
        for i, a in enumerate(args):
            m[(fid, i + 1)] = a
        st = State((Frame(key, fid, 0, None, None),), m, dict(facts or {}), aux if aux is not None else self.rule.aux0)
        self.work = [st]
        self.seen = {}
        self.points = {}
        while self.work:
            st = self.work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Limit("step limit in %s (%d steps)" % (key, self.steps))
            if not self.steps & 63 and time.time() > DEADLINE[0]:
                raise Limit("time limit in %s (%d steps)" % (key, self.steps))
            self.exec_block(st)
        return self

    def push(self, st, must=False):
        """schedule a state; memoise at join points"""
        fr = st.frames[-1]
        b = self.body(fr.key)
        if b.join[fr.blk] or must:
            if self.lazy and not self.work:
                # the only state: nothing to meet; collect and remember it now and then only (max_steps bounds the run)
                self.quiet += 1
                if self.quiet % self.lazy:
                    self.work.append(st)
                    return
            self.gc(st)
            k = (st.frames, frozenset(st.mem.items()), frozenset(st.facts.items()), st.aux)
            pt = (st.frames, self.rule.merge_aux(st.aux))
            seen = self.points.setdefault(pt, {})
            if k in seen:
                return
            if len(seen) >= self.cap and "joined" not in seen:
                # too many states here: from now on keep a single joined state
                acc = None
                for o in list(seen.values()):
                    acc = o if acc is None else self.join(acc, o, pt)
                seen["joined"] = acc
            if "joined" in seen:
                self.joined += 1
                acc = seen["joined"]
                new = self.join(acc, st, pt)
                if new is not acc and not same_state(new, acc):
                    seen["joined"] = new
                    self.work.append(new.copy())
                return
            seen[k] = st.copy() if self.cap < 10**6 else True
        self.work.append(st)

    def join(self, a, b, pt):
        mem = {}
        for r in a.mem:
            if r in b.mem:
                x, y = a.mem[r], b.mem[r]
                mem[r] = x if x is y else self.join_val(x, y, (hash_pt(pt), r))
        facts = {}
        for t, c in a.facts.items():
            d = b.facts.get(t)
            if d is None:
                continue
            if c is d or c == d:
                facts[t] = c
            elif type(c) is frozenset and type(d) is frozenset:
                i = c & d
                if i:
                    facts[t] = i
            elif type(c) is frozenset and type(d) is V and d not in c:
                facts[t] = c
            elif type(d) is frozenset and type(c) is V and c not in d:
                facts[t] = d
        aux = a.aux if a.aux == b.aux else self.rule.join_aux(a.aux, b.aux)
        return State(a.frames, mem, facts, aux, a.trace)

    def join_val(self, x, y, tag):
        if x is y:
            return x
        if x.k == y.k and x.k in ("adt", "tup", "arr", "clo", "box") and len(x.a) == len(y.a):
            if x.k != "adt" or x.a[:2] == y.a[:2]:
                if x.k != "clo" or x.a[0] == y.a[0]:
                    return mk(
                        x.k,
                        *[
                            self.join_val(p, q, tag + (i,)) if type(p) is V and type(q) is V else p
                            for i, (p, q) in enumerate(zip(x.a, y.a))
                        ],
                    )
        xs = list(x.a[1:]) if x.k == "phi" else [x]
        ys = list(y.a[1:]) if y.k == "phi" else [y]
        alts = xs + [q for q in ys if q not in xs]
        if x.k == "phi" and x.a[0] == tag and len(alts) == len(xs):
            return x
        return mk_phi(tag, alts)

    def exec_block(self, st):
        fr = st.frames[-1]
        b = self.body(fr.key)
        fid = fr.fid
        x = b.blocks[fr.blk]
        self.visited.add((fr.key, fr.blk))
        for si, s in enumerate(x["s"]):
            t = s["t"]
            if t == "=":
                v = self.rvalue(st, fid, s["r"], fr.blk, si)
                root, proj, bp = self.loc(st, fid, s["p"])
                if v.depth > self.deep:
                    v = mk("deep", fr.key, fr.blk, si)
                self.write(st, root, proj, v)
            elif t == "sd":
                root, proj, bp = self.loc(st, fid, s["p"])
                v = self.read(st, root, proj)
                if v.k == "adt":
                    self.write(st, root, proj, mk("adt", v.a[0], s["v"], *v.a[2:]))
                else:
                    self.write(st, root, proj, TOP)
            elif t == "dead":
                st.mem.pop((fid, s["l"]), None)
        t = x["t"]
        k = t["t"]
        if k == "goto" or k == "drop":
            st.frames = st.frames[:-1] + (fr.at(t["to"]),)
            self.push(st)
        elif k == "switch":
            self.do_switch(st, fr, t)
        elif k == "ret":
            self.do_return(st, fr)
        elif k == "assert":
            c = self.resolve(st, self.operand(st, fid, t["c"]))
            want = INT(1 if t["e"] else 0)
            bad = st.copy()
            if self.assume(bad, c, INT(0 if t["e"] else 1)):
                self.rule.on_panic(self, bad, "assert-" + t["k"], (fr, t, x["l"]))
            if self.assume(st, c, want):
                st.frames = st.frames[:-1] + (fr.at(t["to"]),)
                self.push(st)
        elif k == "call":
            self.do_call(st, fr, x)
        elif k in ("unreachable", "unwind"):
            return
        else:
            raise AnalysisError("unknown terminator %s in %s" % (k, fr.key))

    def do_switch(self, st, fr, t):
        v = self.resolve(st, self.operand(st, fr.fid, t["d"]))
        if v.k == "int":
            for c, to in t["vs"]:
                if c == v.a[0]:
                    break
            else:
                to = t["else"]
            st.frames = st.frames[:-1] + (fr.at(to),)
            self.push(st)
            return
        cs = []
        b = self.body(fr.key)
        isbool = self.c.types[t["ty"]]["k"] == "bool"
        ff = st.facts.get(v)
        for c, to in t["vs"]:
            cv = INT(c)
            cs.append(cv)
            s2 = st.copy()
            if self.assume(s2, v, cv):
                s2.frames = st.frames[:-1] + (fr.at(to),)
                self.push(s2)
        if b.blocks[t["else"]]["t"]["t"] == "unreachable":
            return
        if isbool and len(cs) == 1:
            ok = self.assume(st, v, INT(1 - cs[0].a[0]))
        else:
            ok = self.assume_not(st, v, tuple(cs))
        if ok:
            st.frames = st.frames[:-1] + (fr.at(t["else"]),)
            self.push(st)

    def do_return(self, st, fr):
        v = st.mem.get((fr.fid, 0), UNIT)
        if len(st.frames) == 1:
            self.rule.on_return(self, st, v)
            return
        fid = fr.fid
        st.frames = st.frames[:-1]
        for r in [r for r in st.mem if r[0] == fid]:
            del st.mem[r]
        if fr.dest[0] == "py":
            fn = fr.dest[1]
            for s2 in fn(self, st, v, *fr.dest[2:]):
                pass
            return
        self.finish(st, fr.dest, fr.ret, v)

    def finish(self, st, dest, ret, v):
        """deliver a call result to the (now) top frame"""
        if dest[0] == "py":
            dest[1](self, st, v, *dest[2:])
            return
        if ret is None or ret < 0:
            return
        if v.depth > self.deep:
            v = mk("deep", st.frames[-1].key, ret, -1)
        self.write(st, dest[0], dest[1], v)
        fr = st.frames[-1]
        st.frames = st.frames[:-1] + (fr.at(ret),)
        self.push(st)

    def do_call(self, st, fr, x):
        t = x["t"]
        args = [self.operand(st, fr.fid, a) for a in t["a"]]
        root, proj, _ = self.loc(st, fr.fid, t["d"])
        dest = (root, proj)
        site = (fr.fid, fr.blk)
        f = t["f"]
        if f["o"] == "const" and "fn" in f["c"]:
            fn = f["c"]["fn"]
        else:
            fv = self.operand(st, fr.fid, f)
            fn = self._fns.get(fv) if fv.k == "fn" else {"path": "<indirect>", "targs": []}
        # the frame is suspended at its return block for liveness
        ret = t["to"]
        st.frames = st.frames[:-1] + (fr.at(ret if ret >= 0 else fr.blk),)
        self.call(st, fn, args, dest, ret, site, t, x["l"])

    def call(self, st, fn, args, dest, ret, site, term=None, line=0):
        """interpret a call in the context of the top frame; results go to (dest, ret)"""
        if "ctor" in fn:
            v = self.construct(fn, args, term)
            self.finish(st, dest, ret, v)
            return
        cl = Call()
        cl.path = fn["path"]
        cl.rpath = fn.get("rpath") or fn["path"]
        cl.key = fn.get("key") or fn["path"]
        cl.fn = fn
        cl.args = args
        cl.site = site
        cl.term = term
        cl.frame = st.frames[-1]
        cl.line = line
        cl.blk = site[1] if len(site) > 1 else None
        cl.argt = term["at"] if term else None
        cl.dt = term["dt"] if term else None
        if ret is None or (dest[0] != "py" and ret < 0):
            self.rule.on_panic(self, st, "call", cl)
            return
        r = self.rule.on_call(self, st, cl)
        if r is not None:
            for s2, v in r:
                self.finish(s2, dest, ret, v)
            return
        m = self.models.get(cl.path) or self.models.get(cl.rpath)
        if m is None:
            for pre, mm in self.premodels:
                if pre(cl):
                    m = mm
                    break
        if m is not None:
            r = m(self, st, cl, dest, ret)
            if r is not NotImplemented:
                if r is not None:
                    for s2, v in r:
                        self.finish(s2, dest, ret, v)
                return
        # closure / fn-pointer calls
        if fn.get("trait") in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn"):
            callee = args[0]
            tup = args[1] if len(args) > 1 else UNIT
            if self.call_closure(st, callee, tup, dest, ret, site):
                return
        key = fn.get("key")
        if key is not None and fn.get("kind") in ("item", None, "closureonce"):
            b = self.body(fn.get("ckey") or key)
            if b is not None and sum(f.key == b.key for f in st.frames) <= self.rule.recursion and len(st.frames) < self.max_depth:
                if self.rule.inline(self, b.key, b, len(st.frames)):
                    self.enter(st, b, args, dest, ret, site)
                    return
            elif b is not None and self.rule.strict and b.b.get("local") and self.rule.inline(self, b.key, b, len(st.frames)):
                self.rule.on_panic(self, st, "recursion", cl)
                return
        self.opaque(st, cl, dest, ret)

    def construct(self, fn, args, term):
        ctor = fn["ctor"]
        # enum variant or tuple struct
        if term is not None:
            t = self.c.types[term["dt"]]
        else:
            t = None
        if t is not None and t.get("k") == "adt":
            if ctor == t["path"]:
                return mk("adt", t["path"], 0, *args)
            for i, v in enumerate(t["vs"]):
                if ctor == t["path"] + "::" + v["n"]:
                    return mk("adt", t["path"], i, *args)
        vi = self.ctor_index(ctor)
        if vi is not None:
            return mk("adt", vi[0], vi[1], *args)
        return mk("ctor", ctor, *args)

    def ctor_index(self, ctor):
        if "::" not in ctor:
            return None
        p, n = ctor.rsplit("::", 1)
        for t in self.c.types:
            if t.get("k") == "adt":
                if t["path"] == p and "vs" in t:
                    for i, v in enumerate(t["vs"]):
                        if v["n"] == n:
                            return p, i
                if t["path"] == ctor and not t.get("enum"):
                    return ctor, 0
        return None

    def call_closure(self, st, callee, tup, dest, ret, site):
        c = self.content(st, callee)
        if tup.k == "tup":
            a = list(tup.a)
        else:
            return False
        if c.k == "fn":
            fn = self._fns.get(c)
            if fn is None:
                return False
            term = None
            self.call(st, fn, a, dest, ret, site, term)
            return True
        if c.k != "clo":
            return False
        b = self.body(c.a[0])
        if b is not None and self.rule.strict and b.b.get("local") and sum(f.key == b.key for f in st.frames) > self.rule.recursion:
            self.rule.on_panic(self, st, "recursion", (st.frames[-1], None, 0))
            return True
        if b is None or sum(f.key == b.key for f in st.frames) > self.rule.recursion:
            return False
        if not self.rule.inline(self, b.key, b, len(st.frames)):
            return False
        t1 = self.c.types[b.locals[1]]
        if t1["k"] == "ref":
            if callee.k == "ref":
                env = callee
                # strip extra reference levels
                while self.deref(st, env).k == "ref":
                    env = self.deref(st, env)
            else:
                env = self.fresh_cell(st, ("env",) + tuple(site), c)
        else:
            env = c
        self.enter(st, b, [env] + a, dest, ret, site)
        return True

    def enter(self, st, b, args, dest, ret, site):
        fid = (site[0], site[1]) if len(site) == 2 else site
        if b.b.get("spread") is not None:
            pass
        if b.b.get("closure") and len(args) == 2 and args[1].k == "tup" and b.argc != 2:
            env = args[0]
            t1 = self.c.types[b.locals[1]]
            if t1["k"] == "ref" and env.k not in ("ref",) and env.k == "clo":
                env = self.fresh_cell(st, ("env",) + tuple(site), env)
            args = [env] + list(args[1].a)
        elif b.b.get("closure") and len(args) == 2 and b.argc == 2 and args[1].k == "tup" and len(args[1].a) == 1:
            # rust-call ABI: (env, (arg,))
            env = args[0]
            t1 = self.c.types[b.locals[1]]
            if t1["k"] == "ref" and env.k == "clo":
                env = self.fresh_cell(st, ("env",) + tuple(site), env)
            args = [env, args[1].a[0]]
        st.frames = st.frames + (Frame(b.key, fid, 0, dest, ret),)
        for r in [r for r in st.mem if r[0] == fid]:
            del st.mem[r]
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        self.push(st)

    # ---------- opaque calls
    PURE = ()

    def opaque(self, st, cl, dest, ret, pure=None):
        self.opaque_calls[cl.rpath] = self.opaque_calls.get(cl.rpath, 0) + 1
        if pure is None:
            pure = is_pure(cl)
        site = PURE_SITE if pure else cl.site
        if not pure:
            self.recycle(st, site)
        summ = []
        muts = []
        for i, a in enumerate(cl.args):
            ismut = False
            if cl.argt:
                t = self.c.types[cl.argt[i]]
                ismut = t["k"] in ("ref", "ptr") and t.get("mut")
            if a.k == "ref":
                v = self.read(st, a.a[0], a.a[1])
                if ismut:
                    muts.append((i, a, v))
                v = self.summary(st, v)
                summ.append(mk("refto", v))
            elif ismut:
                muts.append((i, a, None))
                summ.append(a)
            else:
                summ.append(self.summary(st, a))
        v = mk("call", site, cl.rpath, *summ)
        if v.depth > 30:
            v = mk("call", site, cl.rpath)
        for i, a, old in muts:
            r, p = self.pointee(st, a)
            nv = mk("mut", site if not pure else cl.site, cl.rpath, i)
            self.write(st, r, p, nv)
        self.rule.on_event(self, st, cl, v)
        self.finish(st, dest, ret, v)

    def summary(self, st, v, d=0):
        """a store-free rendering of v for use inside terms"""
        if d > 6:
            return mk("deep", "summary", 0, 0)
        if v.k in ("ref", "boxptr"):
            return mk("refto", self.summary(st, self.read(st, v.a[0], v.a[1]), d + 1))
        if v.k in ("adt", "tup", "arr", "vec", "box", "clo", "upd"):
            return mk(v.k, *[self.summary(st, x, d + 1) if type(x) is V else x for x in v.a])
        return v


BOOLISH = ("eq", "not", "lt", "bool", "ovf")


def is_pure(cl):
    return False


def hash_pt(pt):
    fr = pt[0][-1]
    return (fr.fid, fr.blk)


def same_state(a, b):
    return a.mem == b.mem and a.facts == b.facts and a.aux == b.aux


def mk_phi(tag, alts):
    if len(alts) > 12:
        return mk("phi", tag, TOP)
    return mk("phi", tag, *alts)


def upd(v, name, w):
    if v.k == "upd":
        items = {}
        for j in range(1, len(v.a), 2):
            items[v.a[j]] = v.a[j + 1]
        items[name] = w
        base = v.a[0]
    else:
        items = {name: w}
        base = v
    flat = []
    for k in sorted(items, key=lambda k: (str(type(k)), str(k) if not isinstance(k, tuple) else str(k[1].n))):
        flat += [k, items[k]]
    return mk("upd", base, *flat)


def bare_key(t):
    while t.k in ("ref", "refto", "frozen", "deref") and type(t.a[0]) is V:
        t = t.a[0]
    if t.k == "adt" and t.a[0] == "std::borrow::Cow":
        return bare_key(t.a[2])
    return t


def map_set(m, k, w):
    """the map with the value under the (present) key k replaced"""
    if m.k != "mapins":
        return TOP
    if bare_key(m.a[1]) is k:
        return mk("mapins", m.a[0], m.a[1], w)
    return mk("mapins", map_set(m.a[0], k, w), m.a[1], m.a[2])


def site_in_root(r, site):
    return r[0] == "obj" and site in r[1].sites


def map_root(r, g):
    if r[0] == "obj":
        return ("obj", g(r[1]))
    return r


def map_proj(p, g):
    return tuple((s[0], g(s[1])) if s[0] in ("[]", "mk") else s for s in p)
