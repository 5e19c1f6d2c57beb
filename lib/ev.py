"""Helpers on top of the interpreter: evaluate a function on given abstract arguments."""
from absint import *


class Outcome:
    __slots__ = ("value", "facts", "st", "aux")

    def __init__(self, value, st):
        self.value = value
        self.facts = st.facts
        self.st = st
        self.aux = st.aux


class Collect(Rule):
    def __init__(self):
        self.out = []
        self.panics = []

    def on_return(self, I, st, v):
        self.out.append(Outcome(I.freeze(st, v), st))

    def on_panic(self, I, st, kind, info):
        self.panics.append((kind, panic_site(I, st, info), dict(st.facts)))


def panic_site(I, st, info):
    """(function key, source line) of the innermost local frame on the stack of a panic"""
    for fr in reversed(st.frames):
        b = I.c.bodies.get(fr.key)
        if b and b.get("local"):
            return (fr.key, info[2] if isinstance(info, tuple) else info.line)
    return (st.frames[-1].key, 0)


def evaluate(crate, key, args, rule=None, aux=None, facts=None, **kw):
    """abstract results of calling `key` with args (values; passed by reference where the signature says so)"""
    r = rule or Collect()
    I = Interp(crate, r, **kw)
    b = crate.fn(key)
    key = b["name"]
    mem = {}
    vals = []
    for i, a in enumerate(args):
        t = crate.types[b["locals"][i + 1]]
        vals.append(bind(crate, mem, ("h", "arg%d" % i), t, a))
    for r0 in list(mem):
        mem[("keep", r0)] = mk("ref", r0, ())
    I.run(key, vals, aux=aux, mem=mem, facts=facts)
    r.I = I
    return r


def bind(crate, mem, root, t, a):
    if t["k"] == "ref" and a.k not in ("ref", "str", "bytes", "param"):
        e = crate.types[t["e"]]
        inner = bind(crate, mem, root + ("*",), e, a)
        mem[root] = inner
        return mk("ref", root, ())
    return a


def const_eval(crate, key, args, **kw):
    """the single constant result of a total function on constant arguments, or None if it is not one"""
    r = evaluate(crate, key, args, **kw)
    vals = {o.value for o in r.out}
    if len(vals) == 1 and not r.panics:
        return vals.pop()
    return None


def enum_value(t, i):
    return mk("adt", t["path"], i)


def variant_name(t, v):
    if v.k == "adt" and v.a[0] == t["path"]:
        return t["vs"][v.a[1]]["n"]
    return None
