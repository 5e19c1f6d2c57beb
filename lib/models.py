"""Transfer functions for the library calls the crate makes (std, and shape-only models of iterators)."""
from absint import *
import re
import absint

MODELS = {}
PREFIX_MODELS = []


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f

    return deco


def premodel(pred):
    def deco(f):
        PREFIX_MODELS.append((pred, f))
        return f

    return deco


def one(st, v):
    return [(st, v)]


# ---------------------------------------------------------------- identity-like
@model(
    "std::hint::must_use",
    "std::convert::identity",
    "std::iter::IntoIterator::into_iter#id",
)
def m_id(I, st, cl, dest, ret):
    return one(st, cl.args[0])


def strlike(t):
    return t in ("std::string::String", "str") or t.startswith("std::borrow::Cow<")


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def m_clone(I, st, cl, dest, ret):
    v = I.deref(st, cl.args[0])
    if cl.path.endswith("to_owned") and v.k == "ref":
        v = I.content(st, v)
    return one(st, v)


@model(
    "std::string::String::as_str",
    "std::string::String::as_bytes",
    "core::str::<impl str>::as_bytes",
    "std::string::String::into_bytes",
    "std::string::String::as_mut_str",
    "std::vec::Vec::<T, A>::as_slice",
    "std::vec::Vec::<T, A>::as_mut_slice",
    "std::string::String::into_boxed_str",
)
def m_sameptr(I, st, cl, dest, ret):
    return one(st, cl.args[0])


def _selfty(I, cl):
    i = cl.fn.get("self")
    if i is None:
        return None
    return I.c.types[i]


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow")
def m_deref(I, st, cl, dest, ret):
    t = _selfty(I, cl)
    p = t.get("path") if t else None
    a = cl.args[0]
    if t and t["k"] == "ref":
        a = I.deref(st, a)
        t = I.c.types[t["e"]]
        p = t.get("path")
    if p == "std::boxed::Box":
        r, pr = I.pointee(st, a)
        return one(st, mk("ref", r, pr + (("box",),)))
    if p in ("std::string::String", "std::vec::Vec", "std::borrow::Cow") or (t and t["k"] in ("str", "slice", "array")):
        return one(st, a)
    if p in ("std::cell::RefMut", "std::cell::Ref"):
        v = I.deref(st, a)
        return one(st, v)
    if t and t.get("local"):
        return NotImplemented
    # smart pointers of other crates: a pure projection
    v = mk("call", PURE_SITE, cl.rpath, I.summary(st, I.deref(st, a)))
    return one(st, v)


@premodel(lambda cl: cl.path in ("std::convert::Into::into", "std::convert::From::from"))
def m_into(I, st, cl, dest, ret):
    ta = [I.c.types[i] for i in cl.fn["targs"]]
    if cl.fn.get("crate") == I.c.name:
        return NotImplemented
    if cl.path.endswith("From::from"):
        dst, src = ta[0], ta[1]
    else:
        src, dst = ta[0], ta[1]
    v = cl.args[0]
    if dst["s"] == src["s"]:
        return one(st, v)
    if (strlike(dst["s"]) or dst["s"] == "&str") and (strlike(src["s"]) or src["s"] in ("&str", "&std::string::String", "&mut str", "char") or "Box<str>" in src["s"]):
        return one(st, I.content(st, v))
    if dst.get("path") == "std::option::Option":
        return one(st, SOME(v))
    if dst.get("path") == "std::boxed::Box":
        return one(st, mk("box", v))
    if src["k"] in ("uint", "int", "bool", "char") and dst["k"] in ("uint", "int"):
        return one(st, v)
    return NotImplemented


@model("<T as std::string::ToString>::to_string", "std::string::ToString::to_string")
def m_to_string(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    v = cl.args[0]
    while t["k"] == "ref":
        v = I.deref(st, v)
        t = I.c.types[t["e"]]
    disp = cl.fn.get("disp")
    if disp and I.body(disp):
        return display(I, st, cl, disp, v, lambda I, st, pieces: deliver(I, st, dest, ret, cat(pieces)))
    c = I.content(st, v)
    while c.k == "adt" and c.a[0] == "std::borrow::Cow" and len(c.a) == 3:
        c = I.content(st, c.a[2])
    if t["s"] in ("str", "std::string::String") or t["s"].startswith("std::borrow::Cow"):
        return one(st, c)
    return one(st, cat([piece("disp", t["s"], c)]))


def deliver(I, st, dest, ret, v):
    I.finish(st, dest, ret, v)


def piece(k, ty, c):
    if c.k == "str" and k == "disp":
        return c
    if c.k == "int" and k == "disp" and ty not in ("char", "bool", "f64"):
        return STR(str(c.a[0]))
    return mk("show", k, ty, c)


CATMAX = 14


def cat(ps):
    out = []
    for p in ps:
        if p.k == "cat":
            q = list(p.a)
        else:
            q = [p]
        for x in q:
            if x.k == "str" and out and out[-1].k == "str":
                out[-1] = STR(out[-1].a[0] + x.a[0])
            elif x.k == "str" and x.a[0] == "":
                continue
            else:
                out.append(x)
    if not out:
        return STR("")
    if len(out) == 1 and out[0].k == "show" and out[0].a[0] == "disp" and out[0].a[1] in ("str", "std::string::String", "&str"):
        return out[0].a[2]
    if len(out) == 1 and out[0].k != "show":
        return out[0]
    if len(out) > CATMAX:
        return mk("cat", mk("longstr"))
    return mk("cat", *out)


_cells = [0]


def display(I, st, cl, key, v, k):
    """run `<T as Display>::fmt(&v, f)` with a recording formatter, then k(I, st, pieces)"""
    b = I.body(key)
    if any(f.key == key for f in st.frames) or len(st.frames) > I.max_depth:
        k(I, st, [mk("show", "disp", key, I.content(st, v))])
        return None
    tag = ("fmt", cl.site, key)
    n = 0
    while ("h", tag + (n,)) in st.mem:
        n += 1
    root = ("h", tag + (n,))
    st.mem[root] = mk("fmtbuf")
    if v.k not in ("ref",):
        vr = ("h", tag + (n, "v"))
        st.mem[vr] = v
        if v.k in ("adt", "tup", "int", "str"):
            v = mk("ref", vr, ())
    fid = (cl.site, "fmt", key, n)
    fref = mk("ref", root, ())

    st.frames = st.frames + (Frame(key, fid, 0, ("py", _after_display, root, k), None),)
    for r in [r for r in st.mem if r[0] == fid]:
        del st.mem[r]
    st.mem[(fid, 1)] = v
    st.mem[(fid, 2)] = fref
    st.mem[("keep", root)] = fref
    I.push(st)
    return None


def _after_display(I, st, v, root, k):
    b = st.mem.pop(root, mk("fmtbuf"))
    st.mem.pop(("keep", root), None)
    k(I, st, list(b.a))
    return ()


@premodel(lambda cl: "fmt::rt::Argument" in cl.path and "::new_" in cl.path)
def m_fmtarg(I, st, cl, dest, ret):
    kind = cl.path.rsplit("::new_", 1)[1].split(":")[0]
    t = I.c.types[cl.fn["targs"][0]]
    v = cl.args[0]
    while t["k"] == "ref":
        v = I.deref(st, v)
        t = I.c.types[t["e"]]
    disp = cl.fn.get("disp") or ""
    if not (kind == "display" and disp):
        c = I.content(st, v)
        return one(st, mk("fmtarg", kind[:4], t["s"], "", c))
    return one(st, mk("fmtarg", kind[:4], t["s"], disp, v))


@premodel(lambda cl: cl.path.startswith("std::fmt::Arguments") and cl.path.endswith("::new"))
def m_fmtnew(I, st, cl, dest, ret):
    tpl = I.content(st, cl.args[0])
    args = I.content(st, cl.args[1])
    if tpl.k != "bytes" or args.k != "arr":
        return one(st, mk("fmtargs", mk("longstr")))
    out = []
    b = tpl.a[0]
    i = 0
    ai = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(STR(b[i : i + n].decode("utf8", "replace")))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(STR(b[i : i + ln].decode("utf8", "replace")))
            i += ln
        else:
            if n & 1 and n != 0xC0:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            out.append(args.a[ai] if ai < len(args.a) else mk("longstr"))
            ai += 1
    return one(st, mk("fmtargs", *out))


@premodel(lambda cl: cl.path.startswith("std::fmt::Arguments") and cl.path.endswith(("::from_str", "::from_str_nonconst")))
def m_fmtstr(I, st, cl, dest, ret):
    return one(st, mk("fmtargs", I.content(st, cl.args[0])))


def fmt_pieces(I, st, cl, items, acc, k):
    """resolve the display arguments left to right"""
    while items:
        x = items[0]
        items = items[1:]
        if x.k == "fmtarg":
            kind, ty, disp, v = x.a
            if disp and kind == "disp" and I.body(disp):
                rest = items
                accn = list(acc)
                return display(I, st, cl, disp, v, lambda I, st, ps: fmt_pieces(I, st, cl, rest, accn + ps, k))
            acc = acc + [piece(kind, ty, v)]
        else:
            acc = acc + [x]
    k(I, st, acc)
    return None


@model("std::fmt::format", "alloc::fmt::format")
def m_format(I, st, cl, dest, ret):
    a = cl.args[0]
    if a.k != "fmtargs":
        return one(st, mk("cat", mk("longstr")))
    fmt_pieces(I, st, cl, list(a.a), [], lambda I, st, ps: deliver(I, st, dest, ret, cat(ps)))
    return None


@premodel(lambda cl: cl.path.endswith("::write_fmt"))
def m_write_fmt(I, st, cl, dest, ret):
    a = cl.args[1]
    r, p = I.pointee(st, cl.args[0])
    buf = I.read(st, r, p)
    if a.k != "fmtargs":
        return NotImplemented

    def k(I, st, ps):
        b = I.read(st, r, p)
        if b.k == "fmtbuf":
            I.write(st, r, p, mk("fmtbuf", *compact(list(b.a) + ps)))
            deliver(I, st, dest, ret, OK(UNIT))
        else:
            if b.k in ("str", "cat"):
                I.write(st, r, p, cat([b] + ps))
                deliver(I, st, dest, ret, OK(UNIT))
            else:
                I.opaque(st, cl, dest, ret)

    fmt_pieces(I, st, cl, list(a.a), [], k)
    return None


def compact(ps):
    out = []
    for x in ps:
        if x.k == "str" and out and out[-1].k == "str":
            out[-1] = STR(out[-1].a[0] + x.a[0])
        else:
            out.append(x)
    if len(out) > 20:
        return [mk("longstr")]
    return out


@premodel(lambda cl: cl.path in ("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "std::fmt::Write::write_str") or (cl.path == "std::fmt::Display::fmt" and not cl.rpath.startswith("<types") and cl.fn.get("crate") in ("core", "alloc")))
def m_write_str(I, st, cl, dest, ret):
    if cl.path == "std::fmt::Display::fmt":
        val, f = cl.args
    else:
        f, val = cl.args
    r, p = I.pointee(st, f)
    b = I.read(st, r, p)
    c = I.content(st, val)
    if b.k == "fmtbuf":
        ty = "str"
        if cl.path == "std::fmt::Display::fmt":
            ty = I.c.types[cl.fn["self"]]["s"] if "self" in cl.fn else "?"
        I.write(st, r, p, mk("fmtbuf", *compact(list(b.a) + [piece("disp", ty, c)])))
        return one(st, OK(UNIT))
    if b.k in ("str", "cat"):
        I.write(st, r, p, cat([b, piece("disp", "str", c)]))
        return one(st, OK(UNIT))
    return NotImplemented


# ---------------------------------------------------------------- strings
@model("std::string::String::new", "std::string::String::with_capacity")
def m_strnew(I, st, cl, dest, ret):
    return one(st, STR(""))


@model("std::string::String::push_str", "std::ops::AddAssign::add_assign", "std::string::String::push")
def m_push_str(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    old = I.read(st, r, p)
    c = I.content(st, cl.args[1])
    if cl.path.endswith("add_assign"):
        t = I.c.types[cl.fn["self"]]
        if t["k"] == "uint":
            I.write(st, r, p, I.binop(st, "Add", I.resolve(st, old), I.resolve(st, c)))
            return one(st, UNIT)
        if t["s"] != "std::string::String":
            return NotImplemented
    if cl.path.endswith("::push"):
        c = STR(chr(c.a[0])) if c.k == "int" else mk("show", "disp", "char", c)
    I.rule.on_event(I, st, cl, UNIT)
    I.write(st, r, p, cat([aspiece(old), aspiece(c)]))
    return one(st, UNIT)


def aspiece(v):
    if v.k in ("str", "cat", "show"):
        return v
    return mk("show", "disp", "str", v)


@model("std::ops::Add::add")
def m_add(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["self"]]
    if t["s"] != "std::string::String":
        return iters.m_arith(I, st, cl, dest, ret)
    return one(st, cat([aspiece(cl.args[0]), aspiece(I.content(st, cl.args[1]))]))


STRTYPES = ("str", "std::string::String", "&str", "&std::string::String", "&&str", "std::borrow::Cow<'_, str>", "[u8]", "&[u8]", "std::vec::Vec<u8>", "&std::vec::Vec<u8>")


def is_bytesarr(s):
    import re

    return re.match(r"^&*\[u8; \d+\]$", s) is not None


@premodel(lambda cl: cl.path in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"))
def m_eq(I, st, cl, dest, ret):
    ts = [I.c.types[i]["s"] for i in cl.fn["targs"][:2]]
    t0 = I.c.types[cl.fn["targs"][0]]
    base = t0
    while base["k"] == "ref":
        base = I.c.types[base["e"]]
    isstr = all(t in STRTYPES or t.startswith("std::borrow::Cow<") or is_bytesarr(t) for t in ts)
    prim = base["k"] in ("int", "uint", "bool", "char", "float")
    if isstr or prim:
        a = I.resolve(st, I.content(st, cl.args[0]))
        b = I.resolve(st, I.content(st, cl.args[1]))
        if isstr:
            a, b = asstr(I, st, a), asstr(I, st, b)
            if a.k == "str" and b.k == "str":
                r = INT(int(a is b))
            else:
                r = I.binop(st, "Eq", a, b)
        else:
            r = I.binop(st, "Eq", a, b)
        if cl.path.endswith("ne"):
            r = I.neg(r)
        return one(st, r)
    if base["k"] == "adt" and base.get("path") == "std::option::Option":
        a, b = I.content(st, cl.args[0]), I.content(st, cl.args[1])
        if a.k == "adt" and b.k == "adt":
            r = None
            if a.a[1] != b.a[1]:
                r = FALSE
            elif a.a[1] == 0:
                r = TRUE
            else:
                e = I.c.types[base["args"][0]]
                while e["k"] == "ref":
                    e = I.c.types[e["e"]]
                if e["k"] in ("int", "uint", "bool", "char"):
                    r = I.binop(st, "Eq", I.resolve(st, I.content(st, a.a[2])), I.resolve(st, I.content(st, b.a[2])))
            if r is not None:
                if cl.path.endswith("ne"):
                    r = I.neg(r)
                return one(st, r)
    if base["k"] == "adt" and not base.get("local") and base["path"] not in ("std::option::Option", "std::result::Result"):
        a = I.summary(st, I.content(st, cl.args[0]))
        b = I.summary(st, I.content(st, cl.args[1]))
        r = I.binop(st, "Eq", a, b)
        if cl.path.endswith("ne"):
            r = I.neg(r)
        return one(st, r)
    if base["k"] == "adt" and base.get("local"):
        # fieldless enums compare by discriminant; others run the (derived) body
        if base.get("enum") and all(not v["f"] for v in base["vs"]) and derived_eq(I, base):
            va = I.content(st, cl.args[0])
            vb = I.content(st, cl.args[1])
            ti = [i for i, t in enumerate(I.c.types) if t is base][0]
            r = I.binop(st, "Eq", I.discr(st, va, ti), I.discr(st, vb, ti))
            if cl.path.endswith("ne"):
                r = I.neg(r)
            return one(st, r)
        if cl.path.endswith("ne"):
            key = "<%s as std::cmp::PartialEq>::eq" % base["s"]
            b = I.body(key)
            if b is not None and "<%s as std::cmp::PartialEq>::ne" % base["s"] not in I.c.bodies and sum(f.key == key for f in st.frames) <= I.rule.recursion:
                a = []
                for v, ti in zip(cl.args, cl.fn["targs"][:2]):
                    t = I.c.types[ti]
                    while t["k"] == "ref":
                        v = I.deref(st, v)
                        t = I.c.types[t["e"]]
                    a.append(v)
                I.enter(st, b, a, ("py", _after_ne, dest, ret), None, cl.site)
                return None
    return NotImplemented


def _after_ne(I, st, v, dest, ret):
    I.finish(st, dest, ret, I.neg(v))
    return ()


def derived_eq(I, t):
    b = I.c.bodies.get("<%s as std::cmp::PartialEq>::eq" % t["s"])
    return b is None or b.get("derived")


def asstr(I, st, v):
    if v.k == "bytes":
        try:
            return STR(v.a[0].decode("utf8"))
        except UnicodeDecodeError:
            return v
    s = known_bytes(I, st, v)
    return s if s is not None else v


def known_bytes(I, st, v):
    """string reconstructed from facts about len(v) and v[i]"""
    f = st.facts.get(v)
    if type(f) is V and f.k in ("str", "bytes"):
        return asstr(I, st, f) if f.k == "bytes" else f
    n = st.facts.get(mk("len", v))
    if type(n) is V and n.k == "int":
        bs = []
        for i in range(n.a[0]):
            c = st.facts.get(mk("idx", v, INT(i)))
            if type(c) is not V or c.k != "int":
                return None
            bs.append(c.a[0])
        try:
            return STR(bytes(bs).decode("utf8"))
        except UnicodeDecodeError:
            return None
    return None


@model("std::string::String::is_empty", "core::str::<impl str>::is_empty")
def m_str_empty(I, st, cl, dest, ret):
    c = I.content(st, cl.args[0])
    if c.k == "str":
        return one(st, INT(int(c.a[0] == "")))
    if c.k == "cat" and any(x.k == "str" and x.a[0] for x in c.a):
        return one(st, FALSE)
    return one(st, I.binop(st, "Eq", c, STR("")))


NUMBER = re.compile(r"<impl std::str::FromStr for (u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64)>::from_str$")
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


def number(ty, s):
    """is s a number of that type? None: not decided"""
    if ty[0] == "f":
        return None if re.fullmatch(r"[-+]?([0-9.]+([eE][-+]?[0-9]+)?|inf|nan|infinity)", s, re.I) else False
    m = re.fullmatch(r"([-+]?)([0-9]+)", s)
    if not m or (m.group(1) == "-" and ty[0] == "u" and int(s)):
        return False
    v = int(s)
    lo, hi = (0, 2 ** BITS[ty]) if ty[0] == "u" else (-(2 ** (BITS[ty] - 1)), 2 ** (BITS[ty] - 1))
    return v if lo <= v < hi else False


@premodel(lambda cl: cl.path == "std::str::FromStr::from_str" and NUMBER.search(cl.rpath))
def m_number(I, st, cl, dest, ret):
    s = asstr(I, st, I.content(st, cl.args[0]))
    if s.k == "str" and s.a[0].isascii():
        n = number(NUMBER.search(cl.rpath).group(1), s.a[0])
        if n is False:
            return one(st, ERR(mk("param", "number error")))
        if type(n) is int:
            return one(st, OK(INT(n)))
    return NotImplemented


@model("core::str::<impl str>::parse")
def m_parse(I, st, cl, dest, ret):
    """s.parse::<T>() is T::from_str(s)"""
    t = I.c.types[cl.fn["targs"][0]]
    b = I.body("<%s as std::str::FromStr>::from_str" % t["s"])
    if b is not None:
        I.enter(st, b, [cl.args[0]], dest, ret, cl.site)
        return None
    if t["s"] in BITS or t["s"] in ("f32", "f64"):
        cl.path = "std::str::FromStr::from_str"
        cl.rpath = "core::num::%s<impl std::str::FromStr for %s>::from_str" % ("float_parse::" if t["s"][0] == "f" else "", t["s"])
        return m_number(I, st, cl, dest, ret)
    if t["s"] == "std::string::String":
        return one(st, OK(I.content(st, cl.args[0])))
    return NotImplemented


@model("std::str::from_utf8", "core::str::from_utf8")
def m_from_utf8(I, st, cl, dest, ret):
    c = I.content(st, cl.args[0])
    if c.k == "bytes" and asstr(I, st, c) is c:
        return one(st, ERR(mk("param", "utf8 error")))
    s = asstr(I, st, c)
    if s.k == "str":
        return one(st, OK(s))
    return NotImplemented


def m_trim_term(c, how):
    if c.k == "str":
        s = c.a[0]
        return STR(s.strip() if how == "trim" else s.rstrip() if how == "trim_end" else s.lstrip())
    return mk("call", PURE_SITE, "core::str::<impl str>::" + how, c)


@model("core::str::<impl str>::trim", "core::str::<impl str>::trim_end", "core::str::<impl str>::trim_start")
def m_trim(I, st, cl, dest, ret):
    c = I.content(st, cl.args[0])
    if c.k == "str":
        s = c.a[0]
        s = s.strip() if cl.path.endswith("trim") else (s.rstrip() if cl.path.endswith("end") else s.lstrip())
        return one(st, STR(s))
    return one(st, mk("call", PURE_SITE, cl.rpath, c))


def const_str_fn(name, f):
    @model("core::str::<impl str>::" + name)
    def m(I, st, cl, dest, ret):
        cs = [I.content(st, a) for a in cl.args]
        if all(c.k == "str" for c in cs):
            return one(st, f(*[c.a[0] for c in cs]))
        if cs[0].k == "str" and cs[1].k == "int":
            return one(st, f(cs[0].a[0], chr(cs[1].a[0])))
        return one(st, mk("call", PURE_SITE, cl.rpath, *cs))


const_str_fn("starts_with", lambda a, b: INT(int(a.startswith(b))))
const_str_fn("ends_with", lambda a, b: INT(int(a.endswith(b))))
const_str_fn("contains", lambda a, b: INT(int(b in a)))
const_str_fn("eq_ignore_ascii_case", lambda a, b: INT(int(a.lower() == b.lower())))
const_str_fn("strip_suffix", lambda a, b: SOME(STR(a[: len(a) - len(b)])) if a.endswith(b) else NONE())
const_str_fn("strip_prefix", lambda a, b: SOME(STR(a[len(b) :])) if a.startswith(b) else NONE())


def _bo(s, i):
    return len(s[:i].encode("utf8"))


const_str_fn("find", lambda a, b: SOME(INT(_bo(a, a.find(b)))) if b in a else NONE())
const_str_fn("rfind", lambda a, b: SOME(INT(_bo(a, a.rfind(b)))) if b in a else NONE())
const_str_fn("split_once", lambda a, b: SOME(TUP(*map(STR, a.split(b, 1)))) if b in a else NONE())
const_str_fn("rsplit_once", lambda a, b: SOME(TUP(*map(STR, a.rsplit(b, 1)))) if b in a else NONE())


def _trimend(a, b):
    while b and a.endswith(b):
        a = a[: len(a) - len(b)]
    return STR(a)


const_str_fn("trim_end_matches", _trimend)


@model("core::str::<impl str>::split_at")
def m_split_at(I, st, cl, dest, ret):
    c = I.content(st, cl.args[0])
    i = I.resolve(st, cl.args[1])
    if c.k == "str" and i.k == "int":
        b = c.a[0].encode("utf8")
        try:
            return one(st, TUP(STR(b[: i.a[0]].decode("utf8")), STR(b[i.a[0] :].decode("utf8"))))
        except UnicodeDecodeError:
            pass
    return NotImplemented


@model("core::str::<impl str>::to_lowercase", "std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_ascii_lowercase", "core::str::<impl str>::to_uppercase", "std::str::<impl str>::to_uppercase")
def m_case(I, st, cl, dest, ret):
    c = I.content(st, cl.args[0])
    if c.k == "str":
        return one(st, STR(c.a[0].lower() if "lower" in cl.path else c.a[0].upper()))
    return one(st, mk("call", PURE_SITE, cl.rpath, c))


# ---------------------------------------------------------------- memory
@model("std::mem::replace", "core::mem::replace")
def m_replace(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    old = I.read(st, r, p)
    I.write(st, r, p, cl.args[1])
    return one(st, old)


@model("std::mem::swap", "core::mem::swap")
def m_swap(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    r2, p2 = I.pointee(st, cl.args[1])
    a, b = I.read(st, r, p), I.read(st, r2, p2)
    I.write(st, r, p, b)
    I.write(st, r2, p2, a)
    return one(st, UNIT)


@model("std::mem::take", "core::mem::take")
def m_take(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    old = I.read(st, r, p)
    t = I.c.types[cl.fn["targs"][0]]
    d = default_of(I, t)
    if d is None:
        return NotImplemented
    I.write(st, r, p, d)
    return one(st, old)


def default_of(I, t):
    p = t.get("path", t["s"])
    if p == "std::option::Option":
        return NONE()
    if p == "std::vec::Vec":
        return mk("vec")
    if t["s"] in ("std::string::String", "&str"):
        return STR("")
    if t["k"] in ("int", "uint", "bool"):
        return INT(0)
    if p in ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet", "std::collections::BTreeSet"):
        return mk("newmap", p)
    if p in ("std::cell::RefCell", "std::cell::Cell", "std::boxed::Box") and t.get("args"):
        d = default_of(I, I.c.types[t["args"][0]])
        if d is not None:
            return mk("box", d) if p == "std::boxed::Box" else mk("adt", "std::cell::RefCell", 0, d)
    return None


@model("std::default::Default::default")
def m_default(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    d = default_of(I, t)
    if d is None:
        return NotImplemented
    return one(st, d)


@model("std::result::Result::<T, E>::unwrap_or_default", "std::option::Option::<T>::unwrap_or_default")
def m_unwrap_or_default(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    d = default_of(I, t)
    if d is None:
        return NotImplemented
    v = cl.args[0]
    res = "Result" in cl.path
    good = 0 if res else 1
    name = "Ok.0" if res else "Some.0"
    if v.k == "adt":
        return one(st, v.a[2] if v.a[1] == good else d)
    out = []
    s2 = st.copy()
    dt = mk("discr", v)
    if I.assume(s2, dt, INT(good)):
        out.append((s2, mk("fld", v, name)))
    if I.assume(st, dt, INT(1 - good)):
        out.append((st, d))
    return out


@model("std::boxed::Box::<T>::new")
def m_boxnew(I, st, cl, dest, ret):
    return one(st, mk("box", cl.args[0]))


@model("std::boxed::Box::<T>::new_uninit", "std::boxed::box_new_uninit")
def m_boxuninit(I, st, cl, dest, ret):
    return one(st, mk("box", mk("uninit")))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_intovec(I, st, cl, dest, ret):
    v = cl.args[0]
    v = v.a[0] if v.k == "box" else mk("deref", v)
    while v.k == "upd":
        v = v.a[2]
    while v.k == "adt" and len(v.a) == 3:
        v = v.a[2]
    if v.k == "arr":
        return one(st, mk("vec", *v.a))
    if v.k == "repeat":
        return one(st, v)
    return one(st, mk("opaque", "vec!"))


@premodel(lambda cl: cl.path.endswith("]>::into_vec") or cl.path.endswith("]>::to_vec"))
def m_tovec(I, st, cl, dest, ret):
    v = I.content(st, cl.args[0])
    while v.k == "box":
        v = v.a[0]
    if v.k == "arr":
        v = mk("vec", *v.a)
    return one(st, v)


# ---------------------------------------------------------------- cells
@model("std::cell::RefCell::<T>::new", "std::cell::Cell::<T>::new")
def m_cell(I, st, cl, dest, ret):
    return one(st, mk("adt", "std::cell::RefCell", 0, cl.args[0]))


@model("std::cell::RefCell::<T>::borrow_mut", "std::cell::RefCell::<T>::borrow")
def m_borrow(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    return one(st, mk("ref", r, p + ((".", 0, "value"),)))


@model("std::cell::RefCell::<T>::replace", "std::cell::Cell::<T>::replace")
def m_cellreplace(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    p = p + ((".", 0, "value"),)
    old = I.read(st, r, p)
    I.write(st, r, p, cl.args[1])
    return one(st, old)


# ---------------------------------------------------------------- vectors and slices
@model("std::vec::from_elem", "alloc::vec::from_elem")
def m_from_elem(I, st, cl, dest, ret):
    n = I.resolve(st, cl.args[1])
    if n.k != "int" or n.a[0] > 4096 or not const_like(cl.args[0]):
        return NotImplemented
    return one(st, mk("vec", *[cl.args[0]] * n.a[0]))


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def m_vecnew(I, st, cl, dest, ret):
    return one(st, mk("vec"))


VECMAX = 6
VECDUP = False  # keep sequences with repeated items (for analyses without unbounded loops)


def const_like(v):
    if v.k in ("int", "str", "bytes"):
        return True
    if v.k in ("adt", "tup", "vec", "arr", "box", "clo"):
        return all(const_like(x) for x in v.a if type(x) is V)
    return False


def vec_push(v, x):
    if v.k == "vec":
        if const_like(x) and all(const_like(y) for y in v.a):
            if len(v.a) < 150:
                return mk("vec", *(v.a + (x,)))
        elif len(v.a) < VECMAX and (VECDUP or x not in v.a):
            return mk("vec", *(v.a + (x,)))
        return mk("bag", mk("vec"), *sorted(set(v.a + (x,)), key=lambda y: y.n))
    if v.k == "bag":
        if x in v.a[1:]:
            return v
        if len(v.a) > 12:
            return mk("bag", v.a[0], TOP)
        return mk("bag", v.a[0], *sorted(set(v.a[1:] + (x,)), key=lambda y: y.n))
    return mk("bag", v, x)


@model("std::vec::Vec::<T, A>::push")
def m_push(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    I.rule.on_event(I, st, cl, UNIT)
    I.write(st, r, p, vec_push(v, cl.args[1]))
    return one(st, UNIT)


@model("std::vec::Vec::<T, A>::pop")
def m_pop(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    if v.k == "vec":
        I.rule.on_event(I, st, cl, UNIT)
        if not v.a:
            return one(st, NONE())
        I.write(st, r, p, mk("vec", *v.a[:-1]))
        return one(st, SOME(v.a[-1]))
    out = []
    s2 = st.copy()
    if I.assume(s2, mk("len", v), INT(0)):
        I.rule.on_event(I, s2, cl, UNIT)
        out.append((s2, NONE()))
    if I.assume_not(st, mk("len", v), (INT(0),)):
        I.rule.on_event(I, st, cl, UNIT)
        I.recycle(st, cl.site)
        v = I.read(st, r, p)
        x = mk("idx", v, INT(-1))
        I.write(st, r, p, mk("mut", cl.site, cl.rpath, 0))
        out.append((st, SOME(x)))
    return out


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove", "std::vec::Vec::<T, A>::insert")
def m_remove(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    i = I.resolve(st, cl.args[1])
    op = cl.rpath.rsplit("::", 1)[1]
    if v.k != "vec" or i.k != "int" or i.a[0] >= len(v.a) + (op == "insert"):
        return NotImplemented
    I.rule.on_event(I, st, cl, UNIT)
    i, xs = i.a[0], list(v.a)
    if op == "insert":
        xs.insert(i, cl.args[2])
        I.write(st, r, p, mk("vec", *xs))
        return one(st, UNIT)
    x = xs[i]
    if op == "swap_remove":
        xs[i] = xs[-1]
        xs.pop()
    else:
        del xs[i]
    I.write(st, r, p, mk("vec", *xs))
    return one(st, x)


@model("std::vec::Vec::<T, A>::clear")
def m_clear(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    I.rule.on_event(I, st, cl, UNIT)
    I.write(st, r, p, mk("vec"))
    return one(st, UNIT)


@model("std::vec::Vec::<T, A>::truncate")
def m_truncate(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    n = I.resolve(st, cl.args[1])
    I.rule.on_event(I, st, cl, UNIT)
    if v.k == "vec" and n.k == "int":
        I.write(st, r, p, mk("vec", *v.a[: n.a[0]]))
    else:
        I.recycle(st, cl.site)
        I.write(st, r, p, mk("mut", cl.site, cl.rpath, 0))
    return one(st, UNIT)


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def m_len(I, st, cl, dest, ret):
    return one(st, I.length(st, I.content(st, cl.args[0])))


@model("core::str::<impl str>::len", "std::string::String::len")
def m_slen(I, st, cl, dest, ret):
    return one(st, I.length(st, I.content(st, cl.args[0])))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_isempty(I, st, cl, dest, ret):
    v = I.content(st, cl.args[0])
    if v.k == "bag" and len(v.a) > 1:
        return one(st, FALSE)
    return one(st, I.binop(st, "Eq", I.length(st, v), INT(0)))


def seqloc(I, st, v):
    """(root, proj) of the sequence a (reference to a) slice/vec value denotes"""
    r, p = I.pointee(st, v)
    x = I.read(st, r, p)
    while x.k in ("ref", "boxptr"):
        r, p = x.a
        x = I.read(st, r, p)
    while x.k == "box":
        p = p + (("box",),)
        x = x.a[0]
    return r, p, x


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(I, st, cl, dest, ret):
    if len(cl.fn["targs"]) > 1:
        it = I.c.types[cl.fn["targs"][1]]
        if it["k"] != "uint":
            return NotImplemented
    r, p, x = seqloc(I, st, cl.args[0])
    i = I.resolve(st, cl.args[1])
    n = I.length(st, x)
    if i.k == "int" and n.k == "int":
        return one(st, SOME(mk("ref", r, p + (("[]", i),))) if i.a[0] < n.a[0] else NONE())
    c = I.lt(st, i, n)
    out = []
    s2 = st.copy()
    if I.assume(s2, c, TRUE):
        out.append((s2, SOME(mk("ref", r, p + (("[]", i),)))))
    if I.assume(st, c, FALSE):
        out.append((st, NONE()))
    return out


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def m_last(I, st, cl, dest, ret):
    r, p, x = seqloc(I, st, cl.args[0])
    n = I.length(st, x)
    last = "last" in cl.path
    if n.k == "int":
        if n.a[0] == 0:
            return one(st, NONE())
        return one(st, SOME(mk("ref", r, p + (("[]", INT(n.a[0] - 1 if last else 0)),))))
    out = []
    s2 = st.copy()
    if I.assume(s2, n, INT(0)):
        out.append((s2, NONE()))
    if I.assume_not(st, n, (INT(0),)):
        out.append((st, SOME(mk("ref", r, p + (("[]", INT(-1 if last else 0)),)))))
    return out


@premodel(lambda cl: cl.path in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"))
def m_index(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    if t.get("path") == "std::collections::HashMap" and cl.args[0].k == "ref":
        return iters.map_index(I, st, cl)
    if t.get("path") == "std::collections::HashMap" or len(cl.fn["targs"]) < 2:
        return NotImplemented
    it = I.c.types[cl.fn["targs"][1]]
    if t.get("local"):
        return NotImplemented
    r, p, x = seqloc(I, st, cl.args[0])
    i = I.resolve(st, cl.args[1])
    if it["k"] != "uint":
        sl = const_slice(x, i)
        if sl is not None:
            return one(st, sl)
        if x.k in ("vec", "arr") and cl.path.endswith("Index::index"):
            b = iters.bounds(i, len(x.a))
            if b is not None:
                return one(st, I.fresh_cell(st, ("slice",) + tuple(cl.site), mk("vec", *x.a[b[0] : b[1]])))
        I.rule.on_panic(I, st, "slice-range", cl)
        return one(st, mk("call", PURE_SITE, cl.rpath, I.summary(st, x), I.summary(st, i)))
    n = I.length(st, x)
    c = INT(int(i.a[0] < n.a[0])) if i.k == "int" and n.k == "int" else I.lt(st, i, n)
    bad = st.copy()
    if I.assume(bad, c, FALSE):
        I.rule.on_panic(I, bad, "index", cl)
    if not I.assume(st, c, TRUE):
        return []
    return one(st, mk("ref", r, p + (("[]", i),)))


def const_slice(x, i):
    """x[range] for a constant string/bytes and a constant range"""
    if x.k not in ("str", "bytes") or i.k != "adt" or any(type(y) is not V or y.k != "int" for y in i.a[2:]):
        return None
    b = x.a[0].encode("utf8") if x.k == "str" else x.a[0]
    n, a = i.a[0], [y.a[0] for y in i.a[2:]]
    lo, hi = (a[0], a[1]) if n.endswith("::Range") else (a[0], len(b)) if n.endswith("::RangeFrom") else (0, a[0]) if n.endswith("::RangeTo") else (0, len(b)) if n.endswith("::RangeFull") else (None, None)
    if lo is None or not (0 <= lo <= hi <= len(b)):
        return None
    try:
        return STR(b[lo:hi].decode("utf8")) if x.k == "str" else mk("bytes", b[lo:hi])
    except UnicodeDecodeError:
        return None


@model("core::slice::<impl [T]>::contains")
def m_contains(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]]
    seq = I.content(st, cl.args[0])
    x = I.content(st, cl.args[1])
    if seq.k in ("arr", "vec"):
        if all(const_like(y) for y in seq.a) and const_like(x):
            return one(st, INT(int(x in seq.a)))
        # fieldless enum element of unknown variant: split
        if t.get("enum") and all(not v["f"] for v in t["vs"]) and all(y.k == "adt" for y in seq.a):
            ti = cl.fn["targs"][0]
            d = I.discr(st, x, ti)
            ds = [INT(int(t["vs"][y.a[1]]["d"])) for y in seq.a]
            if d.k == "int":
                return one(st, INT(int(d in ds)))
            out = []
            for c in dict.fromkeys(ds):
                s2 = st.copy()
                if I.assume(s2, d, c):
                    out.append((s2, TRUE))
            if I.assume_not(st, d, tuple(dict.fromkeys(ds))):
                out.append((st, FALSE))
            return out
        if not seq.a:
            return one(st, FALSE)
    if seq.k == "bytes" and x.k == "int":
        return one(st, INT(int(x.a[0] in seq.a[0])))
    r = mk("call", PURE_SITE, cl.rpath, I.summary(st, seq), I.summary(st, x))
    return one(st, I.resolve(st, r))


# ---------------------------------------------------------------- iterators
# it(mode, seq, dir, pos): mode "ref": seq is a ref to the sequence; mode "val": seq is the sequence value
@premodel(lambda cl: cl.path in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut"))
def m_iter(I, st, cl, dest, ret):
    r, p, x = seqloc(I, st, cl.args[0])
    return one(st, mk("it", "ref", mk("ref", r, p), 0))


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(I, st, cl, dest, ret):
    v = cl.args[0]
    t = I.c.types[cl.fn["targs"][0]]
    p = t.get("path")
    if t["k"] == "ref":
        e = I.c.types[t["e"]]
        if e.get("path") == "std::vec::Vec" or e["k"] in ("slice", "array"):
            r, pr, x = seqloc(I, st, v)
            return one(st, mk("it", "ref", mk("ref", r, pr), 0))
        if e.get("local"):
            return NotImplemented
        if e.get("path") in ("std::option::Option", "std::result::Result") and v.k == "ref":
            w = iters.iter_of(I, st, mk("ref", v.a[0], v.a[1]))
            if w is not None:
                return one(st, w)
        if e.get("path") == "std::collections::HashMap" and v.k == "ref" and complete(I.content(st, v)):
            r, pr, m = seqloc(I, st, v)
            return one(st, mk("it", "val", map_items(I, st, m, r, pr), 0))
        return one(st, mk("it", "ref", v, -1))
    if p in ("std::vec::Vec", "std::collections::VecDeque") or t["k"] == "array":
        return one(st, mk("it", "val", v, 0))
    if p in ("std::collections::HashMap", "std::collections::BTreeMap", "std::collections::HashSet"):
        return one(st, mk("it", "val", v, -1))
    if p == "std::option::Option":
        return one(st, mk("it", "opt", v, 0))
    if v.k in ("it", "enum"):
        return one(st, v)
    if t["k"] == "adt" and t.get("local"):
        # IntoIterator for I: Iterator is the identity
        if cl.rpath == "<I as std::iter::IntoIterator>::into_iter":
            return one(st, v)
        return NotImplemented
    return one(st, v)


@premodel(lambda cl: cl.path.startswith("std::collections::") and cl.path.rsplit("::", 1)[1] in ("iter", "iter_mut", "keys", "values", "values_mut", "drain", "into_iter", "into_keys", "into_values"))
def m_mapiter(I, st, cl, dest, ret):
    v = cl.args[0]
    n = cl.path.rsplit("::", 1)[1]
    m = I.content(st, v)
    if complete(m) and v.k == "ref" and n in ("iter", "iter_mut", "keys", "values", "values_mut"):
        r, p, m = seqloc(I, st, v)
        items = map_items(I, st, m, r, p)
        if n in ("keys", "values", "values_mut"):
            items = mk("vec", *[x.a[0 if n == "keys" else 1] for x in items.a])
        return one(st, mk("it", "val", items, 0))
    return one(st, mk("it", cl.path.rsplit("::", 1)[1], v, -1))


@model("std::iter::Iterator::enumerate")
def m_enumerate(I, st, cl, dest, ret):
    return one(st, mk("enum", cl.args[0]))


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_cloned(I, st, cl, dest, ret):
    return one(st, mk("cloned", cl.args[0]))


@premodel(lambda cl: cl.path == "std::iter::Iterator::next")
def m_next(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    while v.k == "ref":
        r, p = v.a
        v = I.read(st, r, p)
    return next_on(I, st, cl, dest, ret, r, p, v)


def next_on(I, st, cl, dest, ret, r, p, v):
    while v.k == "ref":
        r, p = v.a
        v = I.read(st, r, p)
    if v.k == "it":
        return it_next(I, st, cl, r, p, v)
    if v.k == "adt" and type(v.a[0]) is str and v.a[0].startswith("lz::"):
        xs = iters.listed(I, st, v) if v.a[0] != "lz::peek" else None
        if xs is not None:
            v = iters.known(xs)
            I.write(st, r, p, v)
            return it_next(I, st, cl, r, p, v)
        enter_synth(I, st, iters.lazy_body(I, v.a[0][4:]), [mk("ref", r, p)], dest, ret, cl.site)
        return None
    if v.k in ("enum", "cloned"):
        inner = v.a[0]
        # run on a temporary copy of the inner iterator
        tmp = ("h", ("itn", cl.site, v.k))
        st.mem[tmp] = inner
        st.mem[("keep", tmp)] = mk("ref", tmp, ())
        kind = v.k
        cnt = v.a[1] if len(v.a) > 1 else 0
        exact = kind == "enum" and cnt >= 0 and cnt < 1000 and iters.countable(I, st, inner)
        src = inner.a[0] if inner.k == "cloned" else inner
        # the items of a whole sequence that is not known: the position of the item is its index there
        whole = src.k == "it" and src.a[0] in ("ref", "val") and (len(src.a) == 3) == (cnt >= 0)

        def k(I, s, val, *rest):
            inner2 = s.mem.pop(tmp, inner)
            s.mem.pop(("keep", tmp), None)
            if val.k == "adt" and val.a[1] == 1:
                x = val.a[2]
                if kind == "enum":
                    if exact:
                        idx = INT(cnt)
                    else:
                        idx = item_index(x) if whole else None
                        if idx is None:
                            idx = mk("item", cl.site, "index")
                    I.write(s, r, p, mk("enum", inner2, cnt + 1 if exact else cnt))
                    x = TUP(idx, x)
                else:
                    I.write(s, r, p, mk(kind, inner2))
                    if kind == "cloned":
                        x = I.deref(s, x)
                I.finish(s, dest, ret, SOME(x))
            else:
                I.write(s, r, p, mk(kind, inner2))
                I.finish(s, dest, ret, val)
            return ()

        res = next_on(I, st, cl, ("py", k), None, tmp, (), inner)
        if res is NotImplemented:
            res = generic_next(I, st, cl, tmp, ())
        if res is not None:
            for s2, val in res:
                k(I, s2, val)
        return None
    if v.k == "adt" and v.a[0] in ADAPTORS:
        body = adaptor_body(I, v.a[0])
        if body is not None:
            enter_synth(I, st, body, [mk("ref", r, p)], dest, ret, cl.site)
            return None
    if v.k == "adt" and v.a[0] == "std::ops::RangeInclusive":
        xs = iters.listed(I, st, v)
        if xs is not None:
            v = iters.known(xs)
            I.write(st, r, p, v)
            return it_next(I, st, cl, r, p, v)
    if v.k == "adt" and v.a[0] == "std::ops::Range":
        lo, hi = v.a[2], v.a[3]
        if lo.k == "int" and hi.k == "int":
            if lo.a[0] < hi.a[0]:
                I.write(st, r, p, mk("adt", v.a[0], 0, INT(lo.a[0] + 1), hi))
                return one(st, SOME(lo))
            return one(st, NONE())
        return range_next(I, st, cl, r, p, v)
    key = cl.fn.get("key")
    if key and I.body(key) and I.c.bodies[key].get("local"):
        return NotImplemented
    if v.k == "adt" and isinstance(v.a[0], str):
        # an iterator of the crate behind an adaptor
        body = local_next(I, v.a[0])
        if body is not None:
            enter_synth(I, st, body, [mk("ref", r, p)], dest, ret, cl.site)
            return None
    return generic_next(I, st, cl, r, p)


def local_next(I, path):
    for k, b in I.c.bodies.items():
        if b.get("local") and k.startswith("<" + path) and k[len(path) + 1 : len(path) + 2] in (" ", "<") and k.endswith(" as std::iter::Iterator>::next"):
            return k
    return None


def range_next(I, st, cl, r, p, v):
    I.recycle(st, cl.site)
    s2 = st.copy()
    I.rule.on_event(I, s2, cl, NONE())
    it = mk("item", cl.site)
    hi = v.a[3]
    st.facts[mk("lt", it, hi)] = TRUE
    I.rule.on_event(I, st, cl, SOME(it))
    return [(s2, NONE()), (st, SOME(it))]


def item_index(x):
    if x.k == "ref" and x.a[1] and x.a[1][-1][0] == "[]":
        return x.a[1][-1][1]
    if x.k == "idx":
        return x.a[1]
    return None


def it_next(I, st, cl, r, p, v):
    mode, seq, pos = v.a[0], v.a[1], v.a[2]
    rev = v.a[3] if len(v.a) > 3 else None
    if mode == "opt":
        if pos == 1:
            return one(st, NONE())
        I.write(st, r, p, mk("it", "opt", seq, 1))
        return one(st, seq)
    x = None
    if pos != -1:
        x = I.deref(st, seq) if mode == "ref" else seq
    if x is not None and x.k in ("arr", "vec", "bytes"):
        n = len(x.a) if x.k != "bytes" else len(x.a[0])
        i = pos if not isinstance(rev, int) else rev - pos
        if pos >= n:
            return one(st, NONE())
        nv = mk("it", mode, seq, pos + 1, rev) if rev is not None else mk("it", mode, seq, pos + 1)
        I.write(st, r, p, nv)
        if mode == "ref":
            return one(st, SOME(mk("ref", seq.a[0], seq.a[1] + (("[]", INT(i)),)) if seq.k == "ref" else mk("ref", *(I.pointee(st, seq)[0], (("[]", INT(i)),)))))
        return one(st, SOME(I.step_get(x, ("[]", INT(i)), st)))
    I.recycle(st, cl.site)
    v = I.read(st, r, p)
    seq = v.a[1]
    s2 = st.copy()
    I.rule.on_event(I, s2, cl, NONE())
    item = mk("item", cl.site)
    if mode in ("ref", "iter", "iter_mut", "keys", "values", "values_mut"):
        rr, pp = I.pointee(st, seq)
        e = mk("ref", rr, pp + (("[]", item),))
        if mode == "iter" or mode == "iter_mut":
            e = TUP(mk("ref", rr, pp + (("[]", mk("mapkey", item)),)), e)
        elif mode == "ref" and v.a[2] == -1:
            e = TUP(mk("ref", rr, pp + (("[]", mk("mapkey", item)),)), e)
    else:
        e = mk("idx", I.summary(st, seq), item)
    nonempty = mk("len", I.deref(st, seq) if mode in ("ref", "iter") else seq)
    if not I.assume_not(st, nonempty, (INT(0),)):
        return [(s2, NONE())]
    I.rule.on_event(I, st, cl, SOME(e))
    return [(s2, NONE()), (st, SOME(e))]


def generic_next(I, st, cl, r, p):
    """next() of an unknown iterator: None or Some(fresh item of that iterator)"""
    I.recycle(st, cl.site)
    v = I.read(st, r, p)
    s2 = st.copy()
    I.rule.on_event(I, s2, cl, NONE())
    item = mk("item", cl.site, cl.rpath, base_origin(I.summary(st, v)))
    I.rule.on_event(I, st, cl, SOME(item))
    return [(s2, NONE()), (st, SOME(item))]


def base_origin(v):
    return v


# ---- synthetic bodies -----------------------------------------------------------------------------
class Asm:
    """tiny assembler for MIR-shaped bodies (iterator adaptors and consumers)"""

    def __init__(self, I, name, argc, nloc):
        self.I = I
        self.name = name
        types = I.c.types
        if not hasattr(I.c, "_synth"):
            base = len(types)
            types.append({"s": "bool", "k": "bool"})
            types.append({"s": "opt", "k": "adt", "path": OPTION, "enum": True, "args": [], "vs": [{"n": "None", "d": "0", "f": []}, {"n": "Some", "d": "1", "f": [["0", base]]}]})
            types.append({"s": "&mut any", "k": "ref", "e": base, "mut": True})
            types.append({"s": "any", "k": "other"})
            types.append({"s": "isize", "k": "int"})
            types.append({"s": "any-tuple", "k": "tuple", "es": []})
            I.c._synth = base
        self.BOOL = I.c._synth
        self.OPT = I.c._synth + 1
        self.MREF = I.c._synth + 2
        self.ANY = I.c._synth + 3
        self.INT = I.c._synth + 4
        self.argc = argc
        self.nloc = nloc
        self.blocks = []
        self.cur = []

    def asg(self, place, rv):
        self.cur.append({"t": "=", "p": place, "r": rv})

    def term(self, t):
        self.blocks.append({"s": self.cur, "t": t, "l": 0, "x": True, "cu": False})
        self.cur = []

    @staticmethod
    def cp(*p):
        return {"o": "copy", "p": list(p)}

    @staticmethod
    def use(op):
        return {"r": "use", "a": op}

    def kint(self, n):
        return {"o": "const", "c": {"c": "int", "ty": self.INT, "v": n}}

    def call_next(self, arg, d, to):
        fn = {"path": "std::iter::Iterator::next", "trait": "std::iter::Iterator", "targs": [], "rpath": "synth::next", "key": "synth::next", "kind": "virtual"}
        self.term({"t": "call", "f": {"o": "const", "c": {"c": "fn", "ty": self.ANY, "fn": fn}}, "a": [arg], "at": [self.MREF], "d": d, "dt": self.OPT, "to": to})

    def call_fn(self, f, tup, d, to):
        fn = {"path": "std::ops::FnMut::call_mut", "trait": "std::ops::FnMut", "targs": [], "rpath": "std::ops::FnMut::call_mut", "key": "synth::call", "kind": "virtual"}
        self.term({"t": "call", "f": {"o": "const", "c": {"c": "fn", "ty": self.ANY, "fn": fn}}, "a": [f, tup], "at": [self.MREF, self.ANY], "d": d, "dt": self.ANY, "to": to})

    def call_path(self, path, args, d, to, ats):
        fn = {"path": path, "targs": [self.ANY], "rpath": path, "key": "synth::" + path, "kind": "virtual"}
        self.term({"t": "call", "f": {"o": "const", "c": {"c": "fn", "ty": self.ANY, "fn": fn}}, "a": args, "at": ats, "d": d, "dt": self.ANY, "to": to})

    def sw_opt(self, l, tmp, none, some):
        self.asg([tmp], {"r": "discr", "p": [l], "ty": self.OPT})
        # block with an unreachable default is needed
        self.term({"t": "switch", "d": self.cp(tmp), "ty": self.INT, "vs": [[0, none], [1, some]], "else": -1})

    def sw_bool(self, l, f, t):
        self.term({"t": "switch", "d": self.cp(l), "ty": self.BOOL, "vs": [[0, f]], "else": t})

    def ret(self):
        self.term({"t": "ret"})

    def goto(self, n):
        self.term({"t": "goto", "to": n})

    def some(self, op):
        return {"r": "agg", "k": "adt", "ty": self.OPT, "v": 1, "ops": [op]}

    def none(self):
        return {"r": "agg", "k": "adt", "ty": self.OPT, "v": 0, "ops": []}

    def done(self):
        ur = len(self.blocks)
        self.term({"t": "unreachable"})
        for b in self.blocks:
            t = b["t"]
            if t["t"] == "switch" and t["else"] == -1:
                t["else"] = ur
        raw = {
            "name": self.name,
            "path": self.name,
            "crate": "synth",
            "local": False,
            "file": "<model>",
            "line": 0,
            "argc": self.argc,
            "locals": [self.ANY] * self.nloc,
            "names": [],
            "blocks": self.blocks,
        }
        self.I.c.bodies[self.name] = raw
        return self.name


SOMEF = [".", 0, "0", "std::option::Option::Some"]


def fld(i):
    return [".", i, str(i), "std::iter::Adaptor"]


ADAPTORS = {
    "std::iter::Map": "map",
    "std::iter::Filter": "filter",
    "std::iter::FilterMap": "filter_map",
    "std::iter::Chain": "chain",
    "std::iter::TakeWhile": "take_while",
    "std::iter::Inspect": "inspect",
}


def enter_synth(I, st, name, args, dest, ret, site):
    b = I.body(name)
    if any(f.key == name and f.fid == (site[0], site[1], "syn") for f in st.frames) or len(st.frames) > I.max_depth + 4:
        st2 = st
        I.finish(st2, dest, ret, mk("call", site, name))
        return
    fid = (site[0], site[1], "syn")
    st.frames = st.frames + (Frame(name, fid, 0, dest, ret),)
    for r in [r for r in st.mem if r[0] == fid]:
        del st.mem[r]
    for i, a in enumerate(args):
        st.mem[(fid, i + 1)] = a
    I.push(st)


def adaptor_body(I, path):
    kind = ADAPTORS[path]
    name = "synth::%s::next" % kind
    if name in I.c.bodies:
        return name
    a = Asm(I, name, 1, 16)
    cp = a.cp
    # _1: &mut adaptor {0: iter, 1: f}
    if kind == "map":
        a.asg([2], {"r": "ref", "mut": True, "p": [1, ["*"], fld(0)]})
        a.call_next(cp(2), [3], 1)  # bb0
        a.sw_opt(3, 4, 2, 3)  # bb1
        a.asg([0], a.none())
        a.ret()  # bb2
        a.asg([5], {"r": "ref", "mut": True, "p": [1, ["*"], fld(1)]})
        a.asg([6], {"r": "agg", "k": "tuple", "ops": [cp(3, ["v", 1], SOMEF)]})
        a.call_fn(cp(5), cp(6), [7], 4)  # bb3
        a.asg([0], a.some(cp(7)))
        a.ret()  # bb4
    elif kind in ("filter", "take_while", "inspect"):
        a.asg([2], {"r": "ref", "mut": True, "p": [1, ["*"], fld(0)]})
        a.call_next(cp(2), [3], 1)  # bb0
        a.sw_opt(3, 4, 2, 3)  # bb1
        a.asg([0], a.none())
        a.ret()  # bb2
        a.asg([8], a.use(cp(3, ["v", 1], SOMEF)))
        a.asg([5], {"r": "ref", "mut": True, "p": [1, ["*"], fld(1 if kind != "take_while" else 2)]})
        a.asg([9], {"r": "ref", "mut": False, "p": [8]})
        a.asg([6], {"r": "agg", "k": "tuple", "ops": [cp(9)]})
        a.call_fn(cp(5), cp(6), [7], 4)  # bb3
        if kind == "filter":
            a.sw_bool(7, 0, 5)  # bb4
        elif kind == "inspect":
            a.goto(5)
        else:
            a.sw_bool(7, 2, 5)
        a.asg([0], a.some(cp(8)))
        a.ret()  # bb5
    elif kind == "filter_map":
        a.asg([2], {"r": "ref", "mut": True, "p": [1, ["*"], fld(0)]})
        a.call_next(cp(2), [3], 1)  # bb0
        a.sw_opt(3, 4, 2, 3)  # bb1
        a.asg([0], a.none())
        a.ret()  # bb2
        a.asg([5], {"r": "ref", "mut": True, "p": [1, ["*"], fld(1)]})
        a.asg([6], {"r": "agg", "k": "tuple", "ops": [cp(3, ["v", 1], SOMEF)]})
        a.call_fn(cp(5), cp(6), [7], 4)  # bb3
        a.sw_opt(7, 4, 0, 5)  # bb4
        a.asg([0], a.use(cp(7)))
        a.ret()  # bb5
    else:
        return None
    return a.done()


def consumer_body(I, kind):
    name = "synth::%s" % kind
    if name in I.c.bodies:
        return name
    a = Asm(I, name, 2, 20)
    cp = a.cp
    # _1: &mut iterator, _2: closure (or &mut collection)
    a.asg([3], a.use(cp(1)))
    a.call_next(cp(3), [4], 1)  # bb0
    a.sw_opt(4, 5, 2, 3)  # bb1
    item = cp(4, ["v", 1], SOMEF)
    if kind in ("any", "all"):
        a.asg([0], a.use({"o": "const", "c": {"c": "int", "ty": a.BOOL, "v": 0 if kind == "any" else 1}}))
        a.ret()  # bb2
        a.asg([6], {"r": "ref", "mut": True, "p": [2]})
        a.asg([7], {"r": "agg", "k": "tuple", "ops": [item]})
        a.call_fn(cp(6), cp(7), [8], 4)  # bb3
        if kind == "any":
            a.sw_bool(8, 0, 5)  # bb4
        else:
            a.sw_bool(8, 5, 0)
        a.asg([0], a.use({"o": "const", "c": {"c": "int", "ty": a.BOOL, "v": 1 if kind == "any" else 0}}))
        a.ret()
    elif kind == "find":
        a.asg([0], a.none())
        a.ret()
        a.asg([9], a.use(item))
        a.asg([10], {"r": "ref", "mut": False, "p": [9]})
        a.asg([6], {"r": "ref", "mut": True, "p": [2]})
        a.asg([7], {"r": "agg", "k": "tuple", "ops": [cp(10)]})
        a.call_fn(cp(6), cp(7), [8], 4)  # bb3
        a.sw_bool(8, 0, 5)
        a.asg([0], a.some(cp(9)))
        a.ret()
    elif kind == "find_map":
        a.asg([0], a.none())
        a.ret()
        a.asg([6], {"r": "ref", "mut": True, "p": [2]})
        a.asg([7], {"r": "agg", "k": "tuple", "ops": [item]})
        a.call_fn(cp(6), cp(7), [8], 4)
        a.sw_opt(8, 5, 0, 5)
        a.asg([0], a.use(cp(8)))
        a.ret()
    elif kind == "for_each":
        a.asg([0], {"r": "agg", "k": "tuple", "ops": []})
        a.ret()
        a.asg([6], {"r": "ref", "mut": True, "p": [2]})
        a.asg([7], {"r": "agg", "k": "tuple", "ops": [item]})
        a.call_fn(cp(6), cp(7), [8], 4)
        a.goto(0)
    elif kind == "extend":
        a.asg([0], {"r": "agg", "k": "tuple", "ops": []})
        a.ret()
        a.asg([9], a.use(item))
        a.call_path("std::vec::Vec::<T, A>::push", [cp(2), cp(9)], [8], 4, [a.MREF, a.ANY])
        a.goto(0)
    else:
        return None
    return a.done()


def _iter_arg(I, st, cl, a):
    """&mut iterator for a consumer that takes the iterator by value or by reference"""
    if a.k == "ref":
        return a
    root = ("h", ("iter", cl.site))
    st.mem[root] = a
    return mk("ref", root, ())


def consumer(kind):
    def m(I, st, cl, dest, ret):
        it = _iter_arg(I, st, cl, cl.args[0])
        name = consumer_body(I, kind)
        enter_synth(I, st, name, [it, cl.args[1]], dest, ret, cl.site)
        return None

    return m


for _k in ("any", "all", "find", "find_map", "for_each"):
    _m = consumer(_k)
    PREFIX_MODELS.append(((lambda kk: lambda cl: cl.path == "std::iter::Iterator::" + kk)(_k), _m))


@model("std::iter::Iterator::position")
def m_position(I, st, cl, dest, ret):
    # position(f) = enumerate().find(|(i, x)| f(x)).map(i)
    a = cl.args[0]
    if a.k == "ref":
        r, p = a.a
        inner = I.read(st, r, p)
    else:
        inner = a
    name = position_body(I)
    root = ("h", ("iter", cl.site))
    st.mem[root] = mk("enum", inner)
    enter_synth(I, st, name, [mk("ref", root, ()), cl.args[1]], dest, ret, cl.site)
    return None


def position_body(I):
    name = "synth::position"
    if name in I.c.bodies:
        return name
    a = Asm(I, name, 2, 20)
    cp = a.cp
    a.asg([3], a.use(cp(1)))
    a.call_next(cp(3), [4], 1)
    a.sw_opt(4, 5, 2, 3)
    a.asg([0], a.none())
    a.ret()
    a.asg([9], a.use(cp(4, ["v", 1], SOMEF)))
    a.asg([6], {"r": "ref", "mut": True, "p": [2]})
    a.asg([7], {"r": "agg", "k": "tuple", "ops": [cp(9, [".", 1, "1", ""])]})
    a.call_fn(cp(6), cp(7), [8], 4)
    a.sw_bool(8, 0, 5)
    a.asg([0], a.some(cp(9, [".", 0, "0", ""])))
    a.ret()
    return a.done()


@model("std::vec::Vec::<T, A>::retain")
def m_retain(I, st, cl, dest, ret):
    r, p = I.pointee(st, cl.args[0])
    v = I.read(st, r, p)
    if v.k != "vec" or I.content(st, cl.args[1]).k != "clo":
        return NotImplemented
    b = I.body(I.content(st, cl.args[1]).a[0])
    if b is None or any(f.key == b.key for f in st.frames):
        return NotImplemented
    I.rule.on_event(I, st, cl, UNIT)
    _retain(I, st, None, r, p, mk("tup", cl.args[1]), v, 0, (), cl.site, dest, ret)
    return None


def _retain(I, st, res, r, p, clo, v, i, kept, site, dest, ret):
    states = [(st, kept)]
    if res is not None:
        if res.k == "int":
            states = [(st, kept + (v.a[i - 1],) if res.a[0] else kept)]
        else:
            states = []
            s2 = st.copy()
            if I.assume(s2, res, TRUE):
                states.append((s2, kept + (v.a[i - 1],)))
            if I.assume(st, res, FALSE):
                states.append((st, kept))
    for s, k in states:
        if i == len(v.a):
            I.write(s, r, p, mk("vec", *k))
            I.finish(s, dest, ret, UNIT)
            continue
        a = mk("ref", r, p + (("[]", INT(i)),))
        if not I.call_closure(s, clo.a[0], TUP(a), ("py", _retain, r, p, clo, v, i + 1, k, site, dest, ret), None, (site[0], site[1], "retain", i)):
            raise AnalysisError("retain: cannot follow the predicate")
    return ()


class KONT:
    """a continuation with structural identity (so that states compare equal)"""

    def __init__(self, f):
        self.f = f
        self.c = tuple(x.cell_contents for x in (f.__closure__ or ()) if not callable(x.cell_contents))
        self.h = hash((f.__code__, tuple(repr(type(x)) for x in self.c)))

    def __call__(self, *a):
        return self.f(*a)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if not isinstance(o, KONT) or o.f.__code__ is not self.f.__code__:
            return False
        try:
            return self.c == o.c
        except Exception:
            return False


@premodel(lambda cl: cl.path == "std::iter::Extend::extend")
def m_extend(I, st, cl, dest, ret):
    src = cl.args[1]
    w = iters.iter_of(I, st, I.resolve(st, src))
    if w is not None:
        src = w
    elif src.k == "ref":
        r, p, x = seqloc(I, st, src)
        src = mk("it", "ref", mk("ref", r, p), 0)
    elif src.k in ("vec", "arr", "bag"):
        src = mk("it", "val", src, 0)
    elif src.k not in ("it", "enum", "adt", "cloned", "rev"):
        src = mk("it", "val", src, 0)
    t = I.c.types[cl.fn["targs"][0]]
    if t.get("path") != "std::vec::Vec":
        return NotImplemented
    if len(cl.fn["targs"]) > 1 and I.c.types[cl.fn["targs"][1]]["k"] == "ref" and t.get("args") and I.c.types[t["args"][0]]["k"] != "ref":
        src = mk("cloned", src)  # Extend<&T> for Vec<T>
    root = ("h", ("iter", cl.site))
    st.mem[root] = src
    enter_synth(I, st, consumer_body(I, "extend"), [mk("ref", root, ()), cl.args[0]], dest, ret, cl.site)
    return None


@model("std::vec::Vec::<T, A>::extend_from_slice")
def m_extend_slice(I, st, cl, dest, ret):
    r, p, x = seqloc(I, st, cl.args[1])
    root = ("h", ("iter", cl.site))
    st.mem[root] = mk("cloned", mk("it", "ref", mk("ref", r, p), 0))
    enter_synth(I, st, consumer_body(I, "extend"), [mk("ref", root, ()), cl.args[0]], dest, ret, cl.site)
    return None


# ---------------------------------------------------------------- intrinsics
@premodel(lambda cl: cl.path.endswith("intrinsics::discriminant_value") or cl.path.endswith("mem::discriminant"))
def m_discr(I, st, cl, dest, ret):
    ti = cl.fn["targs"][0]
    return one(st, I.discr(st, I.content(st, cl.args[0]), ti))


@premodel(lambda cl: "precondition_check" in cl.path or cl.path.endswith("ub_checks::check_library_ub"))
def m_nop(I, st, cl, dest, ret):
    return one(st, UNIT)


@premodel(lambda cl: cl.path in ("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into"))
def m_try_from(I, st, cl, dest, ret):
    ta = [I.c.types[i] for i in cl.fn["targs"][:2]]
    if all(t["k"] in ("int", "uint") for t in ta):
        dst = ta[0] if cl.path.endswith("try_from") else ta[1]
        src = ta[1] if cl.path.endswith("try_from") else ta[0]
        bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}
        v = I.resolve(st, cl.args[0])
        if v.k == "int":
            return one(st, OK(v) if 0 <= v.a[0] < (1 << bits[dst["s"]]) else ERR(mk("adt", "std::num::TryFromIntError", 0)))
        c = mk("cast", v, dst["s"])
        if bits[dst["s"]] >= bits[src["s"]]:
            return one(st, OK(c))
        fits = mk("bool", "fits", v, dst["s"])
        s2 = st.copy()
        out = []
        if I.assume(s2, fits, TRUE):
            out.append((s2, OK(c)))
        if I.assume(st, fits, FALSE):
            out.append((st, ERR(mk("adt", "std::num::TryFromIntError", 0))))
        return out
    return NotImplemented


# ---------------------------------------------------------------- hash maps: unknown content, plus what was inserted since
def is_map(I, cl):
    return cl.path.startswith("std::collections::HashMap::<K, V")


def map_depth(m):
    n = 0
    while m.k == "mapins":
        m, n = m.a[0], n + 1
    return n


def str_eq(I, st, a, b):
    """TRUE, FALSE or the term deciding whether the strings (or other keys) are equal"""
    if a is b:
        return TRUE
    if a.k in ("str", "cat") or b.k in ("str", "cat"):
        x = list(a.a) if a.k == "cat" else [a]
        y = list(b.a) if b.k == "cat" else [b]
        for end in (0, -1):
            while x and y:
                p, q = x[end], y[end]
                if p is q:
                    x.pop(end)
                    y.pop(end)
                    continue
                if p.k == "str" and q.k == "str":
                    s, t = p.a[0], q.a[0]
                    n = min(len(s), len(t))
                    if (s[:n] != t[:n]) if end == 0 else (s[len(s) - n :] != t[len(t) - n :]):
                        return FALSE
                    rest = (lambda u: STR(u[n:])) if end == 0 else (lambda u: STR(u[: len(u) - n]))
                    for l, u in ((x, s), (y, t)):
                        if len(u) > n:
                            l[end] = rest(u)
                        else:
                            l.pop(end)
                    continue
                break
        if not x and not y:
            return TRUE
        for l, m in ((x, y), (y, x)):
            if not l and any(z.k == "str" and z.a[0] for z in m):
                return FALSE
        if len(x) == 1 and len(y) == 1:
            un = lambda z: z.a[2] if z.k == "show" and z.a[0] == "disp" and z.a[1] in ("str", "std::string::String", "&str", "&std::string::String") else z
            return I.binop(st, "Eq", un(x[0]), un(y[0]))
        return mk("eq", *sorted((a, b), key=lambda v: v.n)) if st.facts.get(mk("eq", *sorted((a, b), key=lambda v: v.n))) is None else I.resolve(st, mk("eq", *sorted((a, b), key=lambda v: v.n)))
    if a.k == "adt" and b.k == "adt" and len(a.a) == 2 and len(b.a) == 2:
        return INT(int(a is b))
    return I.binop(st, "Eq", a, b)


@premodel(lambda cl: cl.path.startswith("std::collections::HashMap::<K, V") and cl.path.endswith("::insert"))
def m_map_insert(I, st, cl, dest, ret):
    r = cl.args[0]
    if r.k != "ref":
        return NotImplemented
    m = I.read(st, *r.a)
    if map_depth(m) >= 4 and not complete(m):
        return NotImplemented
    key = I.freeze(st, cl.args[1])
    val = I.freeze(st, cl.args[2])
    if complete(m):
        out = []
        for s, hit in find_key(I, st, m, bare_key(key)):
            if hit is None:
                I.write(s, r.a[0], r.a[1], mk("mapins", m, key, val))
                out.append((s, NONE()))
            else:
                old = I.step_get(m, ("mk", hit), s)
                I.write(s, r.a[0], r.a[1], map_set(m, hit, val))
                out.append((s, SOME(I.thaw(s, old))))
        return out
    I.write(st, r.a[0], r.a[1], mk("mapins", m, key, val))
    return one(st, mk("call", cl.site, cl.rpath, I.summary(st, cl.args[1])))


def complete(m):
    """is everything in the map known?"""
    while m.k == "mapins":
        m = m.a[0]
    return m.k == "newmap"


def find_key(I, st, m, k):
    """[(state, matching key of the map or None)] for a map that is known completely"""
    out = []
    x = m
    while x.k == "mapins":
        ck = bare_key(x.a[1])
        e = str_eq(I, st, ck, k)
        if e is TRUE:
            out.append((st, ck))
            return out
        if e is not FALSE:
            s2 = st.copy()
            if I.assume(s2, e, TRUE):
                out.append((s2, ck))
            if not I.assume(st, e, FALSE):
                return out
        x = x.a[0]
    out.append((st, None))
    return out


@premodel(lambda cl: cl.path.startswith("std::collections::HashMap::<K, V") and cl.path.endswith(("::get", "::contains_key", "::get_mut")))
def m_map_get(I, st, cl, dest, ret):
    r = cl.args[0]
    if r.k != "ref":
        return NotImplemented
    root, proj = r.a
    m = I.read(st, root, proj)
    while m.k == "ref":
        root, proj = m.a
        m = I.read(st, root, proj)
    k = bare_key(I.freeze(st, cl.args[1]))
    n = cl.path.rsplit("::", 1)[1]
    if complete(m):
        out = []
        for s, hit in find_key(I, st, m, k):
            if n == "contains_key":
                out.append((s, INT(int(hit is not None))))
            elif hit is None:
                out.append((s, NONE()))
            else:
                out.append((s, SOME(mk("ref", root, proj + (("mk", hit),)))))
        return out
    if m.k == "mapins" and bare_key(m.a[1]) is k:
        if n == "contains_key":
            return one(st, TRUE)
        if n == "get_mut":
            return one(st, SOME(mk("ref", root, proj + (("mk", k),))))
        root = ("h", ("mapget", cl.site))
        st.mem[root] = m.a[2]
        return one(st, SOME(mk("ref", root, ())))
    return NotImplemented


# iteration order of maps (0: oldest first), and the functions in which one was iterated over
MAPORDER = 0
MAPSITES = set()


def map_items(I, st, m, root, proj, mut=False):
    """[(key reference, value reference)] of a completely known map, oldest first"""
    out = []
    while m.k == "mapins":
        k = I.thaw(st, mk("frozen", bare_key(m.a[1])))
        out.append(TUP(k, mk("ref", root, proj + (("mk", bare_key(m.a[1])),))))
        m = m.a[0]
    MAPSITES.add(st.frames[-1].key)
    if MAPORDER == 1:
        return mk("vec", *out)
    if MAPORDER == 2 and len(out) > 1:
        return mk("vec", *(out[1:] + out[:1]))
    if MAPORDER == 3 and len(out) > 1:
        return mk("vec", *(out[1::2] + out[::2]))
    return mk("vec", *reversed(out))


def any_order(I, st, cl, dest, ret):
    import itertools

    r, p, x = seqloc(I, st, cl.args[0])
    if x.k not in ("vec", "arr") or len(x.a) > 3:
        return NotImplemented
    out = []
    for q in itertools.permutations(x.a):
        s = st.copy()
        I.write(s, r, p, mk(x.k, *q))
        out.append((s, UNIT))
    return out


@premodel(lambda cl: cl.path in ("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity"))
def m_map_new(I, st, cl, dest, ret):
    return one(st, mk("newmap", "std::collections::HashMap"))


# ---------------------------------------------------------------- purity of remaining library calls
PURE = set(
    """
core::str::<impl str>::find core::str::<impl str>::split_at core::str::<impl str>::len
core::str::<impl str>::chars core::str::<impl str>::bytes core::str::<impl str>::split
std::collections::HashMap::<K, V, S, A>::get std::collections::HashMap::<K, V, S, A>::contains_key
std::collections::HashMap::<K, V, S>::get std::collections::HashMap::<K, V, S>::contains_key
std::str::FromStr::from_str
quick_xml::events::BytesStart::<'a>::local_name quick_xml::events::BytesStart::<'a>::name
quick_xml::events::BytesEnd::<'a>::local_name quick_xml::events::BytesEnd::<'a>::name
quick_xml::events::BytesStart::<'a>::attributes
quick_xml::events::attributes::Attribute::<'a>::unescape_and_decode_value
quick_xml::events::attributes::Attribute::<'a>::unescaped_value
quick_xml::events::BytesText::<'a>::unescape_and_decode quick_xml::events::BytesText::<'a>::unescaped
quick_xml::Reader::<B>::decode
std::str::from_utf8
chrono::NaiveDateTime::format chrono::NaiveDateTime::parse_from_str
std::slice::<impl [T]>::join hex::encode std::path::Path::new
""".replace(
        "\n", " "
    )
    .replace(" std::", "\nstd::")
    .replace(" core::", "\ncore::")
    .replace(" quick_xml::", "\nquick_xml::")
    .replace(" chrono::", "\nchrono::")
    .replace(" hex::", "\nhex::")
    .split("\n")
)
PURE = {p.strip() for p in PURE if p.strip()}


def is_pure(cl):
    return cl.path in PURE or cl.rpath in PURE


absint.is_pure = is_pure


@model("std::ops::Not::not")
def m_not(I, st, cl, dest, ret):
    t = I.c.types[cl.fn["targs"][0]] if cl.fn.get("targs") else _selfty(I, cl)
    while t["k"] == "ref":
        t = I.c.types[t["e"]]
    if t["k"] != "bool":
        return NotImplemented
    return one(st, I.neg(I.resolve(st, I.content(st, cl.args[0]))))


import iters  # noqa: E402  (registers its models here)
