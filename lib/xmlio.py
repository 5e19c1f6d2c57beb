"""XML input and output at the level of quick-xml's events. The writer's calls are recorded as an event log (rule state);
the reader is fed an abstract event sequence: names are concrete, texts and values are terms, each with the number of
times it has been escaped. Anything of quick-xml that is not described here ends the analysis with an error."""
import re
from ev import *
from world import *
import models

Q = "quick_xml::events::"
EVENT = Q + "Event"
NSFOLIA = b"http://ilk.uvt.nl/folia"
NSXLINK = b"http://www.w3.org/1999/xlink"


def strip(v):
    while v.k in ("ref", "refto", "frozen", "box") and type(v.a[0]) is V:
        v = v.a[0]
    if v.k == "adt" and v.a[0] == "std::borrow::Cow":
        return strip(v.a[2])
    return v


def esc(t, how):
    """how: 'plain' (the library escapes) or 'escaped' (taken as it is)"""
    if how == "plain":
        return mk("str", xescape(t.a[0])) if t.k == "str" else mk("esc", t)
    return t


def unesc(t):
    if t.k == "esc":
        return t.a[0]
    if t.k == "str":
        return t if "&" not in t.a[0] else mk("unesc", t)
    return mk("unesc", t)


def xescape(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&apos;").replace('"', "&quot;")


def bname(t):
    """bytes of a tag or attribute name, or None"""
    t = strip(t)
    if t.k == "bytes":
        return t.a[0]
    if t.k == "str":
        return t.a[0].encode()
    return None


def timestamp(s, fm):
    """may s be read as a timestamp of that format?"""
    if fm != "%Y-%m-%dT%H:%M:%S":
        return True
    if not re.search(r"\d.*-.*\d.*-.*\d.*T.*\d.*:.*\d.*:.*\d", s):
        return False
    m = re.fullmatch(r"\d{4}-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)", s)
    return not m or all(lo <= int(x) <= hi for x, lo, hi in zip(m.groups(), (1, 1, 0, 0, 0), (12, 31, 23, 59, 60)))


class Event(tuple):
    """(kind, name, attrs, text); attrs = ((name, raw value), ..); values and text as they appear in the file"""

    __slots__ = ()

    def __new__(cls, kind, name=None, attrs=(), text=None):
        return tuple.__new__(cls, (kind, name, tuple(attrs), text))

    kind = property(lambda s: s[0])
    name = property(lambda s: s[1])
    attrs = property(lambda s: s[2])
    text = property(lambda s: s[3])

    def __repr__(s):
        n = s.name.decode("utf8", "replace") if isinstance(s.name, bytes) else s.name
        a = "".join(" %s=%s" % (k.decode("utf8", "replace") if isinstance(k, bytes) else show(k, 3), show(v, 4)) for k, v in s.attrs)
        return {"Start": "<%s%s>", "Empty": "<%s%s/>", "End": "</%s%s>"}.get(s.kind, s.kind + "(%s%s)") % ((n, a) if s.kind in ("Start", "Empty", "End") else (show(s.text, 4) if s.text is not None else "", ""))


class XML(Collect):
    """aux = (position in the script, events written, operations that failed, reader configuration, open tags)"""

    aux0 = (0, (), (), (), ())
    recursion = 12
    strict = True
    script = None  # events to be read
    fail = False  # let every operation of the library that can fail also fail
    eof = False  # let the input end anywhere
    stop = ()

    def aux_sites(self, aux):
        s = frozenset()
        for e in aux[1]:
            for x in [v for _, v in e.attrs] + [e.text, e.name]:
                if type(x) is V:
                    s |= x.sites
        return s

    def inline(self, I, key, body, depth):
        return not any(key.endswith(s) for s in self.stop)

    # ---------------------------------------------------------------- calls
    def on_call(self, I, st, cl):
        p = cl.path
        if p == "chrono::NaiveDateTime::parse_from_str":
            return self.datetime(I, st, cl)
        if "quick_xml" not in p and "quick_xml" not in cl.rpath:
            if p == "std::iter::Iterator::next":
                return self.attr_next(I, st, cl)
            return None
        n = p.rsplit("::", 1)[1]
        if p.startswith("quick_xml::Writer::"):
            return self.writer(I, st, cl, n)
        if p.startswith("quick_xml::Reader::"):
            return self.reader(I, st, cl, n)
        for t in ("BytesStart", "BytesEnd", "BytesText", "Event", "attributes::Attribute", "attributes::Attributes"):
            if p.startswith(Q + t + "::"):
                return getattr(self, "_" + t.split("::")[-1])(I, st, cl, n)
        if p == "std::iter::Iterator::next":
            return self.attr_next(I, st, cl)
        if p in ("std::ops::Deref::deref", "std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref"):
            x = I.content(st, cl.args[0])
            if x.k in ("xtext",):
                return [(st, x.a[0])]
            if x.k in ("xstart", "xend"):
                return [(st, self.xname(st, x))]
            if x.k == "adt" and x.a[0] == EVENT and p.endswith("as_ref"):
                return [(st, cl.args[0])]
        if p in ("std::convert::From::from", "std::convert::Into::into") and Q in cl.rpath + str(cl.key):
            return self.convert(I, st, cl)
        if p in ("std::clone::Clone::clone",):
            return [(st, I.content(st, cl.args[0]))]
        return None

    def datetime(self, I, st, cl):
        s = I.content(st, cl.args[0])
        fm = I.content(st, cl.args[1])
        f = [x for x in subterms(s) if x.k == "call" and x.a[1] == "chrono::NaiveDateTime::format"]
        if s.k in ("disp", "show", "cat") and len(f) == 1 and (s.k != "cat" or len(s.a) == 1):
            same = strip(f[0].a[3]) is strip(fm) or strip(f[0].a[3]) == strip(fm)
            return [(st, OK(strip(f[0].a[2])) if same else ERR(mk("param", "chrono error")))]
        if s.k == "str" and fm.k == "str" and not timestamp(s.a[0], fm.a[0]):
            return [(st, ERR(mk("param", "chrono error")))]
        if self.fail:
            return self.both(st, mk("call", PURE_SITE, "chrono::NaiveDateTime::parse_from_str", s, fm), "timestamp", mk("param", "chrono error"), on=s)
        return None

    def both(self, st, ok, what, value=None, on=None):
        """an operation that can fail; on the same term `on` it always fails or never does"""
        if not self.fail:
            return [(st, OK(ok))]
        if on is not None:
            t = mk("xfail", STR(what), on)
            f = st.facts.get(t)
            if f is FALSE:
                return [(st, OK(ok))]
            if f is TRUE:
                return [(st, ERR(value or mk("param", what + " error")))]
        s2 = st.copy()
        if on is not None:
            st.facts[t] = FALSE
            s2.facts[t] = TRUE
        self.failed(s2, what)
        return [(st, OK(ok)), (s2, ERR(value or mk("param", what + " error")))]

    def failed(self, st, what):
        """mark the path: an operation of the library has failed on it"""
        st.aux = st.aux[:2] + (st.aux[2] + ((what, st.aux[0]),),) + st.aux[3:]

    def unknown(self, cl):
        raise AnalysisError("quick-xml operation not described in lib/xmlio.py: %s" % cl.path)

    # ---------------------------------------------------------------- writing
    def writer(self, I, st, cl, n):
        if n in ("new", "new_with_indent"):
            return [(st, mk("xwriter"))]
        if n in ("into_inner",):
            return [(st, mk("xout"))]
        if n == "write_event":
            e = cl.args[1]
            e = strip(I.freeze(st, e))
            if e.k != "adt" or e.a[0] != EVENT:
                raise AnalysisError("an event is written that is not constructed here: %s" % show(e, 4))
            kind = I.c.adt(EVENT)["vs"][e.a[1]]["n"]
            pay = strip(e.a[2]) if len(e.a) > 2 else None
            if kind in ("Start", "Empty", "End"):
                if pay.k not in ("xstart", "xend"):
                    raise AnalysisError("unknown tag written: %s" % show(pay, 4))
                name = bname(pay.a[0])
                ev = Event(kind, name if name is not None else strip(pay.a[0]), [(bname(a.a[0]) or strip(a.a[0]), a.a[1]) for a in pay.a[1:]] if kind != "End" else ())
            elif kind in ("Text", "Comment", "CData", "PI", "DocType"):
                if pay.k != "xtext":
                    raise AnalysisError("unknown text written: %s" % show(pay, 4))
                ev = Event(kind, text=pay.a[0])
            else:
                ev = Event(kind)
            out = self.both(st, UNIT, "write")
            s = out[0][0]
            s.aux = (s.aux[0], s.aux[1] + (ev,)) + s.aux[2:]
            return out
        self.unknown(cl)

    def _BytesStart(self, I, st, cl, n):
        if n in ("borrowed_name", "owned_name"):
            return [(st, mk("xstart", self.name(I, st, cl.args[0])))]
        if n in ("borrowed", "owned"):
            return [(st, mk("xstart", self.name(I, st, cl.args[0])))]
        v = I.content(st, cl.args[0])
        if n == "push_attribute":
            r, p = I.pointee(st, cl.args[0])
            I.write(st, r, p, mk("xstart", *(v.a + (self.attr(I, st, cl.args[1]),))))
            return [(st, UNIT)]
        if n in ("with_attributes", "extend_attributes"):
            seq = I.content(st, cl.args[1])
            while seq.k == "it" and seq.a[2] == 0:
                seq = I.content(st, seq.a[1])
            if seq.k not in ("vec", "arr"):
                self.unknown(cl)
            nv = mk("xstart", *(v.a + tuple(self.attr(I, st, x) for x in seq.a)))
            if n == "with_attributes":
                return [(st, nv)]
            r, p = I.pointee(st, cl.args[0])
            I.write(st, r, p, nv)
            return [(st, cl.args[0])]
        if n in ("to_owned", "to_borrowed", "into_owned"):
            return [(st, v)]
        if n == "to_end":
            return [(st, mk("xend", v.a[0]))]
        if n in ("name", "local_name"):
            return [(st, self.xname(st, v, n))]
        if n == "attributes":
            return [(st, mk("xattrs", v, 0))]
        if n == "clear_attributes":
            r, p = I.pointee(st, cl.args[0])
            I.write(st, r, p, mk("xstart", v.a[0]))
            return [(st, cl.args[0])]
        self.unknown(cl)

    def name(self, I, st, v):
        v = strip(I.freeze(st, v))
        b = bname(v)
        return mk("bytes", b) if b is not None else v

    def attr(self, I, st, v):
        v = I.content(st, v)
        if v.k == "tup" and len(v.a) == 2:
            k, x = strip(I.freeze(st, v.a[0])), strip(I.freeze(st, v.a[1]))
            how = "plain" if k.k != "bytes" else "escaped"  # (&str, &str) is escaped by the library, (&[u8], &[u8]) is not
            return mk("xattr", self.name(I, st, k), esc(x, how))
        if v.k == "xattr":
            return v
        if v.k == "adt" and v.a[0].endswith("attributes::Attribute"):
            return mk("xattr", self.name(I, st, v.a[2]), strip(I.freeze(st, v.a[3])))
        raise AnalysisError("unknown attribute written: %s" % show(v, 4))

    def convert(self, I, st, cl):
        tys = [I.c.types[i]["s"] for i in cl.fn["targs"]]
        if any("attributes::Attribute" in t for t in tys):
            return [(st, self.attr(I, st, cl.args[0]))]
        return None

    def _BytesEnd(self, I, st, cl, n):
        if n in ("borrowed", "owned"):
            return [(st, mk("xend", self.name(I, st, cl.args[0])))]
        v = I.content(st, cl.args[0])
        if n in ("name", "local_name"):
            return [(st, self.xname(st, v, n))]
        if n == "into_owned":
            return [(st, v)]
        self.unknown(cl)

    def _BytesText(self, I, st, cl, n):
        x = strip(I.freeze(st, cl.args[0]))
        if n in ("from_plain", "from_plain_str", "from_escaped", "from_escaped_str"):
            if x.k == "bytes":
                x = models.asstr(I, st, x)
            return [(st, mk("xtext", esc(x, n.split("_")[1])))]
        v = I.content(st, cl.args[0])
        if v.k == "xtext":
            if n in ("unescape_and_decode", "unescaped", "unescape_and_decode_without_bom"):
                return self.both(st, unesc(v.a[0]), "unescape", on=v.a[0])
            if n == "escaped":
                return [(st, v.a[0])]
            if n == "into_owned":
                return [(st, v)]
        self.unknown(cl)

    def _Event(self, I, st, cl, n):
        if n == "into_owned":
            return [(st, I.content(st, cl.args[0]))]
        self.unknown(cl)

    # ---------------------------------------------------------------- reading
    def event_value(self, I, st, ev):
        t = I.c.adt(EVENT)
        i = [v["n"] for v in t["vs"]].index(ev.kind)
        if ev.kind in ("Start", "Empty"):
            pay = mk("xstart", mk("bytes", ev.name) if isinstance(ev.name, bytes) else ev.name, *[mk("xattr", mk("bytes", k) if isinstance(k, bytes) else k, v) for k, v in ev.attrs])
        elif ev.kind == "End":
            pay = mk("xend", mk("bytes", ev.name) if isinstance(ev.name, bytes) else ev.name)
        elif ev.kind == "Eof":
            return mk("adt", EVENT, i)
        else:
            pay = mk("xtext", ev.text if ev.text is not None else mk("param", ev.kind))
        return mk("adt", EVENT, i, pay)

    def config(self, st, name):
        return dict(st.aux[3]).get(name, name == "check_end_names")

    def next_events(self, I, st):
        """[(state, event)] to be read next; event None: the read fails"""
        while True:
            i = st.aux[0]
            ev = self.script[i] if i < len(self.script) else Event("Eof")
            st.aux = (i + 1,) + st.aux[1:]
            if ev is None:
                break
            if ev.kind == "Text" and (self.config(st, "trim_text") or self.config(st, "trim_text_end")):
                t = models.m_trim_term(ev.text, "trim" if self.config(st, "trim_text") else "trim_end")
                if t is STR(""):
                    continue
                ev = Event("Text", text=t)
            if ev.kind == "Start":
                st.aux = st.aux[:4] + (st.aux[4] + (ev.name,),)
            elif ev.kind == "End":
                if self.config(st, "check_end_names") and st.aux[4][-1:] != (ev.name,):
                    ev = None
                st.aux = st.aux[:4] + (st.aux[4][:-1],)
            elif ev.kind == "Empty" and self.config(st, "expand_empty_elements"):
                raise AnalysisError("the reader is told to expand empty elements")
            break
        out = [(st, ev)]
        if ev is None:
            self.failed(st, "read")
            return out
        if self.eof and i < len(self.script):
            s2 = st.copy()
            self.failed(s2, "end of input")
            s2.aux = (len(self.script),) + s2.aux[1:]
            out.append((s2, Event("Eof")))
        if self.fail:
            s2 = st.copy()
            self.failed(s2, "read")
            out.append((s2, None))
        return out

    def ns(self, ev):
        """namespace of a tag as the reader resolves it"""
        if ev.kind in ("Start", "Empty", "End"):
            n = ev.name if isinstance(ev.name, bytes) else b""
            if b":" in n:
                return SOME(mk("bytes", NSXLINK))
            if n.startswith(b"{none}"):
                return NONE()
            return SOME(mk("bytes", NSFOLIA))
        return NONE()

    def reader(self, I, st, cl, n):
        if n in ("read_namespaced_event", "read_event"):
            out = []
            for s, ev in self.next_events(I, st):
                if ev is None:
                    out.append((s, ERR(mk("param", "read error"))))
                else:
                    v = self.event_value(I, s, ev)
                    out.append((s, OK(TUP(self.ns(ev), v) if n == "read_namespaced_event" else v)))
            return out
        if n in ("decode", "decode_without_bom"):
            x = strip(I.freeze(st, cl.args[1]))
            if x.k == "xtext":
                x = x.a[0]
            return self.both(st, x, "decode", on=x)
        if n in ("trim_text", "check_end_names", "check_comments", "expand_empty_elements", "trim_markup_names_in_closing_tags"):
            on = I.resolve(st, I.content(st, cl.args[1]))
            if on.k != "int":
                raise AnalysisError("%s(%s): unknown configuration of the reader" % (n, show(on, 3)))
            st.aux = st.aux[:3] + (tuple(sorted(dict(st.aux[3], **{n: bool(int(on.a[0]))}).items())),) + st.aux[4:]
            return [(st, cl.args[0])]
        if n in ("from_str", "from_reader", "from_file"):
            x = strip(I.freeze(st, cl.args[0]))
            seen = {y.a[0] for y in subterms(x) if y.k == "param"}
            if not seen <= {"data", "filename"} or len(seen) != 1 or not all(y.k in ("param", "str", "call", "sref", "refto") and (y.k != "call" or y.a[1].endswith(("::as_bytes", "Path::new"))) for y in subterms(x) if y.k != "str"):
                raise AnalysisError("the reader is given %s" % show(x, 4))
            st.aux = (0,) + st.aux[1:3] + ((), ())
            return self.both(st, mk("xreader"), "open") if n == "from_file" else [(st, mk("xreader"))]
        if n in ("buffer_position",):
            return [(st, mk("param", "position"))]
        return None

    def xname(self, st, v, n="name"):
        b = v.a[0]
        if n == "local_name" and b.k == "bytes" and b":" in b.a[0]:
            return mk("bytes", b.a[0].split(b":", 1)[1])
        if n == "local_name" and b.k == "bytes" and b.a[0].startswith(b"{none}"):
            return mk("bytes", b.a[0][6:])
        return b

    def attr_next(self, I, st, cl):
        r, p = I.pointee(st, cl.args[0])
        v = I.read(st, r, p)
        while v.k == "ref":
            r, p = v.a
            v = I.read(st, r, p)
        if v.k != "xattrs":
            return None
        e, i = v.a
        if i + 1 >= len(e.a):
            return [(st, NONE())]
        I.write(st, r, p, mk("xattrs", e, i + 1))
        a = e.a[i + 1]
        av = mk("adt", Q + "attributes::Attribute", 0, a.a[0], a.a[1])
        return [(s, SOME(x)) for s, x in self.both(st, av, "attribute")]

    def _Attribute(self, I, st, cl, n):
        v = I.content(st, cl.args[0])
        if v.k == "adt" and n in ("unescape_and_decode_value", "unescaped_value", "unescape_and_decode_value_without_bom"):
            return self.both(st, unesc(strip(v.a[3])), "unescape", on=strip(v.a[3]))
        self.unknown(cl)

    def _Attributes(self, I, st, cl, n):
        if n == "with_checks":
            return [(st, cl.args[0])]
        self.unknown(cl)


# ---------------------------------------------------------------- event sequences
def balanced(events):
    """why the events are not the inside of a well-formed element, or None"""
    stack = []
    for e in events:
        if e.kind == "Start":
            stack.append(e.name)
        elif e.kind == "End":
            if not stack:
                return "</%s> closes nothing" % e.name
            x = stack.pop()
            if x != e.name:
                return "</%s> closes <%s>" % (e.name, x)
    if stack:
        return "<%s> is not closed" % stack[-1]
    return None
