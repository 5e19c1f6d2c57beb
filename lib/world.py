"""Abstract documents of a given shape: element, declaration and processor slots whose contents are unconstrained
parameters unless given. Used to evaluate document-level functions over all contents of that shape."""
from absint import *
from facts import AnalysisError

ED = "element::ElementData"
EL = "element::Element"
DOC = "document::Document"
ATTR = "attrib::Attribute"
DT = "types::DataType"
DECL = "metadata::Declaration"
PROC = "metadata::Processor"


def struct(c, path, prefix=None, **fields):
    """a struct value: named fields as given, the others unconstrained parameters"""
    t = c.adt(path)
    names = [f[0] for f in t["vs"][0]["f"]]
    for f in fields:
        if f not in names:
            raise AnalysisError("%s has no field %s" % (path, f))
    p = (prefix or path.rsplit("::", 1)[1].lower()) + "."
    return mk("adt", t["path"], 0, *[fields.get(n, mk("param", p + n)) for n in names])


def variant(c, path, name, *payload):
    t = c.adt(path)
    for i, v in enumerate(t["vs"]):
        if v["n"] == name:
            return mk("adt", t["path"], i, *payload)
    raise AnalysisError("%s has no variant %s" % (path, name))


def vname(c, v):
    """variant name of an enum value of the crate"""
    return c.adt(v.a[0])["vs"][v.a[1]]["n"] if v.k == "adt" else None


def field(c, v, name):
    """field of a struct value"""
    t = c.adt(v.a[0])
    names = [f[0] for f in t["vs"][v.a[1]]["f"]]
    return v.a[2 + names.index(name)]


def vec(*items):
    return mk("vec", *items)


def element(c, etype, attribs=(), data=(), parent=None, key=None):
    return struct(c, ED, elementtype=etype if type(etype) is V else variant(c, "types::ElementType", etype), attribs=vec(*attribs), data=data if type(data) is V else vec(*data),
                  parent=NONE() if parent is None else SOME(INT(parent)), key=NONE() if key is None else SOME(INT(key)))


def slots(items):
    return vec(*[NONE() if x is None else SOME(mk("box", x)) for x in items])


def document(c, elements=(), declarations=(), processors=(), chain=(), **over):
    es = struct(c, "elementstore::ElementStore", items=slots(elements), root=variant(c, DT, "Element", INT(0)))
    ds = struct(c, "metadata::DeclarationStore", items=slots(declarations))
    ps = struct(c, "metadata::ProvenanceStore", items=slots(processors), chain=vec(*chain))
    f = dict(elementstore=es, declarationstore=ds, provenancestore=ps)
    f.update(over)
    return struct(c, DOC, **f)
