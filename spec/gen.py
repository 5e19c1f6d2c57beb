"""Regenerates spec/reference.json from a reviewed tree (run by hand only; the committed file is the oracle)."""
import json, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from tables import *
import facts


class X:
    def bad(self, k, m):
        raise SystemExit("%s: %s" % (k, m))


c, x = facts.load(), X()
ref = {
    "tags": {n: const_fn(c, x, "types::ElementType::as_str", [v], n) for n, v in enums(c, ET)},
    "element_annotationtype": {n: const_fn(c, x, "types::ElementType::annotationtype", [v], n) for n, v in enums(c, ET)},
    "groups": {n: sorted(const_fn(c, x, "types::ElementGroup::elementtypes", [v], n)) for n, v in enums(c, EG)},
    "annotationtypes": {n: const_fn(c, x, "types::AnnotationType::as_str", [v], n) for n, v in enums(c, AT)},
    "annotation_element_str": {n: const_fn(c, x, "types::AnnotationType::as_element_str", [v], n) for n, v in enums(c, AT)},
    "layertype": {n: const_fn(c, x, "types::AnnotationType::layertype", [v], n) for n, v in enums(c, AT)},
    "annotation_elementtype": {n: const_fn(c, x, "types::AnnotationType::elementtype", [v], n) for n, v in enums(c, AT)},
    "attribtypes": {n: const_fn(c, x, "<attrib::AttribType as std::convert::Into<&str>>::into", [v], n) for n, v in enums(c, AB)},
    "properties": {n: const_fn(c, x, "specification::Properties::new", [v], n) for n, v in enums(c, ET)},
}
for p in ref["properties"].values():
    for f in ("accepted_data", "required_data"):
        p[f] = sorted(p[f])
    for f in ("required_attribs", "optional_attribs"):
        p[f] = sorted(p[f])
json.dump(ref, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "reference.json"), "w"), indent=0, sort_keys=True)
