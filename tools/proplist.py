prop("C03", "Element types and XML tags are in one-to-one correspondence",
 "Every FoLiA element type is written under exactly one tag, the tag FoLiA defines for it, and no two element types share a tag. Reading that tag yields the same element type, and any string that is not one of these tags is rejected as a tag.",
 ["inputs"], "all 119 element types, and every string as a tag",
 "The tests parse one example document that uses a fraction of the 119 element types; a swapped, missing or aliased entry for the others is invisible to them.",
 ["src/types.rs"], [("ElementType::as_str / Display", "src/types.rs"), ("ElementType::from_str", "src/types.rs")],
 ENGINE + " of the tables over every variant and every tested string", "other",
 "Complete over the finite tables; the arbitrary-string case is covered by the partition of strings the code itself tests.")
prop("C04", "Annotation types, declaration tags, layers and elements agree",
 "Each annotation type has one FoLiA name, and the declaration tag built from that name is read back as that annotation type and nothing else is. The primary element of an annotation type belongs to it, carries its element name, and every span element's annotation type has a layer type that is a layer element.",
 ["inputs"], "all annotation types, all element types, and every string as a declaration tag or name",
 "Tests declare and read a handful of annotation types; the other entries of five parallel tables are never compared.",
 ["src/types.rs", "src/parser.rs"], [("AnnotationType::{as_str,from_str,as_element_str,layertype,elementtype}", "src/types.rs"), ("ElementType::annotationtype", "src/types.rs"), ("get_declaration_type", "src/parser.rs")],
 ENGINE + " of the tables over every variant", "other", "Complete over the finite tables.")
prop("C05", "Attributes are read back from the name and text they are written with",
 "For every kind of element attribute the library knows, the name it is written under and the text it is written with are read back as the same kind of attribute with the same value. Attribute names are unique, any other plain name is rejected, and every attribute the FoLiA specification allows on some element is one the reader accepts.",
 ["inputs"], "every attribute kind, every value of it, and every attribute name",
 "Tests touch id, set, class, processor and a few others; wrong names, value formats or unreadable attributes among the remaining kinds pass unnoticed.",
 ["src/attrib.rs", "src/specification.rs"], [("Attribute::parse", "src/attrib.rs"), ("Attribute::to_string/as_str/Display", "src/attrib.rs"), ("AttribType Into<&str>", "src/attrib.rs")],
 ENGINE + " of writer composed with reader, per attribute variant with unconstrained payload", "other",
 "Value-preservation for numbers and timestamps rests on std/chrono parsing what they formatted with the same type and format string (sub-second digits are not part of FoLiA's timestamp format).")
prop("C06", "The built-in specification table is FoLiA's",
 "For every element type the library's specification (accepted and required children, required and optional attributes, occurrence limits, delimiter, and flags) and the element-group memberships are those of the FoLiA specification the release was generated from. Looking up an element type in a document's specification yields that element type's own entry.",
 ["inputs", "configurations"], "all element types and groups, all fields",
 "The table is 3,000 generated lines; tests exercise the acceptance rules of two or three elements.",
 ["src/specification.rs", "src/types.rs"], [("Properties::new", "src/specification.rs"), ("Specification::get", "src/specification.rs"), ("ElementGroup::elementtypes/contains", "src/types.rs")],
 ENGINE + " of the table constructor over every element type, compared with a frozen reference", "other",
 "Complete over the finite table; the oracle is spec/reference.json, extracted from the pinned tree and cross-checked for coherence (tags, groups, layers).")
prop("C07", "Queries match exactly the elements that satisfy all their criteria",
 "An element matches a compiled query exactly if it satisfies every criterion: Any does not restrict (None of an element group matches nothing), Is(x) is satisfied by elements that have exactly that value, Some by those that have one and None by those that have none; Unmatchable by nothing. Compiling a query carries over every criterion; a set is looked up under the annotation type of the queried element type, a class or subset (a class of a subset as a subclass) in the declaration of the queried set, a processor by its ID, and a name the document does not have matches nothing. Each builder method sets exactly its criterion. A union of selectors, of any length, matches what any of its members matches. Recursion limited to, or excepting, element types and groups enters exactly the elements of these types and groups, respectively all others.",
 ["inputs", "configurations"], "every criterion with every comparison, over elements with and without the attribute and with any value; queries combining criteria",
 "Tests run a few queries on one document; a criterion that is silently dropped, a name looked up in the wrong store, or a union that loses members only shows on other combinations.",
 ["src/query.rs", "src/select.rs"], [("Cmp::matches and the Query builder", "src/query.rs"), ("Selector::from_query, matches, and, matchable", "src/select.rs"), ("Recursion::eval", "src/select.rs")],
 ENGINE + " of matching and query compilation per criterion and comparison", "other",
 "Unions are evaluated up to three members (the code treats the rest of the chain uniformly); criteria are combined pairwise with the neutral ones.")
prop("C08", "IDs are unique and keys are stable: the stores find exactly what was added",
 "Adding an element, declaration or processor to a document puts it under the next free key and, if it has an ID, makes it findable under exactly that ID. An element whose ID is already in use is refused and the document keeps the one it has; a declaration (same annotation type and set) or processor that is already there is not added again, its existing key is returned. Looking up by key or by ID returns the item stored there and None if there is none. Classes, subsets and subclasses of a declaration get one key each, which is found again by name and leads back to the name; nothing else changes or reuses keys.",
 ["inputs", "histories"], "any contents of the stores, every item, with and without ID; every function that can change a store",
 "Tests add a few items and look them up; reuse of a key, a merged duplicate or a lookup in the wrong store shows only for particular combinations of earlier additions.",
 ["src/store.rs", "src/document.rs", "src/elementstore.rs", "src/metadata.rs"], [("Store::add/get/id_to_key", "src/store.rs"), ("StringStore", "src/store.rs"), ("index_id and the lookups of Declaration", "src/metadata.rs"), ("Document lookups", "src/document.rs")],
 ENGINE + " of the store operations over stores with unknown contents, plus a who-may-mutate rule over the call graph", "other",
 "One operation from any store state (the induction step over histories); the who-may-mutate rule covers items and index fields of the five stores.")
prop("C09", "Parents and children agree, each child has one place, and no cycles",
 "Attaching an element under a parent sets its parent, appends it to the children of that parent and removes it from its former parent; detaching removes both sides. Attaching to oneself or one's own descendant, or with a parent or child that does not exist, fails and changes nothing. add_element and add_element_to make every nested element a child of the element it was given in, in the order given, and know its parent. Attaching a processor does the same in the provenance tree and takes it out of the top-level chain.",
 ["inputs", "histories"], "any document, any pair of keys; elements with and without nested children",
 "Tests build a document top-down and never move, re-attach or nest elements; stale parents, double placement and cycles need a second attachment.",
 ["src/document.rs"], [("attach_element, detach_element, add_element, add_element_to, add_children", "src/document.rs"), ("attach_processor", "src/document.rs")],
 ENGINE + " with an effect system over document slots (symbolic keys), per path", "other",
 "Ancestor chains are followed up to four steps (the loop body is the same for each); nested additions up to two levels and several shapes of children.")
prop("C10", "Selecting and looking up visit exactly the matching elements, in order",
 "Selecting yields every child (recursion No) or every descendant (recursion Always) that the selector matches, each once, depth-first in document order, with the right parent, position among its siblings and depth; text and comments come in their place if selected, the element itself comes first if asked for. With span references followed, a span annotation comes where it is first referred to or found, and only there. Ancestors come from the parent up to the root, exactly those that match; common ancestors are those that all the given elements have. get_element(s), get_annotation(s), get_feature(s) and get_ancestor(s) find exactly the elements of the given type and set (subset), the singular ones the first of them, and nothing if the document has no such set.",
 ["inputs"], "all trees of elements, text and comments up to three (thorough: four) nodes, span annotation in several forms, sets and features; every starting element, type, group, recursion on/off, inclusive or not",
 "Tests select words in one example file; an item that is skipped, repeated or given with the wrong parent or position in a particular nesting goes unnoticed.",
 ["src/select.rs", "src/element.rs"], [("SelectIterator::next, already_returned", "src/select.rs"), ("AncestorIterator, common_ancestors", "src/select.rs"), ("get_features, get_annotations, get_ancestors", "src/element.rs")],
 ENGINE + " of the iterators, call by call, over stores obtained by evaluating the reader on symbolic XML, against a depth-first walk over the same store", "other",
 "Shapes are enumerated up to a bound, strings are unconstrained. Recursion restricted by type is C07's. Not promised: items that are span references themselves when references are not followed, inclusive selection of detached elements.")
prop("C13", "Elements, attributes and text survive reading and writing unchanged",
 "Reading a FoLiA file yields exactly the elements its XML nesting describes, in order, each of the type of its tag, with every attribute the reader knows under the value it has in the file (set and processor may be filled in from a single declaration), with all its non-blank text, CDATA and comments in place between its children, and found under its ID; a word referred to by wref elements after it carries one back-reference for each. Writing a document gives well-formed XML (comments containing --> are refused) that reads back to the same elements, attributes, classes, sets, processors (where the processors that are used are declared as annotators), text and comments.",
 ["inputs"], "every element type, every attribute, all trees of elements, text and comments up to four nodes (thorough: five) under arbitrary strings, with sets, classes, processors, features and span annotation in many combinations",
 "The tests read one example file and look at a few elements; an attribute, element, text or comment that is lost, duplicated, misplaced or changed in one particular constellation goes unnoticed.",
 ["src/parser.rs", "src/serialiser.rs", "src/element.rs", "src/document.rs"], [("parse, parse_body, parse_elements", "src/parser.rs"), ("xml, xml_elements", "src/serialiser.rs"), ("ElementData encode/decode/post_add", "src/element.rs")],
 ENGINE + " of the reader over symbolic XML events, composed with the writer and the reader again, with quick-xml modelled as event input and output", "other",
 "Strings are unconstrained parameters (assumed different where the document needs different ones, text not blank). Shapes are enumerated up to a bound. Not promised: blank text, wrefs to later elements, unknown processors, text directly under a foreign-namespace element.")
prop("C14", "Metadata, declarations and provenance survive reading and writing unchanged",
 "After reading a FoLiA file the document has its ID, its metadata type, source and entries, every submetadata block with its own type, source and entries, every declaration with its annotation type, set, alias, format and annotators, in order, and the provenance as the same tree of processors in the same order with all their attributes, including type and timestamps. Writing the document gives well-formed XML that reads back to the same metadata, submetadata, declarations and provenance.",
 ["inputs", "configurations"], "presence and absence of each field, 0-3 entries of each kind, every annotation type, every processor type, provenance trees up to three (thorough: five) processors, arbitrary strings",
 "The tests read one provenance chain and write none; a value that leaks from one block to the next, is lost when another is absent, or is written under a name the reader does not know goes unnoticed.",
 ["src/parser.rs", "src/serialiser.rs", "src/metadata.rs"], [("parse, parse_processor", "src/parser.rs"), ("xml_declarations, xml_provenance, xml_processor, metadata", "src/serialiser.rs")],
 ENGINE + " of the reader over symbolic XML events, composed with the writer and the reader again, with quick-xml modelled as event input and output", "other",
 "Strings are unconstrained parameters; processor fields are non-empty when present. Timestamps rest on chrono parsing what it formats with the same format string.")

prop("C22", "The text of an element is composed as the FoLiA specification says",
 "The text of text content (and any text container) is all text in it and in the printable elements in it, in order, such an element being preceded by the delimiter of its type if there is text before it; elements without text, like linebreaks, add none. The text of any other element that is printable and not hidden is that of its structure, span annotation and correction children (of a correction, its new or current version) and the elements it refers to (a reference to the element itself or one around it adds nothing), in order, separated by the delimiter of the last one that has text; only if they have none, it is its own text content of the requested set and class (by default the default text set and current). Otherwise there is no text: an error, as for a set or class that is not declared. The delimiter of an element is that of its type, but empty if it has space=no and tokenisation is not retained; for types without one it is that of its last child element.",
 ["inputs"], "every element type as text bearer, among words, around words and inside text; nested structure with text missing anywhere; corrections, span annotation, references; several text classes and sets; arbitrary strings",
 "The tests read the text of a few words and sentences; delimiters of empty, nested, hidden or referred-to elements, and text classes other than current, are untested.",
 ["src/text.rs"], [("text_by_key, get_textdelimiter, text, is_textcontent", "src/text.rs")],
 ENGINE + " of the text functions over stores obtained by evaluating the reader on symbolic XML, against the composition rule over the reference specification table", "other",
 "Shapes are enumerated, strings are unconstrained non-empty parameters. Not promised: several text contents of one class in an element.")
prop("C18", "The accessors of an element return what the document holds for it",
 "For every element of a document read from a file: set, class and subset are those it has (given, or filled in from its declaration; none for an element without), processor is the ID of its processor and annotator and annotatortype are that processor's name and type, or without a processor the element's own annotator and annotatortype attributes; id, elementtype, key and the encoded keys are those stored; attrib and has_attrib find exactly the attributes it has, by type, encoded or not; get_parent and parent_key give the element it is in, get_index its position in that parent's data; resolve gives the element its id attribute refers to. On element data under construction attrib, has_attrib, del_attrib and set_attrib (with_attrib) find, remove and replace exactly the attribute of that type and leave all others as they were.",
 ["inputs"], "every element type and attribute; all combinations of declared sets and annotators with elements with and without set, class, processor and annotator; features, span annotation, references, nesting; for attribute operations every attribute type against all others; arbitrary strings",
 "The tests call most accessors on one or two elements; with several sets, classes, processors or attributes a wrong lookup key returns a plausible value.",
 ["src/element.rs", "src/attrib.rs", "src/document.rs"], [("ReadElement", "src/element.rs"), ("ElementData::{attrib, has_attrib, del_attrib, set_attrib, with_attrib}", "src/element.rs"), ("Attribute::attribtype", "src/attrib.rs")],
 ENGINE + " of every accessor on every element of stores obtained by evaluating the reader on symbolic XML, against the contents of the store", "other",
 "Strings are unconstrained parameters (assumed different where the document needs different ones). Documents are enumerated shapes. Not promised: elements without a document, element data that mixes encoded and unencoded attributes.")
prop("C19", "Declaring and attribution: default sets, annotators, the active processor",
 "declare returns the existing declaration of that annotation type and set; without a set, the only declaration of the type if there is exactly one; otherwise it adds one with the given set, alias and format. The active processor becomes an annotator of the declaration (once); nothing else changes. The default declaration and set of a type are those of its only declaration, the default processor is the only annotator, and there is none if there are more or none. An element added with a set, class or processor (by its ID) is declared likewise; it belongs to that declaration (a feature to that of the element it is in), and is attributed to the processor it names, or else to the declaration's default processor, or else to the active one, which the declaration then lists. Document::new gives a document with the given ID, one empty body of the given type, what the properties declare and nothing else, and the given processor, with its subprocessors, in the provenance chain and active. Reading with such properties declares and activates likewise, but attributes nothing that is read to that processor.",
 ["inputs", "histories"], "declarations of two types with up to three sets and two annotators, none or either processor active, every combination of set, class and processor, several calls in a row; every combination of properties with up to two (thorough: three) declarations; arbitrary strings",
 "Tests declare each annotation type once and activate one processor; which declaration, annotator or processor is taken when there are several, or one that is active but not declared, is untested.",
 ["src/document.rs", "src/metadata.rs", "src/parser.rs"], [("declare, encode, new, apply_properties, get_default_set", "src/document.rs"), ("default_mask, get_default_key, default_processor", "src/metadata.rs"), ("parse", "src/parser.rs")],
 ENGINE + " of declare, annotate, the defaults, Document::new and the reader, on stores obtained by evaluating the reader on symbolic XML, against the rule", "other",
 "Strings are unconstrained parameters assumed different. Not promised: elements without set, class and processor, processors that are not in the document, the autodeclare flag (which the library ignores).")
prop("C20", "Elements can be added exactly where the FoLiA specification accepts them",
 "check_element_addable accepts an element for a parent if and only if the specification lists the element's type, or a group that contains it, as accepted data of the parent's type. annotate refuses what is not accepted and then leaves the document as it was; accepted inline annotation (anything but span annotation on words and structure) becomes the last child of the parent, with nothing else changed, and its key is returned.",
 ["inputs"], "all pairs of element types (119 x 119)",
 "The tests add a handful of elements that are accepted; a wrong rule for any other pair of types, or a refusal after part of the work is done, goes unnoticed.",
 ["src/document.rs", "src/specification.rs", "src/types.rs"], [("check_element_addable, annotate, add_element_to", "src/document.rs"), ("Properties::new (accepted_data)", "src/specification.rs"), ("ElementGroup::elementtypes", "src/types.rs")],
 ENGINE + " of check_element_addable and annotate for all pairs of element types, on a store obtained by evaluating the reader and the specification evaluated to a complete map, against the reference specification table", "other",
 "Not promised: wref elements (which need a span), validation of children nested in what is added.")
prop("C26", "annotate and annotate_span put annotations where they belong",
 "Span annotation added with annotate on a word (or other wrefable element), or with annotate_span, goes to the end of the layer of its type and set (its own set, otherwise the only set declared for its type) that is a direct child of the nearest structure element containing all words of the span (other than the words themselves); added on any other structure element, of that element's layer. The layer is added at the end of that element, with that set, if there is none of that type and set yet. Without a set, or on a word without words in the span, it is refused. Other annotation, or on other elements, becomes the last child of the element it is added to. Each word gets a back-reference to the new span for each time it is in it, after those it has; the span refers to the words in order. Attributes given are kept; set and class are encoded under the declaration for that annotation type and set, declared if needed; without a processor the declaration's only one is filled in. The key of the new element is returned, and nothing else changes.",
 ["inputs", "histories"], "every span type and several inline types; words of the same and different sentences, quotes, paragraphs, divisions and subtokens; every kind of place to add from; layers present or absent in any place, with one or several sets; own, default, new and no set; arbitrary strings",
 "The tests add one entity to one sentence; words in different sentences, several layers or sets, repeated words and refusals are untested.",
 ["src/document.rs", "src/select.rs", "src/store.rs"], [("annotate, annotate_span, get_layer_key, get_span_keys, add_element_to, post_add, encode", "src/document.rs"), ("common_ancestors", "src/select.rs")],
 ENGINE + " of annotate and annotate_span on stores obtained by evaluating the reader on symbolic XML; the resulting store is compared with the one the rule gives", "other",
 "Documents are enumerated shapes, strings unconstrained parameters. Not promised: nested spans and span roles under construction, references to words that do not exist, active processors that differ from the declared one.")

prop("C01", "Reading never panics, whatever the input",
 "from_str and from_file return a document or an error for every input: any sequence of tags, attributes, text, comments, CDATA, processing instructions and foreign elements, in any place and order, with any names and values, well-formed or not, ending anywhere, with I/O or decoding errors at any point, and for any document properties. They never panic.",
 ["inputs", "faults"], "changes of documents that contain everything, anywhere; every attribute with any string on every element; every failure of the XML library and every end of the input",
 "The tests read two well-formed examples; a panic needs an input nobody wrote down: a stray tag, an empty value, a dangling reference, a truncated file.",
 ["src/parser.rs", "src/attrib.rs", "src/document.rs", "src/store.rs", "src/metadata.rs"], [("Document::from_str, from_file, parse, parse_elements", "src/parser.rs"), ("Attribute::parse", "src/attrib.rs"), ("encode, add, post_add, attach_element", "src/document.rs")],
 ENGINE + " of the reader over symbolic XML events with failing library operations, quick-xml modelled as event input", "other",
 "Inputs are documents with one change (thorough: with failures on top), strings unconstrained. Not covered: stack exhaustion by very deep nesting, panics inside quick-xml, chrono and std other than by their documented preconditions.")
prop("C02", "Using a document that was read never panics, whatever was in it",
 "Whatever document reading accepts, everything in it can be used without a panic: writing the document, selecting everything in it (data or elements, recursively, with references) to the end, the text and text delimiter of every element with the default text parameters, its ancestors, its set, class, subset, processor, annotator, annotator type, encoded keys, declaration, parent, index and the element it refers to, and looking up its annotations, elements, features and ancestors of any type, any set or none, declared or not. In particular references to any element, also to itself, elements around it or each other, do not make the text or a selection recurse or run without end.",
 ["inputs"], "every document obtained by one change from documents that contain everything, every attribute with any string on every element, references to everything; all paths of every function used on every element",
 "The tests use two well-formed examples as intended; a document that is accepted but has, for example, an element without its declaration or a reference to its own parent fails only when it is used.",
 ["src/text.rs", "src/select.rs", "src/element.rs", "src/serialiser.rs", "src/document.rs", "src/query.rs"], [("text_by_key, get_textdelimiter", "src/text.rs"), ("ReadElement accessors, get_annotations, get_features", "src/element.rs"), ("SelectIterator, AncestorIterator, Selector::from_query", "src/select.rs"), ("xml, xml_elements, xml_metadata", "src/serialiser.rs")],
 ENGINE + " of all users of the document over the stores obtained by evaluating the reader on symbolic XML events, quick-xml modelled", "other",
 "Documents of the enumerated shapes, one change each, strings unconstrained; quick: a sample of the changes. Not covered: stack exhaustion by very deep nesting; documents changed through the API after reading.")
prop("C11", "Incomplete, malformed and invalid documents are refused",
 "Reading succeeds only for a complete document. It returns an error if the input ends before the closing FoLiA tag, if reading, decoding or unescaping fails anywhere, if the root element, the body or an element of the metadata is not the one expected in the FoLiA namespace, if the body or the ID of a submetadata block is missing, on an element, declaration, element attribute (without a namespace prefix) or processor attribute FoLiA does not have, on tag names that are not UTF-8, on an invalid processor type, annotator type, yes/no value, number or timestamp, on an ID used by two elements, and on a word reference without ID, outside span annotation or to an element that does not exist.",
 ["inputs", "faults"], "every such error in every place of documents that contain everything; every failure of the XML library; every end of the input",
 "The tests read correct files only; a reader that skips over an error returns a document from which something is missing, and nobody notices.",
 ["src/parser.rs", "src/attrib.rs", "src/document.rs", "src/store.rs"], [("parse, parse_elements, parse_attributes, Processor::parse, Declaration::parse", "src/parser.rs"), ("Attribute::parse", "src/attrib.rs"), ("post_add", "src/document.rs"), ("Store::add", "src/store.rs")],
 ENGINE + " of the reader over symbolic XML events with failing library operations, quick-xml modelled as event input", "other",
 "One error at a time, in every place. Invalid names and values are representative constants, failures of parsing numbers and timestamps are also taken as such. Not promised: unknown attributes of declarations and metadata (a warning), attributes with a namespace prefix (ignored).")
prop("C15", "Results do not depend on hash order, time, chance or environment",
 "Reading the same input and writing the document gives the same bytes every time: metadata, submetadata and everything else kept in hash maps is written in an order that depends only on their contents. Nothing in the library but making a processor (Processor::new, this_library, autofill) draws on random numbers, the time, the environment, threads, addresses or state that outlives a call, and nothing in the library makes processors of its own accord.",
 ["schedules", "inputs"], "up to four metadata entries and three submetadata blocks read in every order and iterated over in several; every function of the library",
 "Hash maps with one entry have one order; the tests never compare two runs.",
 ["src/serialiser.rs", "src/parser.rs", "src/metadata.rs", "src/document.rs"], [("xml_metadata", "src/serialiser.rs"), ("default_mask", "src/metadata.rs"), ("Processor::new, this_library, autofill", "src/metadata.rs")],
 ENGINE + " of the reader and the writer under several iteration orders of their maps, and a who-may-call rule over the call graph for sources of nondeterminism", "other",
 "Four iteration orders of maps with up to four entries. Other uses of maps than lookups are violations, unless the writer goes through them.")

prop("C33", "Writing a part of a document gives exactly that part",
 "Writing a document from any of its elements succeeds whenever writing the whole document does, and gives the same XML as for the whole document, with the same declarations, provenance, metadata and submetadata, in which the body is replaced by that element: the element with all attributes it has in the whole document (set and processor explicit or implied in the same way), everything in it, in the same order, and nothing around it, after it or besides it. Only layout may differ.",
 ["inputs"], "every element of documents of every shape: every element type, every attribute, all small trees of elements, text and comments, sets and processors given or defaulted, span annotation; arbitrary strings",
 "The tests only write whole documents.",
 ["src/serialiser.rs", "src/select.rs"], [("xml, xml_elements", "src/serialiser.rs"), ("SelectIterator (inclusive)", "src/select.rs"), ("default_mask", "src/metadata.rs")],
 ENGINE + " of Document::xml for every element of stores obtained by evaluating the reader on symbolic XML events; the events of the part are compared with those of the whole document", "other",
 "Documents of the enumerated shapes, strings unconstrained; layout is whitespace a reader drops. Not promised: indented output, keys of elements that are not there.")

prop("C34", "Documents made or changed through the API survive writing and reading",
 "A document made with Document::new and the builder functions, or read, to which declarations, processors, elements and annotations were then added (declare, annotate, annotate_span, add_element_to, with elements built with their attributes, text, comments and the elements in them), can be written, and reading what was written gives the same document: the ID, metadata, the declarations with their annotators, the provenance chain, all elements in their places with the attributes they were given, text and comments in the same order, the ID index, and the back-references from words to span annotation. What was built is in it as described.",
 ["inputs", "histories"], "new documents with any declared sets and processors, filled in any order; documents read to which any annotation type is added with declared, default, new and no sets and active or explicit processors, spans over words in many places; arbitrary strings",
 "The tests build one document and do not read it again; what is stored but not written, or written in a way that is read as something else, shows only after a round trip.",
 ["src/document.rs", "src/serialiser.rs", "src/parser.rs", "src/element.rs", "src/metadata.rs"], [("new, annotate, annotate_span, add_element_to, add_children, declare, encode", "src/document.rs"), ("ElementData builder functions", "src/element.rs"), ("xml, xml_elements, xml_metadata", "src/serialiser.rs"), ("parse, parse_elements", "src/parser.rs")],
 ENGINE + " of the API functions, then of Document::xml on the resulting store, then of the reader on the XML events written; the two stores are compared", "other",
 "Histories of up to five additions, strings unconstrained (words, IDs and sets distinct). Not promised: span annotation placed before words it refers to, elements without a processor whose declaration has exactly one (they are read as by that one), comments that contain the end of a comment, whitespace-only text, changes by get_mut and set_attrib.")

prop("C30", "Additions that fail leave the document unchanged",
 "When adding an element, an annotation or a declaration fails, the document afterwards is the one before: no element, declaration, processor or reference was stored on the way.",
 ["inputs", "histories"], "every element that can be passed to the functions that add, refused at any point, also in nested elements",
 "The tests add things that are accepted.",
 ["src/document.rs", "src/store.rs"], [("add_element, add_element_to, annotate", "src/document.rs"), ("Store::add", "src/store.rs")], "",
 na="Does not hold in general: the store adds an element before its nested elements, so a nested one that is refused leaves it behind (DESIGN.md section 6), and a repair would redesign adding. The part that holds (refusals of a single element by annotate and add_element_to) is part of C18 and C26.")
prop("C31", "Nested documents are handled with bounded stack",
 "Reading, selecting in, writing and taking the text of a document needs no more stack than is there, however deeply its elements are nested.",
 ["inputs"], "every nesting depth",
 "A stack overflow needs a nesting of many thousands of elements.",
 ["src/parser.rs", "src/text.rs", "src/document.rs"], [("parse_elements", "src/parser.rs"), ("text_by_key", "src/text.rs"), ("add_element", "src/document.rs")], "",
 na="The stack a frame takes is not a quantity of the source or of MIR (it is chosen by code generation), and text and additions recurse on the nesting of the document; static analysis cannot bound it here. That recursion does not go on for ever on documents that were read is part of C02.")
prop("C32", "What is written is well-formed UTF-8 XML, byte by byte",
 "Every document written is well-formed XML in UTF-8: tags balanced, names legal, markup characters escaped everywhere, no characters XML does not allow.",
 ["inputs"], "every string in every place",
 "The tests write a few plain strings.",
 ["src/serialiser.rs"], [("xml, xml_elements, xml_metadata", "src/serialiser.rs")], "",
 na="Bytes are made and taken apart by quick-xml, outside the repository. The checks decide which events, attributes and escaped or unescaped strings are handed to it and in what order (C13, C20), and take its encoding of them as given.")
