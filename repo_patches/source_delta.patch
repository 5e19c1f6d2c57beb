From f3d9ed1bc0a157a45ed57eb6b58055693cd4227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 01/38] fix: AttribType's Display recursed into itself without
 end

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..f4f32cd 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let name: &str = (*self).into();
+        write!(f, "{}", name)
     }
 }
 
-- 
2.43.0


From 2dd713ded87453c5766f22abe47d1778fc21b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 02/38] fix: the specification allows the tag attribute but the
 reader rejected it

---
 src/attrib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index f4f32cd..ff8765a 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -101,6 +101,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -149,7 +150,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -226,7 +227,8 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
-            Attribute::NewPage(_) => AttribType::NEWPAGE
+            Attribute::NewPage(_) => AttribType::NEWPAGE,
+            Attribute::Tag(_) => AttribType::TAG
         }
     }
 
@@ -352,6 +354,9 @@ impl Attribute {
                 b"ref" => {
                     Ok(Attribute::Ref(value))
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"confidence" => {
                     if let Ok(value) = f64::from_str(&value) {
                         Ok(Attribute::Confidence(value))
-- 
2.43.0


From c10a049654110b354d290cb8699149c5879f2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:14 +0000
Subject: [PATCH 03/38] fix: queries on annotator, annotator type and
 confidence matched everything

Selector::from_query did not take these criteria over from the query, and
Selector::matches did not test the confidence.
---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..4d249e2 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -45,6 +45,9 @@ impl Selector {
         selector.elementtype = query.elementtype.clone();
         selector.elementgroup = query.elementgroup.clone();
         selector.contexttype = query.contexttype.clone();
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
         //if we have subsets, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
@@ -228,7 +231,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From b821d0a64be36a01cfb722afac9eb4d53c8e3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 04/38] fix: a union of selectors dropped all but the last, and
 was empty if the first could not match

---
 src/select.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 4d249e2..0bc0877 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -195,7 +195,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = Some(Box::new(match self.next {
+            Some(next) => next.and(selector),
+            None => selector,
+        }));
         self
     }
 
@@ -204,9 +207,11 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
+        (self.set != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        self.subset != Cmp::Unmatchable &&
+        self.processor != Cmp::Unmatchable) ||
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From 5719dd0acd2cb8a3eca02d221ee6d38d5f4d5839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:39 +0000
Subject: [PATCH 05/38] fix: selecting recursed once per non-matching item and
 overflowed the stack on large documents

---
 src/select.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 0bc0877..299ba2c 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -417,7 +417,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -454,14 +454,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -590,21 +588,16 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
-                _ => {
-                    //recurse
-                    self.next()
-                }
+                _ => {}
             }
-        } else {
-            None
         }
+        None
     }
 
 }
@@ -668,7 +661,7 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
+        while let Some(element) = self.document.get_elementdata(self.key) {
             if let Some(parent_key) = element.parent {
                 self.key = parent_key;
                 if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
@@ -678,11 +671,12 @@ impl<'a> Iterator for AncestorIterator<'a> {
                 } else {
                     let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
                     if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
+                        //continue with the parent
+                        continue;
                     }
                 }
             }
+            break;
         }
         None
     }
-- 
2.43.0


From 9e641c1d7230654078c1cdec5cc3c6140796bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 06/38] fix: common_ancestors started over when the elements
 had no common ancestor left

---
 src/select.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 299ba2c..910c97f 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -710,17 +710,16 @@ impl Document {
     }
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
-        let mut result: Vec<ElementKey> = Vec::new();
+        let mut result: Option<Vec<ElementKey>> = None;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
-                    result = ancestors.into_iter().collect();
-                } else {
-                    result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-                }
+                result = Some(match result {
+                    None => ancestors,
+                    Some(result) => result.into_iter().filter(|a| ancestors.contains(a)).collect(),
+                });
             }
         }
-        result
+        result.unwrap_or_default()
     }
 }
-- 
2.43.0


From 13a13e76152acfa986872df603bb8d6ce1fcf3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 07/38] fix: annotate looked for the layer in the annotated
 word instead of the common ancestor and added a new layer each time

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..6896dd0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -547,7 +547,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From 12d2f433e2f3b88207ed7d148529e2e0dd3cb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 08/38] fix: no document with a processor's begindatetime or
 enddatetime could be read (wrong format string)

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 2c809489776b8bf063a19d4a8e00ea566de5cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:27 +0000
Subject: [PATCH 09/38] fix: submetadata was neither read nor written

---
 src/parser.rs     | 15 +++++++++++----
 src/serialiser.rs |  6 +++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..d26de21 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -87,6 +87,7 @@ impl Document {
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
         let mut submetadata_type: Option<String> = None;
+        let mut submetadata_src: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -172,13 +173,22 @@ impl Document {
                                         b"type" => {
                                             submetadata_type = Some(value.clone());
                                         },
+                                        b"src" => {
+                                            submetadata_src = Some(value.clone());
+                                        },
                                         otherwise => {
                                             eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
                                         }
                                     }
                                 }
                             }
-                            if submetadata.is_none() {
+                            if let Some(submetadata_id) = &submetadata {
+                                doc.submetadata.insert(submetadata_id.clone(), Metadata {
+                                    data: HashMap::new(),
+                                    src: submetadata_src.take(),
+                                    metadatatype: submetadata_type.take(),
+                                });
+                            } else {
                                 return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
                             }
                         },
@@ -264,9 +274,6 @@ impl Document {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..684eccf 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From 67d9897b88460d3ed2ee32b5d79dd15862018b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 10/38] fix: declarations without annotators were written but
 not read

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d26de21..1df2271 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -132,6 +132,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            //declaration without annotators
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
-- 
2.43.0


From 6c2f9106401b3ded77c22fa63d06f51fbc59ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 11/38] fix: empty metadata values were lost, and all but the
 last part of values with a comment in them

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1df2271..bfcef18 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -211,7 +211,7 @@ impl Document {
                                     }
                                 }
                             }
-                            text = None;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -245,7 +245,9 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
-- 
2.43.0


From e5995a7de1ac316feb8e3d4398fa264c6d74fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:54 +0000
Subject: [PATCH 12/38] fix: malformed XML attributes made the reader panic or
 were silently dropped

---
 src/parser.rs | 208 ++++++++++++++++++++++++--------------------------
 1 file changed, 101 insertions(+), 107 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bfcef18..0811d2e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -111,15 +111,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"processor" => {
+                                        processor_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
                                     }
                                 }
                             }
@@ -145,18 +144,17 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"src" => {
+                                        doc.metadata.src = Some(value);
+                                    },
+                                    b"type" => {
+                                        doc.metadata.metadatatype = Some(value);
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
                                     }
                                 }
                             }
@@ -169,21 +167,20 @@ impl Document {
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            submetadata_type = Some(value.clone());
-                                        },
-                                        b"src" => {
-                                            submetadata_src = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"xml:id" => {
+                                        submetadata = Some(value.clone());
+                                    },
+                                    b"type" => {
+                                        submetadata_type = Some(value.clone());
+                                    },
+                                    b"src" => {
+                                        submetadata_src = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
                                     }
                                 }
                             }
@@ -199,15 +196,14 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
+                                let attrib = attrib?;
+                                let value = attrib.unescape_and_decode_value(&reader)?;
+                                match attrib.key {
+                                    b"id" | b"xml:id" => {
+                                        meta_id = Some(value.clone());
+                                    },
+                                    otherwise => {
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
                                     }
                                 }
                             }
@@ -489,44 +485,43 @@ impl Processor {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Processor, FoliaError> {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
-            if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
-                match  attrib.key {
-                    b"xml:id" => { processor.id = value; },
-                    b"name" => { processor.name = value; },
-                    b"version" => { processor.version = value; },
-                    b"folia_version" => { processor.folia_version = value; },
-                    b"document_version" => { processor.document_version = value; },
-                    b"command" => { processor.command = value; },
-                    b"host" => { processor.host = value; },
-                    b"user" => { processor.user = value; },
-                    b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.begindatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
-                            Ok(dt) => processor.enddatetime = Some(dt),
-                            Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
-                        };
-                    },
-                    b"src" => { processor.src = value; },
-                    b"format" => { processor.format = value; },
-                    b"resourcelink" => { processor.resourcelink = value; },
-                    b"type" => { match value.as_str() {
-                        "manual" => processor.processortype = ProcessorType::Manual,
-                        "auto" => processor.processortype = ProcessorType::Auto,
-                        "generator" => processor.processortype = ProcessorType::Generator,
-                        "datasource" => processor.processortype = ProcessorType::DataSource,
-                        _ => {
-                            return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
-                        }
-                    }},
-                    tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match  attrib.key {
+                b"xml:id" => { processor.id = value; },
+                b"name" => { processor.name = value; },
+                b"version" => { processor.version = value; },
+                b"folia_version" => { processor.folia_version = value; },
+                b"document_version" => { processor.document_version = value; },
+                b"command" => { processor.command = value; },
+                b"host" => { processor.host = value; },
+                b"user" => { processor.user = value; },
+                b"begindatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.begindatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
+                    };
+                },
+                b"enddatetime" => {
+                    match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
+                        Ok(dt) => processor.enddatetime = Some(dt),
+                        Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
+                    };
+                },
+                b"src" => { processor.src = value; },
+                b"format" => { processor.format = value; },
+                b"resourcelink" => { processor.resourcelink = value; },
+                b"type" => { match value.as_str() {
+                    "manual" => processor.processortype = ProcessorType::Manual,
+                    "auto" => processor.processortype = ProcessorType::Auto,
+                    "generator" => processor.processortype = ProcessorType::Generator,
+                    "datasource" => processor.processortype = ProcessorType::DataSource,
+                    _ => {
+                        return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                     }
+                }},
+                tag => {
+                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
                 }
             }
         }
@@ -539,7 +534,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -592,27 +587,26 @@ impl Declaration {
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                match attrib.key {
-                    b"set" => {
-                        set = Some(value.clone());
-                    },
-                    b"alias" => {
-                        alias = Some(value.clone());
-                    },
-                    b"format" => {
-                        format = Some(value.clone());
-                    },
-                    b"annotator" => {
-                        //TODO: handle old-style default
-                    },
-                    b"annotatortype" => {
-                        //TODO: handle old-style default
-                    },
-                    otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
-                    }
+            let attrib = attrib?;
+            let value = attrib.unescape_and_decode_value(&reader)?;
+            match attrib.key {
+                b"set" => {
+                    set = Some(value.clone());
+                },
+                b"alias" => {
+                    alias = Some(value.clone());
+                },
+                b"format" => {
+                    format = Some(value.clone());
+                },
+                b"annotator" => {
+                    //TODO: handle old-style default
+                },
+                b"annotatortype" => {
+                    //TODO: handle old-style default
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
                 }
             }
         }
-- 
2.43.0


From 7b772b6332e02e5b1040f6e11bdaa19f7031b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:56 +0000
Subject: [PATCH 13/38] fix: tag and attribute names that are not UTF-8 made
 the reader panic

---
 src/attrib.rs |  2 +-
 src/error.rs  |  6 ++++++
 src/parser.rs | 34 +++++++++++++++++-----------------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index ff8765a..35b74a5 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -378,7 +378,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/error.rs b/src/error.rs
index 176d56a..6f3de70 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -78,6 +78,12 @@ impl From<quick_xml::Error> for FoliaError {
     }
 }
 
+impl From<std::str::Utf8Error> for FoliaError {
+    fn from(err: std::str::Utf8Error) -> FoliaError {
+        FoliaError::ParseError(format!("Invalid UTF-8: {}", err))
+    }
+}
+
 impl FoliaError {
     fn as_str(&self) -> &str {
         match *self {
diff --git a/src/parser.rs b/src/parser.rs
index 0811d2e..1408a41 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,7 +118,7 @@ impl Document {
                                         processor_id = Some(value.clone());
                                     },
                                     otherwise => {
-                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -154,7 +154,7 @@ impl Document {
                                         doc.metadata.metadatatype = Some(value);
                                     },
                                     otherwise => {
-                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -180,7 +180,7 @@ impl Document {
                                         submetadata_src = Some(value.clone());
                                     },
                                     otherwise => {
-                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -203,7 +203,7 @@ impl Document {
                                         meta_id = Some(value.clone());
                                     },
                                     otherwise => {
-                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                        eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                     }
                                 }
                             }
@@ -226,13 +226,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -322,10 +322,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -357,7 +357,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = str::from_utf8(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -379,7 +379,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = str::from_utf8(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -404,7 +404,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = str::from_utf8(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -521,7 +521,7 @@ impl Processor {
                     }
                 }},
                 tag => {
-                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                    return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                 }
             }
         }
@@ -548,7 +548,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -572,7 +572,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = str::from_utf8(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -582,7 +582,7 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(str::from_utf8(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
@@ -606,7 +606,7 @@ impl Declaration {
                     //TODO: handle old-style default
                 },
                 otherwise => {
-                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                    eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
         }
-- 
2.43.0


From eca0171ad46f6d77be63ee2c32158283a1c277bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 14/38] fix: truncated documents were read as if complete, and
 errors in the body's attributes were masked

---
 src/parser.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1408a41..bf44c74 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -307,15 +307,13 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
-                                body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text)?;
+                            body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
                             break;
                         },
                         (Some(ns), b"speech") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech) {
-                                body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech)?;
+                            body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
                             break;
                         },
                         /*(Some(ns), _) if ns == NSFOLIA => {
@@ -449,7 +447,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From c00585d923b0f65f20959394e480f38c1c9fde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 15/38] fix: documents truncated after the body were read as if
 complete

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index bf44c74..fa65fab 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -339,6 +339,16 @@ impl Document {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            //the document must be complete
+            loop {
+                match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
+                    (Some(ns), Event::End(ref e)) if ns == NSFOLIA && e.local_name() == b"FoLiA" => break,
+                    (_, Event::Eof) => {
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                    }
+                    (_,_) => {}
+                }
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From b8add548f89a10c75c2e33629c374c4c829a67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 16/38] fix: special characters in comments were escaped again
 each time a document was read and written

---
 src/serialiser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 684eccf..e3b1877 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -293,7 +293,11 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    //nothing is escaped in an XML comment, so it can't contain its own end
+                    if comment.contains("-->") {
+                        return Err(FoliaError::SerialisationError(format!("Comment can not be serialised: {}", comment)));
+                    }
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 0de103b279cf0677b6a8dabeddd6c447339f81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 17/38] fix: metadata was written in a random order, so
 serialising was not deterministic

---
 src/serialiser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index e3b1877..6336793 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -66,7 +66,9 @@ impl Document {
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         self.xml_declarations(writer)?;
         self.xml_provenance(writer)?;
-        for (meta_id, value) in self.metadata.data.iter() {
+        let mut metadata: Vec<_> = self.metadata.data.iter().collect();
+        metadata.sort();
+        for (meta_id, value) in metadata {
             let mut meta_start = BytesStart::borrowed_name(b"meta");
             meta_start.push_attribute(("id", meta_id.as_str() ));
             writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
@@ -75,7 +77,9 @@ impl Document {
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         //there is a bit too much duplication going on here, to be solved later
-        for (submetadata_id, submetadata) in self.submetadata.iter() {
+        let mut submetadata: Vec<_> = self.submetadata.iter().collect();
+        submetadata.sort_by(|a,b| a.0.cmp(b.0));
+        for (submetadata_id, submetadata) in submetadata {
             let mut submetadata_start = BytesStart::borrowed_name(b"submetadata");
             submetadata_start.push_attribute(("xml:id", submetadata_id.as_str() ));
             if let Some(metadatatype) = &submetadata.metadatatype {
@@ -86,7 +90,9 @@ impl Document {
             }
             writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-            for (meta_id, value) in submetadata.data.iter() {
+            let mut metadata: Vec<_> = submetadata.data.iter().collect();
+            metadata.sort();
+            for (meta_id, value) in metadata {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
                 writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-- 
2.43.0


From 5f73a9f97e6b3f8ca9da4bbf027a09ff8e703733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 18/38] fix: annotation layers without a set lost their other
 attributes, such as their ID

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 6896dd0..f66a178 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attrib in add_attributes {
+                    element.set_attrib(attrib);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 96ccef79da2f6a5fcfd65f1be444714b45d152ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 19/38] fix: add_element left the children of the added element
 without a parent

---
 src/document.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index f66a178..0fbf37d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,15 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        let (element,added_subelements) = self.add_children(element)?;
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, None)?;
+        for subchild_key in added_subelements.unwrap_or_default() {
+            if let Some(subchilddata) = self.get_mut_elementdata(subchild_key) {
+                subchilddata.set_parent_key(Some(key));
+            }
+            self.post_add(subchild_key, None)?;
+        }
+        Ok(key)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
-- 
2.43.0


From e28f47a97dcf742ba67bb11edb3436dce654fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 20/38] fix: attaching an element to its own descendant made
 the document cyclic

---
 src/document.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 0fbf37d..58b56c8 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -278,6 +278,15 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
 
+        //an element can't be attached to itself or to anything under it
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::InternalError(format!("Can't attach element {} to its own descendant {}", child_key, parent_key)));
+            }
+            ancestor_key = self.get_elementdata(key).and_then(|element| element.parent_key());
+        }
+
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
             let tmp = child.parent_key();
-- 
2.43.0


From 4a386870375d20ffbaf0321cdaa12f9613d30969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 21/38] fix: an element with an ID already in use replaced
 nothing and merged with the existing element

---
 src/document.rs | 5 +++++
 src/store.rs    | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 58b56c8..58d52db 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -797,6 +797,11 @@ impl Store<ElementData,ElementKey> for Document {
         self.elementstore.items.iter()
     }
 
+    ///IDs of elements have to be unique
+    fn on_duplicate(&self, _key: ElementKey, element: &ElementData) -> Result<ElementKey,FoliaError> {
+        Err(FoliaError::ValidationError(format!("Duplicate ID: {}", element.id().unwrap_or_default())))
+    }
+
     ///Actively encode element for storage, this encodes attributes that need to be encoded (such as set,class,processor), and adds them to their respective stores.
     ///It does not handle relations between elements (data/children and parent)
     ///nor does it add the element itself to the store
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..2803fed 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -53,6 +53,12 @@ pub trait Store<T,Key> where T: Storable<Key>,
        Ok(item) //we assume the item does not need to be decoded by default
     }
 
+    ///Called when an item is added with an ID that is in the store already. By default, this just
+    ///refers to the existing item.
+    fn on_duplicate(&self, key: Key, _item: &T) -> Result<Key,FoliaError> {
+        Ok(key)
+    }
+
     ///Add a new item to the store (takes ownership)
     fn add(&mut self, mut item: T, context: Option<Key>) -> Result<Key,FoliaError> {
         if item.encodable() {
@@ -60,7 +66,7 @@ pub trait Store<T,Key> where T: Storable<Key>,
         }
 
         if let Some(key) = self.get_key(&item) {
-            return Ok(key);
+            return self.on_duplicate(key, &item);
         }
 
         //Get the ID fo the item (if any)
-- 
2.43.0


From ebab3e3e870964e31aca82eec12eb36a510e0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 22/38] fix: adding a processor twice put it in the provenance
 chain twice or made the chain cyclic

---
 src/document.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 58d52db..4f2fcae 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -419,7 +419,11 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            //a processor that is known already has its place in the provenance chain
+            let known = self.get_processor(child_key).map_or(false, |processor| processor.parent.is_some());
+            if !known && !self.provenancestore.chain.contains(&child_key) {
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -449,14 +453,31 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //a processor can't be attached to itself or to anything under it
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::InternalError(format!("Can't attach processor {} to its own descendant {}", child_key, parent_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //the processor is in one place only
+        self.provenancestore.chain.retain(|key| *key != child_key);
+        if let Some(oldparent_key) = oldparent_key {
+            if let Some(oldparent) = self.get_mut_processor(oldparent_key) {
+                oldparent.processors.retain(|key| *key != child_key);
+            }
+        }
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
-- 
2.43.0


From 35efafecbf0ad05b64648cb0cc55ed744edcfbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 23/38] fix: features were encoded under another declaration
 than the annotation they belong to, or panicked

---
 src/document.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 4f2fcae..ea1fcc9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -843,7 +843,7 @@ impl Store<ElementData,ElementKey> for Document {
         if let Some(annotationtype) = element.elementtype.annotationtype() {
             //Declare the element (either declares anew or just resolves the to the right
             //declaration.
-            let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None,&None)?;
+            let deckey = self.declare(annotationtype, &element.set()?.map(|s| s.to_string()),  &None,&None)?;
             declaration_key  = Some(deckey);
 
             if let Ok(Some(class)) = element.class() {
@@ -868,8 +868,12 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        //(or declare it if the parent has none yet)
+                        let deckey = match (parent.declaration_key()?, parent.elementtype.annotationtype()) {
+                            (Some(deckey), _) => deckey,
+                            (None, Some(annotationtype)) => self.declare(annotationtype, &element.set()?.map(|s| s.to_string()),  &None, &None)?,
+                            (None, None) => return Err(FoliaError::EncodeError(format!("Features can not be used in element {}", parent.elementtype))),
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-- 
2.43.0


From 87e5ef7dbf3ea5981f1540fcb9cacf8e0cbe9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 24/38] fix: text() panicked on a text set or class of None
 instead of using the default

---
 src/text.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..bf3dced 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -195,11 +195,13 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
+        let set = textparameters.set.as_ref().map_or(DEFAULT_TEXT_SET, |s| s.as_str());
+        let textclass = textparameters.textclass.as_ref().map_or("current", |s| s.as_str());
+        if let Some(dec_key) = doc.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(set))) {
+            let class_key = doc.class_key(dec_key, textclass)?;
             self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From 8ff815024ab12116411d9e3e5f820794bb4d45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 25/38] fix: the text of an element was taken from whichever
 text content came last, whatever its class and set

---
 src/text.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index bf3dced..ea286d0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -122,7 +122,7 @@ impl<'a> Element<'a> {
                                    }
                                }
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.is_textcontent(doc, set, textclass) {
                             textcontent_element = Some(element);
                         }
                     }
@@ -146,6 +146,14 @@ impl<'a> Element<'a> {
         }
     }
 
+    ///Is this text content of the specified set and text class? Without a class it is the current text.
+    fn is_textcontent(&self, doc: &Document, set: DecKey, textclass: ClassKey) -> bool {
+        doc.get_declaration(set).map_or(false, |declaration| {
+            (self.set().is_none() || self.set() == declaration.set.as_ref().map(|s| s.as_str())) &&
+            declaration.get_class(textclass) == Some(self.class().unwrap_or("current"))
+        })
+    }
+
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-- 
2.43.0


From bc1db9d53c312b9d5809793f700244956d13c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 26/38] fix: folialintr reported success for invalid documents

---
 src/bin/folialintr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bin/folialintr.rs b/src/bin/folialintr.rs
index 11f29c6..e554d11 100644
--- a/src/bin/folialintr.rs
+++ b/src/bin/folialintr.rs
@@ -15,15 +15,25 @@ fn main() {
             .required(true)
         ).get_matches();
 
+    let mut failed = false;
     for filename in argmatches.values_of("file").expect("Expected one or more files") {
         match Document::from_file(filename, DocumentProperties::default()) {
             Ok(doc) => {
                 match doc.xml(0,4) {
                     Ok(xml) => println!("{}",str::from_utf8(&xml).unwrap()),
-                    Err(err) => eprintln!("{}",err)
+                    Err(err) => {
+                        eprintln!("{}",err);
+                        failed = true;
+                    }
                 }
             },
-            Err(err) => eprintln!("{}",err)
+            Err(err) => {
+                eprintln!("{}",err);
+                failed = true;
+            }
         }
     }
+    if failed {
+        std::process::exit(1);
+    }
 }
-- 
2.43.0


From 8d5274c9eea23dfb6678a1a9bac1aa265b59203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 27/38] fix: querying features of an element whose set is not
 declared panicked instead of finding nothing

---
 src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 910c97f..948b81b 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -95,7 +95,7 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
-                } else {
+                } else if selector.set != Cmp::Unmatchable || query.set == Cmp::Unmatchable || !matches!(query.contexttype, Cmp::Is(_)) {
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
                 result
-- 
2.43.0


From f4dffd8f3fe12053abd194f0364acd5c26f254e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 28/38] fix: read documents with an empty body (<text/>), as
 they are written

---
 src/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index fa65fab..0ad6fc4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,6 +301,7 @@ impl Document {
         };
 
         //find body
+        let mut emptybody = false;
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
@@ -327,6 +328,14 @@ impl Document {
                         }
                     }
                 },
+                (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA && (e.local_name() == b"text" || e.local_name() == b"speech") => {
+                    //a body without any content
+                    let elementtype = if e.local_name() == b"text" { ElementType::Text } else { ElementType::Speech };
+                    let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), elementtype)?;
+                    body = Some(ElementData::new(elementtype).with_attribs(attribs));
+                    emptybody = true;
+                    break;
+                },
                 (_, Event::Eof) => {
                     return Err(FoliaError::ParseError("Premature end of document".to_string()));
                 }
@@ -338,7 +347,9 @@ impl Document {
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
-            doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            if !emptybody {
+                doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            }
             //the document must be complete
             loop {
                 match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
-- 
2.43.0


From b54b17638e3c1b04394bab35e35829e928fb2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:13 +0000
Subject: [PATCH 29/38] fix: serialise the set of elements without class, it is
 lost otherwise

---
 src/serialiser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 6336793..4f72e6e 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -247,8 +247,10 @@ impl Document {
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
-                            //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            //check if the declaration is the default, no need to serialise set then (unless
+                            //there is nothing else that associates the element with the declaration)
+                            let set_implied = *dec_is_default.get(declaration_key as usize).expect("checking default") && element.class().is_some();
+                            if !set_implied && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
-- 
2.43.0


From 3e64ed7716d630088536ba537ccb567e7f966e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 30/38] fix: layout around elements altered text in
 descriptions, comments and mixed content

---
 src/serialiser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 4f72e6e..17f1c3a 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -219,13 +219,16 @@ impl Document {
 
         //Select children
         let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //for each element on the stack, does it contain text? (then layout would alter it)
+        let mut textstack: Vec<bool> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
                 if let Some((end,elementtype,_tagstring)) = stack.pop() {
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    textstack.pop();
+                    if !ElementGroup::TextMarkup.contains(elementtype) && textstack.last() != Some(&true) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -288,8 +291,9 @@ impl Document {
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
                             stack.push((end,element.elementtype(),tagstring));
+                            textstack.push(element.data.data.iter().any(|data| if let DataType::Text(_) = data { true } else { false }));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if textstack.last() != Some(&true) && !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
-- 
2.43.0


From d1a5cf97f1ad4d77cdaac9572f2a6e4f16cfadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:43 +0000
Subject: [PATCH 31/38] fix: serialise the processor of elements without set
 and class, it is lost otherwise

---
 src/serialiser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 17f1c3a..5a5a43d 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -267,7 +267,8 @@ impl Document {
                             }
                             if let Some(processor) = element.processor() {
                                 //check if this processor is the default one, if so we don't need
-                                //to serialise it
+                                //to serialise it (unless there is nothing else that associates
+                                //the element with the declaration)
                                 let is_default: bool = if let Some(declaration) = self.get_declaration(declaration_key) {
                                     if declaration.processors.len() == 1 {
                                         declaration.processors.get(0) == element.processor_key().as_ref()
@@ -278,7 +279,7 @@ impl Document {
                                     false
                                 };
 
-                                if !is_default {
+                                if !is_default || (element.class().is_none() && element.set().is_none()) {
                                     start.push_attribute(("processor", processor) );
                                 }
                             }
-- 
2.43.0


From a122498db10de895a5da6308bd72a6a7c3139212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 32/38] fix: querying the features of an element regardless of
 their subset found nothing

---
 src/select.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 948b81b..19a3185 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -49,11 +49,13 @@ impl Selector {
         selector.annotatortype = query.annotatortype.clone();
         selector.confidence = query.confidence.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
-        //if we have subsets, we use contexttype instead of elementtype (because elementtype will
+        //if we query features, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
-        let elementtype_source: &Cmp<ElementType> = match &query.subset {
-            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
-            _ => &query.elementtype,
+        let features = matches!(query.subset, Cmp::Some | Cmp::Is(_)) || matches!(query.elementtype, Cmp::Is(ElementType::Feature));
+        let elementtype_source: &Cmp<ElementType> = if features {
+            &query.contexttype
+        } else {
+            &query.elementtype
         };
         selector.set = match &query.set {
             Cmp::Is(set) => {
@@ -110,18 +112,15 @@ impl Selector {
                 let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
                 if let Cmp::Is(deckey) = selector.set {
                     if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
-                                //we have a subset, so we assume the class is a subclass and encode it as such
-                                if let Some(class_key) = declaration.subclass_key(class.as_str()) {
-                                    result = Cmp::Is(class_key);
-                                }
-                            },
-                            _ =>  {
-                                //normal class
-                                if let Some(class_key) = declaration.class_key(class.as_str()) {
-                                    result = Cmp::Is(class_key);
-                                }
+                        if features {
+                            //the class of a feature is a subclass and encoded as such
+                            if let Some(class_key) = declaration.subclass_key(class.as_str()) {
+                                result = Cmp::Is(class_key);
+                            }
+                        } else {
+                            //normal class
+                            if let Some(class_key) = declaration.class_key(class.as_str()) {
+                                result = Cmp::Is(class_key);
                             }
                         }
                     }
-- 
2.43.0


From 35f9de122318f57067df67be499196465ed1c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 33/38] fix: text content with a linebreak or other element
 without text in it had no text at all

---
 src/text.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index ea286d0..10c3132 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -76,13 +76,19 @@ impl<'a> Element<'a> {
                         if let Some(element) = doc.get_element(*element_key) {
                             let properties = doc.props(element.elementtype());
                             if properties.printable {
-                                if !text.is_empty() {
-                                    if let Some(textdelimiter) = properties.textdelimiter {
-                                        text += textdelimiter;
-                                    }
+                                match element.text_by_key(set,textclass,strict, retaintokenisation,None) {
+                                    Ok(textpart) => {
+                                        if !text.is_empty() {
+                                            if let Some(textdelimiter) = properties.textdelimiter {
+                                                text += textdelimiter;
+                                            }
+                                        }
+                                        text += &textpart;
+                                    },
+                                    //elements without text, such as linebreaks
+                                    Err(FoliaError::NoTextError(_)) => {},
+                                    Err(e) => return Err(e),
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
                             }
                         }
                     },
-- 
2.43.0


From 4df94b43ceae71e6c37e64a1b193efc0c3376727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:12 +0000
Subject: [PATCH 34/38] fix: the text of elements with a correction lacked the
 corrected words

---
 src/text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/text.rs b/src/text.rs
index 10c3132..dd6a7d5 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -108,6 +108,8 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           element.elementtype() == ElementType::New || //the corrected version
+                           element.elementtype() == ElementType::Current || //or the one there are suggestions for
                            ElementGroup::Span.contains(element.elementtype()) {
 
                            if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
-- 
2.43.0


From d9b1c633210601ee76c524f4d79a23881bcadbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:03 +0000
Subject: [PATCH 35/38] fix: declare did not associate the active processor
 with a declaration that exists already

---
 src/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ea1fcc9..09d8899 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -495,13 +495,12 @@ impl Document {
     ///associated with the declaration.
     pub fn declare(&mut self, annotationtype: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> Result<DecKey,FoliaError> {
         //first we simply check the index
-        if let Some(found_key) = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str()) {
-            return Ok(found_key);
-        }
+        let mut declaration_key: Option<DecKey> = <Self as Store<Declaration,DecKey>>::id_to_key(self,Declaration::index_id(annotationtype, &set.as_ref().map(String::as_str)  ).as_str());
 
         //If not found, we search for a default
-        let mut declaration_key: Option<DecKey> = None;
-        if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
+        if declaration_key.is_some() {
+            //nothing to search for, but the active processor is still to be associated
+        } else if let Some(default_key) = self.declarationstore.get_default_key(annotationtype) {
             if let Some(declaration) = self.get_declaration(default_key) {
                 if set.is_some() {
                     //there is an explicit set defined, only return the default if the sets are not
-- 
2.43.0


From 80fe167b07f9689e90a7e5f1d88a36e1f8b07acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 36/38] fix: elements read from a file were attributed to the
 processor that is active for additions

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ad6fc4..3fb253a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,7 +26,7 @@ use crate::specification::*;
 
 impl Document {
     ///Parses a FoLiA document given a reader
-    pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, properties: DocumentProperties) -> Result<Self, FoliaError> {
+    pub(crate) fn parse<R: BufRead>(reader: &mut Reader<R>, mut properties: DocumentProperties) -> Result<Self, FoliaError> {
 
         let mut body: Option<ElementData> = None;
         let mut buf = Vec::new();
@@ -346,6 +346,8 @@ impl Document {
 
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
+            //the processor becomes active only after reading, what is read is not its work
+            let processor = properties.processor.take();
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             if !emptybody {
                 doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
@@ -360,6 +362,10 @@ impl Document {
                     (_,_) => {}
                 }
             }
+            if let Some(processor) = processor {
+                let processor_key = doc.add_processor(processor)?;
+                doc.activate_processor(processor_key);
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From f8aee4ac72de9446689ea17e914d0286c7525579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:58 +0000
Subject: [PATCH 37/38] fix: the text of an element with a reference to itself
 or an element around it recursed without end and overflowed the stack

---
 src/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index dd6a7d5..3b287b0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -120,8 +120,11 @@ impl<'a> Element<'a> {
                                }
                            }
                         } else if element.elementtype() == ElementType::WordReference {
-                            //follow the reference
-                            if let Some(element) = element.resolve() {
+                            //follow the reference (unless it is to an element the reference itself is in, that has no end)
+                            let target = element.resolve().filter(|target| {
+                                !element.ancestors(Selector::elements()).any(|ancestor| ancestor.element.key() == target.key())
+                            });
+                            if let Some(element) = target {
                                if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
-- 
2.43.0


From bcc387f34e6a1191bac5dcf379bad9fea5c8865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:56 +0000
Subject: [PATCH 38/38] fix: write the processor of a feature even if it is its
 declaration's only one

---
 src/serialiser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 5a5a43d..be7e5af 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -268,7 +268,7 @@ impl Document {
                             if let Some(processor) = element.processor() {
                                 //check if this processor is the default one, if so we don't need
                                 //to serialise it (unless there is nothing else that associates
-                                //the element with the declaration)
+                                //the element with the declaration, or it is a feature, which gets no default)
                                 let is_default: bool = if let Some(declaration) = self.get_declaration(declaration_key) {
                                     if declaration.processors.len() == 1 {
                                         declaration.processors.get(0) == element.processor_key().as_ref()
@@ -279,7 +279,7 @@ impl Document {
                                     false
                                 };
 
-                                if !is_default || (element.class().is_none() && element.set().is_none()) {
+                                if !is_default || (element.class().is_none() && element.set().is_none()) || element.elementtype() == ElementType::Feature {
                                     start.push_attribute(("processor", processor) );
                                 }
                             }
-- 
2.43.0

