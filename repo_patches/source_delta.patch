From 7e873bc4e600112d8e81d18b4e4ca99bf442b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 01/35] fix: iterate font table slices backwards from the last
 record

SliceIter::next_back returned the position one past the end instead of the
last element, so the character map lookup (which iterates in reverse) read
past the encoding records and never considered the first one.
---
 victor/src/fonts/parsing.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..9afba31 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -275,13 +275,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let byte_position = self.end.byte_position - mem::size_of::<T>() as u32;
             self.end = Position {
                 byte_position,
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From 62c944e22ebd284557cefc21ccf75cc31ac95b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 02/35] fix: escape number signs in PDF names

'#' starts a two-digit hexadecimal escape in a name object, so a font whose
PostScript name contains it was written under a different or invalid name.
---
 victor/src/pdf/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..9875f21 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -267,6 +267,8 @@ for byte in [0, 0x09, 0x0A, 0x0C, 0x0D, 0x20]:
     kind[byte] = 'W'
 for char in "()<>[]{}/%":
     kind[ord(char)] = 'D'
+# Not a delimiter, but it introduces escapes and needs to be escaped itself
+kind[ord("#")] = 'D'
 
 for line in range(32):
     print '       ',
@@ -286,7 +288,7 @@ static KIND: [CharKind; 256] = {
         r, W, W, r, W, W, r, r, // \x08 \t \n \x0b \x0c \r \x0e \x0f
         r, r, r, r, r, r, r, r, // \x10 …
         r, r, r, r, r, r, r, r, // \x18 …
-        W, r, r, r, r, D, r, r, //   ! " # $ % & '
+        W, r, r, D, r, D, r, r, //   ! " # $ % & '
         D, D, r, r, r, r, r, D, // ( ) * + , - . /
         r, r, r, r, r, r, r, r, // 0 1 2 3 4 5 6 7
         r, r, r, r, D, r, D, r, // 8 9 : ; < = > ?
-- 
2.43.0


From 0dbd3a1cb634fa19ebbd583937d80d6e2fcba8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 03/35] fix: never write PDF numbers in exponential notation

Very small or very large coordinates, colors and opacities were written like
1e-7, which the PDF number syntax does not allow.
---
 victor/src/pdf/object.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 9875f21..4f24dea 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -231,6 +231,18 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    let mut buffer = Vec::new();
+    dtoa::write(&mut buffer, value)?;
+    if buffer.contains(&b'e') {
+        // PDF numbers do not have an exponential notation.
+        // `Display` for `f32` always uses positional notation.
+        write!(w, "{}", value)
+    } else {
+        w.write_all(&buffer)
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From a061764b661ab9a4f359b5999f45ba5bbedc3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 04/35] fix: stay inside the subtree when removing its boxes

For a display: none element without a next sibling, the traversal went on
with its parent's siblings, or looped forever when the parent had none.
---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From 632bf7ca674ed1c2aa66664d4ddcad0ee5590b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 05/35] fix: move all children when re-parenting

The next sibling was read after the child had been appended to its new
parent, at which point it has none, so only the first child was moved.
---
 victor/src/dom/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..6ebcfc6 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,8 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
+            next_child = self.document[child].next_sibling;
             self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
         }
     }
 }
-- 
2.43.0


From af0905e8dcada50cfe06c183eb6ba5d31af7573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 06/35] fix: apply style elements of the document in tree order

They were collected when the parser created them, which is not tree order
when the parser inserts nodes elsewhere (e.g. foster parenting), includes
elements that the parser later removed from the document, and never happens
for XML documents.
---
 victor/src/dom/html.rs |  9 ++-------
 victor/src/dom/mod.rs  | 13 +++++++------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 6ebcfc6..51f5916 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -106,17 +106,12 @@ impl TreeSink for Sink {
             ..
         }: ElementFlags,
     ) -> NodeId {
-        let is_style = name.expanded() == expanded_name!(html "style");
-        let element = self.new_node(NodeData::Element(ElementData {
+        self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }));
-        if is_style {
-            self.document.style_elements.push(element)
-        }
-        element
+        }))
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..1203dc5 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,7 +13,6 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
-    style_elements: Vec<NodeId>,
 }
 
 pub struct Node {
@@ -36,7 +35,6 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
-            style_elements: Vec::new(),
         }
     }
 
@@ -46,10 +44,13 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
-            let element = &self[id];
-            // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
-            if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
+        // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
+        for id in self.nodes() {
+            let element = match self[id].as_element() {
+                Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
+                _ => continue,
+            };
+            if let Some(type_attr) = element.get_attr(&local_name!("type")) {
                 if !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
-- 
2.43.0


From fa4b67f8132bc74743aa1a924c3334ff128b1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 07/35] fix: apply style elements with an empty type attribute

---
 victor/src/dom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 1203dc5..a68ae8c 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -51,7 +51,7 @@ impl Document {
                 _ => continue,
             };
             if let Some(type_attr) = element.get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From 7186a88c634c6fe7801b5ab7917f16338a43e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 08/35] fix: do not apply style elements in template contents

---
 victor/src/dom/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index a68ae8c..0b87d58 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -50,6 +50,15 @@ impl Document {
                 Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
                 _ => continue,
             };
+            // The HTML parser makes template contents children of the template element,
+            // but they are not supposed to be part of the document.
+            let in_template = self
+                .node_and_ancestors(id)
+                .filter_map(|ancestor| self[ancestor].as_element())
+                .any(|e| e.name.expanded() == expanded_name!(html "template"));
+            if in_template {
+                continue;
+            }
             if let Some(type_attr) = element.get_attr(&local_name!("type")) {
                 if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
-- 
2.43.0


From 431f44f8874b4996def0802ac8b3f06eb31306c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 09/35] fix: reject XML documents with several root elements

---
 victor/src/dom/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 400ccc4..2457029 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -6,7 +6,9 @@ impl Document {
         let mut document = Document::new();
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
-        for event in xml_rs::EventReader::new(utf8_bytes) {
+        // By default xml-rs accepts several root elements, which is not well-formed.
+        let config = xml_rs::reader::ParserConfig2::new().allow_multiple_root_elements(false);
+        for event in config.create_reader(utf8_bytes) {
             match event.map_err(XmlError)? {
                 XmlEvent::StartElement {
                     name, attributes, ..
-- 
2.43.0


From bbef0584c0f02f3fe827dd89b8b2f979cd020d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 10/35] fix: ignore declarations followed by stray tokens
 instead of panicking

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..e663875 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(e) = parser.expect_exhausted() {
+                // Anything after the value makes the whole declaration invalid.
+                self.block.declarations.truncate(previous_len);
+                return Err(e.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From 2023017c084b7dc81294afcd1d5919f618e39c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 11/35] fix: match CSS keywords ASCII case-insensitively

---
 proc-macros/src/style.rs        | 2 +-
 victor/src/style/values/box_.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..bf615e5 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,7 +158,7 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
+                match &*ident.to_ascii_lowercase() {
                     #(
                         #keywords => return Ok(#unit_variants),
                     )*
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..7d5fd2a 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match &*ident.to_ascii_lowercase() {
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
-- 
2.43.0


From 3d5fe2f3c74f87ffa118e443028a3f94dd14fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 12/35] fix: spell border-right-color correctly

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From 1d0c04eae77f60c024e312c710ebe6f9b9f0a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 13/35] fix: match class selectors against each class name

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..9bc0077 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split(|c| matches!(c, '\t' | '\n' | '\x0C' | '\r' | ' '))
+                    .any(|name| case_sensitivity.eq(class.as_bytes(), name.as_bytes()))
             })
     }
 
-- 
2.43.0


From 78e5fa13692d9d1423adb946d842071fbfb6281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 14/35] fix: match type selectors case-sensitively in XML
 documents

---
 victor/src/dom/html.rs        |  2 +-
 victor/src/dom/mod.rs         | 11 +++++------
 victor/src/dom/xml.rs         |  2 +-
 victor/src/style/selectors.rs |  2 +-
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 51f5916..75767fc 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -8,7 +8,7 @@ use std::collections::HashSet;
 impl Document {
     pub fn parse_html(utf8_bytes: &[u8]) -> Self {
         let sink = Sink {
-            document: Document::new(),
+            document: Document::new(true),
             quirks_mode: QuirksMode::NoQuirks,
         };
         parse_document(sink, Default::default())
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 0b87d58..925472c 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,6 +13,9 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
+
+    /// Whether this is an "HTML document", as opposed to an "XML document"
+    pub(crate) is_html: bool,
 }
 
 pub struct Node {
@@ -28,13 +31,14 @@ pub struct Node {
 pub(crate) struct NodeId(std::num::NonZeroUsize);
 
 impl Document {
-    fn new() -> Self {
+    fn new(is_html: bool) -> Self {
         // Dummy node at index 0 so that other indices fit in NonZero
         let dummy = Node::new(NodeData::Document);
 
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
+            is_html,
         }
     }
 
@@ -279,11 +283,6 @@ fn size_of() {
 }
 
 impl Node {
-    pub(crate) fn in_html_document(&self) -> bool {
-        // FIXME: track something when we add XML parsing
-        true
-    }
-
     pub(crate) fn as_element(&self) -> Option<&ElementData> {
         match self.data {
             NodeData::Element(ref data) => Some(data),
diff --git a/victor/src/dom/xml.rs b/victor/src/dom/xml.rs
index 2457029..b1fed14 100644
--- a/victor/src/dom/xml.rs
+++ b/victor/src/dom/xml.rs
@@ -3,7 +3,7 @@ use xml_rs::reader::XmlEvent;
 
 impl Document {
     pub fn parse_xml(utf8_bytes: &[u8]) -> Result<Self, XmlError> {
-        let mut document = Document::new();
+        let mut document = Document::new(false);
         let mut current = Document::document_node_id();
         let mut ancestors = Vec::new();
         // By default xml-rs accepts several root elements, which is not well-formed.
diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 9bc0077..e3cc8a8 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -147,7 +147,7 @@ impl<'a> selectors::Element for NodeRef<'a> {
     }
 
     fn is_html_element_in_html_document(&self) -> bool {
-        self.node().as_element().unwrap().name.ns == ns!(html) && self.node().in_html_document()
+        self.node().as_element().unwrap().name.ns == ns!(html) && self.document.is_html
     }
 
     fn local_name(&self) -> &LocalName {
-- 
2.43.0


From 69bf5084b0237c5183e974e49d620326e8ca08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 15/35] fix: solve the block axis of absolute boxes against the
 block size

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..9fa376a 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
-- 
2.43.0


From 1ed73413e7a3b8fbf523b7961e75550093180144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 16/35] fix: anchor absolute boxes to the inline end of their
 containing block

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9fa376a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From 9bd0eddc7a23aa5d98276cbdf66d5f4311e79490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 17/35] fix: place static absolute boxes from the content edge
 of padded containers

---
 victor/src/layout/flow/root.rs  |  2 +-
 victor/src/layout/positioned.rs | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/victor/src/layout/flow/root.rs b/victor/src/layout/flow/root.rs
index 443969c..508067c 100644
--- a/victor/src/layout/flow/root.rs
+++ b/victor/src/layout/flow/root.rs
@@ -115,7 +115,7 @@ impl BoxTreeRoot {
         flow_children.fragments.par_extend(
             absolutely_positioned_fragments
                 .par_iter()
-                .map(|a| a.layout(&initial_containing_block)),
+                .map(|a| a.layout(&initial_containing_block, &Vec2::zero())),
         );
         flow_children.fragments
     }
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..c81ce3e 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -105,14 +105,21 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         fragments.push(Fragment::Anonymous(AnonymousFragment {
             children: absolute
                 .par_iter()
-                .map(|a| a.layout(&containing_block))
+                // Static positions are relative to the content box.
+                .map(|a| a.layout(&containing_block, &padding.start_corner()))
                 .collect(),
             rect: padding_rect,
             mode,
         }))
     }
 
-    pub(super) fn layout(&self, containing_block: &DefiniteContainingBlock) -> Fragment {
+    /// `static_origin` is what static positions are relative to,
+    /// from the start corner of the containing block.
+    pub(super) fn layout(
+        &self,
+        containing_block: &DefiniteContainingBlock,
+        static_origin: &Vec2<Length>,
+    ) -> Fragment {
         let style = &self.absolutely_positioned_box.style;
         let cbis = containing_block.size.inline;
         let cbbs = containing_block.size.block;
@@ -129,6 +136,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         fn solve_axis(
             containing_size: Length,
+            static_origin: Length,
             padding_border_sum: Length,
             computed_margin_start: LengthOrAuto,
             computed_margin_end: LengthOrAuto,
@@ -139,7 +147,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             let size = size.percentage_relative_to(containing_size);
             match box_offsets {
                 AbsoluteBoxOffsets::StaticStart { start } => (
-                    Anchor::Start(start),
+                    Anchor::Start(static_origin + start),
                     size,
                     computed_margin_start.auto_is(Length::zero),
                     computed_margin_end.auto_is(Length::zero),
@@ -202,6 +210,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let (inline_anchor, inline_size, margin_inline_start, margin_inline_end) = solve_axis(
             cbis,
+            static_origin.inline,
             pb.inline_sum(),
             computed_margin.inline_start,
             computed_margin.inline_end,
@@ -218,6 +227,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
             cbbs,
+            static_origin.block,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
-- 
2.43.0


From 041a6d0865b1a8c618f696f5943789ae31324a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 18/35] fix: take the other margin into account when solving an
 auto margin

---
 victor/src/layout/flow/mod.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..f80d02c 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -323,19 +323,18 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_end,
         ) {
             (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
+                // When the box overflows, auto margins are treated as zero.
+                let half = (inline_margins / 2.).max(super::Length::zero());
+                *s = Length(half);
+                *e = Length(inline_margins - half);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, &mut Length(e)) => {
+                *s = Length((inline_margins - e).max(super::Length::zero()));
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (&mut Length(s), e @ _) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                *e = Length(inline_margins - s);
             }
         }
     }
-- 
2.43.0


From 2a98eb5bfc066c3bcdb89cb9c3974308d0f65132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 19/35] fix: never lay out automatically sized boxes with a
 negative size

---
 victor/src/layout/flow/mod.rs   | 3 ++-
 victor/src/layout/positioned.rs | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index f80d02c..926eb8c 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -340,7 +340,8 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     let margin = computed_margin.auto_is(Length::zero);
     let mut block_margins_collapsed_with_children = CollapsedBlockMargins::from_margin(&margin);
-    let inline_size = inline_size.auto_is(|| cbis - pb.inline_sum() - margin.inline_sum());
+    let inline_size = inline_size
+        .auto_is(|| (cbis - pb.inline_sum() - margin.inline_sum()).max(Length::zero()));
     let block_size = match box_size.block {
         LengthOrPercentageOrAuto::Length(l) => LengthOrAuto::Length(l),
         LengthOrPercentageOrAuto::Percentage(p) => containing_block.block_size.map(|cbbs| cbbs * p),
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index c81ce3e..ed714da 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -190,13 +190,13 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
                         }
                         size
                     } else {
-                        // FIXME(nox): What happens if that is negative?
-                        containing_size
+                        let size = containing_size
                             - start
                             - end
                             - padding_border_sum
                             - margin_start
-                            - margin_end
+                            - margin_end;
+                        size.max(Length::zero())
                     };
                     (
                         Anchor::Start(start),
@@ -250,7 +250,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             };
 
             // FIXME(nox): shrink-to-fit.
-            available_size
+            available_size.max(Length::zero())
         });
 
         let containing_block_for_children = ContainingBlock {
-- 
2.43.0


From 31add5fb754d185b8ee5d042a1839b4b52cfb83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 20/35] fix: resolve relative offsets against the containing
 block

---
 victor/src/layout/flow/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 926eb8c..562e3fb 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -406,7 +406,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, cbis, containing_block.block_size);
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
-- 
2.43.0


From 328a8cf62291261588ed70f9ccad46fe18bc8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 21/35] fix: ignore percentage offsets against an auto height

---
 victor/src/layout/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index ad4f4a7..f7b1077 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -118,10 +118,14 @@ fn relative_adjustement(
             (LengthOrAuto::Length(start), _) => start,
         }
     }
-    let block_size = block_size.auto_is(Length::zero);
     let box_offsets = style.box_offsets().map_inline_and_block_axes(
         |v| v.percentage_relative_to(inline_size),
-        |v| v.percentage_relative_to(block_size),
+        |v| match (v, block_size) {
+            (_, LengthOrAuto::Length(block_size)) => v.percentage_relative_to(block_size),
+            // Percentages of an auto height behave as auto
+            (LengthOrPercentageOrAuto::Percentage(_), LengthOrAuto::Auto) => LengthOrAuto::Auto,
+            (_, LengthOrAuto::Auto) => v.percentage_relative_to(Length::zero()),
+        },
     );
     Vec2 {
         inline: adjust(box_offsets.inline_start, box_offsets.inline_end),
-- 
2.43.0


From c092a3e806b25eb9c6a8cb6dcb1251f9bc6ed761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 22/35] fix: collapse margins through boxes with a zero height

---
 victor/src/layout/flow/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 562e3fb..051de03 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -361,12 +361,13 @@ fn layout_in_flow_non_replaced_block_level<'a>(
         block_level_kind == BlockLevelKind::SameFormattingContextBlock
             && pb.block_start == Length::zero(),
     );
-    let this_end_margin_can_collapse_with_children = (block_level_kind, pb.block_end, block_size)
+    let no_end_padding_and_border = (block_level_kind, pb.block_end)
         == (
             BlockLevelKind::SameFormattingContextBlock,
             Length::zero(),
-            LengthOrAuto::Auto,
         );
+    let this_end_margin_can_collapse_with_children =
+        no_end_padding_and_border && block_size == LengthOrAuto::Auto;
     let mut nested_abspos = vec![];
     let mut flow_children = layout_contents(
         &containing_block_for_children,
@@ -402,7 +403,9 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     }
     block_margins_collapsed_with_children.collapsed_through =
         this_start_margin_can_collapse_with_children.0
-            && this_end_margin_can_collapse_with_children
+            && no_end_padding_and_border
+            && (block_size == LengthOrAuto::Auto
+                || block_size == LengthOrAuto::Length(Length::zero()))
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-- 
2.43.0


From dfd1abd200d7de371aefd004cea5dd505a6b1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 23/35] fix: use the whole width of the lines after a line
 break

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..1993336 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -269,9 +269,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From 79eef98306a48048d1f9919048587fb4bc916535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 24/35] fix: size and place the fragments of inline boxes on
 every line

---
 victor/src/layout/flow/inline.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 1993336..abf9416 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -44,6 +44,7 @@ struct InlineNestingLevelState<'box_tree> {
 
 struct PartialInlineBoxFragment<'box_tree> {
     style: Arc<ComputedValues>,
+    relative_adjustement: Vec2<Length>,
     start_corner: Vec2<Length>,
     padding: Sides<Length>,
     border: Sides<Length>,
@@ -196,13 +197,15 @@ impl InlineBox {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
         };
-        start_corner += &relative_adjustement(
+        let relative_adjustement = relative_adjustement(
             &style,
             ifc.containing_block.inline_size,
             ifc.containing_block.block_size,
         );
+        start_corner += &relative_adjustement;
         PartialInlineBoxFragment {
             style,
+            relative_adjustement,
             start_corner,
             padding,
             border,
@@ -233,7 +236,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
+                    inline: *inline_position - nesting_level.inline_start,
                     block: nesting_level.max_block_size_of_fragments_so_far,
                 },
                 start_corner: self.start_corner.clone(),
@@ -325,15 +328,16 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
-                    partial.start_corner.inline = Length::zero();
+                    // Each box continues at the start of the next line
+                    nesting_level.inline_start = Length::zero();
+                    nesting_level.max_block_size_of_fragments_so_far = Length::zero();
+                    partial.start_corner.inline = partial.relative_adjustement.inline;
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
                 ifc.line_boxes
-- 
2.43.0


From d6dba532d9be7b00ad7801961de9a6ae93650c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 25/35] fix: split inline boxes around a block instead of
 panicking

---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From 7e58f32c48366fa30de8608b651ef327d58d5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 26/35] fix: keep the space between a text and an inline box
 that starts with it

---
 victor/src/layout/flow/construct.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..1805bc9 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,7 +267,16 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
+        // From the innermost ongoing inline box to the inline formatting context
+        let mut nesting_levels = self
+            .ongoing_inline_boxes_stack
+            .iter()
+            .rev()
+            .map(|ongoing| &ongoing.children)
+            .chain(std::iter::once(
+                &self.ongoing_inline_formatting_context.inline_level_boxes,
+            ));
+        let mut inline_level_boxes = nesting_levels.next().unwrap().iter().rev();
         let mut stack = Vec::new();
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
@@ -282,6 +291,8 @@ impl<'a> BlockContainerBuilder<'a> {
                 None => {
                     if let Some(iter) = stack.pop() {
                         inline_level_boxes = iter
+                    } else if let Some(level) = nesting_levels.next() {
+                        inline_level_boxes = level.iter().rev()
                     } else {
                         break false; // Paragraph start
                     }
-- 
2.43.0


From 577b3b2c8a2b04157149383da6eead6c764fcbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 27/35] fix: style the text of display:contents elements with
 their own style

---
 victor/src/layout/flow/construct.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 1805bc9..2dd830e 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,9 +200,17 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            // With `display: contents`, consecutive texts can have different parents.
+            fn last_text<'a>(
+                inlines: &'a mut [Arc<InlineLevelBox>],
+                parent_style: &Arc<ComputedValues>,
+            ) -> Option<&'a mut String> {
                 let last = inlines.last_mut()?;
-                if let InlineLevelBox::TextRun(_) = &**last {
+                let same_parent_style = match &**last {
+                    InlineLevelBox::TextRun(run) => Arc::ptr_eq(&run.parent_style, parent_style),
+                    _ => false,
+                };
+                if same_parent_style {
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
                     if let InlineLevelBox::TextRun(TextRun { text, .. }) = last {
@@ -217,7 +225,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0


From 13111c0a8e98dd4eb5a636342ac37d939e2b475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 28/35] fix: collapse margins through blocks that only have
 empty inline boxes

---
 victor/src/layout/flow/inline.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index abf9416..eebc11c 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -57,6 +57,8 @@ struct InlineFormattingContextState<'box_tree, 'cb> {
     containing_block: &'cb ContainingBlock,
     line_boxes: LinesBoxes,
     inline_position: Length,
+    /// Whether there is any text, or any inline box with margins, borders, or padding
+    has_contents: bool,
     partial_inline_boxes_stack: Vec<PartialInlineBoxFragment<'box_tree>>,
     current_nesting_level: InlineNestingLevelState<'box_tree>,
 }
@@ -81,6 +83,7 @@ impl InlineFormattingContext {
                 next_line_block_position: Length::zero(),
             },
             inline_position: Length::zero(),
+            has_contents: false,
             current_nesting_level: InlineNestingLevelState {
                 remaining_boxes: self.inline_level_boxes.iter(),
                 fragments_so_far: Vec::with_capacity(self.inline_level_boxes.len()),
@@ -140,7 +143,12 @@ impl InlineFormattingContext {
                 return FlowChildren {
                     fragments: ifc.line_boxes.boxes,
                     block_size: ifc.line_boxes.next_line_block_position,
-                    collapsible_margins_in_children: CollapsedBlockMargins::zero(),
+                    collapsible_margins_in_children: CollapsedBlockMargins {
+                        // Line boxes without contents are treated as not existing:
+                        // https://drafts.csswg.org/css2/visuren.html#inline-formatting
+                        collapsed_through: !ifc.has_contents,
+                        ..CollapsedBlockMargins::zero()
+                    },
                 };
             }
         }
@@ -193,6 +201,12 @@ impl InlineBox {
             border.inline_start = Length::zero();
             margin.inline_start = Length::zero();
         }
+        for sides in &[&padding, &border, &margin] {
+            ifc.has_contents |= sides.inline_start != Length::zero()
+                || (self.last_fragment && sides.inline_end != Length::zero())
+                || sides.block_start != Length::zero()
+                || sides.block_end != Length::zero();
+        }
         let mut start_corner = Vec2 {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
@@ -272,6 +286,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
+        ifc.has_contents = true;
         let mut chars = self.text.chars();
         loop {
             let available = ifc.containing_block.inline_size - ifc.inline_position;
-- 
2.43.0


From c9bc57b8248946f248ddacef50bae2821a2a1681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 29/35] fix: do not overflow when a font contains a huge offset

---
 victor/src/fonts/parsing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 9afba31..8321502 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,15 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Saturate: a position that overflows is beyond the end of any font,
+            // `read_from` returns an error for it.
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From 820866646eb3d06696743763a68f6c0c9cab31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 30/35] fix: bound the enumeration of a font's character map,
 skip glyph ids that lookups skip

---
 victor/src/fonts/cmap.rs | 64 ++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..4512f45 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -2,7 +2,7 @@ use crate::fonts::parsing::{binary_search, Position, Slice};
 use crate::fonts::tables::*;
 use crate::fonts::{FontError, GlyphId};
 use std::char;
-use std::cmp::Ordering;
+use std::cmp::{self, Ordering};
 
 pub(in crate::fonts) enum Cmap {
     Format4(Format4),
@@ -131,21 +131,18 @@ impl Format4 {
     where
         F: FnMut(u32, u16),
     {
+        // Segments are sorted. Making sure of it bounds the work for malformed fonts.
+        let mut next_code_point = 0;
         for segment_index in 0..self.segment_count {
             let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
             let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            for code_point in u32::from(start_code).max(next_code_point)..=u32::from(end_code) {
+                next_code_point = code_point + 1;
                 if let Some(glyph_id) =
-                    self.glyph_id(bytes, segment_index, start_code, code_point)?
+                    self.glyph_id(bytes, segment_index, start_code, code_point as u16)?
                 {
-                    f(u32::from(code_point), glyph_id)
+                    f(code_point, glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
         }
         Ok(())
@@ -214,38 +211,47 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
-            // Glyph IDs are 16 bits in PDF.
-            // For now, pretend that glyphs with larger IDs are missing.
-            // FIXME: Maybe this will be unnecessary with PDF font subsetting?
-            if id32 <= 0xFFFF {
-                return Ok(Some(id32 as u16));
-            }
+            Ok(group_glyph_id(
+                group.start_char_code().read_from(bytes)?,
+                group.start_glyph_id().read_from(bytes)?,
+                code_point,
+            ))
+        } else {
+            Ok(None)
         }
-
-        Ok(None)
     }
 
     fn each_code_point<F>(&self, bytes: &[u8], mut f: F) -> Result<(), FontError>
     where
         F: FnMut(u32, u16),
     {
+        // Groups are sorted. Making sure of it bounds the work for malformed fonts.
+        let mut next_code_point = 0;
         for group in self.groups {
             let start_code = group.start_char_code().read_from(bytes)?;
-            let end_code = group.end_char_code().read_from(bytes)?;
+            let end_code = cmp::min(
+                group.end_char_code().read_from(bytes)?,
+                char::MAX as u32,
+            );
             let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            for code_point in cmp::max(start_code, next_code_point)..=end_code {
+                next_code_point = code_point + 1;
+                if let Some(glyph_id) = group_glyph_id(start_code, start_glyph_id, code_point) {
+                    f(code_point, glyph_id)
                 }
-                code_point += 1;
             }
         }
         Ok(())
     }
 }
+
+/// `code_point` is assumed to be `start_char_code` or more
+fn group_glyph_id(start_char_code: u32, start_glyph_id: u32, code_point: u32) -> Option<u16> {
+    // Glyph IDs are 16 bits in PDF.
+    // For now, pretend that glyphs with larger IDs are missing.
+    // FIXME: Maybe this will be unnecessary with PDF font subsetting?
+    start_glyph_id
+        .checked_add(code_point - start_char_code)
+        .filter(|&id32| id32 <= 0xFFFF)
+        .map(|id32| id32 as u16)
+}
-- 
2.43.0


From 2f506904b4354e7572abee8795d6acc15cd15059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 31/35] fix: reject fonts with zero units per em

---
 victor/src/fonts/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/victor/src/fonts/mod.rs b/victor/src/fonts/mod.rs
index b9afc51..fd8c828 100644
--- a/victor/src/fonts/mod.rs
+++ b/victor/src/fonts/mod.rs
@@ -102,6 +102,12 @@ impl Font {
         let glyph_count = maxp.num_glyphs().read_from(bytes)?;
         let horizontal_header = table_directory.find_table::<HorizontalHeader>(bytes)?;
 
+        let units_per_em = header.units_per_em().read_from(bytes)?;
+        if units_per_em.get() == 0 {
+            // Every length in the font would be infinite or not a number
+            Err(FontError::UnsupportedFormat)?
+        }
+
         Ok(Font {
             bytes: b""[..].into(),
             postscript_name: read_postscript_name(&bytes, table_directory)?,
@@ -113,7 +119,7 @@ impl Font {
                     .number_of_long_horizontal_metrics()
                     .read_from(bytes)?,
             ),
-            font_design_units_per_em: header.units_per_em().read_from(bytes)?.cast(),
+            font_design_units_per_em: units_per_em.cast(),
             ascender: horizontal_header.ascender().read_from(bytes)?,
             descender: horizontal_header.descender().read_from(bytes)?,
             min_x: header.min_x().read_from(bytes)?,
-- 
2.43.0


From 82ec0c2313b865564ef08a002eb289585c04554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 32/35] fix: no blank page after a last line that ends a page
 of plain text

---
 victor/src/text_plain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..99076ae 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -125,6 +125,10 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
             y += line_height;
             if y > max_y {
                 // We’ve reached the bottom of the page
+                match segments.next() {
+                    Some(result) => segments.rewind(result),
+                    None => break 'pages,
+                }
                 break;
             }
         }
-- 
2.43.0


From 3ae314ef06ea384abef61e85cb931b1e3360ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 33/35] fix: report errors that happen when flushing a PDF file

---
 victor/src/pdf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..235042a 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -33,7 +33,10 @@ impl Document {
 
     /// Encode this document to PDF and write it into the file with the given name.
     pub fn write_to_pdf_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), io::Error> {
-        self.write_to_pdf(&mut io::BufWriter::new(fs::File::create(filename)?))
+        let mut stream = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_pdf(&mut stream)?;
+        // Dropping a `BufWriter` ignores errors.
+        stream.flush()
     }
 
     /// Encode this document to PDF and return a vector of bytes
-- 
2.43.0


From 46d4a80865631bf470685e921045b35844f721c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 34/35] fix: flush the stream a PNG image was written to and
 report errors

---
 lester/src/cairo.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..03b956b 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -262,7 +262,14 @@ impl ImageSurface {
     /// this method will likely perform better with that stream wrapped in `BufWriter`.
     ///
     /// See also the `write_to_png_file` method.
-    pub fn write_to_png<W: Write>(&self, stream: W) -> Result<(), LesterError> {
+    pub fn write_to_png<W: Write>(&self, mut stream: W) -> Result<(), LesterError> {
+        self.write_to_png_without_flushing(&mut stream)?;
+        // Dropping a stream such as `BufWriter` ignores errors.
+        stream.flush()?;
+        Ok(())
+    }
+
+    fn write_to_png_without_flushing<W: Write>(&self, stream: W) -> Result<(), LesterError> {
         let status = with_c_callback! {
             stream: W: Write;
             fn callback(buffer: *const c_uchar, length: c_uint) -> CAIRO_STATUS_WRITE_ERROR {
-- 
2.43.0


From 693d44fb61eaecbdc5c4e6c1773ac5efc84ec302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 35/35] fix: access the pixels of images that have none

---
 lester/src/cairo.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 03b956b..7a41628 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -101,6 +101,15 @@ impl ImageSurface {
                 "Unsupported pixel format"
             );
 
+            // Images without pixels may have a zero stride and no data.
+            if width == 0 || height == 0 {
+                return Argb32Pixels {
+                    width: width.try_into().unwrap(),
+                    height: height.try_into().unwrap(),
+                    buffer: &mut [],
+                };
+            }
+
             // In theory we shouldn’t rely on this.
             // In practice cairo picks a stride that is `width * size_of_pixel`
             // rounded up to 32 bits.
-- 
2.43.0

