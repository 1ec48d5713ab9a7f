From bba0226c8b6914b0d42de83a230766257b45ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 01/38] fix: report documents that end early or whose end tags
 do not match

validate_next() ended the session without an error when the input stopped
before the document element was complete, and never compared end tags with
the open element.  Elements also stayed on the element stack after their end
tag, so namespace bindings leaked into following siblings and memory grew
with every element.
---
 relaxng-validator/src/lib.rs | 64 ++++++++++++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..824c6c1 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -21,6 +21,8 @@ pub enum ValidatorError<'a> {
     InvalidOrUnclosedEntity {
         span: std::ops::Range<usize>,
     },
+    /// The input ended before the end of the document element
+    UnexpectedEnd,
 }
 
 #[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
@@ -526,6 +528,10 @@ pub struct Validator<'a> {
     last_was_start_element: bool,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
+    /// true if no problem remains to be reported when the tokenizer reaches the end of its input;
+    /// either because the document element is complete, or because we already reported a problem
+    /// that prevents us from seeing the rest of the document
+    complete: bool,
 }
 
 impl<'a> Validator<'a> {
@@ -551,6 +557,7 @@ impl<'a> Validator<'a> {
             last_was_start_element: false,
             stack: ElementStack::default(),
             entity_definitions,
+            complete: false,
         }
     }
     fn compile(s: &Schema, p: &model::Pattern) -> PatId {
@@ -616,8 +623,29 @@ impl<'a> Validator<'a> {
 
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
-            Some(Ok(evt)) => Some(self.validate(evt)),
-            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),
+            Some(Ok(evt)) => {
+                let result = self.validate(evt);
+                match evt {
+                    Token::ElementEnd {
+                        end: ElementEnd::Close(..) | ElementEnd::Empty,
+                        ..
+                    } => {
+                        // the element is finished, regardless of its having been valid
+                        self.stack.pop();
+                        self.complete = self.stack.is_empty();
+                    }
+                    _ => (),
+                }
+                Some(result)
+            }
+            Some(Err(err)) => {
+                self.complete = true;
+                Some(Err(ValidatorError::Xml(err)))
+            }
+            None if !self.complete => {
+                self.complete = true;
+                Some(Err(ValidatorError::UnexpectedEnd))
+            }
             None => None,
         }
     }
@@ -688,7 +716,10 @@ impl<'a> Validator<'a> {
                     ElementEnd::Open => {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
-                    ElementEnd::Close(_, _) => {
+                    ElementEnd::Close(prefix, local) => {
+                        if !self.stack.is_current(prefix, local) {
+                            return Err(ValidatorError::NotAllowed(evt));
+                        }
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
@@ -1450,6 +1481,21 @@ impl<'a> Validator<'a> {
                     spans: vec![label],
                 })
             }
+            ValidatorError::UnexpectedEnd => {
+                let end = file.span.len();
+                let label = codemap_diagnostic::SpanLabel {
+                    span: file.span.subspan(end, end),
+                    label: None,
+                    style: codemap_diagnostic::SpanStyle::Primary,
+                };
+
+                diagnostics.push(codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: "The document ends before its root element is complete".to_string(),
+                    code: None,
+                    spans: vec![label],
+                })
+            }
         }
         (map, diagnostics)
     }
@@ -1584,6 +1630,18 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) {
+        self.elements.pop();
+    }
+    fn is_empty(&self) -> bool {
+        self.elements.is_empty()
+    }
+    /// true if the given name is exactly that with which the current element was started
+    fn is_current(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        self.elements.last().is_some_and(|curr| {
+            curr.prefix.as_str() == prefix.as_str() && curr.local.as_str() == local.as_str()
+        })
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From f1614a9b03aa7f25965d50f2b189e1705dd12164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 02/38] fix: reject documents that repeat an attribute or a
 namespace declaration

A start tag that has the same attribute twice is not well-formed, but was
accepted wherever the schema allows any number of attributes, and repeated
xmlns declarations were never noticed.
---
 relaxng-validator/src/lib.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 824c6c1..435a027 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -866,6 +866,7 @@ impl<'a> Validator<'a> {
                 }));
             }
             _p => {
+                stack.check_duplicate_attributes()?;
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
                 for att in attributes {
@@ -1653,11 +1654,13 @@ impl<'a> ElementStack<'a> {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix: local,
                 namespace_uri: value,
+                span,
             })
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix,
                 namespace_uri: value,
+                span,
             })
         } else {
             self.elements
@@ -1680,6 +1683,34 @@ impl<'a> ElementStack<'a> {
             local_name: curr.local,
         })
     }
+    /// An element must not have the same attribute, or declare the same namespace prefix, more
+    /// than once
+    fn check_duplicate_attributes(&self) -> Result<(), ValidatorError<'a>> {
+        let mut prefixes = HashSet::new();
+        for ns in &self.elements.last().unwrap().namespaces {
+            if !prefixes.insert(ns.prefix.as_str()) {
+                return Err(ValidatorError::NotAllowed(Token::Attribute {
+                    prefix: StrSpan::from("xmlns"),
+                    local: ns.prefix,
+                    value: ns.namespace_uri,
+                    span: ns.span,
+                }));
+            }
+        }
+        let mut names = HashSet::new();
+        for att in self.current_attributes()? {
+            let uri = att.name.namespace_uri.map(|uri| uri.as_str());
+            if !names.insert((uri, att.name.local_name.as_str())) {
+                return Err(ValidatorError::NotAllowed(Token::Attribute {
+                    prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
+                    local: att.name.local_name,
+                    value: att.value,
+                    span: att.span,
+                }));
+            }
+        }
+        Ok(())
+    }
     fn current_attributes(&self) -> Result<Vec<Attr<'a>>, ValidatorError<'a>> {
         self.elements
             .last()
@@ -1730,6 +1761,7 @@ impl<'a> ElementState<'a> {
 struct Ns<'a> {
     prefix: StrSpan<'a>,
     namespace_uri: StrSpan<'a>,
+    span: StrSpan<'a>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3c0800ecd408673d6a9e2a6e179f266f61529ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 03/38] fix: judge an element's character data as a whole, and
 decode attribute values

Text was matched against the schema piece by piece, so the verdict for data,
value and list content depended on how CDATA sections, comments and
processing instructions cut it up, and an element without any text was not
treated as having empty text (the last_was_start_element flag was never true).
References in the values of attributes were not decoded at all.

Collect text until the next tag, and then follow childrenDeriv() of
https://relaxng.org/jclark/derivative.html
---
 relaxng-validator/src/lib.rs | 404 ++++++++++++++++++++---------------
 1 file changed, 228 insertions(+), 176 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 435a027..0742311 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -466,9 +466,9 @@ impl Schema {
     }
 }
 
-fn is_ns_match(namespace_uri: &str, target_namespace: Option<&StrSpan>) -> bool {
+fn is_ns_match(namespace_uri: &str, target_namespace: Option<&str>) -> bool {
     if let Some(target_namespace) = target_namespace {
-        target_namespace.as_str() == namespace_uri
+        target_namespace == namespace_uri
     } else {
         namespace_uri.is_empty()
     }
@@ -479,18 +479,17 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             namespace_uri,
             name,
         } => {
-            if let Some(ref target_namespace) = target_name.namespace_uri {
-                target_namespace.as_str() == namespace_uri
-                    && target_name.local_name.as_str() == name
+            if let Some(target_namespace) = target_name.namespace_uri {
+                target_namespace == namespace_uri && target_name.local_name == name
             } else {
-                namespace_uri.is_empty() && target_name.local_name.as_str() == name
+                namespace_uri.is_empty() && target_name.local_name == name
             }
         }
         NameClass::NsName {
             namespace_uri,
             except,
         } => {
-            if is_ns_match(namespace_uri, target_name.namespace_uri.as_ref()) {
+            if is_ns_match(namespace_uri, target_name.namespace_uri) {
                 if let Some(except_nameclass) = except {
                     !contains(except_nameclass, target_name)
                 } else {
@@ -510,22 +509,25 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
 
 #[derive(Copy, Clone, Debug)]
 struct QualifiedName<'a> {
-    namespace_uri: Option<StrSpan<'a>>,
-    local_name: StrSpan<'a>,
+    namespace_uri: Option<&'a str>,
+    local_name: &'a str,
 }
 
-#[derive(Copy, Clone, Debug)]
-struct Attr<'a> {
-    name: QualifiedName<'a>,
-    value: StrSpan<'a>,
-    span: StrSpan<'a>,
+struct PendingText<'a> {
+    /// the token to be blamed if the text is not allowed
+    first: Token<'a>,
+    text: String,
 }
 
 pub struct Validator<'a> {
     schema: Schema,
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
-    last_was_start_element: bool,
+    /// character data seen since the last start or end tag, which may have been delivered in a
+    /// number of pieces
+    pending_text: Option<PendingText<'a>>,
+    /// a tag that is still to be processed, because we reported a problem with the text before it
+    deferred: Option<Token<'a>>,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
     /// true if no problem remains to be reported when the tokenizer reaches the end of its input;
@@ -554,7 +556,8 @@ impl<'a> Validator<'a> {
             schema,
             tokenizer,
             current_step: start,
-            last_was_start_element: false,
+            pending_text: None,
+            deferred: None,
             stack: ElementStack::default(),
             entity_definitions,
             complete: false,
@@ -622,8 +625,23 @@ impl<'a> Validator<'a> {
     }
 
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
-        match self.tokenizer.next() {
+        let next = match self.deferred.take() {
+            Some(evt) => Some(Ok(evt)),
+            None => self.tokenizer.next(),
+        };
+        match next {
             Some(Ok(evt)) => {
+                if let Token::ElementStart { .. }
+                | Token::ElementEnd {
+                    end: ElementEnd::Close(..),
+                    ..
+                } = evt
+                {
+                    if let Err(err) = self.validate_text(evt) {
+                        self.deferred = Some(evt);
+                        return Some(Err(err));
+                    }
+                }
                 let result = self.validate(evt);
                 match evt {
                     Token::ElementEnd {
@@ -713,103 +731,40 @@ impl<'a> Validator<'a> {
             }
             Token::ElementEnd { end, span: _ } => {
                 match end {
-                    ElementEnd::Open => {
-                        Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
-                    }
+                    ElementEnd::Open => Self::close_element_start(
+                        &mut self.stack,
+                        &mut self.schema,
+                        &self.entity_definitions,
+                        evt,
+                        pat,
+                    )?,
                     ElementEnd::Close(prefix, local) => {
                         if !self.stack.is_current(prefix, local) {
                             return Err(ValidatorError::NotAllowed(evt));
                         }
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
-                        Self::end_tag_deriv(next_pat, &mut self.schema)
+                        Self::end_tag_deriv(pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
-                        let next_id =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
-                        let pat = self.schema.patt(next_id);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
-                        Self::end_tag_deriv(next_pat, &mut self.schema)
+                        let next_id = Self::close_element_start(
+                            &mut self.stack,
+                            &mut self.schema,
+                            &self.entity_definitions,
+                            evt,
+                            pat,
+                        )?;
+                        let next_id = Self::only_text_deriv(next_id, &mut self.schema, "");
+                        Self::end_tag_deriv(self.schema.patt(next_id), &mut self.schema)
                     }
                 }
             }
-            Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
+            Token::Cdata { text, span: _ } => {
+                self.add_text(evt, text.as_str());
+                return Ok(());
+            }
             Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
-                }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
-                };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
-                let next_pat = self.schema.patt(next_id);
-                if let Pat::NotAllowed = next_pat {
-                    return Err(ValidatorError::NotAllowed(Token::Text { text }));
-                }
-                next_id
+                let text = decode_entities(text, &self.entity_definitions)?;
+                self.add_text(evt, &text);
+                return Ok(());
             }
             Token::EntityDeclaration {
                 name,
@@ -835,11 +790,6 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
@@ -848,37 +798,96 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Remembers some character data until the next tag shows that there's no more to follow
+    fn add_text(&mut self, evt: Token<'a>, text: &str) {
+        match self.pending_text.as_mut() {
+            Some(pending) => {
+                if is_whitespace_str(&pending.text) {
+                    // if the text turns out to be wrong, don't blame leading whitespace
+                    pending.first = evt;
+                }
+                pending.text.push_str(text);
+            }
+            None => {
+                self.pending_text = Some(PendingText {
+                    first: evt,
+                    text: text.to_string(),
+                })
+            }
+        }
+    }
+
+    /// Given that the next tag is about to be processed, process the text before it (however many
+    /// pieces it was delivered in) following childrenDeriv() from
+    /// https://relaxng.org/jclark/derivative.html
+    fn validate_text(&mut self, next_tag: Token<'a>) -> Result<(), ValidatorError<'a>> {
+        let pending = self.pending_text.take();
+        let text = pending.as_ref().map_or("", |pending| &pending.text[..]);
+        let is_only_child = match next_tag {
+            Token::ElementStart { .. } => false,
+            _ => !self.stack.has_child_elements(),
+        };
+        let new = if is_only_child {
+            Self::only_text_deriv(self.current_step, &mut self.schema, text)
+        } else if is_whitespace_str(text) {
+            self.current_step
+        } else {
+            Self::text_deriv(self.schema.patt(self.current_step), &mut self.schema, text)
+        };
+        if let (Pat::NotAllowed, Some(pending)) = (self.schema.patt(new), pending) {
+            return Err(ValidatorError::NotAllowed(pending.first));
+        }
+        self.current_step = new;
+        Ok(())
+    }
+
+    /// The derivative for an element having no child elements.
+    ///
+    ///     "The case where the list of children is empty is
+    ///      treated as if there were a text node whose value
+    ///      were the empty string."
+    ///
+    /// This fake text node is required for a pattern like 'element foo { token }'
+    /// to match the input '<foo/>' or '<foo></foo>'
+    fn only_text_deriv(current: PatId, schema: &mut Schema, text: &str) -> PatId {
+        let deriv = Self::text_deriv(schema.patt(current), schema, text);
+        if is_whitespace_str(text) {
+            schema.choice(current, deriv)
+        } else {
+            deriv
+        }
+    }
+
     fn close_element_start<'b: 'a>(
-        stack: &ElementStack<'b>,
+        stack: &mut ElementStack<'b>,
         schema: &mut Schema,
+        entity_definitions: &HashMap<String, String>,
         evt: Token<'b>,
         pat: Pat,
     ) -> Result<PatId, ValidatorError<'b>> {
+        stack.resolve_namespaces(entity_definitions)?;
+        let start = stack.elements.last().unwrap();
         let name = stack.current_element()?;
         let next_pat = Self::start_tag_open_deriv(pat, schema, name);
         // TODO: refactor early-returns
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => {
                 return Err(ValidatorError::NotAllowed(Token::ElementStart {
-                    prefix: name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                    local: name.local_name,
-                    span: name.local_name,
+                    prefix: start.prefix,
+                    local: start.local,
+                    span: start.local,
                 }));
             }
             _p => {
                 stack.check_duplicate_attributes()?;
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
-                for att in attributes {
+                for (name, att) in attributes {
+                    let value = decode_entities(att.value, entity_definitions)?;
                     let mut memo = HashMap::new();
-                    pat = Self::att_deriv(&mut memo, pat, schema, att);
+                    pat = Self::att_deriv(&mut memo, pat, schema, name, &value);
                     if let Pat::NotAllowed = schema.patt(pat) {
-                        return Err(ValidatorError::NotAllowed(Token::Attribute {
-                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                            local: att.name.local_name,
-                            value: att.value,
-                            span: att.span,
-                        }));
+                        return Err(ValidatorError::NotAllowed(att.as_token()));
                     }
                 }
                 pat
@@ -1015,7 +1024,7 @@ impl<'a> Validator<'a> {
         }
     }
 
-    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'a>) -> PatId {
+    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName) -> PatId {
         match current {
             Pat::Choice(l, r, _) => {
                 let left = schema.patt(l);
@@ -1117,7 +1126,8 @@ impl<'a> Validator<'a> {
         memo: &mut HashMap<PatId, PatId>,
         pat: PatId,
         schema: &mut Schema,
-        att: Attr,
+        name: QualifiedName,
+        value: &str,
     ) -> PatId {
         if let Some(result) = memo.get(&pat) {
             return *result;
@@ -1127,36 +1137,36 @@ impl<'a> Validator<'a> {
         //schema.dumpy(pat, &mut o).unwrap();
         let v = match schema.patt(pat) {
             Pat::After(p1, p2) => {
-                let d = Self::att_deriv(memo, p1, schema, att);
+                let d = Self::att_deriv(memo, p1, schema, name, value);
                 schema.after(d, p2)
             }
             Pat::Choice(p1, p2, _) => {
-                let c1 = Self::att_deriv(memo, p1, schema, att);
-                let c2 = Self::att_deriv(memo, p2, schema, att);
+                let c1 = Self::att_deriv(memo, p1, schema, name, value);
+                let c2 = Self::att_deriv(memo, p2, schema, name, value);
                 schema.choice(c1, c2)
             }
             Pat::Group(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, name, value);
                 let s1 = schema.group(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, name, value);
                 let s2 = schema.group(p1, d2);
                 schema.choice(s1, s2)
             }
             Pat::Interleave(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, name, value);
                 let i1 = schema.interleave(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, name, value);
                 let i2 = schema.interleave(p1, d2);
                 schema.choice(i1, i2)
             }
             Pat::OneOrMore(p, _) => {
-                let s1 = Self::att_deriv(memo, p, schema, att);
+                let s1 = Self::att_deriv(memo, p, schema, name, value);
                 let s2 = schema.choice(pat, schema.empty());
                 schema.group(s1, s2)
             }
             Pat::Attribute(ref nc, p) => {
                 let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, &att.value) {
+                if contains(nc, name) && Self::value_match(att_pat, schema, value) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
@@ -1589,6 +1599,30 @@ fn parse_entities(
     }
 }
 
+/// Replaces each entity and character reference with the text that it stands for
+fn decode_entities<'a>(
+    text: StrSpan<'a>,
+    entity_definitions: &HashMap<String, String>,
+) -> Result<String, ValidatorError<'a>> {
+    let mut buffer = String::with_capacity(text.len());
+    for val in parse_entities(text.start(), text.as_str()) {
+        match val? {
+            Txt::Text(_pos, val) => buffer.push_str(val),
+            Txt::Char(_pos, val) => buffer.push(val),
+            Txt::Entity(pos, name) => match entity_definitions.get(name) {
+                Some(val) => buffer.push_str(val),
+                None => {
+                    return Err(ValidatorError::UndefinedEntity {
+                        name,
+                        span: pos..pos + name.len(),
+                    });
+                }
+            },
+        }
+    }
+    Ok(buffer)
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
@@ -1603,7 +1637,7 @@ struct ElementStack<'a> {
 }
 
 impl<'a> ElementStack<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         self.elements
             .iter()
             .rev()
@@ -1613,7 +1647,7 @@ impl<'a> ElementStack<'a> {
     fn try_lookup_namespace_uri(
         &self,
         prefix: StrSpan<'a>,
-    ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
+    ) -> Result<Option<&str>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
             Ok(None)
         } else {
@@ -1624,9 +1658,13 @@ impl<'a> ElementStack<'a> {
     }
 
     fn push(&mut self, prefix: StrSpan<'a>, local: StrSpan<'a>, _span: StrSpan<'a>) {
+        if let Some(parent) = self.elements.last_mut() {
+            parent.has_child_elements = true;
+        }
         self.elements.push(ElementState {
             prefix,
             local,
+            has_child_elements: false,
             namespaces: vec![],
             attributes: vec![],
         })
@@ -1643,6 +1681,11 @@ impl<'a> ElementStack<'a> {
             curr.prefix.as_str() == prefix.as_str() && curr.local.as_str() == local.as_str()
         })
     }
+    fn has_child_elements(&self) -> bool {
+        self.elements
+            .last()
+            .is_some_and(|curr| curr.has_child_elements)
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
@@ -1650,37 +1693,44 @@ impl<'a> ElementStack<'a> {
         value: StrSpan<'a>,
         span: StrSpan<'a>,
     ) {
+        let attr = UnresolvedAttr {
+            prefix,
+            local,
+            value,
+            span,
+        };
         if prefix.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix: local,
-                namespace_uri: value,
-                span,
+                namespace_uri: value.to_string(),
+                attr,
             })
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
             self.elements.last_mut().unwrap().namespaces.push(Ns {
                 prefix,
-                namespace_uri: value,
-                span,
+                namespace_uri: value.to_string(),
+                attr,
             })
         } else {
-            self.elements
-                .last_mut()
-                .unwrap()
-                .attributes
-                .push(UnresolvedAttr {
-                    prefix,
-                    local,
-                    value,
-                    span,
-                })
+            self.elements.last_mut().unwrap().attributes.push(attr)
         }
     }
-    fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
+    /// Replaces references within the namespace names declared by the current element
+    fn resolve_namespaces(
+        &mut self,
+        entity_definitions: &HashMap<String, String>,
+    ) -> Result<(), ValidatorError<'a>> {
+        for ns in &mut self.elements.last_mut().unwrap().namespaces {
+            ns.namespace_uri = decode_entities(ns.attr.value, entity_definitions)?;
+        }
+        Ok(())
+    }
+    fn current_element(&self) -> Result<QualifiedName<'_>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
         let namespace_uri = self.try_lookup_namespace_uri(curr.prefix)?;
         Ok(QualifiedName {
             namespace_uri,
-            local_name: curr.local,
+            local_name: curr.local.as_str(),
         })
     }
     /// An element must not have the same attribute, or declare the same namespace prefix, more
@@ -1689,29 +1739,21 @@ impl<'a> ElementStack<'a> {
         let mut prefixes = HashSet::new();
         for ns in &self.elements.last().unwrap().namespaces {
             if !prefixes.insert(ns.prefix.as_str()) {
-                return Err(ValidatorError::NotAllowed(Token::Attribute {
-                    prefix: StrSpan::from("xmlns"),
-                    local: ns.prefix,
-                    value: ns.namespace_uri,
-                    span: ns.span,
-                }));
+                return Err(ValidatorError::NotAllowed(ns.attr.as_token()));
             }
         }
         let mut names = HashSet::new();
-        for att in self.current_attributes()? {
-            let uri = att.name.namespace_uri.map(|uri| uri.as_str());
-            if !names.insert((uri, att.name.local_name.as_str())) {
-                return Err(ValidatorError::NotAllowed(Token::Attribute {
-                    prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                    local: att.name.local_name,
-                    value: att.value,
-                    span: att.span,
-                }));
+        for (name, att) in self.current_attributes()? {
+            if !names.insert((name.namespace_uri, name.local_name)) {
+                return Err(ValidatorError::NotAllowed(att.as_token()));
             }
         }
         Ok(())
     }
-    fn current_attributes(&self) -> Result<Vec<Attr<'a>>, ValidatorError<'a>> {
+    #[allow(clippy::type_complexity)]
+    fn current_attributes(
+        &self,
+    ) -> Result<Vec<(QualifiedName<'_>, &UnresolvedAttr<'a>)>, ValidatorError<'a>> {
         self.elements
             .last()
             .unwrap()
@@ -1723,14 +1765,13 @@ impl<'a> ElementStack<'a> {
                 } else {
                     self.try_lookup_namespace_uri(unresolved.prefix)?
                 };
-                Ok(Attr {
-                    name: QualifiedName {
+                Ok((
+                    QualifiedName {
                         namespace_uri,
-                        local_name: unresolved.local,
+                        local_name: unresolved.local.as_str(),
                     },
-                    value: unresolved.value,
-                    span: unresolved.span,
-                })
+                    unresolved,
+                ))
             })
             .collect()
     }
@@ -1742,26 +1783,37 @@ struct UnresolvedAttr<'a> {
     value: StrSpan<'a>,
     span: StrSpan<'a>,
 }
+impl<'a> UnresolvedAttr<'a> {
+    fn as_token(&self) -> Token<'a> {
+        Token::Attribute {
+            prefix: self.prefix,
+            local: self.local,
+            value: self.value,
+            span: self.span,
+        }
+    }
+}
 struct ElementState<'a> {
     prefix: StrSpan<'a>,
     local: StrSpan<'a>,
+    has_child_elements: bool,
     namespaces: Vec<Ns<'a>>,
     attributes: Vec<UnresolvedAttr<'a>>,
 }
 
 impl<'a> ElementState<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         self.namespaces
             .iter()
             .find(|ns| ns.prefix.as_str() == prefix)
-            .map(|ns| ns.namespace_uri)
+            .map(|ns| &ns.namespace_uri[..])
     }
 }
 
 struct Ns<'a> {
     prefix: StrSpan<'a>,
-    namespace_uri: StrSpan<'a>,
-    span: StrSpan<'a>,
+    namespace_uri: String,
+    attr: UnresolvedAttr<'a>,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6e3035a4e837fc7fb50a5303cce5d897dad88fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 04/38] fix: point XML and character-reference diagnostics at
 the right position

The 1-based row of an XML error was used both as a 0-based line number and as
an offset, so rendering the diagnostic pointed at the wrong line or panicked.
Errors in numeric character references lacked the offset of the text they
appear in.
---
 relaxng-validator/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 0742311..2c2b4ae 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1376,8 +1376,16 @@ impl<'a> Validator<'a> {
         let mut diagnostics = vec![];
         match err {
             ValidatorError::Xml(err) => {
-                let line = file.line_span(err.pos().row as _);
-                let span = line.subspan(err.pos().row as _, err.pos().row as _);
+                // xmlparser's rows and columns (counted in characters) both start from 1
+                let pos = err.pos();
+                let row = (pos.row as usize).clamp(1, file.num_lines()) - 1;
+                let line = file.line_span(row);
+                let col = file
+                    .source_slice(line)
+                    .char_indices()
+                    .nth((pos.col as usize).saturating_sub(1))
+                    .map_or(line.len(), |(offset, _)| offset as u64);
+                let span = line.subspan(col, col);
 
                 let label = codemap_diagnostic::SpanLabel {
                     span,
@@ -1542,7 +1550,7 @@ fn parse_entities(
                         self.in_entity = false;
                         let text = &self.text[self.offset..self.offset + i];
                         let result = if let Some(text) = text.strip_prefix('#') {
-                            numeric_entity(self.offset, text)
+                            numeric_entity(self.offset + self.pos, text)
                         } else {
                             Ok(Txt::Entity(self.offset + self.pos, text))
                         };
-- 
2.43.0


From 842d313b1e596e3ae2dae5b1193306a30c95aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/38] fix: list expected elements in schema order

The expected elements were collected in a HashSet, so which four of them a
diagnostic names, and in what order, varied from process to process.
---
 relaxng-validator/src/lib.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 2c2b4ae..43458b8 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1239,14 +1239,13 @@ impl<'a> Validator<'a> {
         }
     }
 
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn heads(&self, id: PatId) -> HashSet<Pat> {
-        let mut result = HashSet::new();
+    /// The distinct patterns that may come next, in the order that the schema gives them
+    fn heads(&self, id: PatId) -> Vec<Pat> {
+        let mut result = vec![];
         self.head(&mut result, id);
         result
     }
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn head(&self, result: &mut HashSet<Pat>, p: PatId) {
+    fn head(&self, result: &mut Vec<Pat>, p: PatId) {
         // https://www.kohsuke.org/relaxng/implbook/Validation1.html#IDATGOO
         let pat = self.schema.patt(p);
         match pat {
@@ -1270,20 +1269,14 @@ impl<'a> Validator<'a> {
             Pat::Empty => {}
             Pat::Text => {}
             Pat::NotAllowed => {}
-            Pat::Attribute(_, _) => {
-                result.insert(pat);
-            }
-            Pat::Element(_, _) => {
-                result.insert(pat);
-            }
-            Pat::Datatype(_) => {
-                result.insert(pat);
-            }
-            Pat::DatatypeValue(_) => {
-                result.insert(pat);
-            }
-            Pat::DatatypeExcept(_, _) => {
-                result.insert(pat);
+            Pat::Attribute(_, _)
+            | Pat::Element(_, _)
+            | Pat::Datatype(_)
+            | Pat::DatatypeValue(_)
+            | Pat::DatatypeExcept(_, _) => {
+                if !result.contains(&pat) {
+                    result.push(pat);
+                }
             }
             Pat::List(p) => self.head(result, p),
             Pat::Placeholder(_) => panic!("Unexpected {pat:?}"),
@@ -1292,7 +1285,6 @@ impl<'a> Validator<'a> {
     }
 
     fn describe_expected(&self, expected_patt: PatId) -> String {
-        #[allow(clippy::mutable_key_type)] // false-positive
         let heads = self.heads(expected_patt);
         let mut result = String::new();
         const MAX_ELEMENTS: usize = 4;
-- 
2.43.0


From a2317769b1412d19e93771463ae17ddeaa7b2393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 06/38] fix: accept a definition that is just another name for
 an enclosing one

Creating a validator panicked for schemas such as

    start = section
    section = element section { sub* }
    sub = section
---
 relaxng-validator/src/lib.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 43458b8..c484a16 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -200,12 +200,16 @@ impl Schema {
         let inner = self.inner.borrow_mut();
         inner.refs.get(&p).copied()
     }
-    /*
     fn set_ref(&self, p: *const Option<relaxng_model::model::DefineRule>, id: PatId) {
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
     }
-    */
+    fn is_unresolved(&self, id: PatId) -> bool {
+        matches!(
+            self.inner.borrow().patterns[id.0 as usize],
+            Pat::Placeholder(_)
+        )
+    }
     fn ref_placeholder(
         &self,
         p: *const Option<relaxng_model::model::DefineRule>,
@@ -608,8 +612,15 @@ impl<'a> Validator<'a> {
                     let placeholder_id = s.ref_placeholder(ptr, name);
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
                         let id = Self::compile(s, thing.pattern());
-                        s.resolve_ref(placeholder_id, id, name);
-                        placeholder_id
+                        if s.is_unresolved(id) && id != placeholder_id {
+                            // this name just stands for another one, of which the definition is
+                            // still being compiled
+                            s.set_ref(ptr, id);
+                            id
+                        } else {
+                            s.resolve_ref(placeholder_id, id, name);
+                            placeholder_id
+                        }
                     } else {
                         panic!("Somehow definition for {name:#?} is missing, used in {whence:?}")
                     }
-- 
2.43.0


From 52ed6112cc7db4a78457ee25a212b3c3a0e1089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 07/38] fix: eliminate redundant choices

With an ambiguous schema such as 'element r { a*, a* }' each <a/> added
another copy of the same alternatives to the current pattern, so time and
memory grew with the length of the document until the validator panicked for
having more than 2^16 patterns.
---
 relaxng-validator/src/lib.rs | 42 +++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index c484a16..9660f5f 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -102,7 +102,7 @@ impl Schema {
         }
     }
     pub fn choice(&self, left: PatId, right: PatId) -> PatId {
-        // TODO:
+        // From https://relaxng.org/jclark/derivative.html ,
         //       "In order to avoid exponential blowup with some patterns, it is essential
         //        for the choice function to eliminate redundant choices. Define the
         //        choice-leaves of a pattern to be the concatenation of the choice-leaves of
@@ -116,19 +116,35 @@ impl Schema {
         match (self.patt(left), self.patt(right)) {
             (Pat::NotAllowed, _) => right,
             (_, Pat::NotAllowed) => left,
-            (l, r) => {
-                if left == right {
-                    //println!("Choices are identical: left=right={:?} - {}", l, left.0);
-                    return left;
-                }
-                if l.is_nullable() {
-                    //println!("**redundant choice construction? l => nullable");
-                }
-                if r.is_nullable() {
-                    //println!("**redundant choice construction? r => nullable");
-                }
-                self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))
+            _ => {
+                let mut leaves = vec![];
+                self.choice_leaves(left, &mut leaves);
+                let mut seen: HashSet<PatId> = leaves.into_iter().collect();
+                let mut right_leaves = vec![];
+                self.choice_leaves(right, &mut right_leaves);
+                let count = right_leaves.len();
+                right_leaves.retain(|leaf| seen.insert(*leaf));
+                if right_leaves.len() == count {
+                    // nothing redundant
+                    return self.push_choice(left, right);
+                }
+                right_leaves
+                    .into_iter()
+                    .fold(left, |choice, leaf| self.push_choice(choice, leaf))
+            }
+        }
+    }
+    fn push_choice(&self, left: PatId, right: PatId) -> PatId {
+        let nullable = self.patt(left).is_nullable() || self.patt(right).is_nullable();
+        self.push(Pat::Choice(left, right, nullable))
+    }
+    fn choice_leaves(&self, id: PatId, leaves: &mut Vec<PatId>) {
+        match self.patt(id) {
+            Pat::Choice(left, right, _) => {
+                self.choice_leaves(left, leaves);
+                self.choice_leaves(right, leaves);
             }
+            _ => leaves.push(id),
         }
     }
     pub fn interleave(&self, left: PatId, right: PatId) -> PatId {
-- 
2.43.0


From 633757aeec043c2a2367f0b777946d3d94a37a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 08/38] fix: accept a compact schema that ends in a comment
 without a newline

---
 relaxng-syntax/src/compact.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..29ebdd0 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -8,10 +8,7 @@ use nom::{
     AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    character::complete::{char, multispace1, not_line_ending},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
-- 
2.43.0


From 7c5012b8669d0bb280a029b0a049ad20ab95fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 09/38] fix: don't panic on a name class followed by an
 annotation

---
 relaxng-syntax/src/compact.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 29ebdd0..8e21806 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -608,10 +608,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
 
     let (input, follow_annotations) = follow_annotation_list(input)?;
     if !follow_annotations.is_empty() {
-        println!(
-            "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
-        );
+        println!("name-class follow annotation found but ignored! {follow_annotations:?}");
     }
 
     if let Ok((input, right)) = alt_nc(input) {
-- 
2.43.0


From 7fb55992def0e747c6c4aa6162784f971b04c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 10/38] fix: report where a schema in the XML syntax is wrong
 without panicking

---
 relaxng-model/src/lib.rs  | 52 +++++++++++++++++++--------------------
 relaxng-syntax/src/xml.rs | 24 +++++++++---------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..8466210 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -50,15 +50,9 @@ impl Syntax {
         match self {
             Syntax::Xml => relaxng_syntax::xml::parse(file.source()).map_err(|e| {
                 let span = match &e {
-                    relaxng_syntax::xml::Error::Expected(span, _) => {
-                        file.span.subspan(span.start as _, span.end as _)
-                    }
-                    relaxng_syntax::xml::Error::Unexpected(span, _) => {
-                        file.span.subspan(span.start as _, span.end as _)
-                    }
-                    relaxng_syntax::xml::Error::Xml(span, _) => {
-                        file.span.subspan(span.start as _, span.end as _)
-                    }
+                    relaxng_syntax::xml::Error::Expected(span, _)
+                    | relaxng_syntax::xml::Error::Unexpected(span, _)
+                    | relaxng_syntax::xml::Error::Xml(span, _) => subspan_of(file, span),
                     relaxng_syntax::xml::Error::Todo(_) => file.span.subspan(0, 0),
                 };
                 RelaxError::XmlParse(span, e)
@@ -88,6 +82,24 @@ impl Syntax {
     }
 }
 
+/// The given range of bytes of the given file, as the kind of span used for diagnostics.
+///
+/// The positions of names and values within attributes of an XML schema are worked out from text in
+/// which character references and entities were already replaced, so might be off by a few bytes;
+/// but the resulting span must not reach beyond the file or split a character.
+fn subspan_of(file: &codemap::File, range: &Span) -> codemap::Span {
+    let boundary = |mut pos: usize| {
+        pos = pos.min(file.source().len());
+        while !file.source().is_char_boundary(pos) {
+            pos -= 1;
+        }
+        pos
+    };
+    let start = boundary(range.start);
+    let end = boundary(range.end).max(start);
+    file.span.subspan(start as u64, end as u64)
+}
+
 type Span = Range<usize>;
 
 #[derive(Debug)]
@@ -325,7 +337,7 @@ impl<'a> Context<'a> {
     /// Utility to convert a simple Span from the relaxng-compact-syntax model into the specialised
     /// Span type that we use for diagnostics
     fn convert_span(&self, span: &model::Span) -> codemap::Span {
-        self.file().span.subspan(span.start as u64, span.end as u64)
+        subspan_of(&self.file(), span)
     }
 
     // TODO: an enum to indicate either 'no namespace', or a uri
@@ -568,10 +580,7 @@ impl<'a> Context<'a> {
 
     fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(self.convert_span(&id.0))),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
@@ -1302,10 +1311,7 @@ impl<FS: Files> Compiler<FS> {
             .parent()
             .expect("TODO: no parent?")
             .join(inc.0.as_string_value());
-        let span = ctx
-            .file()
-            .span
-            .subspan((inc.0).0.start as u64, (inc.0).0.end as u64);
+        let span = ctx.convert_span(&(inc.0).0);
         let (file, s) = self
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
@@ -1574,10 +1580,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         reference: &types::Identifier,
     ) -> Result<model::Pattern, RelaxError> {
-        let span = ctx
-            .file()
-            .span
-            .subspan((reference.0).start as u64, (reference.0).end as u64);
+        let span = ctx.convert_span(&reference.0);
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
@@ -1589,10 +1592,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         reference: &types::Identifier,
     ) -> Result<model::Pattern, RelaxError> {
-        let span = ctx
-            .file()
-            .span
-            .subspan((reference.0).start as u64, (reference.0).end as u64);
+        let span = ctx.convert_span(&reference.0);
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..30bb53d 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -17,14 +17,14 @@ pub enum Error {
 pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
         // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
-        // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
+        // the errors from roxmltree give us a line number, and a character within that line, both
+        // counted from 1
+        let row = (e.pos().row as usize).saturating_sub(1);
+        let col = (e.pos().col as usize).saturating_sub(1);
+        let off: usize = text.split_inclusive('\n').take(row).map(str::len).sum();
+        let line = text[off..].lines().next().unwrap_or("");
+        let start = off + line.char_indices().nth(col).map_or(line.len(), |(i, _)| i);
+        let end = off + line.len();
         Error::Xml(start..end, e.to_string())
     })?;
     Ok(Schema {
@@ -873,14 +873,14 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    range.start..range.start + c.len_utf8(),
                     "Unexpected character for NcName",
                 ));
             }
         } else if !is_nc_name_char(c) {
             println!("NcName Urk! {val:?}");
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                range.start + i..range.start + i + c.len_utf8(),
                 "Unexpected character for NcName",
             ));
         }
@@ -910,13 +910,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    range.start..range.start + c.len_utf8(),
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                range.start + i..range.start + i + c.len_utf8(),
                 "Unexpected character within identifier",
             ));
         }
-- 
2.43.0


From bfc23f6450664fd25b576967b472f018f9988ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 11/38] fix: combine length facets in any order, and report
 facets given twice

---
 relaxng-model/src/datatype/xsd.rs | 47 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..8412f85 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -274,32 +274,27 @@ impl LengthFacet {
     }
 
     fn merge(&mut self, other: LengthFacet) -> Result<(), FacetError> {
-        *self = match self {
-            LengthFacet::Unbounded => other,
-            LengthFacet::MinLength(min) => match other {
-                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
-                LengthFacet::MinLength(_min) => {
-                    return Err(FacetError::ConflictingFacet("minLength"));
-                }
-                LengthFacet::MaxLength(max) => {
-                    if *min > max {
-                        return Err(FacetError::ConflictingFacet(
-                            "minLength greater than maxLength",
-                        ));
-                    }
-                    LengthFacet::MinMaxLength(*min, max)
+        *self = match (&*self, other) {
+            (LengthFacet::Unbounded, other) => other,
+            (&LengthFacet::MinLength(min), LengthFacet::MaxLength(max))
+            | (&LengthFacet::MaxLength(max), LengthFacet::MinLength(min)) => {
+                if min > max {
+                    return Err(FacetError::ConflictingFacet(
+                        "minLength greater than maxLength",
+                    ));
                 }
-                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
-            },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
+                LengthFacet::MinMaxLength(min, max)
             }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
+            (_, LengthFacet::Length(_)) | (LengthFacet::Length(_), _) => {
+                return Err(FacetError::ConflictingFacet("length"));
             }
-            LengthFacet::Length(_) => {
-                unimplemented!()
+            (_, LengthFacet::MinLength(_)) => {
+                return Err(FacetError::ConflictingFacet("minLength"));
+            }
+            (_, LengthFacet::MaxLength(_)) => {
+                return Err(FacetError::ConflictingFacet("maxLength"));
             }
+            (_, LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _)) => unreachable!(),
         };
         Ok(())
     }
@@ -433,7 +428,7 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => return Err(FacetError::ConflictingFacet("minInclusive")),
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -467,7 +462,7 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => return Err(FacetError::ConflictingFacet("minExclusive")),
         };
         Ok(())
     }
@@ -491,7 +486,7 @@ where
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => return Err(FacetError::ConflictingFacet("maxInclusive")),
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -525,7 +520,7 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => return Err(FacetError::ConflictingFacet("maxExclusive")),
         };
         Ok(())
     }
-- 
2.43.0


From dd30e332d22a6170b86f2937ba8e07623ad0c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 12/38] fix: be able to show every schema error, and allow a
 datatype prefix to be declared again as the same library

---
 relaxng-model/src/lib.rs | 65 +++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 8466210..c6fd75f 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -135,7 +135,10 @@ pub enum RelaxError {
         span: codemap::Span,
         prefix: String,
     },
-    DatatypePrefixAlreadyDefined(String),
+    DatatypePrefixAlreadyDefined {
+        span: codemap::Span,
+        prefix: String,
+    },
     DuplicateParameterName(String),
     /// the grammar has 'start = ...' more than once
     StartRuleRedefined,
@@ -401,13 +404,18 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn declare_datatype(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
+    fn declare_datatype(&mut self, prefix: String, uri: &types::Literal) -> Result<(), RelaxError> {
+        let span = self.convert_span(&uri.0);
+        let uri = uri.as_string_value();
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
-                    Entry::Occupied(e) => {
-                        Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
-                    }
+                    // the predeclared 'xsd', say, might be spelled out in the schema too
+                    Entry::Occupied(e) if *e.get() == uri => Ok(()),
+                    Entry::Occupied(e) => Err(RelaxError::DatatypePrefixAlreadyDefined {
+                        span,
+                        prefix: e.key().clone(),
+                    }),
                     Entry::Vacant(e) => {
                         e.insert(uri);
                         Ok(())
@@ -868,7 +876,19 @@ impl<FS: Files> Compiler<FS> {
                         spans: vec![label],
                     }
                 }
-                _ => panic!("{err:?}"),
+                relaxng_syntax::xml::Error::Todo(msg) => {
+                    let label = codemap_diagnostic::SpanLabel {
+                        span: *span,
+                        style: codemap_diagnostic::SpanStyle::Primary,
+                        label: None,
+                    };
+                    codemap_diagnostic::Diagnostic {
+                        level: codemap_diagnostic::Level::Error,
+                        message: format!("Not supported yet: {msg}"),
+                        code: None,
+                        spans: vec![label],
+                    }
+                }
             },
             RelaxError::UndefinedNamespacePrefix { span, prefix } => {
                 let label = codemap_diagnostic::SpanLabel {
@@ -930,9 +950,11 @@ impl<FS: Files> Compiler<FS> {
                 Errors::Xsd(e) => match e {
                     XsdDatatypeError::Facet { type_name, facet } => {
                         let mut labels = vec![];
+                        let mut message = format!("Problematic facet for {type_name} type");
                         match facet {
-                            FacetError::ConflictingFacet(_name) => {
-                                unimplemented!("Support for ConflictingFacet")
+                            FacetError::ConflictingFacet(name) => {
+                                message =
+                                    format!("Conflicting facets for {type_name} type: {name}");
                             }
                             FacetError::InvalidInt(span, msg) => {
                                 labels.push(codemap_diagnostic::SpanLabel {
@@ -965,7 +987,7 @@ impl<FS: Files> Compiler<FS> {
                         }
                         codemap_diagnostic::Diagnostic {
                             level: codemap_diagnostic::Level::Error,
-                            message: format!("Problematic facet for {type_name} type"),
+                            message,
                             code: None,
                             spans: labels,
                         }
@@ -1181,7 +1203,28 @@ impl<FS: Files> Compiler<FS> {
                     spans: vec![label],
                 }
             }
-            _ => panic!("{err:?}"),
+            RelaxError::NamespacePrefixAlreadyDefined { span, prefix }
+            | RelaxError::DatatypePrefixAlreadyDefined { span, prefix } => {
+                let label = codemap_diagnostic::SpanLabel {
+                    span: *span,
+                    style: codemap_diagnostic::SpanStyle::Primary,
+                    label: None,
+                };
+                codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("The prefix {prefix:?} is already defined"),
+                    code: None,
+                    spans: vec![label],
+                }
+            }
+            RelaxError::IncompatibleCombination { .. }
+            | RelaxError::DuplicateParameterName(_)
+            | RelaxError::StartRuleRedefined => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("{err:?}"),
+                code: None,
+                spans: vec![],
+            },
         }
     }
 
@@ -1864,7 +1907,7 @@ impl<FS: Files> Compiler<FS> {
                 }
             },
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
-                ctx.declare_datatype(prefix.clone(), uri.as_string_value())
+                ctx.declare_datatype(prefix.clone(), uri)
             }
         }
     }
-- 
2.43.0


From 524fb793c8539980a76256e1dd5bf13057d35bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 13/38] fix: report the first undefined reference, at the place
 where it is

---
 relaxng-model/src/lib.rs | 139 ++++++++++++++++++++++-----------------
 1 file changed, 78 insertions(+), 61 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c6fd75f..ce79948 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -181,10 +181,19 @@ pub enum RelaxError {
     },
 }
 
+/// The names known in some grammar; those which are defined, and also those which were only seen
+/// in references so far.
+#[derive(Default)]
+struct Refs {
+    rules: HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>,
+    // where each name was first referenced, if that was ahead of its definition
+    forward: Vec<(String, codemap::Span)>,
+}
+
 enum Context<'a> {
     Root {
         file: Arc<codemap::File>,
-        refs: RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>>,
+        refs: RefCell<Refs>,
         namespaces: HashMap<String, String>,
         default_namespace: String,
         datatypes: HashMap<String, String>,
@@ -206,7 +215,7 @@ enum Context<'a> {
     },
     Grammar {
         parent: &'a Context<'a>,
-        refs: RefCell<HashMap<String, Rc<RefCell<Option<model::DefineRule>>>>>,
+        refs: RefCell<Refs>,
     },
     // We track the context of a definition since the body of that definition must not reference
     // the identifier being defined, unless the reference is in the body of an element definition
@@ -241,7 +250,7 @@ impl<'a> Context<'a> {
         );
         Context::Root {
             file,
-            refs: RefCell::new(HashMap::new()),
+            refs: RefCell::new(Refs::default()),
             namespaces,
             default_namespace: "".to_string(),
             datatypes,
@@ -290,7 +299,7 @@ impl<'a> Context<'a> {
     fn new_grammar(&self) -> Context<'_> {
         Context::Grammar {
             parent: self,
-            refs: RefCell::new(HashMap::new()),
+            refs: RefCell::new(Refs::default()),
         }
     }
 
@@ -467,12 +476,13 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
                 let mut refs = refs.borrow_mut();
-                if refs.contains_key(id) {
-                    let a = refs.get(id);
+                if refs.rules.contains_key(id) {
+                    let a = refs.rules.get(id);
                     let mut rule_ref = a.unwrap().borrow_mut();
                     *rule_ref = Compiler::<FsFiles>::merge(id, rule_ref.take(), Some(rule))?
                 } else {
-                    refs.insert(id.to_string(), Rc::new(RefCell::new(Some(rule))));
+                    refs.rules
+                        .insert(id.to_string(), Rc::new(RefCell::new(Some(rule))));
                 }
                 Ok(())
             }
@@ -528,7 +538,7 @@ impl<'a> Context<'a> {
     {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
-                refs.borrow().get(ref_id).map(Clone::clone)
+                refs.borrow().rules.get(ref_id).map(Clone::clone)
             }
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
@@ -546,35 +556,45 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn ref_iter(
-        &self,
-    ) -> impl Iterator<
-        Item = (
-            std::string::String,
-            std::rc::Rc<std::cell::RefCell<std::option::Option<model::DefineRule>>>,
-        ),
-    > + '_ {
+    /// The first reference to a name for which there turned out to be no definition
+    fn undefined_ref(&self) -> Option<RelaxError> {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
-                refs.borrow().clone().into_iter()
+                let refs = refs.borrow();
+                refs.forward
+                    .iter()
+                    .find(|(name, _)| refs.rules[name].borrow().is_none())
+                    .map(|(name, span)| RelaxError::UndefinedReference {
+                        span: *span,
+                        identifier: name.clone(),
+                    })
             }
-            _ => panic!("ref_iter() only valid for root context"),
+            _ => panic!("undefined_ref() only valid for root or grammar context"),
         }
     }
 
-    fn acquire_ref(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
-        self.check_ref_recursion(ref_id)?;
-        self.acquire_ref_impl(ref_id)
+    fn acquire_ref(
+        &self,
+        ref_id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
+        self.check_ref_recursion(ref_id, span)?;
+        self.acquire_ref_impl(ref_id, span)
     }
-    fn acquire_ref_impl(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+    fn acquire_ref_impl(
+        &self,
+        ref_id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
                 let mut refs = refs.borrow_mut();
-                if let Some(r) = refs.get(&ref_id.1) {
+                if let Some(r) = refs.rules.get(&ref_id.1) {
                     Ok(model::PatRef(r.clone()))
                 } else {
                     let r = Rc::new(RefCell::new(None));
-                    refs.insert(ref_id.1.to_string(), r.clone());
+                    refs.rules.insert(ref_id.1.to_string(), r.clone());
+                    refs.forward.push((ref_id.1.to_string(), span));
                     Ok(model::PatRef(r))
                 }
             }
@@ -582,19 +602,23 @@ impl<'a> Context<'a> {
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_ref_impl(ref_id),
+            | Context::Attribute { parent, .. } => parent.acquire_ref_impl(ref_id, span),
         }
     }
 
-    fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+    fn acquire_parent_ref(
+        &self,
+        id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => Err(RelaxError::NoParentAvailable(self.convert_span(&id.0))),
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(span)),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
-            Context::Grammar { parent, .. } => parent.acquire_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id, span),
+            Context::Grammar { parent, .. } => parent.acquire_ref(id, span),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
@@ -602,7 +626,11 @@ impl<'a> Context<'a> {
     ///
     /// Such recursive references are allowed if the definition body includes an element, and the
     /// recursive reference is within the body of that element.
-    fn check_ref_recursion(&self, ref_id: &types::Identifier) -> Result<(), RelaxError> {
+    fn check_ref_recursion(
+        &self,
+        ref_id: &types::Identifier,
+        ref_span: codemap::Span,
+    ) -> Result<(), RelaxError> {
         match self {
             Context::Root { .. } => Ok(()),
             Context::Include { .. } => Ok(()),
@@ -612,7 +640,7 @@ impl<'a> Context<'a> {
                 if id.1 == ref_id.1 {
                     Err(RelaxError::RecursiveReference {
                         ref_id: ref_id.1.clone(),
-                        ref_span: self.convert_span(&ref_id.0),
+                        ref_span,
                         def_id: id.1.clone(),
                         def_span: self.convert_span(&id.0),
                     })
@@ -621,7 +649,7 @@ impl<'a> Context<'a> {
                 }
             }
             Context::Element { .. } => Ok(()),
-            Context::Attribute { parent, .. } => parent.check_ref_recursion(ref_id),
+            Context::Attribute { parent, .. } => parent.check_ref_recursion(ref_id, ref_span),
         }
     }
 
@@ -714,16 +742,8 @@ impl<FS: Files> Compiler<FS> {
         let (file, schema) = self.get_schema(name)?;
         let mut ctx = Context::new(file.clone());
         self.compile_schema(&mut ctx, schema)?;
-        for (name, r) in ctx.ref_iter() {
-            if r.borrow().is_none() {
-                //println!("Undefined {:?} :(", name);
-                return Err(RelaxError::UndefinedReference {
-                    span: file.span.subspan(0, 0),
-                    identifier: name,
-                });
-            } else {
-                //println!("Defined {:?} => :)", name);
-            }
+        if let Some(err) = ctx.undefined_ref() {
+            return Err(err);
         }
         if let Some(start) = ctx.get_ref("start") {
             let mut seen = HashSet::new();
@@ -1396,14 +1416,17 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
 
         if let Context::Include { overrides, .. } = inc_ctx {
-            for (name, (override_span, defined)) in overrides.borrow().iter() {
-                if !defined {
-                    return Err(RelaxError::OverrideMissingFromInclude {
-                        name: name.clone(),
-                        override_span: *override_span,
-                        include_span,
-                    });
-                }
+            let overrides = overrides.borrow();
+            let missing = overrides
+                .iter()
+                .filter(|(_, (_, defined))| !defined)
+                .min_by_key(|(_, (override_span, _))| override_span.low());
+            if let Some((name, (override_span, _))) = missing {
+                return Err(RelaxError::OverrideMissingFromInclude {
+                    name: name.clone(),
+                    override_span: *override_span,
+                    include_span,
+                });
             }
         } else {
             panic!()
@@ -1627,7 +1650,7 @@ impl<FS: Files> Compiler<FS> {
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
-            ctx.acquire_ref(reference)?,
+            ctx.acquire_ref(reference, span)?,
         ))
     }
     fn compile_parent(
@@ -1639,7 +1662,7 @@ impl<FS: Files> Compiler<FS> {
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
-            ctx.acquire_parent_ref(reference)?,
+            ctx.acquire_parent_ref(reference, span)?,
         ))
     }
     fn compile_external(
@@ -1670,14 +1693,8 @@ impl<FS: Files> Compiler<FS> {
                 for g in content {
                     self.compile_grammar_content_item(&mut child_ctx, g)?;
                 }
-                for (name, r) in child_ctx.ref_iter() {
-                    if r.borrow().is_none() {
-                        // TODO: retain span information for references so that we don't report bogus data
-                        return Err(RelaxError::UndefinedReference {
-                            span: child_ctx.convert_span(&(0..0)),
-                            identifier: name,
-                        });
-                    }
+                if let Some(err) = child_ctx.undefined_ref() {
+                    return Err(err);
                 }
                 if let Some(r) = child_ctx.get_ref("start") {
                     r.borrow_mut()
@@ -1851,7 +1868,7 @@ impl<FS: Files> Compiler<FS> {
             DatatypeName::Token => DatatypeName::Token,
             DatatypeName::CName(QName(namespace, name)) => DatatypeName::CName(QName(
                 NcName(
-                    0..0,
+                    namespace.0.clone(),
                     ctx.try_datatype_uri_for_prefix(namespace)?.to_string(),
                 ),
                 NcName(name.0.clone(), name.1.clone()),
-- 
2.43.0


From d2235ae88117b4086817063e0662f7782bc3afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 14/38] fix: compile an external grammar in the context of its
 own file

---
 relaxng-model/src/lib.rs | 75 ++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index ce79948..6ca751d 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1681,32 +1681,29 @@ impl<FS: Files> Compiler<FS> {
         let (file, s) = self
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
-        let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        self.compile_external_schema(&mut inc_ctx, &s)
+            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))
+    }
 
-        match &s.pattern_or_grammar {
-            types::PatternOrGrammar::Pattern(pat) => self
-                .compile_pattern(&mut inc_ctx, pat)
-                .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
+    /// Compiles a file that is used as a pattern, within the context of that file
+    fn compile_external_schema(
+        &mut self,
+        ctx: &mut Context,
+        schema: &Schema,
+    ) -> Result<model::Pattern, RelaxError> {
+        for dec in schema.decls.iter() {
+            self.compile_declaration(ctx, dec)?;
+        }
+        match &schema.pattern_or_grammar {
+            types::PatternOrGrammar::Pattern(pat) => self.compile_pattern(ctx, pat),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
                 let mut child_ctx = ctx.new_grammar();
-                for g in content {
-                    self.compile_grammar_content_item(&mut child_ctx, g)?;
-                }
+                self.compile_grammar_contents(&mut child_ctx, content)?;
                 if let Some(err) = child_ctx.undefined_ref() {
                     return Err(err);
                 }
-                if let Some(r) = child_ctx.get_ref("start") {
-                    r.borrow_mut()
-                        .take()
-                        .map(|d| match d {
-                            model::DefineRule::AssignCombine(_, _, p)
-                            | model::DefineRule::CombineOnly(_, _, p) => p,
-                        })
-                        .ok_or(RelaxError::StartRuleNotDefined { span: file_span })
-                } else {
-                    Err(RelaxError::StartRuleNotDefined { span: file_span })
-                }
+                Self::start_of_grammar(&child_ctx, ctx.file().span)
             }
         }
     }
@@ -1720,20 +1717,32 @@ impl<FS: Files> Compiler<FS> {
 
         let content = &grammar.content[..];
         self.compile_grammar_contents(&mut child_ctx, content)?;
-        if let Some(r) = child_ctx.get_ref("start") {
-            r.borrow_mut()
-                .take()
-                .map(|d| match d {
-                    model::DefineRule::AssignCombine(_, _, p)
-                    | model::DefineRule::CombineOnly(_, _, p) => p,
-                })
-                .ok_or_else(|| RelaxError::StartRuleNotDefined {
-                    span: ctx.convert_span(&grammar.span),
-                })
-        } else {
-            Err(RelaxError::StartRuleNotDefined {
-                span: ctx.convert_span(&grammar.span),
-            })
+        Self::start_of_grammar(&child_ctx, ctx.convert_span(&grammar.span))
+    }
+
+    /// The pattern that a nested grammar stands for
+    fn start_of_grammar(
+        grammar_ctx: &Context,
+        grammar_span: codemap::Span,
+    ) -> Result<model::Pattern, RelaxError> {
+        let start = grammar_ctx
+            .get_ref("start")
+            .filter(|r| r.borrow().is_some())
+            .ok_or(RelaxError::StartRuleNotDefined { span: grammar_span })?;
+        let shared = Rc::strong_count(&start) > 2;
+        if shared {
+            // other patterns of the grammar refer to its start, which therefore has to stay
+            let span = *start.borrow().as_ref().expect("start is defined").span();
+            return Ok(Pattern::Ref(
+                span,
+                "start".to_string(),
+                model::PatRef(start),
+            ));
+        }
+        match start.take().expect("start is defined") {
+            model::DefineRule::AssignCombine(_, _, p) | model::DefineRule::CombineOnly(_, _, p) => {
+                Ok(p)
+            }
         }
     }
 
-- 
2.43.0


From 3ea92515d7f2869504447679159ffc765e5aa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 15/38] fix: recognise a file that includes itself by way of
 the top-level file or of another spelling of its path

---
 relaxng-model/src/lib.rs | 42 ++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 6ca751d..b29c87c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -16,7 +16,7 @@ use std::fs::File;
 use std::io;
 use std::io::Read;
 use std::ops::Range;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -672,22 +672,46 @@ impl<'a> Context<'a> {
         this_file: Arc<codemap::File>,
     ) -> Result<(), RelaxError> {
         match self {
-            Context::Root { .. } => Ok(()),
             Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.check_include(span, this_file),
-            Context::Include { parent, file, .. } => {
+            Context::Root { file, .. } | Context::Include { file, .. } => {
                 if this_file.name() == file.name() {
                     return Err(RelaxError::RecursiveInclude {
                         name: this_file.name().to_string(),
                         span,
                     });
                 }
-                parent.check_include(span, this_file)
+                match self {
+                    Context::Include { parent, .. } => parent.check_include(span, this_file),
+                    _ => Ok(()),
+                }
+            }
+        }
+    }
+
+    /// The path of a file that the current file refers to
+    ///
+    /// Any `.` and `..` in the reference are resolved against the path of the current file, so that
+    /// a file which gets referred to in different ways is still recognised to be the same file.
+    fn resolve(&self, href: &str) -> PathBuf {
+        let file = self.file();
+        let base = Path::new(file.name()).parent().unwrap_or(Path::new(""));
+        let mut path = base.to_path_buf();
+        for part in Path::new(href).components() {
+            match part {
+                Component::CurDir => {}
+                Component::ParentDir
+                    if matches!(path.components().next_back(), Some(Component::Normal(_))) =>
+                {
+                    path.pop();
+                }
+                part => path.push(part),
             }
         }
+        path
     }
 }
 
@@ -1370,10 +1394,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         inc: &types::Include,
     ) -> Result<(), RelaxError> {
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(inc.0.as_string_value());
+        let path = ctx.resolve(&inc.0.as_string_value());
         let span = ctx.convert_span(&(inc.0).0);
         let (file, s) = self
             .get_schema(&path)
@@ -1673,10 +1694,7 @@ impl<FS: Files> Compiler<FS> {
         if external.1.is_some() {
             unimplemented!("inherit");
         }
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(external.0.as_string_value());
+        let path = ctx.resolve(&external.0.as_string_value());
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
             .get_schema(&path)
-- 
2.43.0


From 0869fc9e164e741669b85ef716868c9ffdf10504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 16/38] fix: report definitions that refer to each other
 recursively, rather than accepting a schema that can't be validated against

---
 relaxng-model/src/lib.rs | 84 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index b29c87c..cc1842a 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -771,8 +771,21 @@ impl<FS: Files> Compiler<FS> {
         }
         if let Some(start) = ctx.get_ref("start") {
             let mut seen = HashSet::new();
+            let mut defs = vec![model::PatRef(start.clone())];
             // TODO: this is a temporary hack to detect bad references; do this in a better way?
-            self.check(&mut seen, start.borrow().as_ref().unwrap().pattern())?;
+            self.check(
+                &mut seen,
+                &mut defs,
+                start.borrow().as_ref().unwrap().pattern(),
+            )?;
+            let mut finished = HashSet::new();
+            for def in &defs {
+                if let Some(rule) = def.0.borrow().as_ref() {
+                    let ptr = def.0.as_ptr() as usize;
+                    self.check_recursion(&mut vec![ptr], &mut finished, rule.pattern())?;
+                    finished.insert(ptr);
+                }
+            }
             Ok(start)
         } else {
             Err(RelaxError::StartRuleNotDefined { span: file.span })
@@ -780,11 +793,16 @@ impl<FS: Files> Compiler<FS> {
     }
 
     #[allow(clippy::only_used_in_recursion)]
-    fn check(&self, seen: &mut HashSet<usize>, patt: &model::Pattern) -> Result<(), RelaxError> {
+    fn check(
+        &self,
+        seen: &mut HashSet<usize>,
+        defs: &mut Vec<model::PatRef>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
         match patt {
             Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
                 for p in v {
-                    self.check(seen, p)?
+                    self.check(seen, defs, p)?
                 }
             }
             Pattern::Mixed(p)
@@ -793,7 +811,7 @@ impl<FS: Files> Compiler<FS> {
             | Pattern::OneOrMore(p)
             | Pattern::Attribute(_, p)
             | Pattern::Element(_, p)
-            | Pattern::List(p) => self.check(seen, p)?,
+            | Pattern::List(p) => self.check(seen, defs, p)?,
             Pattern::Empty
             | Pattern::Text
             | Pattern::NotAllowed
@@ -802,8 +820,9 @@ impl<FS: Files> Compiler<FS> {
                 let ptr = def.0.as_ptr() as usize;
                 if !seen.contains(&ptr) {
                     seen.insert(ptr);
+                    defs.push(def.clone());
                     if let Some(rule) = def.0.borrow().as_ref() {
-                        self.check(seen, rule.pattern())?
+                        self.check(seen, defs, rule.pattern())?
                     } else {
                         return Err(RelaxError::UndefinedReference {
                             span: *span,
@@ -814,7 +833,60 @@ impl<FS: Files> Compiler<FS> {
             }
             Pattern::DatatypeName { except, .. } => {
                 if let Some(e) = except.as_ref() {
-                    self.check(seen, e)?;
+                    self.check(seen, defs, e)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Checks that none of the definitions which the given pattern refers to leads back to one of
+    /// the definitions on the given path without having an element in between
+    #[allow(clippy::only_used_in_recursion)]
+    fn check_recursion(
+        &self,
+        path: &mut Vec<usize>,
+        finished: &mut HashSet<usize>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
+                for p in v {
+                    self.check_recursion(path, finished, p)?
+                }
+            }
+            Pattern::Mixed(p)
+            | Pattern::Optional(p)
+            | Pattern::ZeroOrMore(p)
+            | Pattern::OneOrMore(p)
+            | Pattern::Attribute(_, p)
+            | Pattern::List(p) => self.check_recursion(path, finished, p)?,
+            Pattern::DatatypeName {
+                except: Some(e), ..
+            } => self.check_recursion(path, finished, e)?,
+            Pattern::Element(_, _)
+            | Pattern::Empty
+            | Pattern::Text
+            | Pattern::NotAllowed
+            | Pattern::DatatypeValue { .. }
+            | Pattern::DatatypeName { except: None, .. } => {}
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                if let Some(rule) = def.0.borrow().as_ref() {
+                    if path.contains(&ptr) {
+                        return Err(RelaxError::RecursiveReference {
+                            ref_id: name.clone(),
+                            ref_span: *span,
+                            def_id: name.clone(),
+                            def_span: *rule.span(),
+                        });
+                    }
+                    if !finished.contains(&ptr) {
+                        path.push(ptr);
+                        self.check_recursion(path, finished, rule.pattern())?;
+                        path.pop();
+                        finished.insert(ptr);
+                    }
                 }
             }
         }
-- 
2.43.0


From 9ee812a77459ff4c3c41aa9205128ba0f087444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 17/38] fix: show how a file came to be included also for
 errors that are noticed late

---
 relaxng-model/src/lib.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index cc1842a..fef9521 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -735,6 +735,8 @@ pub struct Compiler<FS: Files> {
     fs: FS,
     syntax: Syntax,
     datatype_compiler: datatype::Compiler,
+    // for each file which the schema being compiled includes, the reference to that file
+    included_from: HashMap<codemap::Pos, codemap::Span>,
 }
 impl Default for Compiler<FsFiles> {
     fn default() -> Self {
@@ -749,6 +751,7 @@ impl<FS: Files> Compiler<FS> {
             fs,
             syntax,
             datatype_compiler: datatype::Compiler::default(),
+            included_from: HashMap::default(),
         }
     }
 
@@ -763,11 +766,12 @@ impl<FS: Files> Compiler<FS> {
         &mut self,
         name: &Path,
     ) -> Result<Rc<RefCell<Option<model::DefineRule>>>, RelaxError> {
+        self.included_from.clear();
         let (file, schema) = self.get_schema(name)?;
         let mut ctx = Context::new(file.clone());
         self.compile_schema(&mut ctx, schema)?;
         if let Some(err) = ctx.undefined_ref() {
-            return Err(err);
+            return Err(self.with_includes(err, &file));
         }
         if let Some(start) = ctx.get_ref("start") {
             let mut seen = HashSet::new();
@@ -777,12 +781,14 @@ impl<FS: Files> Compiler<FS> {
                 &mut seen,
                 &mut defs,
                 start.borrow().as_ref().unwrap().pattern(),
-            )?;
+            )
+            .map_err(|e| self.with_includes(e, &file))?;
             let mut finished = HashSet::new();
             for def in &defs {
                 if let Some(rule) = def.0.borrow().as_ref() {
                     let ptr = def.0.as_ptr() as usize;
-                    self.check_recursion(&mut vec![ptr], &mut finished, rule.pattern())?;
+                    self.check_recursion(&mut vec![ptr], &mut finished, rule.pattern())
+                        .map_err(|e| self.with_includes(e, &file))?;
                     finished.insert(ptr);
                 }
             }
@@ -792,6 +798,27 @@ impl<FS: Files> Compiler<FS> {
         }
     }
 
+    /// Adds how the given file came to include the file that the error is in, for an error that was
+    /// noticed only once the included file was dealt with.
+    fn with_includes(&self, mut err: RelaxError, file: &codemap::File) -> RelaxError {
+        let mut span = match &err {
+            RelaxError::UndefinedReference { span, .. }
+            | RelaxError::RecursiveReference { ref_span: span, .. } => *span,
+            _ => return err,
+        };
+        loop {
+            let within = self.codemap.find_file(span.low()).span;
+            if within == file.span {
+                return err;
+            }
+            match self.included_from.get(&within.low()) {
+                Some(reference) => span = *reference,
+                None => return err,
+            }
+            err = RelaxError::IncludeError(span, Box::new(err));
+        }
+    }
+
     #[allow(clippy::only_used_in_recursion)]
     fn check(
         &self,
@@ -1474,7 +1501,9 @@ impl<FS: Files> Compiler<FS> {
         // TODO: get the span of the grammar in the file, rather than the span of the whole file
         let include_span = file.span;
 
+        let file_pos = file.span.low();
         let mut inc_ctx = ctx.new_include(span, file)?;
+        self.included_from.insert(file_pos, span);
 
         if let Some(ref inherit) = inc.1 {
             let prefix = inherit.0.to_string();
@@ -1771,7 +1800,9 @@ impl<FS: Files> Compiler<FS> {
         let (file, s) = self
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
+        let file_pos = file.span.low();
         let mut inc_ctx = ctx.new_include(span, file)?;
+        self.included_from.insert(file_pos, span);
         self.compile_external_schema(&mut inc_ctx, &s)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))
     }
@@ -1791,7 +1822,7 @@ impl<FS: Files> Compiler<FS> {
                 let mut child_ctx = ctx.new_grammar();
                 self.compile_grammar_contents(&mut child_ctx, content)?;
                 if let Some(err) = child_ctx.undefined_ref() {
-                    return Err(err);
+                    return Err(self.with_includes(err, &ctx.file()));
                 }
                 Self::start_of_grammar(&child_ctx, ctx.file().span)
             }
-- 
2.43.0


From 1aad4a8d98016d8f72046cac69c10a755376a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 18/38] fix: look up prefixes in the overrides of an include in
 the file where they are written

---
 relaxng-model/src/lib.rs | 41 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index fef9521..82fd965 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -295,6 +295,17 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The context which has the include directive for this included file.  Overrides are written
+    /// in there, so it's what the prefixes and file names within the overrides are relative to.
+    fn including(&self) -> &Context<'a> {
+        match self {
+            Context::Include { parent, .. } => parent,
+            _ => {
+                unreachable!("Not a Context::Include");
+            }
+        }
+    }
+
     /// Creates a new context for the body of a grammar
     fn new_grammar(&self) -> Context<'_> {
         Context::Grammar {
@@ -330,15 +341,7 @@ impl<'a> Context<'a> {
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
+            Context::IncludeOverrides { parent } => parent.including().file(),
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -361,8 +364,8 @@ impl<'a> Context<'a> {
             | Context::Include {
                 default_namespace, ..
             } => &default_namespace[..],
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => parent.including().default_namespace_uri(),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.default_namespace_uri(),
@@ -405,8 +408,10 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.including().namespace_uri_for_prefix_str(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.namespace_uri_for_prefix_str(prefix),
@@ -464,8 +469,10 @@ impl<'a> Context<'a> {
                     parent.datatype_uri_for_prefix(prefix)
                 }
             }
-            Context::IncludeOverrides { parent }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent } => {
+                parent.including().datatype_uri_for_prefix(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.datatype_uri_for_prefix(prefix),
@@ -672,8 +679,10 @@ impl<'a> Context<'a> {
         this_file: Arc<codemap::File>,
     ) -> Result<(), RelaxError> {
         match self {
+            Context::IncludeOverrides { parent } => {
+                parent.including().check_include(span, this_file)
+            }
             Context::Grammar { parent, .. }
-            | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.check_include(span, this_file),
-- 
2.43.0


From 06151f1791b12aab3106e3e7a2e2294e26a3cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 19/38] fix: support 'div' in include overrides, 'inherit' for
 external files, and overrides that are given in several parts

---
 relaxng-model/src/lib.rs | 109 +++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 55 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 82fd965..aa0cfcb 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -511,15 +511,11 @@ impl<'a> Context<'a> {
                     ..
                 } = parent
                 {
-                    let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
-                        overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
-                    Ok(())
+                    overrides
+                        .borrow_mut()
+                        .entry(id.to_string())
+                        .or_insert((*rule.span(), false));
+                    parant_of_include.define(id, rule)
                 } else {
                     unreachable!(
                         "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
@@ -1492,10 +1488,34 @@ impl<FS: Files> Compiler<FS> {
     }
     fn compile_include_div(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        div: &[types::IncludeContent],
+    ) -> Result<(), RelaxError> {
+        for item in div {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_div(ctx, d)?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
+    }
+    /// Makes the namespace which an include or external directive refers to known in that file
+    fn inherit_namespace(
+        &self,
+        ctx: &Context,
+        inc_ctx: &mut Context,
+        inherit: &types::Inherit,
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        let prefix = inherit.0.to_string();
+        let namespace_uri = ctx
+            .namespace_uri_for_prefix_str(&prefix)
+            .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
+                span: ctx.convert_span(&inherit.0.span()),
+                prefix: prefix.clone(),
+            })?
+            .to_string();
+        inc_ctx.declare_namespace(prefix, namespace_uri)
     }
     fn compile_include(
         &mut self,
@@ -1515,32 +1535,14 @@ impl<FS: Files> Compiler<FS> {
         self.included_from.insert(file_pos, span);
 
         if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
+            self.inherit_namespace(ctx, &mut inc_ctx, inherit)?;
         }
 
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
             let mut override_ctx = inc_ctx.new_inc_overrides();
-            for o in overrides.iter() {
-                match o {
-                    types::IncludeContent::Define(d) => {
-                        self.compile_define(&mut override_ctx, d)
-                            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?
-                    }
-                    types::IncludeContent::Div(d) => self
-                        .compile_include_div(&mut override_ctx, &d[..])
-                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?,
-                    types::IncludeContent::Annotation(_) => (),
-                }
-            }
+            self.compile_include_div(&mut override_ctx, &overrides[..])
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         }
 
         self.compile_schema(&mut inc_ctx, s)
@@ -1801,9 +1803,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = ctx.resolve(&external.0.as_string_value());
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
@@ -1812,6 +1811,9 @@ impl<FS: Files> Compiler<FS> {
         let file_pos = file.span.low();
         let mut inc_ctx = ctx.new_include(span, file)?;
         self.included_from.insert(file_pos, span);
+        if let Some(ref inherit) = external.1 {
+            self.inherit_namespace(ctx, &mut inc_ctx, inherit)?;
+        }
         self.compile_external_schema(&mut inc_ctx, &s)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))
     }
@@ -2041,33 +2043,30 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
-                match uri {
-                    NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                    }
-                    NamespaceUriLiteral::Uri(uri) => {
-                        if let Some(p) = prefix {
-                            ctx.declare_namespace(p.clone(), uri.as_string_value())
-                        } else {
-                            Ok(())
-                        }
-                    }
+                if let Some(p) = prefix {
+                    let uri = Self::namespace_uri(ctx, uri);
+                    ctx.declare_namespace(p.clone(), uri)
+                } else {
+                    Ok(())
                 }
             }
-            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
-                NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                }
-                NamespaceUriLiteral::Uri(uri) => {
-                    ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-                }
-            },
+            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => {
+                let uri = Self::namespace_uri(ctx, uri);
+                ctx.declare_namespace(prefix.clone(), uri)
+            }
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
                 ctx.declare_datatype(prefix.clone(), uri)
             }
         }
     }
 
+    fn namespace_uri(ctx: &Context, uri: &NamespaceUriLiteral) -> String {
+        match uri {
+            NamespaceUriLiteral::Inherit => ctx.default_namespace_uri().to_string(),
+            NamespaceUriLiteral::Uri(uri) => uri.as_string_value(),
+        }
+    }
+
     #[allow(clippy::only_used_in_recursion)]
     fn compile_nameclass(
         &mut self,
-- 
2.43.0


From 82048ae87aaa371cc8474ed3bb87985fe3c466b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 20/38] fix: don't mix up the first and the repeated definition
 of a name

---
 relaxng-model/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index aa0cfcb..c0145bb 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1594,8 +1594,8 @@ impl<FS: Files> Compiler<FS> {
             (DefineRule::AssignCombine(this, _, _), DefineRule::AssignCombine(that, _, _)) => {
                 Err(RelaxError::DuplicateDefinition {
                     name: name.to_string(),
-                    duplicate: this,
-                    original: that,
+                    duplicate: that,
+                    original: this,
                 })
             }
             // choice-related cases,
@@ -1699,8 +1699,9 @@ impl<FS: Files> Compiler<FS> {
                 DefineRule::CombineOnly(this_span, CombineRule::Interleave, _),
                 DefineRule::AssignCombine(that_span, Some(CombineRule::Choice), _),
             ) => Err(RelaxError::DefineRulesMixesChoiceAndInterleave {
-                this_span,
-                that_span,
+                // of the two, 'b' is the one that was added later
+                this_span: that_span,
+                that_span: this_span,
             }),
         }
     }
-- 
2.43.0


From 270b1a257940f4474867063938b15d8f50624992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 21/38] fix: report a document that can't be read, rather than
 panicking

---
 relaxng-tool/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-tool/src/main.rs b/relaxng-tool/src/main.rs
index 7028499..4722cb9 100644
--- a/relaxng-tool/src/main.rs
+++ b/relaxng-tool/src/main.rs
@@ -29,9 +29,11 @@ fn validate(schema: PathBuf, xmls: Vec<PathBuf>) {
         }
     };
     for xml in xmls {
-        let mut f = File::open(&xml).expect("open example xml");
         let mut doc = String::new();
-        f.read_to_string(&mut doc).expect("read xml");
+        if let Err(err) = File::open(&xml).and_then(|mut f| f.read_to_string(&mut doc)) {
+            eprintln!("Problem loading {xml:?}: {err}");
+            exit(2);
+        }
         let src = doc.clone();
         let reader = xmlparser::Tokenizer::from(&src[..]);
         let mut v = Validator::new(model.clone(), reader);
-- 
2.43.0


From 02f46352e4d176568c9eec63ff829ce9ce5308fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 22/38] fix: report undefined references in nested grammars,
 even in definitions that nothing uses

---
 relaxng-model/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c0145bb..7d62894 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1850,6 +1850,9 @@ impl<FS: Files> Compiler<FS> {
 
         let content = &grammar.content[..];
         self.compile_grammar_contents(&mut child_ctx, content)?;
+        if let Some(err) = child_ctx.undefined_ref() {
+            return Err(self.with_includes(err, &ctx.file()));
+        }
         Self::start_of_grammar(&child_ctx, ctx.convert_span(&grammar.span))
     }
 
-- 
2.43.0


From 11ddfbeb0e90d01fda9a1dcb74f688ee2649084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 23/38] fix: report an ampersand at the very end of some text

---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 9660f5f..5e4ceca 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1560,7 +1560,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
-- 
2.43.0


From 9f4dd707fb1b4bcc466ea06446c202511bbfeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 24/38] fix: reject references to characters that XML does not
 allow, and those with a sign

---
 relaxng-validator/src/lib.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 5e4ceca..bdc3f93 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1601,22 +1601,20 @@ fn parse_entities(
         if text.is_empty() {
             return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
         }
-        let c = if let Some(text) = text.strip_prefix('x') {
-            let pos = pos + 1;
-            if text.is_empty() {
-                return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
-            }
-            u32::from_str_radix(text, 16)
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
-        } else {
-            text.parse()
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
+        let (pos, digits, radix) = match text.strip_prefix('x') {
+            Some(digits) => (pos + 1, digits, 16),
+            None => (pos, text, 10),
         };
-        Ok(Txt::Char(
-            pos,
-            std::char::from_u32(c)
-                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,
-        ))
+        // from_str_radix() would accept a sign, too
+        if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+            return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
+        }
+        u32::from_str_radix(digits, radix)
+            .ok()
+            .and_then(std::char::from_u32)
+            .filter(|c| is_xml_char(*c))
+            .map(|c| Txt::Char(pos, c))
+            .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })
     }
     Entities {
         text,
@@ -1650,6 +1648,12 @@ fn decode_entities<'a>(
     Ok(buffer)
 }
 
+/// Is this one of the characters that may be part of an XML document?
+fn is_xml_char(c: char) -> bool {
+    matches!(c,
+        '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
-- 
2.43.0


From ade99e27a473a8975da07f2e81c75e7aed239fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 25/38] fix: merge alternatives that only differ in what
 follows the current element

---
 relaxng-validator/src/lib.rs | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index bdc3f93..869799f 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -119,21 +119,45 @@ impl Schema {
             _ => {
                 let mut leaves = vec![];
                 self.choice_leaves(left, &mut leaves);
-                let mut seen: HashSet<PatId> = leaves.into_iter().collect();
-                let mut right_leaves = vec![];
-                self.choice_leaves(right, &mut right_leaves);
-                let count = right_leaves.len();
-                right_leaves.retain(|leaf| seen.insert(*leaf));
-                if right_leaves.len() == count {
+                self.choice_leaves(right, &mut leaves);
+                let count = leaves.len();
+                let mut seen = HashSet::new();
+                leaves.retain(|leaf| seen.insert(*leaf));
+                self.merge_after(&mut leaves);
+                if leaves.len() == count {
                     // nothing redundant
                     return self.push_choice(left, right);
                 }
-                right_leaves
+                leaves
                     .into_iter()
-                    .fold(left, |choice, leaf| self.push_choice(choice, leaf))
+                    .reduce(|choice, leaf| self.push_choice(choice, leaf))
+                    .expect("a choice has leaves")
             }
         }
     }
+    /// Alternatives that only differ in what follows the end of the current element, become one.
+    /// Without this, each level of nesting would multiply the number of alternatives for a schema
+    /// that is ambiguous about nested elements.
+    fn merge_after(&self, leaves: &mut Vec<PatId>) {
+        let mut rest: HashMap<PatId, Vec<PatId>> = HashMap::new();
+        for leaf in leaves.iter() {
+            if let Pat::After(content, following) = self.patt(*leaf) {
+                rest.entry(content).or_default().push(following);
+            }
+        }
+        let mut merged = HashSet::new();
+        leaves.retain_mut(|leaf| match self.patt(*leaf) {
+            Pat::After(content, _) if rest[&content].len() > 1 => {
+                *leaf = rest[&content]
+                    .iter()
+                    .copied()
+                    .reduce(|choice, following| self.choice(choice, following))
+                    .map_or(*leaf, |following| self.after(content, following));
+                merged.insert(content)
+            }
+            _ => true,
+        });
+    }
     fn push_choice(&self, left: PatId, right: PatId) -> PatId {
         let nullable = self.patt(left).is_nullable() || self.patt(right).is_nullable();
         self.push(Pat::Choice(left, right, nullable))
-- 
2.43.0


From 9790530d0671ab6a914a7bbb854385fca4da8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 26/38] fix: only the first declaration of an entity counts,
 and character references in its value are replaced

A repeated declaration used to replace the first one (even that of a
predefined entity), and a character reference in the value of an entity
was taken as literal text.
---
 relaxng-validator/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 869799f..b01f7b8 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -824,8 +824,11 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        let value = decode_char_references(val)?;
+                        // if a name is declared more than once, then only the first one counts
                         self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                            .entry(name.to_string())
+                            .or_insert(value);
                         // does not change current_step state
                         return Ok(());
                     }
@@ -1672,6 +1675,24 @@ fn decode_entities<'a>(
     Ok(buffer)
 }
 
+/// Replaces just the character references, which is what happens to the value of an entity when it is
+/// declared
+fn decode_char_references(text: StrSpan<'_>) -> Result<String, ValidatorError<'_>> {
+    let mut buffer = String::with_capacity(text.len());
+    for val in parse_entities(text.start(), text.as_str()) {
+        match val? {
+            Txt::Text(_pos, val) => buffer.push_str(val),
+            Txt::Char(_pos, val) => buffer.push(val),
+            Txt::Entity(_pos, name) => {
+                buffer.push('&');
+                buffer.push_str(name);
+                buffer.push(';');
+            }
+        }
+    }
+    Ok(buffer)
+}
+
 /// Is this one of the characters that may be part of an XML document?
 fn is_xml_char(c: char) -> bool {
     matches!(c,
-- 
2.43.0


From fdd3ea8a919456e4255d5e6b208e18dd6134427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 27/38] fix: resolve references within the values of entities,
 and reject values that are not well-formed

---
 relaxng-validator/src/lib.rs | 115 ++++++++++++++++++++++++++++++-----
 1 file changed, 100 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index b01f7b8..3a7fadd 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -5,7 +5,7 @@ use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
 use std::io;
 use std::rc::Rc;
-use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer};
+use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer, XmlCharExt};
 
 #[derive(Debug)]
 pub enum ValidatorError<'a> {
@@ -591,9 +591,10 @@ impl<'a> Validator<'a> {
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
         let mut entity_definitions = HashMap::default();
-        entity_definitions.insert("lt".to_string(), "<".to_string());
+        // (references within the value of an entity are replaced when it is referred to)
+        entity_definitions.insert("lt".to_string(), "&#60;".to_string());
         entity_definitions.insert("gt".to_string(), ">".to_string());
-        entity_definitions.insert("amp".to_string(), "&".to_string());
+        entity_definitions.insert("amp".to_string(), "&#38;".to_string());
         entity_definitions.insert("apos".to_string(), "'".to_string());
         entity_definitions.insert("quot".to_string(), "\"".to_string());
         Validator {
@@ -813,18 +814,21 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
             Token::Text { text } => {
-                let text = decode_entities(text, &self.entity_definitions)?;
+                let text = decode_entities(text, &self.entity_definitions, true)?;
                 self.add_text(evt, &text);
                 return Ok(());
             }
             Token::EntityDeclaration {
                 name,
                 definition,
-                span: _,
+                span,
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
                         let value = decode_char_references(val)?;
+                        if is_parameter_entity(span) {
+                            return Ok(());
+                        }
                         // if a name is declared more than once, then only the first one counts
                         self.entity_definitions
                             .entry(name.to_string())
@@ -937,7 +941,7 @@ impl<'a> Validator<'a> {
                 let attributes: Vec<_> = stack.current_attributes()?;
                 let mut pat = next_pat;
                 for (name, att) in attributes {
-                    let value = decode_entities(att.value, entity_definitions)?;
+                    let value = decode_entities(att.value, entity_definitions, false)?;
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, name, &value);
                     if let Pat::NotAllowed = schema.patt(pat) {
@@ -1651,18 +1655,31 @@ fn parse_entities(
     }
 }
 
-/// Replaces each entity and character reference with the text that it stands for
+/// Replaces each entity and character reference with the text that it stands for, in the content of an
+/// element or in the value of an attribute
 fn decode_entities<'a>(
     text: StrSpan<'a>,
     entity_definitions: &HashMap<String, String>,
+    content: bool,
 ) -> Result<String, ValidatorError<'a>> {
-    let mut buffer = String::with_capacity(text.len());
+    let mut expansion = Expansion {
+        entity_definitions,
+        content,
+        limit: NESTED_ENTITY_LIMIT,
+        buffer: String::with_capacity(text.len()),
+    };
     for val in parse_entities(text.start(), text.as_str()) {
         match val? {
-            Txt::Text(_pos, val) => buffer.push_str(val),
-            Txt::Char(_pos, val) => buffer.push(val),
+            Txt::Text(_pos, val) => expansion.buffer.push_str(val),
+            Txt::Char(_pos, val) => expansion.buffer.push(val),
             Txt::Entity(pos, name) => match entity_definitions.get(name) {
-                Some(val) => buffer.push_str(val),
+                Some(val) => {
+                    expansion
+                        .push(val, 0)
+                        .ok_or(ValidatorError::InvalidOrUnclosedEntity {
+                            span: pos..pos + name.len(),
+                        })?
+                }
                 None => {
                     return Err(ValidatorError::UndefinedEntity {
                         name,
@@ -1672,7 +1689,47 @@ fn decode_entities<'a>(
             },
         }
     }
-    Ok(buffer)
+    Ok(expansion.buffer)
+}
+
+/// how much text the references within the values of entities may add to a single piece of text
+const NESTED_ENTITY_LIMIT: usize = 1 << 20;
+/// how deep entities may refer to each other
+const NESTED_ENTITY_DEPTH: usize = 32;
+
+struct Expansion<'d> {
+    entity_definitions: &'d HashMap<String, String>,
+    content: bool,
+    limit: usize,
+    buffer: String,
+}
+
+impl Expansion<'_> {
+    /// Appends what the replacement text of an entity stands for, or returns `None` if that is not
+    /// well-formed, contains markup (which is not supported), refers to an entity that is not defined
+    /// or to itself, or becomes too large
+    fn push(&mut self, value: &str, depth: usize) -> Option<()> {
+        for val in parse_entities(0, value) {
+            match val.ok()? {
+                Txt::Text(_pos, val) => {
+                    if val.contains('<') || self.content && val.contains("]]>") {
+                        return None;
+                    }
+                    self.buffer.push_str(val)
+                }
+                Txt::Char(_pos, val) => self.buffer.push(val),
+                Txt::Entity(_pos, name) => {
+                    let val = self.entity_definitions.get(name)?;
+                    self.limit = self.limit.checked_sub(1 + val.len())?;
+                    if depth == NESTED_ENTITY_DEPTH {
+                        return None;
+                    }
+                    self.push(val, depth + 1)?;
+                }
+            }
+        }
+        Some(())
+    }
 }
 
 /// Replaces just the character references, which is what happens to the value of an entity when it is
@@ -1681,9 +1738,25 @@ fn decode_char_references(text: StrSpan<'_>) -> Result<String, ValidatorError<'_
     let mut buffer = String::with_capacity(text.len());
     for val in parse_entities(text.start(), text.as_str()) {
         match val? {
-            Txt::Text(_pos, val) => buffer.push_str(val),
+            Txt::Text(pos, val) => {
+                // there may be no references to parameter entities here
+                if let Some((i, c)) = val
+                    .char_indices()
+                    .find(|(_, c)| *c == '%' || !is_xml_char(*c))
+                {
+                    return Err(ValidatorError::InvalidOrUnclosedEntity {
+                        span: pos + i..pos + i + c.len_utf8(),
+                    });
+                }
+                buffer.push_str(val)
+            }
             Txt::Char(_pos, val) => buffer.push(val),
-            Txt::Entity(_pos, name) => {
+            Txt::Entity(pos, name) => {
+                if !is_xml_name(name) {
+                    return Err(ValidatorError::InvalidOrUnclosedEntity {
+                        span: pos..pos + name.len(),
+                    });
+                }
                 buffer.push('&');
                 buffer.push_str(name);
                 buffer.push(';');
@@ -1699,6 +1772,18 @@ fn is_xml_char(c: char) -> bool {
         '\x09' | '\x0a' | '\x0d' | '\x20'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
 }
 
+/// Is this the name of something, like an entity?
+fn is_xml_name(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_xml_name_start()) && name.chars().all(|c| c.is_xml_name())
+}
+
+/// Does this declare a parameter entity, which has a name of its own and is of no use in the document?
+fn is_parameter_entity(declaration: StrSpan<'_>) -> bool {
+    declaration
+        .strip_prefix("<!ENTITY")
+        .is_some_and(|rest| rest.trim_start().starts_with('%'))
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
@@ -1797,7 +1882,7 @@ impl<'a> ElementStack<'a> {
         entity_definitions: &HashMap<String, String>,
     ) -> Result<(), ValidatorError<'a>> {
         for ns in &mut self.elements.last_mut().unwrap().namespaces {
-            ns.namespace_uri = decode_entities(ns.attr.value, entity_definitions)?;
+            ns.namespace_uri = decode_entities(ns.attr.value, entity_definitions, false)?;
         }
         Ok(())
     }
-- 
2.43.0


From 57b406b6c040713e546f07f4616fb7d444368f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 28/38] fix: merge alternatives once per level of nesting
 rather than twice

The merged alternative was computed again for each duplicate it replaced, so that
the work doubled with each level of nested ambiguous elements.
---
 relaxng-validator/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 3a7fadd..bf72da0 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -148,12 +148,15 @@ impl Schema {
         let mut merged = HashSet::new();
         leaves.retain_mut(|leaf| match self.patt(*leaf) {
             Pat::After(content, _) if rest[&content].len() > 1 => {
+                if !merged.insert(content) {
+                    return false;
+                }
                 *leaf = rest[&content]
                     .iter()
                     .copied()
                     .reduce(|choice, following| self.choice(choice, following))
                     .map_or(*leaf, |following| self.after(content, following));
-                merged.insert(content)
+                true
             }
             _ => true,
         });
-- 
2.43.0


From 3135f84010a57003a22c119a6132be5663f7bb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 29/38] fix: show where facets that conflict are written

A facet that conflicts with another one was the only error of a schema
that was reported at no place at all: neither file nor line were shown.
---
 relaxng-model/src/datatype/xsd.rs | 22 +++++++++++++++++++---
 relaxng-model/src/lib.rs          | 17 +++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 8412f85..e4f2e84 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -235,6 +235,12 @@ pub enum XsdDatatypeError {
         type_name: &'static str,
         facet: FacetError,
     },
+    /// facets that are each fine, but don't go together
+    ConflictingFacets {
+        span: codemap::Span,
+        type_name: &'static str,
+        conflict: &'static str,
+    },
     UnsupportedDatatype {
         span: codemap::Span,
         name: String,
@@ -585,9 +591,19 @@ impl super::DatatypeCompiler for Compiler {
         params: &[types::Param],
     ) -> Result<Self::DT, Self::Error> {
         match datatype_name {
-            types::DatatypeName::CName(types::QName(_namespace_uri, name)) => {
-                self.compile(ctx, &name.0, &name.1, params)
-            }
+            types::DatatypeName::CName(types::QName(_namespace_uri, name)) => self
+                .compile(ctx, &name.0, &name.1, params)
+                .map_err(|err| match err {
+                    XsdDatatypeError::Facet {
+                        type_name,
+                        facet: FacetError::ConflictingFacet(conflict),
+                    } => XsdDatatypeError::ConflictingFacets {
+                        span: ctx.convert_span(&name.0),
+                        type_name,
+                        conflict,
+                    },
+                    err => err,
+                }),
             _ => panic!("Unexpected {datatype_name:?}"),
         }
     }
diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 7d62894..0274769 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1140,6 +1140,23 @@ impl<FS: Files> Compiler<FS> {
                             spans: labels,
                         }
                     }
+                    XsdDatatypeError::ConflictingFacets {
+                        span,
+                        type_name,
+                        conflict,
+                    } => {
+                        let label = codemap_diagnostic::SpanLabel {
+                            span: *span,
+                            style: codemap_diagnostic::SpanStyle::Primary,
+                            label: None,
+                        };
+                        codemap_diagnostic::Diagnostic {
+                            level: codemap_diagnostic::Level::Error,
+                            message: format!("Conflicting facets for {type_name} type: {conflict}"),
+                            code: None,
+                            spans: vec![label],
+                        }
+                    }
                     XsdDatatypeError::UnsupportedDatatype { span, name } => {
                         let label = codemap_diagnostic::SpanLabel {
                             span: *span,
-- 
2.43.0


From 02711c9c4d0258bfd5d0fdcd71e254636ebe65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:22 +0000
Subject: [PATCH 30/38] fix: resolve references against an xml:base that ends
 in a dot segment

The last segment of a base URI is dropped when a relative reference is
resolved against it; but '.' and '..' stand for directories and not for
the name of a file.
---
 relaxng-syntax/src/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 30bb53d..e5ade64 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -754,7 +754,9 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
     } else {
         match *result {
             Some(ref mut old) => {
-                if !old.to_str().unwrap().ends_with("/") {
+                // the last part of a base is the name of a file, unless it stands for a directory
+                let last = old.to_str().unwrap().rsplit('/').next().unwrap_or("");
+                if !matches!(last, "" | "." | "..") {
                     old.pop();
                 }
                 old.push(new);
-- 
2.43.0


From 1836d6ed4d4a723e67ce145dd6f6f7fd2d9c8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 31/38] fix: don't panic where standard output can't be written

---
 relaxng-syntax/src/compact.rs | 10 +++++-----
 relaxng-syntax/src/lib.rs     |  9 +++++++++
 relaxng-syntax/src/xml.rs     |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 8e21806..2ecc6bb 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -311,7 +311,7 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 fn pattern(input: Span) -> IResult<Span, Pattern> {
     let (input, annotation) = maybe_initial_annotation(input)?;
     if let Some(annotation) = annotation {
-        println!("pattern annotation found but ignored! {:?}", annotation);
+        note!("pattern annotation found but ignored! {:?}", annotation);
     }
     let (input, mut result) = alt((
         map(element_pattern, Pattern::Element),
@@ -335,7 +335,7 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 
     let (mut input, follow_annotations) = follow_annotation_list(input)?;
     if !follow_annotations.is_empty() {
-        println!("pattern follow annotation found but ignored! {follow_annotations:?}");
+        note!("pattern follow annotation found but ignored! {follow_annotations:?}");
     }
 
     loop {
@@ -595,7 +595,7 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 fn name_class(input: Span) -> IResult<Span, NameClass> {
     let (input, annotation) = maybe_initial_annotation(input)?;
     if annotation.is_some() {
-        println!("name-class annotation found but ignored!")
+        note!("name-class annotation found but ignored!")
     }
     let (input, left) = alt((
         map(ns_name_nc, NameClass::NsName),
@@ -608,7 +608,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
 
     let (input, follow_annotations) = follow_annotation_list(input)?;
     if !follow_annotations.is_empty() {
-        println!("name-class follow annotation found but ignored! {follow_annotations:?}");
+        note!("name-class follow annotation found but ignored! {follow_annotations:?}");
     }
 
     if let Ok((input, right)) = alt_nc(input) {
@@ -847,7 +847,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
 fn include_content(input: Span) -> IResult<Span, IncludeContent> {
     let (input, annotation) = maybe_initial_annotation(input)?;
     if annotation.is_some() {
-        println!("include-content annotation found but ignored!")
+        note!("include-content annotation found but ignored!")
     }
     alt((
         map(annotation_element, IncludeContent::Annotation),
diff --git a/relaxng-syntax/src/lib.rs b/relaxng-syntax/src/lib.rs
index e505b03..d347c7e 100644
--- a/relaxng-syntax/src/lib.rs
+++ b/relaxng-syntax/src/lib.rs
@@ -1,3 +1,12 @@
+/// Prints a line to standard output, where that's possible: unlike with `println!()`, failing to
+/// is no reason to panic.
+macro_rules! note {
+    ($($arg:tt)*) => {{
+        use std::io::Write;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
 pub mod compact;
 pub mod types;
 pub mod xml;
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index e5ade64..a9066bc 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -880,7 +880,7 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
                 ));
             }
         } else if !is_nc_name_char(c) {
-            println!("NcName Urk! {val:?}");
+            note!("NcName Urk! {val:?}");
             return Err(Error::Unexpected(
                 range.start + i..range.start + i + c.len_utf8(),
                 "Unexpected character for NcName",
-- 
2.43.0


From 521e4d103e9a8c827a731d5430b58bd9a0ab458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 32/38] fix: don't take names that start like string or token
 for those types

---
 relaxng-syntax/src/compact.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 2ecc6bb..d458490 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -584,9 +584,11 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "string"
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
+    // 'strings', or 'token:x', only starts like the name of a built-in type
+    let end = || peek(not(alt((nc_name_char, char(':')))));
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
+        map((tag("string"), end()), |_| DatatypeName::String),
+        map((tag("token"), end()), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
     ))
     .parse(input)
-- 
2.43.0


From 993052af0e7efef5077901b2a8d5f2118b4af1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 33/38] fix: don't take a pattern's keyword for an annotation
 among definitions

---
 relaxng-syntax/src/compact.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index d458490..919865a 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -713,7 +713,7 @@ fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
         map(define, GrammarContent::Define),
         map(div_grammar_content, GrammarContent::Div),
         map(include, GrammarContent::Include),
-        map(annotation_element, GrammarContent::Annotation),
+        map(annotation_element_not_keyword, GrammarContent::Annotation),
     ))
     .parse(input)
 }
@@ -852,7 +852,7 @@ fn include_content(input: Span) -> IResult<Span, IncludeContent> {
         note!("include-content annotation found but ignored!")
     }
     alt((
-        map(annotation_element, IncludeContent::Annotation),
+        map(annotation_element_not_keyword, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
         map(start, IncludeContent::Define),
         map(div_include_content, IncludeContent::Div),
@@ -972,6 +972,11 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
     parser.parse(input)
 }
 
+// among definitions, "element [ ... ]" is the start of a pattern
+fn annotation_element_not_keyword(input: Span) -> IResult<Span, AnnotationElement> {
+    preceded(not((keyword, peek(not(char(':'))))), annotation_element).parse(input)
+}
+
 fn annotation_element_or_literal(input: Span) -> IResult<Span, AnnotationElementOrLiteral> {
     let mut parser = alt((
         map(annotation_element, AnnotationElementOrLiteral::Element),
-- 
2.43.0


From a21e1b439b2796792d1aab306ae2a87e4318aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 34/38] fix: don't take attributes of other namespaces for
 RELAX NG's own

---
 relaxng-syntax/src/xml.rs | 47 +++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index a9066bc..7c6fbf6 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -84,7 +84,7 @@ fn pattern(node: Node) -> Result<Pattern> {
 }
 
 fn check_standard_attrs(node: Node) -> Result<()> {
-    if let Some(dt_lib) = node.attribute_node("datatypeLibrary") {
+    if let Some(dt_lib) = rng_att(node, "datatypeLibrary") {
         let val = dt_lib.value();
         if val.is_empty() {
             Ok(())
@@ -137,7 +137,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 }
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, pattern) = if let Some(name) = rng_att(node, "name") {
         let name_class = NameClass::Name(qname_att(node, &name)?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
@@ -270,7 +270,7 @@ fn get_ns(node: Node) -> Option<Literal> {
 fn get_ns_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("ns") {
+        if let Some(ns) = rng_att(node, "ns") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -287,7 +287,7 @@ fn get_datatype_lib(node: Node) -> Option<Literal> {
 fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("datatypeLibrary") {
+        if let Some(ns) = rng_att(node, "datatypeLibrary") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -319,7 +319,7 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let ns = get_ns_att(node);
-    let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, rest) = if let Some(name) = rng_att(node, "name") {
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -426,7 +426,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_att(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -435,7 +435,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_att(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -459,8 +459,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_name = node
-        .attribute_node("type")
+    let type_name = rng_att(node, "type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
     let val = if let Some(child) = node.first_child() {
@@ -493,9 +492,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
-    let type_attr = node
-        .attribute_node("type")
-        .ok_or(Error::Expected(node.range(), "type attribute"))?;
+    let type_attr = rng_att(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
         // TODO: check datatypeLibrary namespace!
         "token" => DatatypeName::Token,
@@ -569,9 +566,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = rng_att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     let child = node
@@ -600,9 +595,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = rng_att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
     //       be altered to make using it here simpler
@@ -651,7 +644,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 }
 
 fn start(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -688,7 +681,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -703,9 +696,7 @@ fn define(node: Node) -> Result<Define> {
         AssignMethod::Assign
     };
 
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = rng_att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     let patt = single_pattern_or_group(
@@ -768,9 +759,7 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = rng_att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     let seg = LiteralSegment {
         body: rebase_path(node, href.value())?,
@@ -964,6 +953,12 @@ fn is_rng_node(node: Node) -> bool {
     is_rng(node.tag_name().namespace())
 }
 
+/// The RELAX NG attribute of this name (and not one from another namespace, which is an annotation)
+fn rng_att<'a, 'input: 'a>(node: Node<'a, 'input>, name: &str) -> Option<Attribute<'a, 'input>> {
+    node.attributes()
+        .find(|a| is_rng_att(a) && a.name() == name)
+}
+
 fn is_rng_att(a: &Attribute) -> bool {
     // if an attribute has no namespace prefix, then it is not formally in the default namesapce
     // of the document (as an element with no namespace prefix would be).  Here we assume that we
-- 
2.43.0


From 8aa9af23af51af1d86f424cb6e4a499c58baa9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 35/38] fix: resolve the prefix of a qualified name given as an
 element's content

---
 relaxng-syntax/src/xml.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 7c6fbf6..6c34b57 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -837,11 +837,18 @@ fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
     if let Some(val) = name.text() {
         if let Some(pos) = val.find(':') {
-            let start = name.range().start;
-            let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
+            let Range { start, end } = name.first_child().unwrap().range();
+            let prefix_span = start..(start + pos);
+            let namespace =
+                lookup_namespace_def(name, Some(val[0..pos].trim())).ok_or_else(|| {
+                    Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix")
+                })?;
+            let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
+            let ns = Literal::new(prefix_span, namespace.to_string());
+            Ok(Name::NamespacedName(NamespacedName {
+                namespace_uri: ns,
+                localname,
+            }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
             let localname = ncname(name.first_child().unwrap().range(), val)?;
-- 
2.43.0


From 7b833b15b2cc04715eb1573e81131df4295c2f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:31 +0000
Subject: [PATCH 36/38] fix: point at the wrong character of a name that has
 space ahead of it

---
 relaxng-syntax/src/xml.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 6c34b57..61df8b1 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -721,7 +721,7 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        ident(attr.range_value(), attr.value())
     }
 }
 
@@ -863,6 +863,7 @@ fn qname_el(name: Node) -> Result<Name> {
 }
 
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
+    let start = range.start + (val.len() - val.trim_start().len());
     let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
@@ -871,14 +872,14 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + c.len_utf8(),
+                    start..start + c.len_utf8(),
                     "Unexpected character for NcName",
                 ));
             }
         } else if !is_nc_name_char(c) {
             note!("NcName Urk! {val:?}");
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + c.len_utf8(),
+                start + i..start + i + c.len_utf8(),
                 "Unexpected character for NcName",
             ));
         }
@@ -900,6 +901,7 @@ fn lookup_namespace_def<'a, 'input: 'a>(
 }
 
 fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
+    let start = range.start + (val.len() - val.trim_start().len());
     let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
@@ -908,13 +910,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + c.len_utf8(),
+                    start..start + c.len_utf8(),
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + c.len_utf8(),
+                start + i..start + i + c.len_utf8(),
                 "Unexpected character within identifier",
             ));
         }
-- 
2.43.0


From 4b89b4a1a4ddb3fd9289e4af9991df2a7b1e6e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:55 +0000
Subject: [PATCH 37/38] fix: accept file names that are not UTF-8

---
 relaxng-tool/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-tool/src/main.rs b/relaxng-tool/src/main.rs
index 4722cb9..509f18a 100644
--- a/relaxng-tool/src/main.rs
+++ b/relaxng-tool/src/main.rs
@@ -10,7 +10,12 @@ use structopt::StructOpt;
 
 #[derive(Debug, StructOpt)]
 enum Cli {
-    Validate { schema: PathBuf, xml: Vec<PathBuf> },
+    Validate {
+        #[structopt(parse(from_os_str))]
+        schema: PathBuf,
+        #[structopt(parse(from_os_str))]
+        xml: Vec<PathBuf>,
+    },
 }
 
 fn main() {
-- 
2.43.0


From f2f251de6a8cd76950799251c81b91f06439766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:55 +0000
Subject: [PATCH 38/38] fix: ignore a byte order mark at the start of a compact
 schema

---
 relaxng-syntax/src/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 919865a..5b9b00b 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -29,6 +29,8 @@ pub type Span<'a> = LocatedSpan<&'a str>;
 //    in multiple alternatives
 
 pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
+    // a byte order mark is no part of the schema's text
+    let (input, _) = opt(char('\u{feff}')).parse(input)?;
     all_consuming((space_comment0, top_level, space_comment0))
         .parse(input)
         .map(|(_, (_, r, _))| r)
-- 
2.43.0

