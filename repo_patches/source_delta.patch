From cdaf1a9977f9fffd88db5e8bedbe15dce158828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 01/15] fix: do not discard the rest of an INCLUDE section that
 fails to parse

The terminator of an expanded INCLUDE section skipped everything up to the
next "]]>", so content that could not be parsed silently vanished.
---
 src/parser/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 029db1f..d01c0c1 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -175,7 +175,7 @@ where
                     |input| content(input, config, MarkedSectionEndHandling::StopParsing),
                     EventIter::from_iter,
                 ),
-                raw::marked_section_body_character_data,
+                raw::marked_section_end,
             )(input),
         },
     }
-- 
2.43.0


From 5b1db88ab1df92c5ffe5a5326a2d6362133bc013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 02/15] fix: accept INCLUDE sections that are empty or start
 with a comment

---
 src/parser/events.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index d01c0c1..e62c660 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -140,9 +140,7 @@ where
                 MarkedSectionStatus::CData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::RcData => raw::marked_section_body_character_data(input),
                 MarkedSectionStatus::Include => terminated(
-                    recognize(|input| {
-                        content(input, config, MarkedSectionEndHandling::StopParsing)
-                    }),
+                    recognize(|input| marked_section_content(input, config)),
                     raw::marked_section_end,
                 )(input),
             }?;
@@ -172,7 +170,7 @@ where
             }
             MarkedSectionStatus::Include => terminated(
                 map(
-                    |input| content(input, config, MarkedSectionEndHandling::StopParsing),
+                    |input| marked_section_content(input, config),
                     EventIter::from_iter,
                 ),
                 raw::marked_section_end,
@@ -213,6 +211,26 @@ where
     )(input)
 }
 
+/// Matches the content of an `INCLUDE` marked section: any number of [`content_item`]s, possibly none.
+fn marked_section_content<'a, E>(
+    input: &'a str,
+    config: &ParserConfig,
+) -> IResult<&'a str, impl Iterator<Item = SgmlEvent<'a>>, E>
+where
+    E: ParseError<&'a str> + ContextError<&'a str> + FromExternalError<&'a str, Error>,
+{
+    let (input, _) = many0_count(comment_declaration)(input)?;
+    let (rest, items) = if raw::marked_section_end::<E>(input).is_ok() {
+        (input, None)
+    } else {
+        map(
+            |input| content(input, config, MarkedSectionEndHandling::StopParsing),
+            Some,
+        )(input)?
+    };
+    Ok((rest, items.into_iter().flatten()))
+}
+
 /// Matches a single unit of content --- a tag, text data, processing instruction, or section declaration.
 pub fn content_item<'a, E>(
     input: &'a str,
-- 
2.43.0


From 405cda61344b9d982e3c1f07f54c96395a9a002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 03/15] fix: recognize the empty comment declaration after text

In the middle of a text run, "<!>" was delivered as part of the text,
although it is skipped as a comment everywhere else.
---
 src/parser/raw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/raw.rs b/src/parser/raw.rs
index 31c6ece..fb24df8 100644
--- a/src/parser/raw.rs
+++ b/src/parser/raw.rs
@@ -182,6 +182,7 @@ where
                 not(alt((
                     tag("?"),
                     tag("!-"),
+                    tag("!>"),
                     tag("!["),
                     preceded(tag("!"), name_start),
                     // Minimally matching start/end tags: "<>", "</>", "<x", or "</x"
-- 
2.43.0


From b9e3221224a7a478327e154cb87694667753f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 04/15] fix: report undefined entities wherever they occur

Only an undefined entity in the very first content item was named in the
error; later ones were reported as an unexpected character.
---
 src/parser/events.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index e62c660..9c42e6b 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -94,7 +94,10 @@ where
 {
     context("marked section declaration", |input| {
         let (rest, raw_status_keywords) = raw::marked_section_start_and_keywords(input)?;
-        let status_keywords = config.parse_markup_declaration_text(raw_status_keywords)?;
+        let (_, status_keywords) = cut(|_| {
+            let expanded = config.parse_markup_declaration_text(raw_status_keywords)?;
+            Ok((rest, expanded))
+        })(raw_status_keywords)?;
 
         let status = match config
             .marked_section_handling
@@ -161,12 +164,9 @@ where
             })(input),
             MarkedSectionStatus::RcData => {
                 let (rest, content) = raw::marked_section_body_character_data(input)?;
-                Ok((
-                    rest,
-                    EventIter::once(SgmlEvent::Character(
-                        config.parse_rcdata(config.trim(content))?,
-                    )),
-                ))
+                let (_, text) =
+                    cut(|_| Ok((rest, config.parse_rcdata(config.trim(content))?)))(content)?;
+                Ok((rest, EventIter::once(SgmlEvent::Character(text))))
             }
             MarkedSectionStatus::Include => terminated(
                 map(
@@ -359,10 +359,9 @@ where
     if s.is_empty() {
         return Ok((rest, EventIter::empty()));
     }
-    Ok((
-        rest,
-        EventIter::once(SgmlEvent::Character(config.parse_rcdata(s)?)),
-    ))
+    // An undefined entity is final: backtracking would only hide which one it was
+    let (rest, expanded) = cut(|_| Ok((rest, config.parse_rcdata(s)?)))(s)?;
+    Ok((rest, EventIter::once(SgmlEvent::Character(expanded))))
 }
 
 /// An iterator over a sequence of events.
-- 
2.43.0


From 1bff6c464c01bdf5aaa8a7103b37688cd4822894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 05/15] fix: count columns of error positions in characters

They were counted in bytes but used as character positions, which misplaced
the caret on lines with non-ASCII text, and panicked on longer ones.
---
 src/parser/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/error.rs b/src/parser/error.rs
index 74bce1d..bcc1fcf 100644
--- a/src/parser/error.rs
+++ b/src/parser/error.rs
@@ -98,7 +98,7 @@ impl<'a> LocatedLine<'a> {
 
         let line_start_offset = input_before.rfind('\n').map(|n| n + 1).unwrap_or(0);
         let line_number = input_before.split('\n').count();
-        let column_number = offset - line_start_offset + 1;
+        let column_number = input[line_start_offset..offset].chars().count() + 1;
 
         LocatedLine {
             line: input[line_start_offset..].lines().next().unwrap_or(""),
-- 
2.43.0


From 8b34543a5d6c8f5a89436e7455eb10c5d0c81556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 06/15] fix: normalize titlecase letters in names

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 15e0f87..23d9421 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -158,10 +158,16 @@ impl Default for NameNormalization {
 impl NameNormalization {
     pub fn normalize<'a>(&self, name: Cow<'a, str>) -> Cow<'a, str> {
         match self {
-            NameNormalization::ToLowercase if name.chars().any(char::is_uppercase) => {
+            // Titlecase characters (like 'ǅ') change in both directions,
+            // although they're neither uppercase nor lowercase
+            NameNormalization::ToLowercase
+                if name.chars().any(|c| c.to_lowercase().next() != Some(c)) =>
+            {
                 name.to_lowercase().into()
             }
-            NameNormalization::ToUppercase if name.chars().any(char::is_lowercase) => {
+            NameNormalization::ToUppercase
+                if name.chars().any(|c| c.to_uppercase().next() != Some(c)) =>
+            {
                 name.to_uppercase().into()
             }
             _ => name,
-- 
2.43.0


From e4c76f85734da5084d48d0e271e8e987d0c8f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 07/15] fix: lowercase names independently of the position of
 sigma

---
 src/parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 23d9421..be3dfa3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -163,7 +163,11 @@ impl NameNormalization {
             NameNormalization::ToLowercase
                 if name.chars().any(|c| c.to_lowercase().next() != Some(c)) =>
             {
-                name.to_lowercase().into()
+                // `str::to_lowercase` is context-sensitive: it could tell 'ΑΣ' and 'Ασ' apart
+                name.chars()
+                    .flat_map(char::to_lowercase)
+                    .collect::<String>()
+                    .into()
             }
             NameNormalization::ToUppercase
                 if name.chars().any(|c| c.to_uppercase().next() != Some(c)) =>
-- 
2.43.0


From 60fc8ae088ef2216d36066381fc400568dde1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 08/15] fix: return an error instead of panicking on
 unsupported events after a child element

---
 src/de/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 387547e..9d0b856 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -226,6 +226,16 @@ impl<'de> SgmlDeserializer<'de> {
 
     /// Consumes all events until the current top of the stack is popped.
     fn pop_elt(&mut self) -> Result<(), DeserializationError> {
+        self.skip_to_end_tag()?;
+        if self.stack.is_empty() {
+            // What comes after the root element is not of our concern
+            return Ok(());
+        }
+        self.normalize_at_cursor()
+    }
+
+    /// Consumes all events up to the end of the current element, and pops it off the stack.
+    fn skip_to_end_tag(&mut self) -> Result<(), DeserializationError> {
         let stack_size = self.stack.len();
         trace!(
             "popping({}): {:?}",
@@ -256,7 +266,7 @@ impl<'de> SgmlDeserializer<'de> {
                 }
                 SgmlEvent::OpenStartTag { name } => {
                     self.stack.push(name);
-                    self.pop_elt()?;
+                    self.skip_to_end_tag()?;
                 }
                 _ => {}
             };
@@ -759,7 +769,9 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
                         debug!("next key: $value (for element {:?})", name);
                         seed.deserialize("$value".into_deserializer()).map(Some)
                     }
-                    ContentStrategy::TextOnly => unreachable!(),
+                    ContentStrategy::TextOnly => Err(DeserializationError::Unsupported(
+                        SgmlEvent::OpenStartTag { name: mem::take(name) }.into_owned(),
+                    )),
                 },
                 SgmlEvent::Character(text) => {
                     let text = mem::take(text);
-- 
2.43.0


From 6a57360818bda5fbb4976714c4b07a13f4b8cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 09/15] fix: reject values that consume no events instead of
 looping forever

For instance, reading an attribute into a HashMap<String, Vec<String>> never ended.
---
 src/de/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 9d0b856..50848d9 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -349,6 +349,19 @@ impl<'de> SgmlDeserializer<'de> {
         Ok(value)
     }
 
+    /// Fails if no event was consumed since there were `remaining` left.
+    ///
+    /// Values that take nothing from the input (e.g. a sequence read from an attribute)
+    /// would leave the cursor in place, and make maps and sequences loop forever.
+    fn expect_progress(&self, remaining: usize) -> Result<(), DeserializationError> {
+        match self.events.as_slice().get(0) {
+            Some(event) if self.events.len() == remaining => {
+                Err(DeserializationError::Unsupported(event.clone().into_owned()))
+            }
+            _ => Ok(()),
+        }
+    }
+
     #[track_caller]
     fn check_stack_size(&self, expected_size: usize) {
         let stack = &self.stack;
@@ -801,10 +814,15 @@ impl<'de, 'r> de::MapAccess<'de> for MapAccess<'de, 'r> {
             self.de.accumulated_text = None;
             Ok(value)
         } else if let Ok(SgmlEvent::Attribute { .. }) = self.de.peek() {
-            seed.deserialize(&mut *self.de)
+            let remaining = self.de.events.len();
+            let value = seed.deserialize(&mut *self.de)?;
+            self.de.expect_progress(remaining)?;
+            Ok(value)
         } else {
             self.de.map_key = self.map_key.take();
+            let remaining = self.de.events.len();
             let value = seed.deserialize(&mut *self.de)?;
+            self.de.expect_progress(remaining)?;
             self.de.map_key = None;
             Ok(value)
         }
@@ -847,7 +865,10 @@ impl<'de, 'r> de::SeqAccess<'de> for SeqAccess<'de, 'r> {
                         if self.de.map_key != self.tag_name {
                             self.de.map_key = self.tag_name.clone();
                         }
-                        return Ok(Some(seed.deserialize(&mut *self.de)?));
+                        let remaining = self.de.events.len();
+                        let value = seed.deserialize(&mut *self.de)?;
+                        self.de.expect_progress(remaining)?;
+                        return Ok(Some(value));
                     }
                 },
                 SgmlEvent::Character(text) if text.is_empty() => self.de.advance()?,
-- 
2.43.0


From 67f671d8abc2b10558012e41bd8d95248f37a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 10/15] fix: read fieldless enums from attribute values, as
 documented

---
 src/de/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 50848d9..ce98f73 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -640,9 +640,10 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
                 false
             }
         } else {
-            // No surrounding element, so it must be <variant (fields)>(fields)</variant>
+            // No surrounding element, so it must be either an attribute holding just the variant's
+            // name, or <variant (fields)>(fields)</variant>
             // Keep cursor on `<variant`
-            true
+            !matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }))
         };
 
         let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;
-- 
2.43.0


From 9913757a2e6aefef740e848e438fe157aee82ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 11/15] fix: do not read variant data from the elements after a
 textual variant name

<a><e>variant</e><b>x</b></a> decoded e as Variant("x"), swallowing b.
---
 src/de/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index ce98f73..0be581a 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -893,6 +893,18 @@ impl<'de, 'r> EnumAccess<'de, 'r> {
     }
 }
 
+impl EnumAccess<'_, '_> {
+    /// Variants with fields must use the element form: if the variant's name came from
+    /// a string, that was already everything there was to read.
+    fn expect_element_form(&self, expected: &str) -> Result<(), DeserializationError> {
+        if self.use_tag_name_for_variant {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_type(Unexpected::UnitVariant, &expected))
+        }
+    }
+}
+
 impl<'de, 'r> de::EnumAccess<'de> for EnumAccess<'de, 'r> {
     type Error = DeserializationError;
     type Variant = Self;
@@ -931,6 +943,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         seed: T,
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
+        self.expect_element_form("newtype variant")?;
         // If we just used the current tag name as a variant, we need to push the tag into the stack,
         // or else we might get stuck in a loop
         let push =
@@ -951,6 +964,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("tuple_variant({} items)", len);
+        self.expect_element_form("tuple variant")?;
         if self.use_tag_name_for_variant {
             self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
         }
@@ -966,6 +980,7 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
         V: de::Visitor<'de>,
     {
         trace!("struct_variant");
+        self.expect_element_form("struct variant")?;
         self.de.do_map(visitor, fields.contains(&"$value"))
     }
 }
-- 
2.43.0


From 00ca9c71152d6579d53d1f0bbdf41adfe2de82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:28 +0000
Subject: [PATCH 12/15] fix: read the complete element of newtype variants

When it had child elements, only the first one was read: text around it was
dropped or rejected, and structs missed all their fields.
---
 src/de/mod.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 0be581a..af8125e 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -80,6 +80,8 @@ pub struct SgmlDeserializer<'de> {
     events: std::vec::IntoIter<SgmlEvent<'de>>,
     stack: Vec<Cow<'de, str>>,
     map_key: Option<Rc<str>>,
+    /// Whether a sequence must be read from the children of the element at the cursor.
+    seq_from_children: bool,
     accumulated_text: Option<Cow<'de, str>>,
 }
 
@@ -119,6 +121,7 @@ impl<'de> SgmlDeserializer<'de> {
             events: fragment.into_vec().into_iter(),
             stack: Vec::new(),
             map_key: None,
+            seq_from_children: false,
             accumulated_text: None,
         };
         reader.normalize_at_cursor()?;
@@ -219,6 +222,7 @@ impl<'de> SgmlDeserializer<'de> {
             _ => return Err(DeserializationError::ExpectedStartTag),
         };
         debug!("push({}): {:?}", self.stack.len(), stag);
+        self.seq_from_children = false;
         self.stack.push(stag);
         self.normalize_at_cursor()?;
         Ok(self.stack.last().unwrap())
@@ -546,12 +550,21 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
         V: de::Visitor<'de>,
     {
         trace!("deserialize_seq (tag: {:?})", self.map_key);
+        let mut tag_name = self.map_key.take().map(Into::into);
+        let from_children = self.seq_from_children;
+        if from_children {
+            self.push_elt()?;
+            self.advance_to_content()?;
+            tag_name = None;
+        }
         let stack_size = self.stack.len();
 
-        let tag_name = self.map_key.take().map(Into::into);
         let value = visitor.visit_seq(SeqAccess::new(self, tag_name))?;
 
         self.check_stack_size(stack_size);
+        if from_children {
+            self.pop_elt()?;
+        }
 
         Ok(value)
     }
@@ -944,19 +957,11 @@ impl<'de, 'r> de::VariantAccess<'de> for EnumAccess<'de, 'r> {
     ) -> Result<T::Value, Self::Error> {
         trace!("newtype_variant");
         self.expect_element_form("newtype variant")?;
-        // If we just used the current tag name as a variant, we need to push the tag into the stack,
-        // or else we might get stuck in a loop
-        let push =
-            self.use_tag_name_for_variant && self.de.peek_content_type()?.contains_child_elements;
-        if push {
-            self.de.push_elt()?;
-            self.de.advance_to_content()?;
-        }
-        let value = seed.deserialize(self.de.borrow_mut())?;
-        if push {
-            self.de.pop_elt()?;
-        }
-        Ok(value)
+        // The variant's element is read as if it were a field of the same name, except that
+        // sequences are made of its child elements (if there are any)
+        self.de.map_key = Some(self.de.expect_start_tag()?.clone().into_owned().into());
+        self.de.seq_from_children = self.de.peek_content_type()?.contains_child_elements;
+        seed.deserialize(self.de.borrow_mut())
     }
 
     fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From dcb60e52f42f6de7d34c436432e090d7c03825c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 13/15] fix: end elements at their XML-style empty-element
 terminator

Maps already did; text and content type detection looked past it, into the
elements that follow.
---
 src/de/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index af8125e..5f8bca7 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -167,7 +167,7 @@ impl<'de> SgmlDeserializer<'de> {
             .skip(1)
             .find_map(|event| match event {
                 SgmlEvent::OpenStartTag { .. } => Some(true),
-                SgmlEvent::EndTag { .. } => Some(false),
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => Some(false),
                 SgmlEvent::Attribute { .. } => {
                     contains_attributes = true;
                     None
@@ -316,7 +316,7 @@ impl<'de> SgmlDeserializer<'de> {
                 SgmlEvent::OpenStartTag { .. } => {
                     self.push_elt()?;
                 }
-                SgmlEvent::EndTag { .. } => {
+                SgmlEvent::EndTag { .. } | SgmlEvent::XmlCloseEmptyElement => {
                     self.pop_elt()?;
                     if self.stack.len() == starting_stack_size {
                         break;
-- 
2.43.0


From c61ba255a1a84217f393c7092cc99e66c216a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:15 +0000
Subject: [PATCH 14/15] fix: read fieldless enums from the text captured by
 $value

---
 src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/de/mod.rs b/src/de/mod.rs
index 5f8bca7..518fef8 100644
--- a/src/de/mod.rs
+++ b/src/de/mod.rs
@@ -653,10 +653,11 @@ impl<'de, 'r> Deserializer<'de> for &'r mut SgmlDeserializer<'de> {
                 false
             }
         } else {
-            // No surrounding element, so it must be either an attribute holding just the variant's
-            // name, or <variant (fields)>(fields)</variant>
+            // No surrounding element, so it must be either the text of `$value` or an attribute
+            // holding just the variant's name, or <variant (fields)>(fields)</variant>
             // Keep cursor on `<variant`
-            !matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }))
+            self.accumulated_text.is_none()
+                && !matches!(self.peek(), Ok(SgmlEvent::Attribute { .. }))
         };
 
         let value = visitor.visit_enum(EnumAccess::new(self, use_tag_name_for_variant))?;
-- 
2.43.0


From cf270887be57da0e6cbf930e129a0abab28ee718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 15/15] fix: point at the invalid status keyword, not at one
 that contains it

---
 src/parser/events.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/events.rs b/src/parser/events.rs
index 9c42e6b..f463df0 100644
--- a/src/parser/events.rs
+++ b/src/parser/events.rs
@@ -105,10 +105,12 @@ where
         {
             Ok(status) => status,
             Err(keyword) => {
-                use nom::{FindSubstring, Slice};
+                use nom::{Offset, Slice};
                 let pos = raw_status_keywords
-                    .find_substring(keyword)
-                    .map(|pos| raw_status_keywords.slice(pos..))
+                    .split_ascii_whitespace()
+                    // Whole words only, or "IG" would be found within "IGNORE IG"
+                    .find(|word| *word == keyword)
+                    .map(|word| raw_status_keywords.slice(raw_status_keywords.offset(word)..))
                     // There's no match if the keyword came from a parameter entity expansion
                     .unwrap_or(raw_status_keywords);
                 return Err(nom::Err::Failure(E::from_external_error(
-- 
2.43.0

