From 51e2a328c296992e467e52f5beb2a3703de58c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 01/26] fix: identifier succession must not wrap around (0 is
 not next from 65535, nor book 0 from 255)

---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..69ef51c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -44,7 +44,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bs.checked_sub(bo) == Some(1) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..17270b0 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -92,7 +92,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => self.num.checked_sub(other.num) == Some(1),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From 86ea89447b3246cf39b20772b9390c585d98eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 02/26] fix: a reference is not the parent of references on
 another branch

---
 src/reference/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..fc462b1 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -248,16 +248,21 @@ impl Reference {
     }
 
     pub fn is_parent_of(&self, other: &Reference) -> bool {
+        // Parts below the level where the two references differ put them on different branches,
+        // e.g.: "1. § a) pont" is not the parent of "1. § (2) bekezdés".
+        let no_subpoint = self.subpoint.is_none();
+        let no_point = self.point.is_none() && no_subpoint;
+        let no_paragraph = self.paragraph.is_none() && no_point;
         if self.act != other.act {
             false
         } else if self.article != other.article {
-            self.article.is_none()
+            self.article.is_none() && no_paragraph
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            no_paragraph
         } else if self.point != other.point {
-            self.point.is_none()
+            no_point
         } else if self.subpoint != other.subpoint {
-            self.subpoint.is_none()
+            no_subpoint
         } else {
             false
         }
-- 
2.43.0


From d18a2b9a38a157120f0f68591a13364d4c326b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:28 +0000
Subject: [PATCH 03/26] fix: fixup editor must not panic on lines without the
 trailing space of the quote level column

---
 src/bin/hun_law/fixup_editor.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index b79ae26..a24d55c 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -73,13 +73,31 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .iter()
         .map(|l| l.content().trim().to_owned())
         .collect();
-    let new_lines = contents.lines().map(|l| l[5..].trim().to_owned()).collect();
+    let new_lines = contents
+        .lines()
+        .map(|l| Ok(strip_quote_level(l)?.trim().to_owned()))
+        .collect::<Result<_>>()?;
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
     fixups.save()?;
     Ok(())
 }
 
+/// Remove the quote level column from an edited line
+fn strip_quote_level(line: &str) -> Result<&str> {
+    if let Some(text) = line.get(5..) {
+        Ok(text)
+    } else {
+        // The line was cleared, or the editor removed its trailing whitespace
+        let level = line.trim();
+        ensure!(
+            level.is_empty() || level.parse::<i64>().is_ok(),
+            "Malformed quote level column in line '{line}'"
+        );
+        Ok("")
+    }
+}
+
 fn update_fixups(
     fixups: &mut Fixups,
     mut original_lines: Vec<String>,
-- 
2.43.0


From 4abd01ad7ba910d7351d2d830f397a7a093074b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:30 +0000
Subject: [PATCH 04/26] fix: keep the intro of a quoted block when its
 amendment can't be converted

---
 src/parser/structure/block_amendment.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..39b0ca0 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -77,25 +77,23 @@ impl Paragraph {
             if let Some(special_phrase) = &self.semantic_info.special_phrase {
                 match special_phrase {
                     SpecialPhrase::BlockAmendment(ba) => {
+                        let converted =
+                            convert_simple_block_amendment(&ba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse simple block amendment")?;
                         *children = BlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_simple_block_amendment(
-                                &ba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse simple block amendment")?,
+                            children: converted,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
                     }
                     SpecialPhrase::StructuralBlockAmendment(sba) => {
+                        let converted =
+                            convert_structural_block_amendment(&sba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse structural block amendment")?;
                         *children = StructuralBlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_structural_block_amendment(
-                                &sba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse structural block amendment")?,
+                            children: converted,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
-- 
2.43.0


From 4b39ddbbabf440e11d6b45255a980d792eb11761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:08 +0000
Subject: [PATCH 05/26] fix: article headers inside nested quotations don't
 start articles of an amendment

---
 src/parser/structure/block_amendment.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 39b0ca0..cc26fdc 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -186,8 +186,13 @@ fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Resu
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        if quote_checker.beginning_is_quoted {
+            parser.feed_line(line);
+        } else if let Ok(new_parser) = factory.try_create_from_header(line, None) {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
-- 
2.43.0


From d11903e958d31e1812f1f12e31bdedc0a1ae2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:08 +0000
Subject: [PATCH 06/26] fix: refuse empty structural amendments instead of
 panicking

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index cc26fdc..9415af9 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -110,6 +110,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From ae80262e05bf1ab6221032d9c3e14bb9f705e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 07/26] fix: don't panic on articles without a body

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..decb5a0 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, |l| l.is_empty()) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..60514ed 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,9 +172,12 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        let first_line = lines
+            .first()
+            .ok_or_else(|| anyhow!("Empty line list for {self:?}"))?;
         let (mut identifier, first_line_rest) = self
-            .parse_header(&lines[0])
-            .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
+            .parse_header(first_line)
+            .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", first_line.content()))?;
         if let Some(ei) = expected_identifier {
             ensure!(
                 identifier == ei,
@@ -187,7 +190,7 @@ pub trait SAEParser: Debug {
         quote_checker.update(&first_line_rest)?;
         let mut elements: Vec<_> = Vec::new();
         let mut body: Vec<IndentedLine> = vec![first_line_rest];
-        let header_indent = lines[0].indent();
+        let header_indent = first_line.indent();
 
         for line in &lines[1..] {
             quote_checker.update(line)?;
-- 
2.43.0


From 9657ccbba66684ebf29cc1d2d5d4f6b95d0743eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:49 +0000
Subject: [PATCH 08/26] fix: don't panic when slicing at the end of a line

---
 src/util/indentedline.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..f887aad 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,11 +125,7 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
+        let chars_from = self.content()[..from].chars().count() as i64;
         let chars_to = to.map(|to_inner| {
             if to_inner >= self.content().as_bytes().len() {
                 self.content().chars().count() as i64
-- 
2.43.0


From 3c5ff5512ba01dd0bb5278d244c83ad971c6707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:36 +0000
Subject: [PATCH 09/26] fix: don't panic on text output narrower than the
 indentation

---
 src/output/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..8e9b79a 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,8 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        let width = self.width.saturating_sub(self.indentation_level * 5);
+        for line in textwrap::wrap(text, width) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From 558c723b6a8810c9fde0a2a8c7af06262b724d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:41 +0000
Subject: [PATCH 10/26] fix: don't skip acts whose header follows several empty
 lines

---
 src/parser/mk_act_section.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..65aaa84 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -102,7 +102,8 @@ impl ActExtractor {
                 }
             }
         }
-        WaitingForHeaderNewline
+        // There may be multiple empty lines before the header (e.g. because of a page break)
+        self.wait_for_header_newline(line)
     }
 
     fn parse_act_subject(&mut self, line: &IndentedLine) -> ActExtractionState {
-- 
2.43.0


From 9b0c170e028c5fd21d4bc6f23673c1c86570aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:13 +0000
Subject: [PATCH 11/26] fix: map the last code (255) of single byte encodings
 too

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..c54009c 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From 079cc2b8fb3ee81b50afdefd782c24c5a74f1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:13 +0000
Subject: [PATCH 12/26] fix: ToUnicode overrides multi-character and unknown
 glyph names of the encoding

---
 src/parser/pdf/font.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index c54009c..1267652 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -132,6 +132,8 @@ impl FastFont {
             self.cmap.resize(cid as usize + 1, '\u{0}');
         }
         self.cmap[cid as usize] = s.chars().next().unwrap();
+        // Later mappings take precedence
+        self.smap.remove(&cid);
     }
 
     pub fn to_unicode(&self, cid: u32) -> ToUnicodeResult {
-- 
2.43.0


From 178ff30dc82adc2472e5263395e11fd31fe1f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:13 +0000
Subject: [PATCH 13/26] fix: use page resources inherited from the page tree

---
 src/parser/pdf/page.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..601c365 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -68,7 +68,8 @@ where
         collector: &'a mut CharCollector,
     ) -> Result<Self> {
         Ok(Self {
-            resources: page.resources.clone(),
+            // Resources can be inherited from the page tree
+            resources: page.resources().ok().cloned(),
             page,
             pdf_file,
             font_cache,
-- 
2.43.0


From 964607ccb2309e9bd8115896aaf6af6ed00bc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:38 +0000
Subject: [PATCH 14/26] fix: don't take a font for another one freed earlier at
 the same address

---
 src/parser/pdf/font.rs | 13 +++++++------
 src/parser/pdf/page.rs |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1267652..9eae04d 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{Resolve, Shared},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -157,17 +157,18 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    // The original fonts are kept, so that no other font can get the same address
+    cache: HashMap<usize, (Shared<Font>, Rc<FastFont>)>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
+    pub fn get(&mut self, font: &Shared<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        let entry = self.cache.entry(Shared::as_ptr(font) as usize);
         Ok(match entry {
-            hash_map::Entry::Occupied(e) => e.get().clone(),
+            hash_map::Entry::Occupied(e) => e.get().1.clone(),
             hash_map::Entry::Vacant(e) => {
                 let fast_font = Rc::new(FastFont::convert(font, resolve)?);
-                e.insert(fast_font).clone()
+                e.insert((font.clone(), fast_font)).1.clone()
             }
         })
     }
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 601c365..94e271e 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -21,7 +21,7 @@ use euclid::Transform2D;
 use pdf::{
     content::{Op, TextDrawAdjusted},
     font::Font,
-    object::{MaybeRef, PageRc, Resolve, Resources, XObject},
+    object::{MaybeRef, PageRc, Resolve, Resources, Shared, XObject},
     primitive::{Name, PdfString},
 };
 
@@ -131,7 +131,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &Shared<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -217,7 +217,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(self.pdf_file.get(font_ref)?.data(), size)?;
                 }
             }
             Op::TextFont { name, size } => {
@@ -226,7 +226,7 @@ where
                     .fonts
                     .get(&name)
                     .ok_or_else(|| anyhow!("Did not find font resource"))?;
-                self.set_font(font, size)?;
+                self.set_font(font.data(), size)?;
             }
 
             // --- Positioning ---
-- 
2.43.0


From 1f9e963ff76e08ca208b9861090f52454a1e0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:32 +0000
Subject: [PATCH 15/26] fix: boldness and width of space follow the font
 restored from the state stack

---
 src/parser/pdf/page.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 94e271e..aeb7c2d 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -139,6 +139,17 @@ where
         Ok(())
     }
 
+    fn restore_state(&mut self) -> Result<()> {
+        self.state = self
+            .state_stack
+            .pop()
+            .ok_or_else(|| anyhow!("State stack empty"))?;
+        if let Some(font) = &self.state.font {
+            self.collector.font_changed(font)?;
+        }
+        Ok(())
+    }
+
     fn handle_xobject(&mut self, name: Name) -> Result<()> {
         let resources = self.resources()?;
         let xobject_ref = resources
@@ -166,10 +177,7 @@ where
         }
 
         // Load back the stuff
-        self.state = self
-            .state_stack
-            .pop()
-            .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
+        self.restore_state()?;
         self.resources = saved_resources;
         Ok(())
     }
@@ -201,12 +209,7 @@ where
 
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
-            Op::Restore => {
-                self.state = self
-                    .state_stack
-                    .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
-            }
+            Op::Restore => self.restore_state()?,
 
             // --- Font stuff ---
             Op::GraphicsState { name } => {
-- 
2.43.0


From e3207c832154df230a9d2b0d5acf4b7f95adbdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:57 +0000
Subject: [PATCH 16/26] fix: keep the outer replacement text when replacement
 texts are nested

---
 src/parser/pdf/page.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index aeb7c2d..bfe3317 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -186,11 +186,13 @@ where
         match op {
             // --- Marked content ---
             Op::BeginMarkedContent { tag, properties } => {
-                let mct = if let Some(atc) = ActualTextCollector::from_bmc_params(tag, properties) {
-                    self.actual_text_collector = Some(atc);
-                    MarkedContentType::ActualText
-                } else {
-                    MarkedContentType::Other
+                let mct = match ActualTextCollector::from_bmc_params(tag, properties) {
+                    // The outermost replacement text covers the nested ones too.
+                    Some(atc) if self.actual_text_collector.is_none() => {
+                        self.actual_text_collector = Some(atc);
+                        MarkedContentType::ActualText
+                    }
+                    _ => MarkedContentType::Other,
                 };
                 self.marked_content_stack.push(mct);
             }
-- 
2.43.0


From ea1d109e02af7f6b5ecad6e21d58d22406d34175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:01 +0000
Subject: [PATCH 17/26] fix: never leave a partially written issue in the cache

---
 src/mk_downloader.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..26bd4a0 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -15,7 +15,9 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use std::fs;
+use std::process;
 use std::str::FromStr;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{io::Read, path::Path};
 
 use anyhow::{ensure, Result};
@@ -77,6 +79,18 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     if let Some(file_dir) = file_path.parent() {
         fs::create_dir_all(file_dir)?;
     }
-    fs::write(file_path, &http_body)?;
+    // Never leave a partially written file under the final name
+    static TMP_COUNTER: AtomicUsize = AtomicUsize::new(0);
+    let tmp_path = file_path.with_extension(format!(
+        "{}-{}.part",
+        process::id(),
+        TMP_COUNTER.fetch_add(1, Ordering::Relaxed)
+    ));
+    let write_result =
+        fs::write(&tmp_path, &http_body).and_then(|_| fs::rename(&tmp_path, &file_path));
+    if write_result.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    write_result?;
     Ok(http_body)
 }
-- 
2.43.0


From 8b0c68507075a7f0d5a2b3ba3d5b664f28ba5ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 18/26] fix: do not panic when displaying an act whose number
 has no Roman numeral

---
 src/identifier/act.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..d159159 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,13 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        write!(f, "{:?}. évi ", self.year)?;
+        match roman::to(self.number) {
+            Some(roman_number) => write!(f, "{roman_number}")?,
+            // There are no Roman numerals for these numbers
+            None => write!(f, "{}", self.number)?,
+        }
+        write!(f, ". törvény")
     }
 }
 
-- 
2.43.0


From c0c9cc8850f4323c270848e8306c49e362999ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:17 +0000
Subject: [PATCH 19/26] fix: do not panic on misplaced outgoing references in
 text output

---
 src/output/text.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index 8e9b79a..a1d581d 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -363,9 +363,15 @@ fn split_string_at_references<'a>(
     let mut result = Vec::new();
     let mut prev_end = 0;
     for outgoing_ref in outgoing_refs {
-        result.push((&text[prev_end..outgoing_ref.start], false));
-        result.push((&text[outgoing_ref.start..outgoing_ref.end], true));
-        prev_end = outgoing_ref.end;
+        // Stored references may be out of place, in that case they are simply not highlighted
+        if let (Some(before), Some(inside)) = (
+            text.get(prev_end..outgoing_ref.start),
+            text.get(outgoing_ref.start..outgoing_ref.end),
+        ) {
+            result.push((before, false));
+            result.push((inside, true));
+            prev_end = outgoing_ref.end;
+        }
     }
     result.push((&text[prev_end..], false));
     result
-- 
2.43.0


From 39d8738103279bd8e57c66c4577fb1068a1841d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:40 +0000
Subject: [PATCH 20/26] fix: refuse PDF forms that contain themselves instead
 of overflowing the stack

---
 src/parser/pdf/page.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index bfe3317..ec80b15 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -16,12 +16,12 @@
 
 use std::rc::Rc;
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use euclid::Transform2D;
 use pdf::{
     content::{Op, TextDrawAdjusted},
     font::Font,
-    object::{MaybeRef, PageRc, Resolve, Resources, Shared, XObject},
+    object::{MaybeRef, PageRc, PlainRef, Resolve, Resources, Shared, XObject},
     primitive::{Name, PdfString},
 };
 
@@ -32,6 +32,8 @@ use super::{
 };
 use crate::parser::pdf::actual_text::ActualTextCollector;
 
+const MAX_FORM_DEPTH: usize = 64;
+
 #[derive(Debug)]
 pub struct PageRenderer<'a, TR>
 where
@@ -49,6 +51,9 @@ where
     marked_content_stack: Vec<MarkedContentType>,
 
     actual_text_collector: Option<ActualTextCollector>,
+
+    /// The forms being drawn, to detect ones that contain themselves
+    form_stack: Vec<PlainRef>,
 }
 
 #[derive(Debug, PartialEq, Eq)]
@@ -78,6 +83,7 @@ where
             state_stack: Vec::new(),
             marked_content_stack: Vec::new(),
             actual_text_collector: None,
+            form_stack: Vec::new(),
         })
     }
 
@@ -164,6 +170,13 @@ where
             return Ok(());
         };
 
+        let form_ref = xobject_ref.get_inner();
+        ensure!(
+            !self.form_stack.contains(&form_ref) && self.form_stack.len() < MAX_FORM_DEPTH,
+            "Form XObject contains itself or is nested too deep: {name}"
+        );
+        self.form_stack.push(form_ref);
+
         // Save some stuff on this function's stack
         let saved_resources = self.resources.clone();
         if let Some(resources) = xfo.dict().resources.clone() {
@@ -179,6 +192,7 @@ where
         // Load back the stuff
         self.restore_state()?;
         self.resources = saved_resources;
+        self.form_stack.pop();
         Ok(())
     }
 
-- 
2.43.0


From 0ba2f97d5996fdde841b95f416c216e275dc3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:18 +0000
Subject: [PATCH 21/26] fix: do not run out of memory printing lines with
 absurd indentation

---
 src/output/mod.rs  | 10 +++++++++-
 src/output/text.rs |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 2275176..2178d40 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -151,9 +151,17 @@ impl CliOutput for Act {
     }
 }
 
+/// Stored lines can have any indentation, but there is no point in printing more than this
+const MAX_INDENT_COLUMNS: usize = 1000;
+
+/// Width of an indentation (given in points) on the text output
+fn indent_columns(indent: f64) -> usize {
+    ((indent * 0.2) as usize).min(MAX_INDENT_COLUMNS)
+}
+
 pub fn quick_display_indented_line(l: &IndentedLine, testing_tags: bool) -> String {
     let mut s = String::new();
-    let mut indent = (l.indent() * 0.2) as usize;
+    let mut indent = indent_columns(l.indent());
     if testing_tags {
         if l.is_bold() {
             s.push_str("<BOLD>");
diff --git a/src/output/text.rs b/src/output/text.rs
index a1d581d..9dffd0a 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -18,6 +18,7 @@ use std::io::Write;
 
 use anyhow::Result;
 
+use super::indent_columns;
 use crate::{
     identifier::IdentifierCommon,
     semantic_info::{OutgoingReference, SemanticInfo},
@@ -212,7 +213,7 @@ impl TextOutput for QuotedBlock {
             .filter(|i| *i > 0.0)
             .fold(1000.0, |a, b| if a > b { b } else { a });
         for line in &self.lines {
-            let indent = ((line.indent() - min_indent) * 0.2) as usize + 5;
+            let indent = indent_columns(line.indent() - min_indent) + 5;
             params.write_header(writer, &" ".repeat(indent))?;
             params.write_header(writer, line.content())?;
             params.write_newline(writer)?;
-- 
2.43.0


From 40915dd97efb1e7f45dcdaa4c6cd037a931ccb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:25 +0000
Subject: [PATCH 22/26] fix: see the edits of editors that replace the file
 when saving

---
 src/bin/hun_law/fixup_editor.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index a24d55c..5afd886 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::Write;
 
 use anyhow::{anyhow, ensure, Result};
 use hun_law::{
@@ -65,9 +65,8 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .arg(format!("+{}", open_at_line + 1))
         .status()?;
 
-    let mut contents = String::new();
-    temp_file.seek(SeekFrom::Start(0))?;
-    temp_file.read_to_string(&mut contents)?;
+    // Open it again: some editors replace the file when saving, instead of overwriting it
+    let contents = std::fs::read_to_string(temp_file.path())?;
     let old_lines = act
         .body
         .iter()
-- 
2.43.0


From e0c60c7e7c09986b0168bc5d38ddd30cba93eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:53 +0000
Subject: [PATCH 23/26] fix: recognise the footnote and the signatures of very
 short acts

---
 src/parser/mk_act_section.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 65aaa84..9e0bab1 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -126,7 +126,7 @@ impl ActExtractor {
         // "* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el."
         let body = &mut self.current_act.body;
         if line.is_empty()
-            && body.len() > 2
+            && body.len() >= 2
             && body[body.len() - 2].is_empty()
             && body[body.len() - 1].content().starts_with('*')
         {
@@ -153,7 +153,7 @@ impl ActExtractor {
         // [EMPTY]
         // Dr. Schmitt Pál s. k.,     Dr. Kövér László s. k.,
         //  köztársasági elnök        az Országgyűlés elnöke
-        if body.len() > 4
+        if body.len() >= 3
             && body[body.len() - 3].is_empty()
             && (body.last().unwrap().content() == "köztársasági elnök az Országgyűlés elnöke"
                 || body.last().unwrap().content() == "köztársasági elnök az Országgyűlés alelnöke"
-- 
2.43.0


From 5f0eb4774e72cb59cec901eeec0a0616e01646d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:21 +0000
Subject: [PATCH 24/26] =?UTF-8?q?fix:=20accept=20"l=C3=A9pnek"=20in=20amen?=
 =?UTF-8?q?dments=20that=20replace=20a=20subtitle=20with=20its=20provision?=
 =?UTF-8?q?s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 hun_law_grammar/grammar.ebnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index 69e1c4b..7401da5 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -293,7 +293,7 @@ AmendmentSuffix =
     TheFollowing "szerint módosul";
 
 AmendmentSuffixWithSubtitle =
-    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lép" | "lépnek") ;
+    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lépnek" | "lép") ;
 
 AmendmentSuffixWithStructural =
     "helyébe" TheFollowing ["alcím" ["cím"] | "cím" | "fejezet" | "Fejezet" | "rész"] "lép" ;
-- 
2.43.0


From 93db5a7e631c4a1de8ba2759ae35abe88c31fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:12 +0000
Subject: [PATCH 25/26] fix: take the longest known abbreviation where one is
 the beginning of another

---
 hun_law_grammar/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hun_law_grammar/src/lib.rs b/hun_law_grammar/src/lib.rs
index 6f6b7b4..c3faf00 100644
--- a/hun_law_grammar/src/lib.rs
+++ b/hun_law_grammar/src/lib.rs
@@ -43,10 +43,12 @@ pub fn parse_abbreviation(
     s: &str,
     state: &mut CustomParseState,
 ) -> Result<(String, usize), &'static str> {
-    for known_abbrev in &state.known_abbreviations {
-        if s.starts_with(known_abbrev) {
-            return Ok((known_abbrev.clone(), known_abbrev.len()));
-        }
-    }
-    Err("Not a known abbreviation")
+    // One abbreviation may be the beginning of another one: the longest one is meant
+    state
+        .known_abbreviations
+        .iter()
+        .filter(|known_abbrev| s.starts_with(known_abbrev.as_str()))
+        .max_by_key(|known_abbrev| known_abbrev.len())
+        .map(|known_abbrev| (known_abbrev.clone(), known_abbrev.len()))
+        .ok_or("Not a known abbreviation")
 }
-- 
2.43.0


From 2fa73c1f1097e07e3245b1e67b9fe89ffeedc85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:12 +0000
Subject: [PATCH 26/26] fix: keep the end of outgoing references inside the
 text when the final dot is missing

---
 src/parser/semantic_info/sae.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/semantic_info/sae.rs b/src/parser/semantic_info/sae.rs
index fe8e3f4..e985d22 100644
--- a/src/parser/semantic_info/sae.rs
+++ b/src/parser/semantic_info/sae.rs
@@ -136,6 +136,11 @@ impl<'a> SemanticInfoAdder<'a> {
             .filter_map(|oref| {
                 adjust_outgoing_reference(self.prefix().len(), s.len() - self.postfix().len(), oref)
             })
+            .map(|oref| OutgoingReference {
+                // The dot that was added for parsing is not part of the text
+                end: oref.end.min(middle.len()),
+                ..oref
+            })
             .collect();
 
         let special_phrase = extract_special_phrase(self.abbreviation_cache, &parsed)
-- 
2.43.0

