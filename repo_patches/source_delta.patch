From bc68c02bb4ac36f29be2e48b9cca6c383d0f9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 01/35] fix: percent-encode diary link anchors that are not
 valid URI fragments

---
 .../elements/blocks/inline/links/anchor.rs    | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..16d1bf8 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -2,10 +2,28 @@ use crate::StrictEq;
 use derive_more::{
     Constructor, Deref, DerefMut, Index, IndexMut, IntoIterator,
 };
+use percent_encoding::{percent_encode, AsciiSet, CONTROLS};
 use serde::{Deserialize, Serialize};
 use std::{borrow::Cow, convert::TryFrom, fmt};
 use uriparse::{Fragment, FragmentError};
 
+/// Characters that cannot appear as is within the fragment of a URI
+const FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'#')
+    .add(b'%')
+    .add(b'<')
+    .add(b'>')
+    .add(b'[')
+    .add(b'\\')
+    .add(b']')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
+
 /// Represents an anchor
 #[derive(
     Constructor,
@@ -59,14 +77,23 @@ impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
     /// if the anchor has any elements, otherwise yields an empty string
     pub fn to_encoded_uri_fragment(&self) -> String {
-        use std::fmt::Write;
-        let mut fragment = String::new();
-        if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
-                "Anchor encoded_uri_fragment returned error unexpectedly",
-            );
+        if self.is_empty() {
+            return String::new();
         }
-        fragment
+
+        // NOTE: Anchors are arbitrary text and can contain characters that
+        //       are not allowed within a URI fragment such as spaces
+        let mut fragment = self.0.join("%23");
+        if Fragment::try_from(fragment.as_str()).is_err() {
+            fragment = self
+                .0
+                .iter()
+                .map(|x| percent_encode(x.as_bytes(), FRAGMENT).to_string())
+                .collect::<Vec<String>>()
+                .join("%23");
+        }
+
+        format!("#{}", fragment)
     }
 
     // NOTE: Cannot use FromStr due to conflicting lifetimes of impl and trait
-- 
2.43.0


From b34dbd4533db83339fde01353e33d5c62ded577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 02/35] fix: definition list regions cover all of their
 definitions

---
 .../src/lang/elements/blocks/definitions.rs        | 14 +++++++++-----
 .../src/lang/parsers/vimwiki/blocks/definitions.rs | 12 +++++++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..a0a2c70 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -377,12 +377,16 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         let mut dl = Self::default();
 
         for (term, def_bundle) in iter.into_iter() {
-            // TODO: Should we perform more checks? Right now, we assume that these
-            //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            // NOTE: The definitions do not have to follow immediately after the
+            //       term (e.g. a definition on the same line as the term), so
+            //       we calculate the region from where the last of them ends
+            let region_end = |r: Region| r.offset() + r.len();
+            let start = term.region().offset();
+            let end = std::cmp::max(
+                region_end(term.region()),
+                region_end(def_bundle.region()),
             );
+            let region = Region::new(start, end - start);
 
             dl.items.push(Located::new(
                 TermAndDefinitions::new(term, def_bundle),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..b9bc6ee 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -46,7 +46,17 @@ fn term_and_definitions<'a>(
     )))(input)?;
 
     if let Some(def) = maybe_def {
+        // NOTE: The definition on the term's line comes before the rest of the
+        //       bundle, so the bundle's region must be extended to include it
+        let region = bundle.region();
+        let start = def.region().offset();
+        let end = region.offset() + region.len();
         bundle.as_mut_inner().as_mut().insert(0, def);
+        bundle = bundle.take_with_region(Region::new_at_depth(
+            start,
+            end - start,
+            region.depth(),
+        ));
     }
 
     Ok((input, (term, bundle)))
-- 
2.43.0


From 9157faa3d1c933d97c11cca21f9004bd993bf9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 03/35] fix: iterate over all cells of tables whose rows differ
 in length

---
 .../src/lang/elements/blocks/tables.rs        | 197 ++++++++++++------
 1 file changed, 136 insertions(+), 61 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..b3777b5 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -291,19 +291,25 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
+        // NOTE: Rows can have different lengths, so cells within the column
+        //       need to be looked up by position
+        (row + 1..self.row_cnt())
+            .take_while(|row| {
+                self.get_cell(*row, col).map_or(false, |cell| {
+                    matches!(
+                        cell.get_span().copied(),
+                        Some(CellSpan::FromAbove)
+                    )
+                })
+            })
+            .count()
             + 1
     }
 
@@ -863,6 +869,15 @@ mod iter {
     }
 
     impl<'a, 'b> Column<'a, 'b> {
+        /// Advances past rows that are too short to be part of the column
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.row += 1;
+            }
+        }
+
         /// Returns true if the iterator has at least one content cell
         pub fn has_content(&self) -> bool {
             let mut column = Column {
@@ -879,6 +894,7 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.skip_missing();
             let cell = self.table.get_cell(self.row, self.col);
             if cell.is_some() {
                 self.row += 1;
@@ -887,7 +903,9 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -900,6 +918,12 @@ mod iter {
         fn col(&self) -> usize {
             self.col
         }
+
+        fn next_with_pos(&mut self) -> Option<(CellPos, &'a Located<Cell<'b>>)> {
+            self.skip_missing();
+            let pos = CellPos::new(self.row, self.col);
+            self.next().map(move |x| (pos, x))
+        }
     }
 
     /// Represents an iterator over cells within a column of a table
@@ -911,6 +935,15 @@ mod iter {
     }
 
     impl<'a> IntoColumn<'a> {
+        /// Advances past rows that are too short to be part of the column
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.row += 1;
+            }
+        }
+
         /// Returns true if the iterator has at least one content cell
         pub fn has_content(&self) -> bool {
             Column::from(self).has_content()
@@ -931,6 +964,7 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.skip_missing();
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
             if cell.is_some() {
@@ -940,8 +974,7 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
-            (remaining, Some(remaining))
+            Column::from(self).size_hint()
         }
     }
 
@@ -953,6 +986,12 @@ mod iter {
         fn col(&self) -> usize {
             self.col
         }
+
+        fn next_with_pos(&mut self) -> Option<(CellPos, Located<Cell<'a>>)> {
+            self.skip_missing();
+            let pos = CellPos::new(self.row, self.col);
+            self.next().map(move |x| (pos, x))
+        }
     }
 
     /// Represents an iterator over cells within a table
@@ -964,6 +1003,38 @@ mod iter {
     }
 
     impl<'a, 'b> Cells<'a, 'b> {
+        /// Advances to the position of the next cell, going row by row
+        fn advance(&mut self) {
+            let col_cnt = self.table.col_cnt();
+            let row_cnt = self.table.row_cnt();
+
+            // If not yet reached end of row, advance column ptr
+            if self.col + 1 < col_cnt {
+                self.col += 1;
+
+            // Else if not yet reached end of all rows, advance row ptr and
+            // reset column ptr
+            } else if self.row + 1 < row_cnt {
+                self.row += 1;
+                self.col = 0;
+
+            // Otherwise, we have reached the end, so ensure we are done
+            } else {
+                self.row = row_cnt;
+                self.col = col_cnt;
+            }
+        }
+
+        /// Advances past positions without a cell as rows can have different
+        /// lengths
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.advance();
+            }
+        }
+
         pub fn new(table: &'a Table<'b>) -> Self {
             Self {
                 table,
@@ -988,37 +1059,20 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.skip_missing();
             let cell = self.table.get_cell(self.row, self.col);
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            self.advance();
 
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| (pos.row, pos.col) >= (self.row, self.col))
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -1031,6 +1085,12 @@ mod iter {
         fn col(&self) -> usize {
             self.col
         }
+
+        fn next_with_pos(&mut self) -> Option<(CellPos, &'a Located<Cell<'b>>)> {
+            self.skip_missing();
+            let pos = CellPos::new(self.row, self.col);
+            self.next().map(move |x| (pos, x))
+        }
     }
 
     /// Represents an iterator over cells within a table
@@ -1042,6 +1102,38 @@ mod iter {
     }
 
     impl<'a> IntoCells<'a> {
+        /// Advances to the position of the next cell, going row by row
+        fn advance(&mut self) {
+            let col_cnt = self.table.col_cnt();
+            let row_cnt = self.table.row_cnt();
+
+            // If not yet reached end of row, advance column ptr
+            if self.col + 1 < col_cnt {
+                self.col += 1;
+
+            // Else if not yet reached end of all rows, advance row ptr and
+            // reset column ptr
+            } else if self.row + 1 < row_cnt {
+                self.row += 1;
+                self.col = 0;
+
+            // Otherwise, we have reached the end, so ensure we are done
+            } else {
+                self.row = row_cnt;
+                self.col = col_cnt;
+            }
+        }
+
+        /// Advances past positions without a cell as rows can have different
+        /// lengths
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.advance();
+            }
+        }
+
         pub fn new(table: Table<'a>) -> Self {
             Self {
                 table,
@@ -1070,39 +1162,16 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            self.skip_missing();
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            self.advance();
 
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
-            (remaining, Some(remaining))
+            Cells::from(self).size_hint()
         }
     }
 
@@ -1114,6 +1183,12 @@ mod iter {
         fn col(&self) -> usize {
             self.col
         }
+
+        fn next_with_pos(&mut self) -> Option<(CellPos, Located<Cell<'a>>)> {
+            self.skip_missing();
+            let pos = CellPos::new(self.row, self.col);
+            self.next().map(move |x| (pos, x))
+        }
     }
 }
 
-- 
2.43.0


From 120195c2cfc52b660d87a4ed3e7eeba9c991aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 04/35] fix: render tables whose rows differ in length or lack
 content as vimwiki

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 30 ++++++++++++---------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..b60e784 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,19 +469,16 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
-            let min_align_size = self
-                .column(*col)
-                .map(|x| match x.as_inner() {
-                    Cell::Align(ColumnAlign::None) => 1,  /* - */
-                    Cell::Align(ColumnAlign::Left) => 2,  /* :- */
-                    Cell::Align(ColumnAlign::Right) => 2, /* -: */
-                    Cell::Align(ColumnAlign::Center) => 3, /* :-: */
-                    _ => 0,
-                })
-                .max()
-                .unwrap_or_default();
+        for (pos, cell) in self.cells().zip_with_position() {
+            let min_align_size = match cell.as_inner() {
+                Cell::Align(ColumnAlign::None) => 1,   /* - */
+                Cell::Align(ColumnAlign::Left) => 2,   /* :- */
+                Cell::Align(ColumnAlign::Right) => 2,  /* -: */
+                Cell::Align(ColumnAlign::Center) => 3, /* :-: */
+                _ => 0,
+            };
 
+            let size = max_column_sizes.entry(pos.col).or_default();
             if min_align_size > *size {
                 *size = min_align_size;
             }
@@ -497,8 +494,15 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
                 write!(f, "    ")?;
             }
 
+            // NOTE: Rows can have different lengths, so we only write up to the
+            //       last cell that exists in this row
+            let row_len = (0..self.col_cnt())
+                .rev()
+                .find(|col| self.get_cell(row, *col).is_some())
+                .map_or(0, |col| col + 1);
+
             write!(f, "|")?;
-            for col in 0..self.col_cnt() {
+            for col in 0..row_len {
                 // Get the max size, using 0 if nothing with a fixed size is
                 // in the column
                 let max_size =
-- 
2.43.0


From 5681ff02268b9389f0324deb4554cea1d8152655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 05/35] fix: resolve interwiki links to directories to their
 index page

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..f5a878b 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -230,8 +230,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -263,8 +262,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From 7c6a79cab2215592f42c7d5341a979f5e023f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 06/35] fix: keep relative links whose first segment contains a
 colon valid

---
 vimwiki-core/src/lang/output/html/utils.rs | 23 +++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index f5a878b..411eee1 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -373,13 +373,22 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     //       of the web, we just want c as referencing from the same directory
     //       is fine; this means that we remove the first .. in the path
     let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
-        relative_path
-            .strip_prefix("..")
-            .unwrap_or(&relative_path)
-            .as_str(),
-    )
-    .map(RelativeReference::into_owned);
+    let path = relative_path
+        .strip_prefix("..")
+        .unwrap_or(&relative_path)
+        .as_str();
+
+    // NOTE: a relative reference cannot start with a segment containing a
+    //       colon as it would be mistaken for a scheme, so such a path needs
+    //       to be preceded by a dot segment (RFC 3986, section 4.2)
+    let path = if path.split('/').next().map_or(false, |s| s.contains(':')) {
+        Cow::Owned(format!("./{}", path))
+    } else {
+        Cow::Borrowed(path)
+    };
+
+    let res = RelativeReference::try_from(path.as_ref())
+        .map(RelativeReference::into_owned);
     res
 }
 
-- 
2.43.0


From 1d4cf832bdba06a507c781abb09dc55da502eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 07/35] fix: keep text that follows the last colon of tags
 within a word

---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..83059ab 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,12 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    // NOTE: The word has to consist of nothing but tags; otherwise, what
+    //       follows the last colon would be dropped
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From b735ac6f226541864ca1fccf34ff59916d90b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 08/35] fix: give list items a suffix that fits the type they
 are normalized to

---
 vimwiki-core/src/lang/elements/blocks/lists/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
index 49c144a..7e9e475 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@@ -118,6 +118,14 @@ impl<'a> List<'a> {
             //       on to other letters like j and k
             for item in tail {
                 item.ty = head.ty.clone();
+
+                // A suffix is part of how a type is written: types either
+                // need one or cannot have one
+                if (item.suffix == ListItemSuffix::None)
+                    != (head.suffix == ListItemSuffix::None)
+                {
+                    item.suffix = head.suffix;
+                }
             }
         }
 
-- 
2.43.0


From 31d4261a4d8c6cf574e3d8fd2ec0186327fdbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 09/35] fix: read back blank lines of blockquotes written as a
 lone >

---
 .../src/lang/parsers/vimwiki/blocks/blockquotes.rs   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..1160866 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, terminated},
 };
 use std::borrow::Cow;
 
@@ -73,11 +73,15 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
     context("Arrow Blockquote", locate(capture(inner)))(input)
 }
 
-/// Parses a blockquote line that begins with >
+/// Parses a blockquote line that begins with >, which is followed by a space
+/// unless there is nothing else on the line
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
+    let (input, _) =
+        alt((tag("> "), terminated(tag(">"), peek(end_of_line_or_input))))(
+            input,
+        )?;
     let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
-- 
2.43.0


From 24388eda3706be1b725dc0de728d3b278ccc67dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 10/35] fix: recognize upper-case roman numerals containing C

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..0dadd50 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -324,7 +324,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
-- 
2.43.0


From 4186a71e36e839f1cc1413b01e111469021521be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 11/35] fix: allow trailing white space after the last pipe of
 a table row

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..93c7f85 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -84,7 +84,7 @@ fn row(input: Span) -> IResult<Vec<Located<Cell>>> {
                 separated_list1(char('|'), deeper(cell)),
                 char('|'),
             ),
-            end_of_line_or_input,
+            pair(space0, end_of_line_or_input),
         ),
     )(input)
 }
-- 
2.43.0


From 71e09a81c568fe37f767686f9ccbdb4b6ac0e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 12/35] fix: read table cells that merely begin like a span or
 an alignment as content

---
 .../src/lang/parsers/vimwiki/blocks/tables.rs | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 93c7f85..2765acb 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -16,7 +16,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{char, space0},
-    combinator::{map, map_parser, opt, value, verify},
+    combinator::{map, map_parser, opt, peek, value, verify},
     multi::{many0, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -108,15 +108,20 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
 #[inline]
 fn cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
+        // NOTE: A cell ends with a pipe, so anything that does not reach up to
+        //       one is no cell
         alt((
-            map(cell_span_above, Cell::Span),
-            map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
-            map(
-                map_parser(take_line_until1("|"), inline_element_container),
-                |l: Located<InlineElementContainer>| {
-                    Cell::Content(l.into_inner())
-                },
+            terminated(map(cell_span_above, Cell::Span), peek(char('|'))),
+            terminated(map(cell_span_left, Cell::Span), peek(char('|'))),
+            terminated(map(column_align, Cell::Align), peek(char('|'))),
+            terminated(
+                map(
+                    map_parser(take_line_until1("|"), inline_element_container),
+                    |l: Located<InlineElementContainer>| {
+                        Cell::Content(l.into_inner())
+                    },
+                ),
+                peek(char('|')),
             ),
         ))(input)
     }
-- 
2.43.0


From 4c08d9e94e486780f1fcbd6e74081fbd9b66d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 13/35] fix: tell a single character apart from white space

---
 vimwiki-core/src/lang/parsers/span.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..246db1f 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,7 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining().iter().all(|b| *b == b' ' || *b == b'\t')
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From 1d2d714357dbb45fd09094e1e4c76ed0bc59af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/35] fix: escape code block and link attributes and math
 environments in HTML

---
 vimwiki-core/src/lang/output/html/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..aa35eff 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
@@ -575,12 +576,17 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
                 for (attr, value) in self.metadata.iter() {
-                    write!(f, r#" {}="{}""#, attr, value)?;
+                    write!(
+                        f,
+                        r#" {}="{}""#,
+                        escape::escape_html(attr),
+                        escape::escape_html(value)
+                    )?;
                 }
 
                 // NOTE: We do NOT include a newline here because it results
@@ -1075,7 +1081,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
@@ -1085,7 +1096,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
-- 
2.43.0


From d289a4cbe45285050f7af3bb0be017c513e4ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 15/35] fix: write HTML attributes of code blocks and links in
 a fixed order

---
 vimwiki-core/src/lang/output/html/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index aa35eff..121f338 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -580,7 +580,7 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
+                for (attr, value) in sorted_properties(&self.metadata) {
                     write!(
                         f,
                         r#" {}="{}""#,
@@ -1080,7 +1080,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_properties(properties) {
                         write!(
                             f,
                             " {}=\"{}\"",
@@ -1095,7 +1095,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in sorted_properties(properties) {
                         write!(
                             f,
                             " {}=\"{}\"",
@@ -1270,6 +1270,16 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Properties in the order of their keys as the order of a hash map varies
+/// from run to run
+fn sorted_properties<'a, 'b>(
+    properties: &'b HashMap<Cow<'a, str>, Cow<'a, str>>,
+) -> Vec<(&'b Cow<'a, str>, &'b Cow<'a, str>)> {
+    let mut properties: Vec<_> = properties.iter().collect();
+    properties.sort_unstable();
+    properties
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From 582a680c87fe4dc60b6f4b9b676afd1a7d2f1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 16/35] fix: keep the content of table rows whose first cell
 looks like a divider

---
 .../src/lang/parsers/vimwiki/blocks/tables.rs | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 2765acb..0174bbf 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -76,17 +76,23 @@ pub fn nested_table(input: Span) -> IResult<Located<Table>> {
 
 #[inline]
 fn row(input: Span) -> IResult<Vec<Located<Cell>>> {
-    context(
-        "Row",
-        terminated(
-            delimited(
-                char('|'),
-                separated_list1(char('|'), deeper(cell)),
-                char('|'),
-            ),
-            pair(space0, end_of_line_or_input),
+    // NOTE: A row is a divider row only if all of its cells are; otherwise,
+    //       the content of the other cells would get lost
+    context("Row", alt((row_of(divider_cell), row_of(cell))))(input)
+}
+
+#[inline]
+fn row_of<'a>(
+    cell: impl Fn(Span<'a>) -> IResult<Located<Cell<'a>>>,
+) -> impl FnMut(Span<'a>) -> IResult<Vec<Located<Cell<'a>>>> {
+    terminated(
+        delimited(
+            char('|'),
+            separated_list1(char('|'), deeper(cell)),
+            char('|'),
         ),
-    )(input)
+        pair(space0, end_of_line_or_input),
+    )
 }
 
 #[inline]
@@ -105,6 +111,15 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
     Ok((input, col))
 }
 
+#[inline]
+fn divider_cell(input: Span) -> IResult<Located<Cell>> {
+    fn inner(input: Span) -> IResult<Cell> {
+        terminated(map(column_align, Cell::Align), peek(char('|')))(input)
+    }
+
+    context("Divider Cell", locate(capture(inner)))(input)
+}
+
 #[inline]
 fn cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
@@ -113,7 +128,6 @@ fn cell(input: Span) -> IResult<Located<Cell>> {
         alt((
             terminated(map(cell_span_above, Cell::Span), peek(char('|'))),
             terminated(map(cell_span_left, Cell::Span), peek(char('|'))),
-            terminated(map(column_align, Cell::Align), peek(char('|'))),
             terminated(
                 map(
                     map_parser(take_line_until1("|"), inline_element_container),
-- 
2.43.0


From 29d44b7421dc8d53f25cea1a14189da90cc78683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 17/35] fix: write the properties of all kinds of links as
 vimwiki

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 71 ++++++++++++---------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index b60e784..c410896 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -654,6 +654,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
+                write_link_properties(f, data)?;
                 write!(f, "]]")?;
             }
             Self::IndexedInterWiki { index, data } => {
@@ -668,6 +669,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
+                write_link_properties(f, data)?;
                 write!(f, "]]")?;
             }
             Self::NamedInterWiki { name, data } => {
@@ -682,6 +684,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
+                write_link_properties(f, data)?;
                 write!(f, "]]")?;
             }
             Self::Diary { date, data } => {
@@ -698,6 +701,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
+                write_link_properties(f, data)?;
                 write!(f, "]]")?;
             }
             Self::Raw { data } => {
@@ -714,36 +718,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
-                if let Some(properties) = data.properties.as_ref() {
-                    // Transclusion requires a description prior to properties,
-                    // so we make sure there is one, even if empty
-                    if data.description.is_none() {
-                        write!(f, "|")?;
-                    }
-
-                    // Start property section
-                    write!(f, "|")?;
-
-                    // NOTE: We provide specific ordering by key to ensure consitent output,
-                    //       otherwise the properties can move around with each output
-                    let mut sorted_properties = properties
-                        .iter()
-                        .map(|(key, value)| (key.as_ref(), value.as_ref()))
-                        .collect::<Vec<(&str, &str)>>();
-                    sorted_properties
-                        .sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
-
-                    for (idx, (key, value)) in
-                        sorted_properties.into_iter().enumerate()
-                    {
-                        // Add space separator if not first property
-                        if idx != 0 {
-                            write!(f, " ")?;
-                        }
-
-                        write!(f, "{}=\"{}\"", key, value)?;
-                    }
-                }
+                write_link_properties(f, data)?;
                 write!(f, "}}}}")?;
             }
         }
@@ -752,6 +727,42 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Writes the properties of a link, if it has any, following its description
+fn write_link_properties(
+    f: &mut VimwikiFormatter,
+    data: &LinkData<'_>,
+) -> VimwikiOutputResult {
+    if let Some(properties) = data.properties.as_ref() {
+        // Properties require a description prior to them, so we make sure
+        // there is one, even if empty
+        if data.description.is_none() {
+            write!(f, "|")?;
+        }
+
+        // Start property section
+        write!(f, "|")?;
+
+        // NOTE: We provide specific ordering by key to ensure consitent output,
+        //       otherwise the properties can move around with each output
+        let mut sorted_properties = properties
+            .iter()
+            .map(|(key, value)| (key.as_ref(), value.as_ref()))
+            .collect::<Vec<(&str, &str)>>();
+        sorted_properties.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
+
+        for (idx, (key, value)) in sorted_properties.into_iter().enumerate() {
+            // Add space separator if not first property
+            if idx != 0 {
+                write!(f, " ")?;
+            }
+
+            write!(f, "{}=\"{}\"", key, value)?;
+        }
+    }
+
+    Ok(())
+}
+
 impl<'a> Output<VimwikiFormatter> for Tags<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         write!(f, ":")?;
-- 
2.43.0


From 7f90109907b7c0ea96bc9a09b86f3eaa1f54140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 18/35] fix: keep link targets encoded where decoding would
 change the link

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 33 +++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index c410896..aa3e9f4 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -14,7 +14,8 @@ use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
 };
-use std::{collections::HashMap, fmt::Write};
+use std::{collections::HashMap, convert::TryFrom, fmt::Write};
+use uriparse::URIReference;
 
 impl<'a> Output<VimwikiFormatter> for Page<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
@@ -645,7 +646,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
         match self {
             Self::Wiki { data } => {
                 write!(f, "[[")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", link_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -660,7 +661,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::IndexedInterWiki { index, data } => {
                 write!(f, "[[")?;
                 write!(f, "wiki{}:", index)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", link_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -675,7 +676,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::NamedInterWiki { name, data } => {
                 write!(f, "[[")?;
                 write!(f, "wn.{}:", name)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", link_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -709,7 +710,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             }
             Self::Transclusion { data } => {
                 write!(f, "{{{{")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", link_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -727,6 +728,28 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Produces the text of a link's uri, which is percent decoded unless that
+/// would be read back as something else
+fn link_uri_string(data: &LinkData<'_>) -> String {
+    let decoded = data.to_decoded_uri_string();
+    let is_same_link = !["|", "]]", "}}", "\n", "\r"]
+        .iter()
+        .any(|s| decoded.contains(s))
+        && (matches!(
+            URIReference::try_from(decoded.as_str()),
+            Ok(x) if x == data.uri_ref
+        ) || matches!(
+            URIReference::try_from(LinkData::encode_uri(&decoded).as_str()),
+            Ok(x) if x == data.uri_ref
+        ));
+
+    if is_same_link {
+        decoded
+    } else {
+        data.uri_ref.to_string()
+    }
+}
+
 /// Writes the properties of a link, if it has any, following its description
 fn write_link_properties(
     f: &mut VimwikiFormatter,
-- 
2.43.0


From b0956a03484bdc6a0f12d133a01ca1b155d115bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 19/35] fix: serialize definition lists

---
 .../src/lang/elements/blocks/definitions.rs    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index a0a2c70..1fbc0c7 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -150,8 +150,10 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Serialize,
     Deserialize,
 )]
-#[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    #[into_iterator(owned, ref, ref_mut)]
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +177,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +220,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +228,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From d4029c8d001a329650dfc3b5d63cb40f63dbcf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 20/35] fix: recognize alphabetic list items that begin like a
 roman numeral

---
 .../src/lang/parsers/vimwiki/blocks/lists.rs  | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 0dadd50..e5f8c53 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -240,18 +240,15 @@ fn ordered_list_item_prefix(
     input: Span,
 ) -> IResult<(OrderedListItemType, ListItemSuffix)> {
     // NOTE: Roman numeral check comes before alphabetic as alphabetic would
-    //       also match roman numerals
+    //       also match roman numerals. The suffix is part of each alternative
+    //       as a prefix like "ca." only begins like a roman numeral
+    let suffix = || alt((list_item_suffix_period, list_item_suffix_paren));
     let (input, (item_type, item_suffix)) = alt((
-        pair(
-            alt((
-                ordered_list_item_type_number,
-                ordered_list_item_type_lower_roman,
-                ordered_list_item_type_upper_roman,
-                ordered_list_item_type_lower_alphabet,
-                ordered_list_item_type_upper_alphabet,
-            )),
-            alt((list_item_suffix_period, list_item_suffix_paren)),
-        ),
+        pair(ordered_list_item_type_number, suffix()),
+        pair(ordered_list_item_type_lower_roman, suffix()),
+        pair(ordered_list_item_type_upper_roman, suffix()),
+        pair(ordered_list_item_type_lower_alphabet, suffix()),
+        pair(ordered_list_item_type_upper_alphabet, suffix()),
         pair(ordered_list_item_type_pound, list_item_suffix_none),
     ))(input)?;
 
-- 
2.43.0


From 36fdc0b196a31c2a13cebc89e874929397e48e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 21/35] fix: size hints of short table rows and of bodies with
 divider rows

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index b3777b5..c0af3c5 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -685,7 +685,10 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.idx;
+            // NOTE: Further divider rows are left out
+            let remaining = (self.idx..self.table.row_cnt())
+                .filter(|idx| !self.table.row(*idx).is_divider_row())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -731,7 +734,10 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            // NOTE: A row can be shorter than the table
+            let remaining = (self.col..self.table.col_cnt())
+                .take_while(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -792,8 +798,7 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
-            (remaining, Some(remaining))
+            Row::from(self).size_hint()
         }
     }
 
-- 
2.43.0


From 64a0ea2d5039a65670d09ba5dda069fe11b1b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 22/35] fix: keep code, math and tags within decorated text

---
 .../parsers/vimwiki/blocks/inline/typefaces.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..10d6a5c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -23,7 +23,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::char,
-    combinator::{map, map_parser, peek},
+    combinator::{map, map_parser, peek, recognize},
     multi::many1,
     sequence::preceded,
 };
@@ -219,6 +219,22 @@ fn decorated_text_contents<'a>(
                 l.map(DecoratedTextContent::from)
             }),
             map(text, |l: Located<Text>| l.map(DecoratedTextContent::from)),
+            // NOTE: Other inline elements end a text, but cannot be part of
+            //       decorated text, so they are kept as the text they are
+            map(
+                locate(capture(map(
+                    map_parser(
+                        recognize(alt((
+                            map(code_inline, |_| ()),
+                            map(math_inline, |_| ()),
+                            map(tags, |_| ()),
+                        ))),
+                        cow_str,
+                    ),
+                    Text::new,
+                ))),
+                |l: Located<Text>| l.map(DecoratedTextContent::from),
+            ),
         )))(input)
     }
 
-- 
2.43.0


From af1ff3df34ac901c19a2fd2370cf5855fccb4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 23/35] fix: strip only blanks as the indentation of code and
 math lines

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 3 ++-
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..f1b5496 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -40,7 +40,8 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..fc60b0c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -41,7 +41,8 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From dbcc4794362d1424cdfc9c54e30544857d332f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 24/35] fix: tell absolute link paths apart from relative ones
 when comparing

---
 .../lang/elements/blocks/inline/links/data.rs    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index eab64e5..b789452 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -15,7 +15,7 @@ use uriparse::{Fragment, Scheme, URIReference, URIReferenceError};
 
 /// Represents data for a link to some content, described through a combination
 /// of a URI reference and some arbitrary description
-#[derive(Constructor, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Constructor, Clone, Debug, Serialize, Deserialize)]
 pub struct LinkData<'a> {
     pub uri_ref: URIReference<'a>,
     pub description: Option<Description<'a>>,
@@ -204,6 +204,20 @@ impl<'a> LinkData<'a> {
     }
 }
 
+impl<'a> Eq for LinkData<'a> {}
+
+impl<'a> PartialEq for LinkData<'a> {
+    /// Compares all parts of the link, including whether or not its path is
+    /// absolute, which comparing the uri references leaves out
+    fn eq(&self, other: &Self) -> bool {
+        self.uri_ref == other.uri_ref
+            && self.uri_ref.path().is_absolute()
+                == other.uri_ref.path().is_absolute()
+            && self.description == other.description
+            && self.properties == other.properties
+    }
+}
+
 impl<'a> Hash for LinkData<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.uri_ref.hash(state);
-- 
2.43.0


From f75a3f1aa6e00271568926ee70f71c73e9e40863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 25/35] fix: links to an anchor of the wiki's root are not
 local to the page

---
 vimwiki-core/src/lang/elements/blocks/inline/links/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index b789452..1143689 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -112,6 +112,7 @@ impl<'a> LinkData<'a> {
     pub fn is_local_anchor(&self) -> bool {
         self.uri_ref.scheme().is_none()
             && self.uri_ref.authority().is_none()
+            && !self.uri_ref.path().is_absolute()
             && (self.uri_ref.path().segments().is_empty()
                 || self
                     .uri_ref
-- 
2.43.0


From 646276bf1be960c1c4240e63c98e281d7f6e498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:44 +0000
Subject: [PATCH 26/35] fix: join the parts of stacked anchors within the same
 page

---
 vimwiki-core/src/lang/output/html/utils.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 411eee1..306dcf4 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -208,6 +208,14 @@ pub fn resolve_link(
                     uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
                 }
 
+                uri_ref
+            } else if data.is_local_anchor() {
+                let mut uri_ref = data.uri_ref.clone();
+
+                if let Some(anchor) = data.to_anchor() {
+                    uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                }
+
                 uri_ref
             } else {
                 data.uri_ref.clone()
-- 
2.43.0


From 589a33a006202dda8db59b268b3b6ef1ef74c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 27/35] fix: regions that reach the end of the address space

---
 vimwiki-core/src/lang/elements/utils/region.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/utils/region.rs b/vimwiki-core/src/lang/elements/utils/region.rs
index 0c6bbaa..bf63a04 100644
--- a/vimwiki-core/src/lang/elements/utils/region.rs
+++ b/vimwiki-core/src/lang/elements/utils/region.rs
@@ -43,7 +43,7 @@ impl Region {
     /// Checks if a position is contained within this region
     #[inline]
     pub fn contains(&self, offset: usize) -> bool {
-        offset >= self.offset && offset < (self.offset + self.len)
+        offset >= self.offset && offset - self.offset < self.len
     }
 
     /// The offset of the region relative to some span of input
@@ -100,8 +100,8 @@ impl From<RangeInclusive<usize>> for Region {
     /// where `end + 1 < start` will result in a length of zero
     fn from(range: RangeInclusive<usize>) -> Self {
         let (start, end) = range.into_inner();
-        let len = if (end + 1) >= start {
-            (end + 1) - start
+        let len = if end >= start {
+            (end - start).saturating_add(1)
         } else {
             0
         };
@@ -119,7 +119,7 @@ impl From<RangeTo<usize>> for Region {
 impl From<RangeToInclusive<usize>> for Region {
     /// Converts from `..=end` to `Region { offset: 0, len: end + 1, depth: 0 }`
     fn from(range: RangeToInclusive<usize>) -> Self {
-        Self::new(0, range.end + 1)
+        Self::new(0, range.end.saturating_add(1))
     }
 }
 
-- 
2.43.0


From 949cc04f48020aa1323fa493c916b151849a4dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 28/35] fix: keep text that follows a transclusion within a
 link description

---
 .../src/lang/parsers/vimwiki/blocks/inline/links/mod.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index 3ae553d..cddc85d 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -12,7 +12,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::space1,
-    combinator::{map, map_opt, map_parser, opt, rest},
+    combinator::{all_consuming, map, map_opt, map_parser, opt, rest},
     multi::separated_list1,
     sequence::{delimited, separated_pair},
 };
@@ -135,7 +135,7 @@ fn link_description<'a>(input: Span<'a>) -> IResult<Description<'a>> {
     map_parser(
         take_line_until("|"),
         alt((
-            map(transclusion::transclusion_link, |l| {
+            map(all_consuming(transclusion::transclusion_link), |l| {
                 Description::from(l.into_inner().into_data())
             }),
             map(rest, |s: Span| Description::Text(s.into())),
-- 
2.43.0


From eafc6a3d232be758c208ce077cb489c22e943b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 29/35] fix: keep text that follows closing brackets within a
 link target

---
 .../src/lang/parsers/vimwiki/blocks/inline/links/mod.rs   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index cddc85d..f5f22b3 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -1,10 +1,7 @@
 use crate::lang::{
     elements::{Anchor, Description, Link, LinkData, Located},
     parsers::{
-        utils::{
-            context, cow_str, take_line_until, take_line_until1,
-            take_line_until_one_of_three1,
-        },
+        utils::{context, cow_str, take_line_until, take_line_until1},
         Error, IResult, Span,
     },
 };
@@ -97,8 +94,7 @@ fn link_data<'a>(input: Span<'a>) -> IResult<LinkData<'a>> {
 ///
 /// Can either be a text description OR an embeded {{...}} transclusion link
 fn link_uri_ref<'a>(input: Span<'a>) -> IResult<URIReference<'a>> {
-    let (input, uri_span) =
-        take_line_until_one_of_three1("|", "]]", "}}")(input)?;
+    let (input, uri_span) = take_line_until1("|")(input)?;
 
     match URIReference::try_from(uri_span) {
         Ok(uri_ref) => Ok((input, uri_ref)),
-- 
2.43.0


From 7daf7e285a41e84e3b10ca02aedcdbae8d4502b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 30/35] fix: tell encoded # of link targets apart from the
 start of the anchor

---
 .../src/lang/elements/blocks/inline/links/data.rs    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index 1143689..ae60173 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -89,11 +89,13 @@ impl<'a> LinkData<'a> {
             .add(b'`')
             .add(b'#');
 
-        // NOTE: We encode our string, but need to repair the first #
-        //       which signals the fragment
-        percent_encode(uri.as_ref(), FRAGMENT)
-            .to_string()
-            .replacen("%23", "#", 1)
+        // NOTE: We encode our string except for the first #, which signals
+        //       the fragment
+        uri.as_ref()
+            .splitn(2, |b| *b == b'#')
+            .map(|part| percent_encode(part, FRAGMENT).to_string())
+            .collect::<Vec<String>>()
+            .join("#")
     }
 
     /// Allocates a new string with percent-encoded characters decoded
-- 
2.43.0


From 0ad0a3ca133fdcf05acb0d0f7e7901750d3627ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 31/35] fix: names of interwiki links end before the
 description

---
 .../src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
index d6072c3..184bc81 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@@ -4,7 +4,7 @@ use crate::lang::{
     parsers::{
         utils::{
             capture, context, cow_str, locate, not_contains, surround_in_line1,
-            take_line_until1,
+            take_line_until1, take_line_until_one_of_two1,
         },
         IResult, Span,
     },
@@ -77,7 +77,7 @@ pub fn named_interwiki_link(input: Span) -> IResult<Located<Link>> {
 
 fn named_link_name<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     map_parser(
-        delimited(tag("wn."), take_line_until1(":"), tag(":")),
+        delimited(tag("wn."), take_line_until_one_of_two1("|", ":"), tag(":")),
         cow_str,
     )(input)
 }
-- 
2.43.0


From 3a640809f3c1c57ef74fe1bca377ff99837ab5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 32/35] fix: fill in template variables in a single pass

---
 vimwiki-core/src/lang/output/html/convert.rs | 89 ++++++++++++--------
 1 file changed, 55 insertions(+), 34 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..c2ff54d 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -65,44 +65,40 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
+        // NOTE: All variables are filled in within a single pass so we don't
+        //       replace parts of the content or of another variable's value
         //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
+        //       apply to the template itself
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let variables = [
+            ("%title%", title),
+            ("%date%", date.to_string()),
+            ("%root_path%", root_path),
+            (
                 "%wiki_path%",
-                &utils::path_to_uri_string(
+                utils::path_to_uri_string(
                     formatter.config().as_active_page_path_within_wiki(),
                 ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+            ),
+            ("%css%", formatter.config().to_current_wiki().css_name),
+            ("%encoding%", String::from("utf-8")),
+            ("%content%", formatter.into_content()),
+        ];
+
+        Ok(fill_template(&template, &variables))
     }
 }
 
@@ -366,3 +362,28 @@ mod tests {
         assert_eq!(result, "<html>some output content</html>");
     }
 }
+
+/// Replaces all variables within a template with their values in one pass
+fn fill_template(template: &str, variables: &[(&str, String)]) -> String {
+    let mut out = String::new();
+    let mut rest = template;
+
+    while let Some(idx) = rest.find('%') {
+        out.push_str(&rest[..idx]);
+        rest = &rest[idx..];
+
+        match variables.iter().find(|(name, _)| rest.starts_with(name)) {
+            Some((name, value)) => {
+                out.push_str(value);
+                rest = &rest[name.len()..];
+            }
+            None => {
+                out.push('%');
+                rest = &rest[1..];
+            }
+        }
+    }
+
+    out.push_str(rest);
+    out
+}
-- 
2.43.0


From 85e09b833932ea00c277acad95443d73fe5497d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 33/35] fix: escape the title of HTML pages

---
 vimwiki-core/src/lang/output/html/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c2ff54d..a6e9465 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -84,7 +85,7 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             }
         };
         let variables = [
-            ("%title%", title),
+            ("%title%", escape::escape_html(&title)),
             ("%date%", date.to_string()),
             ("%root_path%", root_path),
             (
-- 
2.43.0


From 3ea5bc301b8ed73b5921c03c3c41d5b8dc355cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 34/35] fix: write blockquotes with arrows where they cannot be
 indented

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index aa3e9f4..6510be4 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -82,6 +82,13 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             trim_lines,
         } = f.config().blockquote;
 
+        // NOTE: A blockquote that is written using indentation cannot contain
+        //       blank lines, and is not supported within other elements where
+        //       the indentation has a different meaning
+        let indented = prefer_indented_blockquote
+            && f.indent_level == 0
+            && self.into_iter().all(|line| !line.trim().is_empty());
+
         for line in self {
             f.write_indent()?;
 
@@ -89,7 +96,7 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             //       as default instead of forcing one type or another
             // TODO: Support spacing on multiple >>> for nested blockquotes
             //       once those are implemented
-            if prefer_indented_blockquote {
+            if indented {
                 write!(f, "    ")?;
             } else {
                 write!(f, "> ")?;
-- 
2.43.0


From 8319092de7aaf83c6a564cb5563fe09be136e8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:12 +0000
Subject: [PATCH 35/35] fix: keep an empty last line of comments that are
 written without padding

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 6510be4..37d6a0d 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -873,8 +873,11 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
                 line.as_ref()
             };
 
-            // Don't write newline on last line
-            if idx == self.len() - 1 {
+            // Don't write newline on last line, unless that line would
+            // disappear because there is nothing to write for it
+            if idx == self.len() - 1
+                && !(no_padding && idx > 0 && content.is_empty())
+            {
                 write!(f, "{}", content)?;
             } else {
                 writeln!(f, "{}", content)?;
-- 
2.43.0

