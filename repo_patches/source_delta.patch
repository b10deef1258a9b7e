From 0aeea293635d38018444b9de0a6f7146117a9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:49 +0000
Subject: [PATCH 1/8] fix: do not panic on an object that has no elements

Parsing an object without any elements and without a usemtl statement
(e.g. "v 0 0 0") indexed into the empty table of material names. Do not
emit a geometry for an empty range of elements at the end of an object,
as is already the case between two usemtl statements.
---
 src/obj.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..c191a41 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,15 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object (or a trailing `usemtl` statement) without any elements
+                    // has no geometry, just like a `usemtl` statement that is followed
+                    // immediately by another one.
+                    if min_element_material_name_index != max_element_material_name_index {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 7fb11a74bdbbba782b16134193debf27c06e2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:51 +0000
Subject: [PATCH 2/8] fix: resolve negative indices relative to the most recent
 definition

A negative index was subtracted from the number of definitions instead of
added to it, so that every relative index was rejected as out of range,
and the smallest integer overflowed (a panic with overflow checks).
---
 src/obj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index c191a41..c81167c 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -880,8 +880,10 @@ impl<'a> Parser<'a> {
     #[inline(always)]
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
+        // A negative value counts backwards from the most recently defined item; zero
+        // is not a valid index, so it must land outside of the valid range.
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 8434b978a1e5e0cc6768a46dbe1886ad2c8c9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:19 +0000
Subject: [PATCH 3/8] fix: report invalid indices in face and line elements

An index that is malformed or out of range ended the list of indices of a
line or a face silently, so that "f 1 2 3 9" was accepted as a triangle.
Read the indices up to the end of the line and report the first error.
---
 src/obj.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index c81167c..21c4bd6 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -963,7 +963,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Parse one more more VTN indices.
+    /// Parse the VTN indices up to the end of the current line.
     ///
     /// Return the number of VTN indices parsed if no errors occurred.
     fn parse_vtn_indices(
@@ -974,9 +974,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), Some("\n") | None) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From c709e007d273cf345adfd6d02e9386fb9511e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:20 +0000
Subject: [PATCH 4/8] fix: accept carriage returns as line terminators

The lexer treats a carriage return as a newline, but emitted it as a token
of its own that the parsers do not know: most files with CRLF line
terminators were rejected, and the others gained groups and material
libraries named "\r". Emit the same newline token for \n, \r\n and \r.
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..c40ede4 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -115,8 +115,12 @@ impl<'a> Lexer<'a> {
 
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
+                // The line terminators `\n`, `\r\n` and `\r` are all the same token.
+                if self.stream[start_position..].starts_with(b"\r\n") {
+                    self.stream_position += 1;
+                }
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                Some(b"\n")
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 8d3fbd869d6399115031edaaaab8b3786729028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:46 +0000
Subject: [PATCH 5/8] fix: reject statements whose name is missing

The end of the line was taken for the name of an object, material or
texture map if the name was missing, e.g. "usemtl" selected a material
named "\n". Report an error, as already happens at the end of the input.
---
 src/mtl.rs | 95 ++++++++++++++----------------------------------------
 src/obj.rs | 14 +++++---
 2 files changed, 35 insertions(+), 74 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..b6f1d07 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -425,6 +425,21 @@ impl<'a> Parser<'a> {
         self.parse_f64()
     }
 
+    /// Parse a name from the current line in the input stream.
+    fn parse_name(&mut self, expected: &str) -> Result<&'a str, ParseError> {
+        match self.next() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                format!("Expected {} but got end of line.", expected),
+            ),
+            Some(st) => Ok(st),
+            None => self.error(
+                ErrorKind::EndOfFile,
+                format!("Expected {} but got end of input.", expected),
+            ),
+        }
+    }
+
     /// Parse the name of a material's ambient texture map from the input stream.
     fn parse_map_ambient(&mut self) -> Result<Option<&'a str>, ParseError> {
         match self.peek() {
@@ -433,13 +448,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ka")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's diffuse texture map from the input stream.
@@ -450,13 +459,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Kd")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's specular texture map from the input stream.
@@ -467,13 +470,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ks")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's emissive texture map from the input stream.
@@ -484,13 +481,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ke")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's bump texture map from the input stream.
@@ -505,13 +496,7 @@ impl<'a> Parser<'a> {
             _ => return Ok(None),
         }
 
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's displacement texture map from the input stream.
@@ -522,13 +507,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("disp")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's dissolve (alpha) texture map from the input stream.
@@ -539,13 +518,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_d")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's decal texture map from the input stream.
@@ -556,13 +529,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("decal")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse the name of a material's specular exponent texture map from the input stream.
@@ -573,13 +540,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ns")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("texture map name").map(Some)
     }
 
     /// Parse a material's illumination model.
@@ -615,13 +576,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        match self.next() {
-            Some(st) => Ok(st),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected material name but got end of input.".to_owned(),
-            ),
-        }
+        self.parse_name("material name")
     }
 
     /// Parse one material from a MTL file.
diff --git a/src/obj.rs b/src/obj.rs
index 21c4bd6..4ee8701 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -868,10 +868,16 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
-                let object_name = self.next_string();
+                let object_name = self.next_string()?;
+                if object_name == "\n" {
+                    return self.error(
+                        ErrorKind::InvalidObjectStatement,
+                        "Got an `o` object declaration without an object name.".to_owned(),
+                    );
+                }
                 self.skip_one_or_more_newlines()?;
 
-                object_name
+                Ok(object_name)
             }
             _ => Ok(""),
         }
@@ -1165,7 +1171,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|&name| name != "\n") {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1196,7 +1202,7 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|&name| name != "\n") {
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 7cf066a422bfd8ca5a8a364d96d78d5c5a1ec2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:14 +0000
Subject: [PATCH 6/8] fix: put elements after a nameless group statement in the
 default group

Every element belongs to at least one group, but the elements after a
second or later "g" statement without names belonged to no group at all.
---
 src/obj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index 4ee8701..4ccd14e 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1162,6 +1162,12 @@ impl<'a> Parser<'a> {
             }
         }
 
+        // A group statement without any names selects the default group.
+        if groups_parsed == 0 {
+            groups.push(Default::default());
+            groups_parsed = 1;
+        }
+
         Ok(groups_parsed)
     }
 
-- 
2.43.0


From efdcda7123257703e19d8e334190a6780cbdbe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 7/8] fix: report errors at the end of a line on that line

A statement that ends too early was reported on the line after it, because
the line number was incremented before the error was constructed.
---
 src/mtl.rs | 20 +++++++++++++++-----
 src/obj.rs | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index b6f1d07..a3b3029 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -274,6 +274,8 @@ impl error::Error for ParseError {}
 pub struct Parser<'a> {
     /// the current line number in the input stream.
     line_number: usize,
+    /// Whether the token consumed last is a newline.
+    is_at_end_of_line: bool,
     /// The underlying lexer that tokenizes the input stream.
     lexer: PeekableLexer<'a>,
 }
@@ -283,6 +285,7 @@ impl<'a> Parser<'a> {
     pub fn new(input: &'a str) -> Parser<'a> {
         Parser {
             line_number: 1,
+            is_at_end_of_line: false,
             lexer: PeekableLexer::new(Lexer::new(input)),
         }
     }
@@ -294,17 +297,24 @@ impl<'a> Parser<'a> {
 
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.advance_line_number();
         self.lexer.peek()
     }
 
+    /// Count the newline consumed last once the parser moves beyond it, so that an
+    /// error about a newline token is reported on the line that it terminates.
+    fn advance_line_number(&mut self) {
+        if self.is_at_end_of_line {
+            self.line_number += 1;
+            self.is_at_end_of_line = false;
+        }
+    }
+
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.advance_line_number();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.is_at_end_of_line = token == Some("\n");
 
         token
     }
diff --git a/src/obj.rs b/src/obj.rs
index 4ccd14e..2a49d1e 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -664,6 +664,8 @@ impl error::Error for ParseError {}
 pub struct Parser<'a> {
     /// The current line position of the parser in the input stream.
     line_number: usize,
+    /// Whether the token consumed last is a newline.
+    is_at_end_of_line: bool,
     /// the underlying lexer that generates tokens.
     lexer: PeekableLexer<'a>,
 }
@@ -700,6 +702,7 @@ impl<'a> Parser<'a> {
     pub fn new(input: &'a str) -> Parser<'a> {
         Parser {
             line_number: 1,
+            is_at_end_of_line: false,
             lexer: PeekableLexer::new(Lexer::new(input)),
         }
     }
@@ -711,17 +714,24 @@ impl<'a> Parser<'a> {
 
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.advance_line_number();
         self.lexer.peek()
     }
 
+    /// Count the newline consumed last once the parser moves beyond it, so that an
+    /// error about a newline token is reported on the line that it terminates.
+    fn advance_line_number(&mut self) {
+        if self.is_at_end_of_line {
+            self.line_number += 1;
+            self.is_at_end_of_line = false;
+        }
+    }
+
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.advance_line_number();
         let token = self.lexer.next();
-        if let Some(val) = token {
-            if val == "\n" {
-                self.line_number += 1;
-            }
-        }
+        self.is_at_end_of_line = token == Some("\n");
 
         token
     }
-- 
2.43.0


From 0792cb438fc05a9ec5b3a860e5984516eb9e29a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:18 +0000
Subject: [PATCH 8/8] fix: close the summary of an object with a single brace

---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 2a49d1e..590cf79 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -550,7 +550,7 @@ impl DisplayObjectCompositor {
         string += &self.compose_set(&object.group_set, "group");
         string += &self.compose_set(&object.smoothing_group_set, "smoothing group");
         string += &self.compose_set(&object.element_set, "element");
-        string += "}}\n";
+        string += "}\n";
 
         string
     }
-- 
2.43.0

