From 20a0f9cbdb3ad13059596dce20287d2b12ae6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:43 +0000
Subject: [PATCH 01/12] hooks: verification-only accessors behind
 cfg(verif_hooks)

---
 src/lib.rs                |  6 ++++++
 src/parser.rs             |  5 +++++
 src/parser_verif_hooks.rs | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 src/parser_verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b291746..982f58d 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,9 @@ mod core;
 pub mod parser;
 
 pub use core::matrix::Matrix4;
+
+/// Verification builds only (`--cfg verif_hooks`): the otherwise private core module.
+#[cfg(verif_hooks)]
+pub mod verif_core {
+    pub use core::*;
+}
diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..56f5123 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1361,6 +1361,11 @@ impl Parser {
     }
 }
 
+/// Verification builds only (`--cfg verif_hooks`): read-only access to private fields.
+#[cfg(verif_hooks)]
+#[path = "parser_verif_hooks.rs"]
+pub mod verif_hooks;
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/parser_verif_hooks.rs b/src/parser_verif_hooks.rs
new file mode 100644
index 0000000..8b1de98
--- /dev/null
+++ b/src/parser_verif_hooks.rs
@@ -0,0 +1,35 @@
+//! Read-only accessors for the private parts of a parsed scene, so that monitors outside the
+//! crate can observe it. Compiled only with `--cfg verif_hooks`; adds no behaviour.
+#![allow(warnings)]
+use super::*;
+
+/// (row, column)
+pub fn pos(p: &Pos) -> (u64, u64) {
+    (p.r as u64, p.c as u64)
+}
+
+/// (type, position, parameters)
+pub fn directive(d: &DirectiveStruct) -> (&str, (u64, u64), &ParamSet) {
+    (&d.ty[..], pos(&d.pos), &d.param_set)
+}
+
+/// (name, type, class, position, parameters)
+pub fn texture(t: &TextureStruct) -> (&str, &str, &str, (u64, u64), &ParamSet) {
+    (
+        &t.name[..],
+        &t.ty[..],
+        &t.class[..],
+        pos(&t.pos),
+        &t.param_set,
+    )
+}
+
+/// (position, children)
+pub fn block(b: &BlockStruct) -> ((u64, u64), &[Directive]) {
+    (pos(&b.pos), &b.children[..])
+}
+
+/// (name, position, values)
+pub fn param<T>(p: &Param<T>) -> (&str, (u64, u64), &[T]) {
+    (&p.name[..], pos(&p.pos), &p.values[..])
+}
-- 
2.43.0


From e0d6062038798043be9e350a0d90c29372ff1728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:42 +0000
Subject: [PATCH 02/12] fix: skip comments and whitespace without recursion

tokenize_one() called itself after every comment and every run of blanks, so a
few thousand consecutive comment lines overflowed the stack.
---
 src/parser.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56f5123..39c0915 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -310,16 +310,26 @@ impl Tokenizer {
         self.index >= self.chars.len()
     }
 
-    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
-        match self.peek() {
-            Ok('#') => {
+    /// Skips whitespace and comments. Iterative, so that any number of them can precede a token.
+    fn skip_blanks(&mut self) {
+        while let Ok(ch) = self.peek() {
+            if ch == '#' {
                 while let Ok(ch) = self.next() {
                     if ch == '\n' {
                         break;
                     }
                 }
-                self.tokenize_one()
+            } else if ch.is_whitespace() {
+                let _ = self.next();
+            } else {
+                break;
             }
+        }
+    }
+
+    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
+        self.skip_blanks();
+        match self.peek() {
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -338,17 +348,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From 63cde318ef3563267d6c7045c2aa09a1d212c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 03/12] fix: refuse a number whose exponent has an exponent

tokenize_num() called itself for the exponent without a limit, so a text such as
1e1e1e... overflowed the stack.
---
 src/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c0915..e00b8c6 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -358,6 +358,11 @@ impl Tokenizer {
     }
 
     fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+        self.tokenize_num_part(true)
+    }
+
+    /// A number, or the exponent of one, which can't have an exponent itself.
+    fn tokenize_num_part(&mut self, allow_exponent: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -383,7 +388,13 @@ impl Tokenizer {
                     is_float = true;
                     num_chars.push(self.next()?);
                 },
-                Ok('e') => {
+                Ok(ch @ 'e') => {
+                    if !allow_exponent {
+                        return Err(TokenizerError::Str(format!(
+                            "{} tokenize_num(): unexpected char '{}'",
+                            self.pos, ch
+                        )));
+                    }
                     if num_chars.is_empty() {
                         return Err(TokenizerError::Str(format!(
                             "{} tokenize_num(): no number",
@@ -391,7 +402,7 @@ impl Tokenizer {
                         )));
                     }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num_part(false)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0


From 953dd67375b3ab7005397c20a8b8ebc598bf58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:42 +0000
Subject: [PATCH 04/12] fix: scale numbers by their exponent without overflow

1e19 panicked in debug builds and gave an arbitrary integer in release builds;
0.0e50 was NaN and 100000000000.0e-46 was 0 because the power of ten was computed
on its own. An integer that does not fit becomes a float, and floats are parsed
as a whole.
---
 src/parser.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e00b8c6..0d9b630 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -412,23 +412,24 @@ impl Tokenizer {
                                 ),
                             })
                         }
-                        TokenType::Int(i) if i >= 0 && !is_float => {
-                            return Ok(Token {
-                                pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
-                        }
                         TokenType::Int(i) => {
+                            let num_str = num_chars.into_iter().collect::<String>();
+                            if i >= 0 && !is_float {
+                                let mantissa = num_str.parse::<isize>()?;
+                                // 10^19 and more don't fit, so there's no need to try them
+                                let int = isize::checked_pow(10, i.min(19) as u32)
+                                    .and_then(|power| mantissa.checked_mul(power));
+                                if let Some(int) = int {
+                                    return Ok(Token {
+                                        pos: start_pos,
+                                        ty: TokenType::Int(int),
+                                    });
+                                }
+                            }
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Float(
-                                    num_chars.into_iter().collect::<String>().parse::<Float>()?
-                                        * Float::powf(10.0, i as Float),
-                                ),
-                            })
+                                ty: TokenType::Float(format!("{}e{}", num_str, i).parse()?),
+                            });
                         }
                         _ => {
                             return Err(TokenizerError::Str(format!(
-- 
2.43.0


From 468498e45b3d6e53a384d3bbfc435215afc331a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:42 +0000
Subject: [PATCH 05/12] fix: report malformed parameters instead of dropping
 them

parse_param_lists() took any error for the end of the parameters, so a parameter
with a missing or wrong value was dropped silently together with the tokens read
so far.
---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0d9b630..0e43847 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -572,8 +572,15 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
-        Ok(())
+        loop {
+            match self.peek() {
+                Ok(Token {
+                    ty: TokenType::Str(_),
+                    ..
+                }) => self.parse_param_list(param_set)?,
+                _ => return Ok(()),
+            }
+        }
     }
 
     fn parse_param_list(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-- 
2.43.0


From c78724b86a18dcd278848efd7a6095b77278012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 06/12] fix: close a block at its own End and go on after it

---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e43847..681a44c 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1062,15 +1062,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1096,7 +1096,8 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    /// Parses the directives of a block up to and including the identifier that closes it
+    fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1104,7 +1105,8 @@ impl Parser {
                     ty: TokenType::Identifier(ref s),
                     ..
                 } => {
-                    if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                    if s == end {
+                        self.next()?;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From a816b4f04a1dba098f7e3789541059c786938b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 07/12] fix: refuse blocks nested too deeply instead of
 overflowing the stack

---
 src/parser.rs | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 681a44c..08da5ef 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -210,9 +210,13 @@ pub struct Tokenizer {
     prev_pos: Pos,
 }
 
+/// How deep blocks can be nested, so that no input can exhaust the stack
+const MAX_BLOCK_DEPTH: usize = 128;
+
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    block_depth: usize,
 }
 
 pub type TokenizerResult<T> = Result<T, TokenizerError>;
@@ -535,6 +539,7 @@ impl Parser {
         Ok(Parser {
             tokens: Tokenizer::tokenize(input)?,
             index: 0,
+            block_depth: 0,
         })
     }
 
@@ -1022,8 +1027,27 @@ impl Parser {
     fn parse_directive(&mut self) -> ParserResult<Directive> {
         let start_pos = self.pos()?;
         let id = self.parse_identifier()?;
-        let mut param_set = ParamSet::default();
         match id.as_ref() {
+            "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
+                pos: start_pos,
+                children: self.parse_directives("AttributeEnd")?,
+            })),
+            "TransformBegin" => Ok(Directive::Transform(BlockStruct {
+                pos: start_pos,
+                children: self.parse_directives("TransformEnd")?,
+            })),
+            "WorldBegin" => Ok(Directive::World(BlockStruct {
+                pos: start_pos,
+                children: self.parse_directives("WorldEnd")?,
+            })),
+            _ => self.parse_leaf_directive(start_pos, &id),
+        }
+    }
+
+    /// A directive that isn't a block. Kept apart because `parse_directive` recurses.
+    fn parse_leaf_directive(&mut self, start_pos: Pos, id: &str) -> ParserResult<Directive> {
+        let mut param_set = ParamSet::default();
+        match id {
             "Material" => {
                 let ty = self.parse_string()?;
                 self.parse_param_lists(&mut param_set)?;
@@ -1060,18 +1084,6 @@ impl Parser {
                     param_set,
                 }))
             }
-            "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
-                pos: start_pos,
-                children: self.parse_directives("AttributeEnd")?,
-            })),
-            "TransformBegin" => Ok(Directive::Transform(BlockStruct {
-                pos: start_pos,
-                children: self.parse_directives("TransformEnd")?,
-            })),
-            "WorldBegin" => Ok(Directive::World(BlockStruct {
-                pos: start_pos,
-                children: self.parse_directives("WorldEnd")?,
-            })),
             "Include" => Ok(Directive::Include(
                 start_pos,
                 PathBuf::from(self.parse_string()?),
@@ -1098,6 +1110,13 @@ impl Parser {
 
     /// Parses the directives of a block up to and including the identifier that closes it
     fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
+        if self.block_depth >= MAX_BLOCK_DEPTH {
+            return Err(ParserError::Str(format!(
+                "{} parse_directives(): blocks are nested too deeply",
+                self.pos()?
+            )));
+        }
+        self.block_depth += 1;
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1107,6 +1126,7 @@ impl Parser {
                 } => {
                     if s == end {
                         self.next()?;
+                        self.block_depth -= 1;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From e1565a2fee8c73d444d8f8f337465bc1d054b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:02 +0000
Subject: [PATCH 08/12] fix: last row of the inverse of a scale transform

---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From 5904cc70388bd80c746af2540ca3905446137f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:26 +0000
Subject: [PATCH 09/12] fix: divide a Vector2 by its divisor instead of
 multiplying

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From c2e9505e70e58814da88b7c44df40920eac779f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:26 +0000
Subject: [PATCH 10/12] fix: visit the points of a Bounds2 from its own first
 row and column

---
 src/core/boundingbox.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..348b039 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -186,6 +186,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
+            x_min: self.p_min.x,
             p_max: self.p_max,
             x: self.p_min.x,
             y: self.p_min.y,
@@ -193,7 +194,9 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
     }
 }
 
+/// The points of a box row by row, without those at `p_max.x` or `p_max.y`
 pub struct Bounds2Iter<T: ElemType> {
+    x_min: T,
     p_max: Point2<T>,
     x: T,
     y: T,
@@ -203,16 +206,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x_min >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let point = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(point)
         }
     }
 }
-- 
2.43.0


From 0748f88bac5b67db5297c8e07ec7460380bf08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:32 +0000
Subject: [PATCH 11/12] fix: keep the intersection of boxes apart empty

---
 src/core/boundingbox.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index 348b039..d6d81e3 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -93,19 +93,20 @@ impl<T: ElemType> Bounds3<T> {
         )
     }
 
+    /// Boxes that don't overlap have an empty intersection, with p_min above p_max on some axis
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0


From 7df9af2273aa5db83f485d17d4a61a8331856fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 12/12] fix: refuse a matrix whose inverse is not finite
 instead of returning NaN

---
 src/core/matrix.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/matrix.rs b/src/core/matrix.rs
index df1bd12..cf5a2fd 100755
--- a/src/core/matrix.rs
+++ b/src/core/matrix.rs
@@ -96,6 +96,10 @@ impl<T: ElemType> Matrix4<T> {
                 }
             }
         }
+        // A pivot too small to divide by: singular to working precision
+        if minv.iter().any(|row| row.iter().any(|x| !x.is_finite())) {
+            panic!("Singular matrix in Matrix4::inverse");
+        }
         Matrix4::new(minv)
     }
 }
-- 
2.43.0

