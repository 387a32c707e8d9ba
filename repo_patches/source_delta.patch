From d1914dbbc33299edcb3f53962dcac08c22c1db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 001/131] fix: keep the "as" filter of for-list loops

The filter is already consumed into key_input_type before the loop form is
known, so the second check for "as" never matched and ForListStatement always
lost its input type.
---
 crates/dreammaker/src/parser.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..1668cb1 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1724,12 +1724,8 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     _ => return Err(self.error("for-list must start with variable")),
                 };
 
-                let input_type = if let Some(()) = self.exact_ident("as")? {
-                    // for(var/a as obj
-                    Some(require!(self.input_type()))
-                } else {
-                    None
-                };
+                // for(var/a as obj
+                let input_type = key_input_type;
 
                 let in_list = if let Some(()) = self.exact(Token::Punct(Punctuation::In))? {
                     let value = require!(self.expression());
-- 
2.43.0


From a7e7341a922ff374975f03516559ff6605292187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 002/131] fix: parse the variable block of single-element
 relative prefabs

".obj{v = 1}" returned before looking for the "{...}" block, so such a prefab
was a syntax error.
---
 crates/dreammaker/src/parser.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 1668cb1..b5c6930 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -2087,19 +2087,17 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let start = self.updated_location();
 
         // expect at least one path element
-        let sep = match self.path_separator()? {
-            Some(sep) => sep,
-            None if !parts.is_empty() => return Ok(Some(Box::new(Prefab::from(parts)))),
-            None => return Ok(None),
-        };
-        let mut separator_loc = self.location;
-        if let Some(ident) = self.ident_in_seq(parts.len())? {
-            parts.push((sep, ident));
-        } else {
-            separator_loc.column += 1;
-            self.annotate_precise(separator_loc..separator_loc, || {
-                Annotation::IncompleteTypePath(parts.clone(), sep)
-            });
+        if parts.is_empty() {
+            let sep = leading!(self.path_separator());
+            let mut separator_loc = self.location;
+            if let Some(ident) = self.ident_in_seq(parts.len())? {
+                parts.push((sep, ident));
+            } else {
+                separator_loc.column += 1;
+                self.annotate_precise(separator_loc..separator_loc, || {
+                    Annotation::IncompleteTypePath(parts.clone(), sep)
+                });
+            }
         }
 
         // followed by more path elements, empty ones ignored
-- 
2.43.0


From 0ae95f4c0e4de35157609df97146f71fa1b1ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 003/131] fix: accept semicolons after the else block of a
 switch

"switch(x) if(1) ... else {}" as the last thing in a file was a syntax error,
because the indent processor ends the file with a semicolon before the closing
braces. Other switch arms already tolerate it.
---
 crates/dreammaker/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index b5c6930..767aa1c 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1786,7 +1786,9 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     let block = require!(self.block(loop_ctx));
                     cases.push((Spanned::new(self.location(), what), block));
                 } else if let Some(()) = self.exact_ident("else")? {
-                    break Some(require!(self.block(loop_ctx)));
+                    let block = require!(self.block(loop_ctx));
+                    self.skip_phantom_semicolons()?;
+                    break Some(block);
                 } else if let Some(()) = self.exact(Token::Punct(Punctuation::Semicolon))? {
                     // Tolerate stray semicolons here because inert doc
                     // comments might synthesize them.
-- 
2.43.0


From e947fffe15257089a5743b8a110c34f5c4727f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 004/131] fix: report the real error of a constant that is
 evaluated twice

After a failed evaluation being_evaluated stayed set, so every later reference
was misreported as "recursive constant reference".
---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..966506a 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -596,11 +596,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From 3ac613ab433368fe89d31d2824f43d2addc3c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 005/131] fix: fold null == null to true whatever the declared
 types

"var/obj/x = null; var/y = (x == null)" evaluated to 0, because the type hint
carried by the constant took part in the comparison.
---
 crates/dreammaker/src/constants.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 966506a..04392fe 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -771,7 +771,7 @@ impl<'a> ConstantFolder<'a> {
     }
 
     fn binary(&mut self, lhs: Constant, rhs: Constant, op: BinaryOp) -> Result<Constant, DMError> {
-        use self::Constant::{Float, String};
+        use self::Constant::{Float, Null, String};
 
         match (op, lhs, rhs) {
             (BinaryOp::Add, Float(lhs), Float(rhs)) => Ok(Constant::from(lhs + rhs)),
@@ -815,6 +815,9 @@ impl<'a> ConstantFolder<'a> {
             (BinaryOp::Add, String(lhs), String(rhs)) => {
                 Ok(String((lhs.into_owned() + &rhs).into()))
             },
+            // the type hint of a null is not part of its value
+            (BinaryOp::Eq, Null(_), Null(_)) => Ok(Constant::from(true)),
+            (BinaryOp::NotEq, Null(_), Null(_)) => Ok(Constant::from(false)),
             (BinaryOp::Eq, lhs, rhs) => Ok(Constant::from(lhs == rhs)),
             (BinaryOp::NotEq, lhs, rhs) => Ok(Constant::from(lhs != rhs)),
             (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),
-- 
2.43.0


From c1f6d578ab75110f266916c4c57ec0219ce9a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 006/131] fix: fold sin, cos, arcsin and arccos in degrees, as
 BYOND does

---
 crates/dreammaker/src/constants.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 04392fe..c64b21c 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -856,10 +856,11 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                // (angles are in degrees)
+                "sin" => self.trig_op(args, |x| x.to_radians().sin())?,
+                "cos" => self.trig_op(args, |x| x.to_radians().cos())?,
+                "arcsin" => self.trig_op(args, |x| x.asin().to_degrees())?,
+                "arccos" => self.trig_op(args, |x| x.acos().to_degrees())?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
-- 
2.43.0


From e1bfd9d4c1c48d818a83b2c8322b91a753a5651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 007/131] fix: place named rgb() arguments by name and never
 panic on missing ones

Named arguments were taken in the order written, so rgb(b=1, r=2, g=3) gave the
wrong colour, and rgb(1, 2, space=0) hit an assertion.
---
 crates/dreammaker/src/constants.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index c64b21c..1fcbd80 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1200,10 +1200,12 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        let mut values: [Option<f64>; 4] = [None; 4];
+        let mut next_slot = 0;
 
         for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
             let mut to_check = value;
+            let mut slot = next_slot;
 
             // Determines the range based on predetermined colorspace
             let mut range = match arg_pos {
@@ -1233,6 +1235,13 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
+                    slot = match kwarg {
+                        "r" | "red" | "h" | "hue" => 0,
+                        "g" | "green" | "s" | "saturation" | "c" | "chroma" => 1,
+                        "b" | "blue" | "v" | "value" | "l" | "luminance" | "y" => 2,
+                        _ => 3,
+                    };
+
                     range = match kwarg {
                         "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
                         "h" | "hue" => 0..=360,
@@ -1267,28 +1276,29 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(dest) = values.get_mut(slot) {
+                    *dest = Some(clamped.into());
+                }
+                next_slot += 1;
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(v0), Some(v1), Some(v2), alpha] = values else {
+            return Err(self.error("malformed rgb() call, must specify all 3 color components"));
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(v0, v1, v2),
+            ColorSpace::Hsv => Hsv::new(v0, v1 * 0.01, v2 * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(v0, v1 * 0.01, v2 * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(v2, v1, v0).into(),
         };
 
         // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
+        let alpha = color_args.a.or_else(|| alpha.map(|x| x as i32));
 
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
-- 
2.43.0


From ff5d49ff15c08046a4826adff2ff9a8f6a230942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 008/131] fix: reject non-const members in constants whatever
 was folded before

"GLOB.x" of a non-const x was accepted when x happened to have been folded
already and rejected otherwise, so the result depended on declaration order.
---
 crates/dreammaker/src/constants.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 1fcbd80..fc74a1b 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -545,6 +545,12 @@ fn constant_ident_lookup(
         let parent = type_.parent_type_index();
         match type_.vars.get_mut(ident) {
             None => return Ok(ConstLookup::Continue(parent)),
+            Some(var) if must_be_const && !decl.var_type.flags.is_const() => {
+                return Err(DMError::new(
+                    var.value.location,
+                    format!("non-const variable: {ident}"),
+                ));
+            },
             Some(var) => match var.value.constant.clone() {
                 Some(constant) => {
                     return Ok(ConstLookup::Found(
@@ -563,11 +569,6 @@ fn constant_ident_lookup(
                                 var.value.location,
                                 format!("non-const-evaluable variable: {ident}"),
                             ));
-                        } else if !decl.var_type.flags.is_const() && must_be_const {
-                            return Err(DMError::new(
-                                var.value.location,
-                                format!("non-const variable: {ident}"),
-                            ));
                         }
                         var.value.being_evaluated = true;
                         (var.value.location, decl.var_type.type_path, expr)
-- 
2.43.0


From b266e7e92fe3c277ba6132ad8828731a1321feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 009/131] fix: print every float so that it reads back as the
 same six digits

Tiny numbers printed as "infe-038" because the scale factor overflowed, and
mantissas rounding up to ten printed as "10e-005".
---
 crates/dreammaker/src/lexer.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..140f245 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -393,20 +393,19 @@ impl fmt::Display for FormatFloat {
         } else if n == 0.0 {
             f.write_str("0")
         } else {
-            let exp = n.abs().log10().floor();
-            let factor = 10.0f32.powf(5.0 - exp);
-            if exp >= 6.0 || exp <= -5.0 {
-                let n2 = (n * factor).round() * 1.0e-5;
-                let mut precision = 0;
-                while precision < 5
-                    && (n2 * 10.0f32.powi(precision)) != (n2 * 10.0f32.powi(precision)).round()
-                {
-                    precision += 1;
-                }
-                write!(f, "{:.*}e{:+04}", precision as usize, n2, exp)
+            // Six significant digits, like "%g".
+            let text = format!("{n:.5e}");
+            let (mantissa, exp) = text.split_once('e').unwrap_or((&text, "0"));
+            let exp: i32 = exp.parse().unwrap_or(0);
+            if !(-4..6).contains(&exp) {
+                let mantissa = mantissa.trim_end_matches('0').trim_end_matches('.');
+                write!(f, "{mantissa}e{exp:+04}")
             } else {
-                let n2 = (n * factor).round() / factor;
-                write!(f, "{n2}")
+                let text = format!("{n:.*}", (5 - exp) as usize);
+                match text.contains('.') {
+                    true => f.write_str(text.trim_end_matches('0').trim_end_matches('.')),
+                    false => f.write_str(&text),
+                }
             }
         }
     }
-- 
2.43.0


From 0aa19c4fd6c2c44621452502e401a75444481ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 010/131] fix: quote strings in a form that reads back as the
 same text

Strings that only a raw literal can hold (bare brackets, a trailing backslash)
were printed as ordinary ones, and "@@...@" was used for text containing "@".
---
 crates/dreammaker/src/lexer.rs | 43 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 140f245..18ec3d9 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,12 +362,47 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
-            write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
+        // Work out which of the literal forms can hold this text.
+        let mut escaped = false;
+        let mut plain = true; // no bare quotes or newlines
+        let mut block = true; // no bare quote followed by a brace
+        let mut raw = false; // only raw strings have bare brackets and such
+        let mut previous = ' ';
+        for ch in s.chars() {
+            if escaped {
+                escaped = false;
+                raw |= ch == '\n' || ch == '\r';
+                previous = ' ';
+                continue;
+            }
+            match ch {
+                '\\' => escaped = true,
+                '"' | '\n' => plain = false,
+                '[' => raw = true,
+                '}' if previous == '"' => block = false,
+                _ => {},
+            }
+            previous = ch;
+        }
+        raw |= escaped;
+
+        if plain && !raw {
+            write!(f, "\"{s}\"")
+        } else if block && !raw {
             write!(f, "{{\"{s}\"}}")
+        } else if !s.contains("\"}") {
+            write!(f, "@{{\"{s}\"}}")
+        } else if !s.contains('@') {
+            write!(f, "@@{s}@")
         } else {
-            write!(f, "\"{s}\"")
+            // a terminator that does not occur in the text
+            let mut n = 0;
+            let mut terminator = "~0".to_owned();
+            while s.contains(&terminator) {
+                n += 1;
+                terminator = format!("~{n}");
+            }
+            write!(f, "@({terminator}){s}{terminator}")
         }
     }
 }
-- 
2.43.0


From 705c9257cec5457c9a51d19beb10fd2ea31ea6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 011/131] fix: escape quotes and backslashes when printing
 resource names

---
 crates/dreammaker/src/constants.rs |  2 +-
 crates/dreammaker/src/lexer.rs     | 19 ++++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index fc74a1b..87af0a1 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -421,7 +421,7 @@ impl fmt::Display for Constant {
             },
             Constant::Prefab(ref val) => write!(f, "{val}"),
             Constant::String(ref val) => crate::lexer::Quote(val).fmt(f),
-            Constant::Resource(ref val) => write!(f, "'{val}'"),
+            Constant::Resource(ref val) => crate::lexer::QuoteResource(val).fmt(f),
             Constant::Float(val) => crate::lexer::FormatFloat(val).fmt(f),
         }
     }
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 18ec3d9..cd33305 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -346,7 +346,7 @@ impl fmt::Display for Token {
             InterpStringBegin(ref i) => write!(f, "\"{i}["),
             InterpStringPart(ref i) => write!(f, "]{i}["),
             InterpStringEnd(ref i) => write!(f, "]{i}\""),
-            Resource(ref i) => write!(f, "'{i}'"),
+            Resource(ref i) => QuoteResource(i).fmt(f),
             Int(i) => FormatFloat(i as f32).fmt(f),
             Float(i) => FormatFloat(i).fmt(f),
             DocComment(ref c) => c.fmt(f),
@@ -407,6 +407,23 @@ impl<'a> fmt::Display for Quote<'a> {
     }
 }
 
+/// Formatting helper to quote a resource name, in which escapes HAVE been
+/// parsed.
+pub struct QuoteResource<'a>(pub &'a str);
+
+impl<'a> fmt::Display for QuoteResource<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str("'")?;
+        for ch in self.0.chars() {
+            if ch == '\'' || ch == '\\' {
+                f.write_str("\\")?;
+            }
+            write!(f, "{ch}")?;
+        }
+        f.write_str("'")
+    }
+}
+
 /// Formatting helper to format a float according to DM's rules.
 pub struct FormatFloat(pub f32);
 
-- 
2.43.0


From 5ccbcf1a560cd3f99ae296a1d406c06ac2cdec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 012/131] fix: do not underflow when printing unmatched closing
 braces

---
 crates/dreammaker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lib.rs b/crates/dreammaker/src/lib.rs
index 2e7e818..80db694 100644
--- a/crates/dreammaker/src/lib.rs
+++ b/crates/dreammaker/src/lib.rs
@@ -66,7 +66,7 @@ where
     W: std::fmt::Write,
     I: IntoIterator<Item = lexer::Token>,
 {
-    let mut indents = 0;
+    let mut indents = 0usize;
     let mut needs_newline = false;
     let mut prev = None;
     for token in input {
@@ -79,7 +79,7 @@ where
                 }
             },
             lexer::Token::Punct(lexer::Punctuation::RBrace) => {
-                indents -= 1;
+                indents = indents.saturating_sub(1);
                 needs_newline = true;
                 if show_ws {
                     write!(w, "}}")?;
-- 
2.43.0


From 3bcdd0e46dda63c2c4d02c78d807c50f4699bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 013/131] fix: print tokens so that they do not merge and lose
 nothing

Numbers next to each other, '~ !', '& &', '/ /' and the like were printed as
one token, integers above six digits were rounded, and quotes inside
interpolated block strings ended the string early.
---
 crates/dreammaker/src/lexer.rs | 49 +++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index cd33305..d45c608 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -41,6 +41,15 @@ macro_rules! table {
                 }
             }
 
+            /// Check whether this and another one directly following it would
+            /// be read as something else.
+            fn merges_with(self, next: Self) -> bool {
+                let both = format!("{}{}", self.value(), next.value());
+                $tabname.iter().any(|&(literal, _)| {
+                    literal.len() > self.value().len() && both.starts_with(literal)
+                })
+            }
+
             fn close(self) -> Self {
                 match self {
                     $(
@@ -277,6 +286,11 @@ impl Token {
     /// pretty-printing.
     pub fn separate_from(&self, prev: &Token) -> bool {
         use self::Punctuation::*;
+        // a member access colon stays one only while nothing is next to it
+        if let Token::Punct(CloseColon) = *prev {
+            return false;
+        }
+
         // space-surrounded tokens
         for &each in &[self, prev] {
             let p = match *each {
@@ -303,6 +317,15 @@ impl Token {
             | (&Token::InterpStringBegin(_), &Token::Ident(..))
             | (&Token::InterpStringPart(_), &Token::Ident(..)) => false,
             (&Token::Ident(..), _) | (_, &Token::Ident(..)) => true,
+            // tokens which would be read as one without the space
+            (&Token::Punct(a), &Token::Punct(b)) => a.merges_with(b),
+            (&Token::Punct(LBrace), &Token::String(_) | &Token::InterpStringBegin(_)) => true,
+            (
+                &Token::Int(_) | &Token::Float(_),
+                &Token::Int(_)
+                | &Token::Float(_)
+                | &Token::Punct(Dot | Super | Ellipsis | Hash | TokenPaste),
+            ) => true,
             _ => false,
         }
     }
@@ -343,11 +366,11 @@ impl fmt::Display for Token {
             Punct(p) => p.fmt(f),
             Ident(ref i, _) => f.write_str(i),
             String(ref i) => Quote(i).fmt(f),
-            InterpStringBegin(ref i) => write!(f, "\"{i}["),
-            InterpStringPart(ref i) => write!(f, "]{i}["),
-            InterpStringEnd(ref i) => write!(f, "]{i}\""),
+            InterpStringBegin(ref i) => write!(f, "\"{}[", QuoteInterp(i)),
+            InterpStringPart(ref i) => write!(f, "]{}[", QuoteInterp(i)),
+            InterpStringEnd(ref i) => write!(f, "]{}\"", QuoteInterp(i)),
             Resource(ref i) => QuoteResource(i).fmt(f),
-            Int(i) => FormatFloat(i as f32).fmt(f),
+            Int(i) => i.fmt(f),
             Float(i) => FormatFloat(i).fmt(f),
             DocComment(ref c) => c.fmt(f),
         }
@@ -407,6 +430,24 @@ impl<'a> fmt::Display for Quote<'a> {
     }
 }
 
+/// Formatting helper for a piece of an interpolated string, in which escapes
+/// have NOT been parsed. Block strings may contain bare quotes.
+struct QuoteInterp<'a>(&'a str);
+
+impl<'a> fmt::Display for QuoteInterp<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let mut escaped = false;
+        for ch in self.0.chars() {
+            if ch == '"' && !escaped {
+                f.write_str("\\")?;
+            }
+            escaped = ch == '\\' && !escaped;
+            write!(f, "{ch}")?;
+        }
+        Ok(())
+    }
+}
+
 /// Formatting helper to quote a resource name, in which escapes HAVE been
 /// parsed.
 pub struct QuoteResource<'a>(pub &'a str);
-- 
2.43.0


From 487834c1bd3a062d9f136e3d17a5e461c1f9129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 014/131] fix: treat the token after an uncalled function macro
 like any other

It kept the macro's position, was not expanded itself, and swallowed the end
of an #if line.
---
 crates/dreammaker/src/preprocessor.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..08f8a83 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -307,6 +307,7 @@ impl<'ctx> Include<'ctx> {
 #[derive(Debug, Default)]
 struct IncludeStack<'ctx> {
     stack: Vec<Include<'ctx>>,
+    put_back: Option<LocatedToken>,
 }
 
 impl<'ctx> IncludeStack<'ctx> {
@@ -328,6 +329,9 @@ impl<'ctx> Iterator for IncludeStack<'ctx> {
     type Item = LocatedToken;
 
     fn next(&mut self) -> Option<LocatedToken> {
+        if let Some(token) = self.put_back.take() {
+            return Some(token);
+        }
         loop {
             match self.stack.last_mut() {
                 Some(&mut Include::File { ref mut lexer, .. }) => {
@@ -439,6 +443,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                put_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -474,6 +479,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                put_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -1213,12 +1219,9 @@ impl<'ctx> Preprocessor<'ctx> {
                             Token::Punct(Punctuation::LParen) => {},
                             other => {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
-                                    _ => {},
-                                }
-                                self.push_output(other);
+                                // look at it again as a token of its own
+                                self.include_stack.put_back =
+                                    Some(LocatedToken::new(_last_expected_loc, other));
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From 6dc77cd69e1742097239686c5bfa5af2288d9872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 015/131] fix: an indented #include that adds no file must not
 indent the next line

---
 crates/dreammaker/src/preprocessor.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 08f8a83..a2c8495 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -821,6 +821,11 @@ impl<'ctx> Preprocessor<'ctx> {
                         expect_token!(() = Token::Punct(Punctuation::Newline));
                         let path = PathBuf::from(path_str.replace('\\', "/"));
 
+                        // A phantom newline keeps the include directive being
+                        // indented from making the line that follows it, in
+                        // the included file or this one, indented.
+                        self.push_output(Token::Punct(Punctuation::Newline));
+
                         for candidate in [
                             // 1. relative to file in which `#include` appears.
                             self.include_stack
@@ -878,13 +883,7 @@ impl<'ctx> Preprocessor<'ctx> {
                                 FileType::DMF => self.skins.push(candidate),
                                 FileType::DMS => self.scripts.push(candidate),
                                 FileType::DM => match self.prepare_include_file(candidate) {
-                                    Ok(include) => {
-                                        // A phantom newline keeps the include
-                                        // directive being indented from making
-                                        // the first line of the file indented.
-                                        self.push_output(Token::Punct(Punctuation::Newline));
-                                        self.include_stack.stack.push(include);
-                                    },
+                                    Ok(include) => self.include_stack.stack.push(include),
                                     Err(e) => self.context.register_error(e),
                                 },
                             }
-- 
2.43.0


From 5cfdf7c604d1255e226d6be423955620ccca2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 016/131] fix: report an unmatched brace after inconsistent
 indentation instead of underflowing

---
 crates/dreammaker/src/indents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..bc9f593 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -177,7 +177,7 @@ where
             },
             Token::Punct(Punctuation::RBrace) => {
                 self.current = match self.current {
-                    None => {
+                    None | Some((_, 0)) => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
                             .register(self.context);
                         None
-- 
2.43.0


From db6a3230c917220dba47a72f0999616b4a0c571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 017/131] fix: do not underflow on an interpolated string whose
 start was disabled

---
 crates/dreammaker/src/preprocessor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index a2c8495..dfc54c6 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1393,7 +1393,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From a1f67e8ff78aa6bc7dea7322ab2833eeaad3f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 018/131] fix: do not evaluate conditions in or after
 unselected branches

Macro expansion errors inside inactive #if blocks and in the #elif conditions
following the selected branch were reported.
---
 crates/dreammaker/src/preprocessor.rs | 30 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index dfc54c6..15a9d54 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -625,6 +625,18 @@ impl<'ctx> Preprocessor<'ctx> {
     }
 
     fn evaluate_inner(&mut self) -> Result<bool, DMError> {
+        // If we're inside an inactive #if, don't actually evaluate.
+        // #ifdef FOO -- #if FOO == 5 will error otherwise.
+        if self.is_disabled() {
+            while let Some(tok) = self.inner_next() {
+                self.last_input_loc = tok.location;
+                if let Token::Punct(Punctuation::Newline) = tok.token {
+                    break;
+                }
+            }
+            return Ok(false);
+        }
+
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
         while let Some(tok) = self.inner_next() {
@@ -639,13 +651,6 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         }
 
-        // If we're inside an inactive #if, don't actually evaluate.
-        // #ifdef FOO -- #if FOO == 5 will error otherwise.
-        if self.is_disabled() {
-            self.output.clear();
-            return Ok(false);
-        }
-
         let expr = crate::parser::parse_expression(self.context, start, self.output.drain(..))?;
         Ok(
             crate::constants::preprocessor_evaluate(
@@ -806,7 +811,16 @@ impl<'ctx> Preprocessor<'ctx> {
                         let last = self
                             .pop_ifdef()
                             .ok_or_else(|| DMError::new(self.last_input_loc, "unmatched #elif"))?;
-                        let enabled = self.evaluate();
+                        // Once a branch has been chosen the later conditions are
+                        // as good as inside it.
+                        let enabled = if last.chain_active {
+                            self.ifdef_stack.push(Ifdef::new(last.location, false));
+                            let enabled = self.evaluate();
+                            self.ifdef_stack.pop();
+                            enabled
+                        } else {
+                            self.evaluate()
+                        };
                         self.ifdef_stack
                             .push(last.else_if(self.last_input_loc, enabled));
                     },
-- 
2.43.0


From f5e6b72e4fce4e5e0366280c192cadc7f8c1529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 019/131] fix: report #else and #elif after #else

---
 crates/dreammaker/src/preprocessor.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 15a9d54..58228d9 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -365,6 +365,7 @@ struct Ifdef {
     location: Location,
     active: bool,
     chain_active: bool,
+    else_seen: bool,
 }
 
 impl Ifdef {
@@ -373,6 +374,7 @@ impl Ifdef {
             location,
             active,
             chain_active: active,
+            else_seen: false,
         }
     }
     fn else_(self, location: Location) -> Ifdef {
@@ -380,6 +382,7 @@ impl Ifdef {
             location,
             active: !self.chain_active,
             chain_active: true,
+            else_seen: true,
         }
     }
     fn else_if(self, location: Location, active: bool) -> Ifdef {
@@ -387,6 +390,7 @@ impl Ifdef {
             location,
             active: !self.chain_active && active,
             chain_active: self.chain_active || active,
+            else_seen: self.else_seen,
         }
     }
 }
@@ -786,6 +790,11 @@ impl<'ctx> Preprocessor<'ctx> {
                         let last = self
                             .pop_ifdef()
                             .ok_or_else(|| DMError::new(self.last_input_loc, "unmatched #else"))?;
+                        if last.else_seen {
+                            DMError::new(self.last_input_loc, "#else after #else")
+                                .with_note(last.location, "previous #else here")
+                                .register(self.context);
+                        }
                         self.ifdef_stack.push(last.else_(self.last_input_loc));
                     },
                     "ifdef" => {
@@ -811,6 +820,11 @@ impl<'ctx> Preprocessor<'ctx> {
                         let last = self
                             .pop_ifdef()
                             .ok_or_else(|| DMError::new(self.last_input_loc, "unmatched #elif"))?;
+                        if last.else_seen {
+                            DMError::new(self.last_input_loc, "#elif after #else")
+                                .with_note(last.location, "previous #else here")
+                                .register(self.context);
+                        }
                         // Once a branch has been chosen the later conditions are
                         // as good as inside it.
                         let enabled = if last.chain_active {
-- 
2.43.0


From 69a70a13fc6260def4de423b9978dff53820a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 020/131] fix: ignore unknown directives in unselected branches

---
 crates/dreammaker/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 58228d9..ce339a0 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1115,6 +1115,7 @@ impl<'ctx> Preprocessor<'ctx> {
                         }
                     },
                     // none of this other stuff should even exist
+                    _ if disabled => {},
                     other => {
                         let mut meant = "";
                         for each in ALL_DIRECTIVES {
-- 
2.43.0


From 982e647d2bc18b9b247c247cacb48c92738d88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 021/131] fix: an empty macro argument before ## must not paste
 onto the token before it

---
 crates/dreammaker/src/preprocessor.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index ce339a0..a645e51 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1300,19 +1300,31 @@ impl<'ctx> Preprocessor<'ctx> {
 
                         // paste them into the expansion
                         let mut expansion = VecDeque::new();
+                        // whether the token before this one is an argument
+                        // that turned out empty, which `##` must not skip
+                        let mut placemarker = false;
                         let mut input = subst.iter().cloned();
                         while let Some(token) = input.next() {
+                            let after_placemarker = std::mem::take(&mut placemarker);
                             match token {
                                 // just an ident = expand it
                                 Token::Ident(ident, ws) => {
                                     match params.iter().position(|x| *x == ident) {
-                                        Some(i) => expansion.extend(args[i].iter().cloned()),
+                                        Some(i) => {
+                                            placemarker = args[i].is_empty();
+                                            expansion.extend(args[i].iter().cloned())
+                                        },
                                         None => expansion.push_back(Token::Ident(ident, ws)),
                                     }
                                 },
                                 // token paste = concat two idents together, if at all possible
                                 Token::Punct(Punctuation::TokenPaste) => {
-                                    match (expansion.pop_back(), input.next()) {
+                                    let first = if after_placemarker {
+                                        None
+                                    } else {
+                                        expansion.pop_back()
+                                    };
+                                    match (first, input.next()) {
                                         (
                                             Some(Token::Ident(first, ws1)),
                                             Some(Token::Ident(param_name, ws)),
@@ -1349,9 +1361,12 @@ impl<'ctx> Preprocessor<'ctx> {
                                             )),
                                         },
                                         (non_ident_first, Some(Token::Ident(second, ws))) => {
+                                            let nothing_first = non_ident_first.is_none();
                                             expansion.extend(non_ident_first);
                                             match params.iter().position(|x| *x == second) {
                                                 Some(i) => {
+                                                    placemarker =
+                                                        nothing_first && args[i].is_empty();
                                                     expansion.extend(args[i].iter().cloned())
                                                 },
                                                 None => {
-- 
2.43.0


From 05f77a2d751b4ff1b24e994c4e1741cc5f5e9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 022/131] fix: include a file only once whatever .. and . its
 path is spelled with

---
 crates/dreammaker/src/preprocessor.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index a645e51..3125706 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 use std::collections::VecDeque;
 use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::{fmt, io};
 
@@ -266,6 +266,24 @@ impl DefineMap {
 // ----------------------------------------------------------------------------
 // The stack of currently #included files
 
+/// Resolve the `.` and `..` components of a path, so that different spellings
+/// of it name the same file.
+fn normalize_path(path: &Path) -> PathBuf {
+    let mut result = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {},
+            Component::ParentDir
+                if matches!(result.components().next_back(), Some(Component::Normal(_))) =>
+            {
+                result.pop();
+            },
+            other => result.push(other),
+        }
+    }
+    result
+}
+
 #[derive(Debug)]
 enum Include<'ctx> {
     File {
@@ -709,10 +727,11 @@ impl<'ctx> Preprocessor<'ctx> {
         let register = path
             .strip_prefix(self.env_file.parent().unwrap())
             .unwrap_or(&path);
+        let register = normalize_path(register);
 
         // Make sure the file hasn't already been included.
         // All DM source is effectively `#pragma once`.
-        let file_id = self.context.register_file(register);
+        let file_id = self.context.register_file(&register);
         if let Some(&loc) = self.include_locations.get(&file_id) {
             if !self.multiple_locations.contains_key(&file_id) {
                 Err(
-- 
2.43.0


From 4c9bd9653b44a5895583483045ef7a782e68ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 023/131] fix: do not include the environment file from itself

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 3125706..a82b9b2 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -729,6 +729,15 @@ impl<'ctx> Preprocessor<'ctx> {
             .unwrap_or(&path);
         let register = normalize_path(register);
 
+        // The environment file is never in `include_locations`.
+        if self.env_file.file_name().map(Path::new) == Some(&register) {
+            return Err(
+                DMError::new(self.last_input_loc, format!("duplicate #include {path:?}"))
+                    .set_severity(Severity::Warning)
+                    .with_errortype("duplicate_include"),
+            );
+        }
+
         // Make sure the file hasn't already been included.
         // All DM source is effectively `#pragma once`.
         let file_id = self.context.register_file(&register);
-- 
2.43.0


From bff580d2832bb9b9b5af63dbc7fa11cfcd28f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 024/131] fix: do not count included files as macro recursion

---
 crates/dreammaker/src/preprocessor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index a82b9b2..423f08e 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -338,6 +338,15 @@ impl<'ctx> IncludeStack<'ctx> {
         "".as_ref()
     }
 
+    /// How many macro expansions deep the top of the stack is.
+    fn expansion_depth(&self) -> usize {
+        self.stack
+            .iter()
+            .rev()
+            .take_while(|each| matches!(each, Include::Expansion { .. }))
+            .count()
+    }
+
     fn in_expansion(&self) -> bool {
         matches!(self.stack.last(), Some(Include::Expansion { .. }))
     }
@@ -1246,7 +1255,8 @@ impl<'ctx> Preprocessor<'ctx> {
 
                 // if it's a define, perform the substitution
                 let mut expansion = self.defines.get(ident).cloned(); // TODO: don't clone?
-                if expansion.is_some() && self.include_stack.stack.len() > MAX_RECURSION_DEPTH {
+                if expansion.is_some() && self.include_stack.expansion_depth() >= MAX_RECURSION_DEPTH
+                {
                     self.error(format!("expanding {ident:?} would exceed max recursion depth of {MAX_RECURSION_DEPTH} levels")).register(self.context);
                     expansion = None;
                 }
-- 
2.43.0


From 04520394b0f476e9d9eed83b3931882eec7aff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 025/131] fix: limit the depth of #include so that
 self-including files end

---
 crates/dreammaker/src/preprocessor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 423f08e..56a1233 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -19,6 +19,9 @@ use super::{Context, DMError, FileId, HasLocation, Location, Severity};
 /// The maximum recursion depth of macro expansion.
 const MAX_RECURSION_DEPTH: usize = 32;
 
+/// The maximum depth to which files may include each other.
+const MAX_INCLUDE_DEPTH: usize = 200;
+
 // ----------------------------------------------------------------------------
 // Macro representation and predefined macros
 
@@ -723,6 +726,14 @@ impl<'ctx> Preprocessor<'ctx> {
     // Internal utilities
 
     fn prepare_include_file(&mut self, path: PathBuf) -> Result<Include<'ctx>, DMError> {
+        // Files which opt in to multiple inclusion may include themselves.
+        if self.include_stack.stack.len() > MAX_INCLUDE_DEPTH {
+            return Err(DMError::new(
+                self.last_input_loc,
+                format!("#include nested too deeply: {path:?}"),
+            ));
+        }
+
         // Attempt to open the file.
         let read = io::BufReader::new(File::open(&path).map_err(|e| {
             DMError::new(
-- 
2.43.0


From 03aef93e85f8d7a0218ee43a90cb8bbad1d04650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 026/131] fix: branch the preprocessor at the state it really
 had when it reached a file

---
 crates/dreammaker/src/preprocessor.rs | 57 +++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 56a1233..3a2a8ef 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -87,12 +87,25 @@ impl<'a> fmt::Display for NameAndDefine<'a> {
 
 type InnerDefineHistory = IntervalTree<Location, (Ident, Define)>;
 
+/// A change to the set of defined macros.
+///
+/// Files are interleaved by `#include`, so the order of locations is not the
+/// order in which the preprocessor saw things.
+#[derive(Debug)]
+enum DefineEvent {
+    Define(Ident, Location, Define),
+    Undef(Ident),
+}
+
 /// An interval tree representing historic macro definitions.
 #[derive(Debug)]
 pub struct DefineHistory {
     env_file: PathBuf,
     last_input_loc: Location,
     tree: InnerDefineHistory,
+    events: Vec<DefineEvent>,
+    /// How many of the events had happened when each file was first entered.
+    file_starts: HashMap<FileId, usize>,
 }
 
 impl DefineHistory {
@@ -108,7 +121,9 @@ impl DefineHistory {
             line: 0,
             column: 0,
         };
-        let defines = DefineMap::from_history(self, location);
+        let events = self.file_starts.get(&file).copied();
+        let defines =
+            DefineMap::from_events(&self.events[..events.unwrap_or(self.events.len())]);
 
         Preprocessor {
             context,
@@ -117,6 +132,8 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
+            events: Default::default(),
+            file_starts: Default::default(),
             defines,
             maps: Default::default(),
             skins: Default::default(),
@@ -142,7 +159,9 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
-            defines: DefineMap::from_history(self, self.last_input_loc),
+            events: Default::default(),
+            file_starts: Default::default(),
+            defines: DefineMap::from_events(&self.events),
             maps: Default::default(),
             skins: Default::default(),
             scripts: Default::default(),
@@ -238,11 +257,18 @@ impl DefineMap {
         result
     }
 
-    /// Cut a DefineMap from the state of a DefineHistory at the given location.
-    fn from_history(history: &InnerDefineHistory, location: Location) -> DefineMap {
-        let mut map = DefineMap::default();
-        for (range, (name, define)) in history.range(range(location, location)) {
-            map.insert(name.clone(), (range.start, define.clone()));
+    /// Replay part of a DefineHistory on top of the built-in definitions.
+    fn from_events(events: &[DefineEvent]) -> DefineMap {
+        let mut map = DefineMap::with_builtins();
+        for event in events {
+            match event {
+                DefineEvent::Define(name, location, define) => {
+                    map.insert(name.clone(), (*location, define.clone()));
+                },
+                DefineEvent::Undef(name) => {
+                    map.remove(name);
+                },
+            }
         }
         map
     }
@@ -443,6 +469,8 @@ pub struct Preprocessor<'ctx> {
     annotations: Option<AnnotationTree>,
 
     history: InnerDefineHistory,
+    events: Vec<DefineEvent>,
+    file_starts: HashMap<FileId, usize>,
     defines: DefineMap,
     maps: Vec<PathBuf>,
     skins: Vec<PathBuf>,
@@ -471,6 +499,7 @@ impl<'ctx> Preprocessor<'ctx> {
         // Buffer the entire environment file. Large environments take a while
         // to load and locking it for the whole time is somewhat inconvenient.
         let include = Include::from_path(context, env_file.clone())?;
+        let env_file_id = context.register_file(&env_file);
 
         Ok(Preprocessor {
             context,
@@ -482,6 +511,8 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(),
+            events: Default::default(),
+            file_starts: HashMap::from_iter([(env_file_id, 0)]),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
             skins: Default::default(),
@@ -508,6 +539,7 @@ impl<'ctx> Preprocessor<'ctx> {
             Cow::Owned(s) => Cow::Owned(s.into_bytes()),
         };
         let include = Include::from_buffer(context, env_file.clone(), cow_u8);
+        let env_file_id = context.register_file(&env_file);
         Preprocessor {
             context,
             env_file,
@@ -518,6 +550,8 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(),
+            events: Default::default(),
+            file_starts: HashMap::from_iter([(env_file_id, 0)]),
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
             skins: Default::default(),
@@ -555,6 +589,8 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file: self.env_file,
             last_input_loc: self.last_input_loc,
             tree: self.history,
+            events: self.events,
+            file_starts: self.file_starts,
         }
     }
 
@@ -778,6 +814,7 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         } else {
             self.include_locations.insert(file_id, self.last_input_loc);
+            self.file_starts.insert(file_id, self.events.len());
             Ok(Include::File {
                 path,
                 //file: file_id,
@@ -1096,6 +1133,11 @@ impl<'ctx> Preprocessor<'ctx> {
                         };
                         // DEBUG can only be defined in the root .dme file
                         if define_name != "DEBUG" || self.in_environment() {
+                            self.events.push(DefineEvent::Define(
+                                define_name.clone(),
+                                define_name_loc,
+                                define.clone(),
+                            ));
                             if let Some(previous_loc) = self
                                 .defines
                                 .insert(define_name.clone(), (define_name_loc, define))
@@ -1124,6 +1166,7 @@ impl<'ctx> Preprocessor<'ctx> {
                         let define_name_loc = _last_expected_loc;
                         expect_token!(() = Token::Punct(Punctuation::Newline));
                         if let Some(previous) = self.defines.remove(&define_name) {
+                            self.events.push(DefineEvent::Undef(define_name.clone()));
                             self.move_to_history(define_name, previous);
                         } else {
                             DMError::new(
-- 
2.43.0


From 866088bd162ffdba9012718bb0bdf0b1daee6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 027/131] fix: let defined(__MAIN__) agree with #ifdef __MAIN__

---
 crates/dreammaker/src/constants.rs    | 7 +++----
 crates/dreammaker/src/preprocessor.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 87af0a1..8b41386 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -15,7 +15,6 @@ use crate::heap_size_of_index_map;
 
 use super::ast::*;
 use super::objtree::*;
-use super::preprocessor::DefineMap;
 use super::{Context, DMError, HasLocation, Location, Severity};
 
 pub type Arguments = [(Constant, Option<Constant>)];
@@ -483,7 +482,7 @@ impl Expression {
 pub fn preprocessor_evaluate(
     location: Location,
     expr: Expression,
-    defines: &DefineMap,
+    defines: &dyn Fn(&str) -> bool,
     context: Option<&Context>,
 ) -> Result<Constant, DMError> {
     ConstantFolder {
@@ -609,7 +608,7 @@ fn constant_ident_lookup(
 struct ConstantFolder<'a> {
     context: Option<&'a Context>,
     tree: Option<&'a mut ObjectTree>,
-    defines: Option<&'a DefineMap>,
+    defines: Option<&'a dyn Fn(&str) -> bool>,
     location: Location,
     ty: NodeIndex,
 }
@@ -872,7 +871,7 @@ impl<'a> ConstantFolder<'a> {
                         )));
                     }
                     match args[0].as_term() {
-                        Some(Term::Ident(ident)) => Constant::from(defines.contains_key(ident)),
+                        Some(Term::Ident(ident)) => Constant::from(defines(ident)),
                         _ => {
                             return Err(self
                                 .error("malformed defined() call, argument given isn't an Ident."));
diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 3a2a8ef..69fb1ad 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -726,7 +726,7 @@ impl<'ctx> Preprocessor<'ctx> {
             crate::constants::preprocessor_evaluate(
                 start,
                 expr,
-                &self.defines,
+                &|name| self.is_defined(name),
                 Some(self.context),
             )?
             .to_bool(),
-- 
2.43.0


From e8d554cb4422a75af7e39e6e67d35ca4fa51a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 028/131] fix: stop expanding a recursive macro at the first
 error

---
 crates/dreammaker/src/preprocessor.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 69fb1ad..255ff8f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -146,6 +146,7 @@ impl DefineHistory {
             danger_idents: Default::default(),
             docs_in: Default::default(),
             in_interp_string: 0,
+            recursion_error: false,
             annotations: None,
         }
     }
@@ -173,6 +174,7 @@ impl DefineHistory {
             danger_idents: Default::default(),
             docs_in: Default::default(),
             in_interp_string: 0,
+            recursion_error: false,
             annotations: None,
         }
     }
@@ -479,6 +481,7 @@ pub struct Preprocessor<'ctx> {
     last_printable_input_loc: Location,
     danger_idents: HashMap<Ident, Location>,
     in_interp_string: u32,
+    recursion_error: bool,
 
     docs_in: VecDeque<(Location, DocComment)>,
 }
@@ -525,6 +528,7 @@ impl<'ctx> Preprocessor<'ctx> {
             danger_idents: Default::default(),
             docs_in: Default::default(),
             in_interp_string: 0,
+            recursion_error: false,
             annotations: None,
         })
     }
@@ -564,6 +568,7 @@ impl<'ctx> Preprocessor<'ctx> {
             danger_idents: Default::default(),
             docs_in: Default::default(),
             in_interp_string: 0,
+            recursion_error: false,
             annotations: None,
         }
     }
@@ -1309,8 +1314,16 @@ impl<'ctx> Preprocessor<'ctx> {
 
                 // if it's a define, perform the substitution
                 let mut expansion = self.defines.get(ident).cloned(); // TODO: don't clone?
-                if expansion.is_some() && self.include_stack.expansion_depth() >= MAX_RECURSION_DEPTH
-                {
+                let depth = self.include_stack.expansion_depth();
+                if depth == 0 {
+                    self.recursion_error = false;
+                }
+                if self.recursion_error {
+                    // Expand nothing else of a macro that turned out recursive,
+                    // as there might be no end of it.
+                    expansion = None;
+                } else if expansion.is_some() && depth >= MAX_RECURSION_DEPTH {
+                    self.recursion_error = true;
                     self.error(format!("expanding {ident:?} would exceed max recursion depth of {MAX_RECURSION_DEPTH} levels")).register(self.context);
                     expansion = None;
                 }
-- 
2.43.0


From 0c21b3d130fbb60064349bd1892b6a1f738a43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 029/131] fix: paste integers written after ## as well as those
 from arguments

---
 crates/dreammaker/src/preprocessor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 255ff8f..0ee14b3 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1465,6 +1465,12 @@ impl<'ctx> Preprocessor<'ctx> {
                                                 ws,
                                             )),
                                         },
+                                        (Some(Token::Ident(first, ws)), Some(Token::Int(int))) => {
+                                            expansion.push_back(Token::Ident(
+                                                format!("{first}{int}").into(),
+                                                ws,
+                                            ))
+                                        },
                                         (non_ident_first, Some(Token::Ident(second, ws))) => {
                                             let nothing_first = non_ident_first.is_none();
                                             expansion.extend(non_ident_first);
-- 
2.43.0


From 7416c9c4303a3843396d39b23908646c5c342396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 030/131] fix: do not take ## after a number for part of the
 number

---
 crates/dreammaker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index d45c608..1681718 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -967,7 +967,7 @@ impl<'ctx> Lexer<'ctx> {
                 Some(ch) if (ch == b'+' || ch == b'-') && exponent => {
                     buf.push(ch as char);
                 },
-                Some(b'#') => {
+                Some(b'#') if !self.input.remaining().starts_with(b"#") => {
                     buf.push('#'); // Keep pushing to `buf` in case of error.
                     let start = buf.len();
                     for _ in 0..3 {
-- 
2.43.0


From c8dbaa425a3386e82ef66df80e859ba89b6949de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 031/131] fix: limit the length of a single macro expansion

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 0ee14b3..c6d2155 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -19,6 +19,9 @@ use super::{Context, DMError, FileId, HasLocation, Location, Severity};
 /// The maximum recursion depth of macro expansion.
 const MAX_RECURSION_DEPTH: usize = 32;
 
+/// The maximum length of a single macro expansion.
+const MAX_EXPANSION_LENGTH: usize = 1 << 18;
+
 /// The maximum depth to which files may include each other.
 const MAX_INCLUDE_DEPTH: usize = 200;
 
@@ -1537,6 +1540,12 @@ impl<'ctx> Preprocessor<'ctx> {
                                 _ => expansion.push_back(token),
                             }
                         }
+                        if expansion.len() > MAX_EXPANSION_LENGTH {
+                            self.recursion_error = true;
+                            return Err(self.error(format!(
+                                "expansion of {ident:?} is longer than {MAX_EXPANSION_LENGTH} tokens"
+                            )));
+                        }
                         self.include_stack.stack.push(Include::Expansion {
                             //name: ident.to_owned(),
                             tokens: expansion,
-- 
2.43.0


From 6576a8ce18d63b7a4d964dae2dd2726391622198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 032/131] fix: learn the indentation step inside braces from
 the first indented line

---
 crates/dreammaker/src/indents.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index bc9f593..0222524 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -16,6 +16,7 @@ pub struct IndentProcessor<'ctx, I> {
     output: VecDeque<LocatedToken>,
 
     // If we're indented, the number of spaces per indent and the number of indents.
+    // The former is 0 within braces until there is an indented line to tell.
     current: Option<(usize, usize)>,
     // The number of spaces/tabs accumulated on the current line. None when not at line head.
     current_spaces: Option<usize>,
@@ -113,8 +114,16 @@ where
                         self.current = Some((spaces, 1));
                     }
                 },
-                Some((spaces_per_indent, indents_)) => {
+                Some((mut spaces_per_indent, indents_)) => {
                     indents = indents_;
+                    if spaces_per_indent == 0 && spaces > 0 {
+                        // The first indented line since a brace.
+                        spaces_per_indent = if spaces % indents == 0 {
+                            spaces / indents
+                        } else {
+                            1
+                        };
+                    }
                     if spaces == 0 {
                         self.current = None;
                         new_indents = 0;
@@ -171,7 +180,7 @@ where
         match read {
             Token::Punct(Punctuation::LBrace) => {
                 self.current = match self.current {
-                    None => Some((1, 1)),
+                    None => Some((0, 1)),
                     Some((x, y)) => Some((x, y + 1)),
                 };
             },
-- 
2.43.0


From 2dd52ff938265c9e859fc2ed1ec207b743b908db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 033/131] fix: report and break cyclic parent types instead of
 looping forever

---
 crates/dreammaker/src/objtree.rs | 40 +++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..9d6d9f4 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1006,14 +1006,48 @@ impl ObjectTreeBuilder {
                 }
             };
 
-            let type_ref = &mut self.inner.graph[type_idx.index()];
-            type_ref.parent_type = idx;
-            if type_ref.parent_path != idx {
+            self.inner.graph[type_idx.index()].parent_type = idx;
+        }
+
+        self.break_parent_type_cycles(context);
+
+        for &type_idx in self.inner.types.values() {
+            let type_ref = &self.inner.graph[type_idx.index()];
+            if type_ref.parent_type != type_ref.parent_path {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
     }
 
+    /// Ensure that following `parent_type` from any type eventually reaches the root.
+    fn break_parent_type_cycles(&mut self, context: &Context) {
+        // For each type, the walk which last visited it. Types visited by an
+        // earlier walk are known to lead to the root.
+        let mut visited_by = vec![usize::MAX; self.inner.graph.len()];
+        for (walk, &start) in self.inner.types.values().enumerate() {
+            let mut current = start;
+            let mut previous = start;
+            while current != NodeIndex::new(0) && visited_by[current.index()] == usize::MAX {
+                visited_by[current.index()] = walk;
+                previous = current;
+                current = self.inner.graph[current.index()].parent_type;
+            }
+            if current != NodeIndex::new(0) && visited_by[current.index()] == walk {
+                // `previous` is the last link in the cycle, cut it there.
+                let ty = &mut self.inner.graph[previous.index()];
+                ty.parent_type = NodeIndex::new(0);
+                let location = ty
+                    .vars
+                    .get("parent_type")
+                    .map_or(ty.location, |var| var.value.location);
+                context.register_error(DMError::new(
+                    location,
+                    format!("cyclic parent type for {}", ty.path),
+                ));
+            }
+        }
+    }
+
     // ------------------------------------------------------------------------
     // Parsing
 
-- 
2.43.0


From 293491ef667a90c3cb7279db85baae02d83f5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 034/131] fix: place errors at the end of the last file there
 instead of nowhere

---
 crates/dreammaker/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index c6d2155..6369408 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -494,7 +494,7 @@ impl<'ctx> HasLocation for Preprocessor<'ctx> {
         match self.include_stack.stack.last() {
             Some(Include::File { lexer, .. }) => lexer.location(),
             Some(&Include::Expansion { location, .. }) => location,
-            None => Location::default(),
+            None => self.last_input_loc,
         }
     }
 }
-- 
2.43.0


From 9c4c385a243f9ecf5bec4912d510700e6f10a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 035/131] fix: do not panic on __FILE__ in a file whose name is
 not UTF-8

---
 crates/dreammaker/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 6369408..77071d8 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1255,7 +1255,7 @@ impl<'ctx> Preprocessor<'ctx> {
 
                 // substitute special macros
                 if ident == "__FILE__" {
-                    let path = self.include_stack.top_file_path().to_str().unwrap();
+                    let path = self.include_stack.top_file_path().to_string_lossy();
                     let dm_path;
 
                     #[cfg(windows)]
-- 
2.43.0


From c706542678b25988ae51f4a58a7945990955c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 036/131] fix: do not overflow on rand() switches up to the
 largest integer

---
 crates/dreamchecker/src/switch_rand_range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 770b3b8..3a4635d 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -49,6 +49,9 @@ pub fn check_switch_rand_range(
     for (start, end) in case_ranges.iter() {
         if *start > first_uncovered {
             break;
+        } else if *end >= rand_end {
+            // covers the rest of the range, which `end + 1` might overflow
+            return;
         } else {
             first_uncovered = std::cmp::max(first_uncovered, end + 1);
         }
-- 
2.43.0


From 1a3cff3bc929304324554f0a93b5ab819028c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 037/131] fix: report unbalanced braces at the end of file
 instead of panicking

---
 crates/dreammaker/src/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 767aa1c..d118185 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -688,7 +688,6 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             }
 
             take_match!(self {
-                Token::Eof => break,
                 tok if tok == &terminator => break,
                 Token::Punct(Punctuation::Semicolon) => continue,
             } else {
-- 
2.43.0


From 469c23895162d237d18f3d9d4f0b7bb7b28e6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 038/131] fix: do not panic on operator** and operator>=
 definitions

---
 crates/dreammaker/src/intern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/intern.rs b/crates/dreammaker/src/intern.rs
index cef3b7f..bcd7172 100644
--- a/crates/dreammaker/src/intern.rs
+++ b/crates/dreammaker/src/intern.rs
@@ -487,6 +487,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator[]",
     "operator[]=",
     "operator*",
+    "operator**",
     "operator*=",
     "operator/",
     "operator/=",
@@ -508,6 +509,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator<=",
     "operator<=>",
     "operator>",
+    "operator>=",
     "operator>>",
     "operator>>=",
     "operator|",
-- 
2.43.0


From 6dcdbd8cbbabcd032e2ea604f1383b1d357b9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 039/131] fix: read string, resource and prefab values in maps
 without splitting or altering them

---
 crates/dmm-tools/src/dmm/read.rs | 152 +++++++++++++++++++++----------
 1 file changed, 102 insertions(+), 50 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..ec1eac9 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -25,13 +25,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key = 0;
     let mut curr_key_length = 0;
 
-    let mut in_quote_block = false;
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
     let mut after_data_block = false;
-    let mut escaping = false;
     let mut skip_whitespace = false;
+    let mut brace_depth = 0usize;
+    let mut after_brace = false;
 
     let mut curr_key_start_location = Location::default();
 
@@ -75,9 +75,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             continue;
         }
 
-        if ch == b'/' && !in_quote_block {
+        if ch == b'/' {
             if comment_trigger {
                 in_comment_line = true;
+                comment_trigger = false;
+                if in_data_block {
+                    curr_datum.pop(); // the first slash of the comment
+                }
                 continue;
             } else {
                 comment_trigger = true;
@@ -88,68 +92,58 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
         if in_data_block {
             if in_varedit_block {
-                if in_quote_block {
-                    if ch == b'\\' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        escaping = false;
-                    } else if ch == b'"' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        in_quote_block = false;
-                    } else {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                    }
-                } else {
-                    // in_quote_block
-                    if skip_whitespace && ch == b' ' {
-                        skip_whitespace = false;
-                        continue;
-                    }
+                if skip_whitespace && ch == b' ' {
                     skip_whitespace = false;
+                    continue;
+                }
+                skip_whitespace = false;
 
-                    if ch == b'"' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        in_quote_block = true;
-                    } else if ch == b'=' && curr_var.is_empty() {
-                        curr_var = take(&mut curr_datum);
-                        let mut length = curr_var.len();
-                        while length > 0 && (curr_var[length - 1] as char).is_whitespace() {
-                            length -= 1;
-                        }
-                        curr_var.truncate(length);
-                        skip_whitespace = true;
-                    } else if ch == b';' {
+                if ch == b'"' || ch == b'\'' || ch == b'@' {
+                    set_curr_datum_start_location!();
+                    let block = ch == b'"' && after_brace;
+                    if block {
+                        brace_depth -= 1;
+                    }
+                    after_brace = false;
+                    curr_datum.push(ch);
+                    read_literal(&mut chars, ch, block, &mut curr_datum)?;
+                } else if ch == b'=' && curr_var.is_empty() {
+                    curr_var = take_trimmed(&mut curr_datum);
+                    skip_whitespace = true;
+                } else if ch == b';' && brace_depth == 0 {
+                    insert_current_var!();
+                    skip_whitespace = true;
+                } else if ch == b'}' && brace_depth == 0 {
+                    if !curr_var.is_empty() {
                         insert_current_var!();
-                        skip_whitespace = true;
+                    }
+                    curr_datum.clear();
+                    in_varedit_block = false;
+                } else {
+                    // a prefab within the value may have variables of its own
+                    if ch == b'{' {
+                        brace_depth += 1;
                     } else if ch == b'}' {
-                        if !curr_var.is_empty() {
-                            insert_current_var!();
-                        }
-                        in_varedit_block = false;
-                    } else {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
+                        brace_depth -= 1;
                     }
+                    after_brace = ch == b'{';
+                    set_curr_datum_start_location!();
+                    curr_datum.push(ch);
                 }
             } else if ch == b'{' {
-                curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                curr_prefab.path = from_utf8_or_latin1(take_trimmed(&mut curr_datum));
                 in_varedit_block = true;
             } else if ch == b',' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path = from_utf8_or_latin1(take_trimmed(&mut curr_datum));
                 }
+                curr_datum.clear();
                 curr_data.push(take(&mut curr_prefab));
             } else if ch == b')' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path = from_utf8_or_latin1(take_trimmed(&mut curr_datum));
                 }
+                curr_datum.clear();
                 curr_data.push(take(&mut curr_prefab));
                 let key = take(&mut curr_key);
                 let data = take(&mut curr_data);
@@ -296,6 +290,64 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     result
 }
 
+/// Take the buffer's contents without the whitespace around them.
+fn take_trimmed(buffer: &mut Vec<u8>) -> Vec<u8> {
+    take(buffer).trim_ascii().to_vec()
+}
+
+/// Read the rest of a string or resource literal, up to and including its
+/// terminator. The opening character has already been read.
+fn read_literal(
+    chars: &mut LocationTracker,
+    opening: u8,
+    block: bool,
+    output: &mut Vec<u8>,
+) -> Result<(), DMError> {
+    let start = chars.location();
+    let mut next = |output: &mut Vec<u8>| match chars.next() {
+        Some(ch) => {
+            output.push(ch);
+            Ok(ch)
+        },
+        None => Err(DMError::new(start, "unterminated literal")),
+    };
+
+    let mut terminator = Vec::new();
+    match opening {
+        b'"' if block => terminator.extend_from_slice(b"\"}"),
+        b'@' => match next(output)? {
+            b'(' => loop {
+                match next(output)? {
+                    b')' => break,
+                    ch => terminator.push(ch),
+                }
+            },
+            b'{' => match next(output)? {
+                b'"' => terminator.extend_from_slice(b"\"}"),
+                b'{' => return Ok(()),
+                _ => terminator.push(b'{'),
+            },
+            ch => terminator.push(ch),
+        },
+        ch => terminator.push(ch),
+    }
+    if terminator.is_empty() {
+        return Ok(());
+    }
+
+    let contents = output.len();
+    let mut unescaped = contents;
+    loop {
+        let ch = next(output)?;
+        if ch == b'\\' && opening != b'@' {
+            next(output)?;
+            unescaped = output.len();
+        } else if output[unescaped..].ends_with(&terminator) {
+            return Ok(());
+        }
+    }
+}
+
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
     match super::base_52_reverse(ch) {
         Err(err) => Err(DMError::new(loc, err)),
-- 
2.43.0


From 6277148c56fe41ec0b0954e9ca4a351ea04030ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:26 +0000
Subject: [PATCH 040/131] fix: place the rows of a map block upwards from the
 block's coordinates

---
 crates/dmm-tools/src/dmm/read.rs | 57 ++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index ec1eac9..94a00ac 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -192,22 +192,21 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
     let mut grid = BTreeMap::new();
     let mut reading_coord = Coord::X;
-    let (mut curr_x, mut curr_y, mut curr_z) = (0, 0, 0);
+    let (mut base_x, mut curr_y, mut curr_z) = (0, 0, 0);
     let (mut max_x, mut max_y, mut max_z) = (0, 0, 0);
     let mut curr_num = 0;
-    let mut base_x = 0;
+    let mut rows: Vec<Vec<Key>> = Vec::new();
+    let mut new_row = true;
 
     let mut in_coord_block = true;
     let mut in_map_string = false;
-    let mut adjust_y = true;
 
     while let Some(ch) = chars.next() {
         if in_coord_block {
             if ch == b',' {
                 if reading_coord == Coord::X {
-                    curr_x = take(&mut curr_num);
-                    max_x = max(max_x, curr_x);
-                    base_x = curr_x;
+                    base_x = take(&mut curr_num);
+                    max_x = max(max_x, base_x);
                     reading_coord = Coord::Y;
                 } else if reading_coord == Coord::Y {
                     curr_y = take(&mut curr_num);
@@ -239,31 +238,39 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_map_string {
             if ch == b'"' {
                 in_map_string = false;
-                adjust_y = true;
-                curr_y -= 1;
+                // The coordinates are those of the lower left corner, but the
+                // rows are written from the top down.
+                for row in rows.drain(..).rev() {
+                    for (curr_x, key) in (base_x..).zip(row) {
+                        if grid.insert((curr_x, curr_y, curr_z), key).is_some() {
+                            return Err(DMError::new(
+                                chars.location(),
+                                format!("multiple entries for ({curr_x}, {curr_y}, {curr_z})"),
+                            ));
+                        }
+                        max_x = max(max_x, curr_x);
+                    }
+                    max_y = max(max_y, curr_y);
+                    curr_y += 1;
+                }
+                new_row = true;
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
-                if adjust_y {
-                    adjust_y = false;
-                } else {
-                    curr_y += 1;
+                if new_row && !rows.is_empty() {
+                    rows.push(Vec::new());
                 }
-                curr_x = base_x;
+                new_row = true;
             } else {
+                if take(&mut new_row) {
+                    rows.push(Vec::new());
+                }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
                 if curr_key_length == map.key_length {
-                    let key = take(&mut curr_key);
+                    let key = Key(take(&mut curr_key));
                     curr_key_length = 0;
-                    if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some() {
-                        return Err(DMError::new(
-                            chars.location(),
-                            format!("multiple entries for ({curr_x}, {curr_y}, {curr_z})"),
-                        ));
-                    }
-                    max_x = max(max_x, curr_x);
-                    curr_x += 1;
+                    rows.last_mut().unwrap().push(key);
                 }
             }
         } else if ch == b'(' {
@@ -272,16 +279,16 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             in_map_string = true;
         }
     }
-    max_y = max(max_y, curr_y);
 
     let mut result = Ok(());
     map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
+        let (x, y, z) = (x + 1, max_y - y, z + 1);
+        if let Some(&tile) = grid.get(&(x, y, z)) {
             tile
         } else {
             result = Err(DMError::new(
                 chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
+                format!("no value for tile ({x}, {y}, {z})"),
             ));
             Key(0)
         }
-- 
2.43.0


From aa71e7666541d2651348f88deb73b4842618095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 041/131] fix: report malformed maps instead of panicking,
 allocating without bound or accepting them

---
 crates/dmm-tools/src/dmm/read.rs | 118 +++++++++++++++++++++++++------
 1 file changed, 98 insertions(+), 20 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 94a00ac..ec92081 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -10,6 +10,9 @@ use dm::{DMError, Location};
 
 use super::{Key, KeyType, Map, Prefab};
 
+/// Far beyond what BYOND can load, and small enough to count the tiles.
+const MAX_COORDINATE: usize = 100_000;
+
 pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let file_id = Default::default();
     let mut chars = LocationTracker::new(file_id, dm::lexer::buffer_file(file_id, path)?.into());
@@ -33,6 +36,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut brace_depth = 0usize;
     let mut after_brace = false;
 
+    let mut in_coord_block = false;
+
     let mut curr_key_start_location = Location::default();
 
     let mut curr_datum_start_location = Location::default();
@@ -117,7 +122,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     if !curr_var.is_empty() {
                         insert_current_var!();
                     }
-                    curr_datum.clear();
+                    if !take_trimmed(&mut curr_datum).is_empty() {
+                        return Err(DMError::new(
+                            chars.location(),
+                            "variable edit without a value",
+                        ));
+                    }
                     in_varedit_block = false;
                 } else {
                     // a prefab within the value may have variables of its own
@@ -158,12 +168,25 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0
+                    || (map.key_length != 0 && map.key_length != curr_key_length)
+                {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!(
+                            "bad key length {curr_key_length}, expected {}",
+                            max(map.key_length, 1)
+                        ),
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
                 }
+                if curr_key_length == super::MAX_KEY_LENGTH {
+                    return Err(DMError::new(chars.location(), "key too long"));
+                }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
             }
@@ -174,7 +197,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if after_data_block {
                 curr_key = 0;
                 curr_key_length = 0;
+                in_coord_block = true;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(chars.location(), "tile contents without a key"));
             } else {
                 in_data_block = true;
                 after_data_block = false;
@@ -182,6 +208,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if !in_coord_block {
+        return Err(DMError::new(
+            chars.location(),
+            "unexpected end of file before the map grid",
+        ));
+    }
+
     // grid
     #[derive(PartialEq, Debug)]
     enum Coord {
@@ -198,8 +231,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut rows: Vec<Vec<Key>> = Vec::new();
     let mut new_row = true;
 
-    let mut in_coord_block = true;
     let mut in_map_string = false;
+    let mut expecting_rows = false;
 
     while let Some(ch) = chars.next() {
         if in_coord_block {
@@ -219,14 +252,34 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
                 max_z = max(max_z, curr_z);
+                if base_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("bad coordinates ({base_x}, {curr_y}, {curr_z})"),
+                    ));
+                }
                 in_coord_block = false;
+                expecting_rows = true;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                    Some(x) => {
+                        curr_num = 10 * curr_num + x as usize;
+                        if curr_num > MAX_COORDINATE {
+                            return Err(DMError::new(
+                                chars.location(),
+                                "map coordinate too large",
+                            ));
+                        }
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
@@ -236,8 +289,11 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
             }
         } else if in_map_string {
-            if ch == b'"' {
+            if (ch == b'"' || ch == b'\n') && curr_key_length != 0 {
+                return Err(DMError::new(chars.location(), "incomplete key in map grid"));
+            } else if ch == b'"' {
                 in_map_string = false;
+                expecting_rows = false;
                 // The coordinates are those of the lower left corner, but the
                 // rows are written from the top down.
                 for row in rows.drain(..).rev() {
@@ -269,32 +325,54 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_key_length += 1;
                 if curr_key_length == map.key_length {
                     let key = Key(take(&mut curr_key));
+                    if !map.dictionary.contains_key(&key) {
+                        return Err(DMError::new(
+                            chars.location(),
+                            format!("undefined key {:?} in map grid", map.format_key(key).to_string()),
+                        ));
+                    }
                     curr_key_length = 0;
                     rows.last_mut().unwrap().push(key);
                 }
             }
-        } else if ch == b'(' {
+        } else if ch == b'(' && !expecting_rows {
             in_coord_block = true;
-        } else if ch == b'"' {
+        } else if ch == b'"' && expecting_rows {
             in_map_string = true;
+        } else if ch == b'(' || ch == b'"' {
+            return Err(DMError::new(
+                chars.location(),
+                format!("unexpected {:?} in map grid", ch as char),
+            ));
         }
     }
+    if in_coord_block || expecting_rows {
+        return Err(DMError::new(
+            chars.location(),
+            "unexpected end of file in the map grid",
+        ));
+    }
 
-    let mut result = Ok(());
-    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        let (x, y, z) = (x + 1, max_y - y, z + 1);
-        if let Some(&tile) = grid.get(&(x, y, z)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({x}, {y}, {z})"),
-            ));
-            Key(0)
+    // Find the missing tile before making room for them all.
+    if max_x * max_y * max_z > grid.len() {
+        let coords = (1..=max_z)
+            .flat_map(|z| (1..=max_y).map(move |y| (y, z)))
+            .flat_map(|(y, z)| (1..=max_x).map(move |x| (x, y, z)));
+        for (x, y, z) in coords {
+            if !grid.contains_key(&(x, y, z)) {
+                return Err(DMError::new(
+                    chars.location(),
+                    format!("no value for tile ({x}, {y}, {z})"),
+                ));
+            }
         }
+    }
+
+    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
+        grid[&(x + 1, max_y - y, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 /// Take the buffer's contents without the whitespace around them.
-- 
2.43.0


From 2b259f3e6f7e82183caed5d3c0f5baabd2d5b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 042/131] fix: skip comments between the blocks of a map grid

---
 crates/dmm-tools/src/dmm/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index ec92081..427a09f 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -231,6 +231,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut rows: Vec<Vec<Key>> = Vec::new();
     let mut new_row = true;
 
+    comment_trigger = false;
     let mut in_map_string = false;
     let mut expecting_rows = false;
 
@@ -335,6 +336,11 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     rows.last_mut().unwrap().push(key);
                 }
             }
+        } else if in_comment_line {
+            in_comment_line = ch != b'\n';
+        } else if ch == b'/' {
+            in_comment_line = comment_trigger;
+            comment_trigger = !comment_trigger;
         } else if ch == b'(' && !expecting_rows {
             in_coord_block = true;
         } else if ch == b'"' && expecting_rows {
-- 
2.43.0


From b32323f09b46fc205d0590f83052184e149cf6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 043/131] fix: read an empty tile as empty

---
 crates/dmm-tools/src/dmm/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 427a09f..83ce101 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -154,7 +154,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     curr_prefab.path = from_utf8_or_latin1(take_trimmed(&mut curr_datum));
                 }
                 curr_datum.clear();
-                curr_data.push(take(&mut curr_prefab));
+                let last = take(&mut curr_prefab);
+                if !curr_data.is_empty() || !last.path.is_empty() {
+                    curr_data.push(last);
+                }
                 let key = take(&mut curr_key);
                 let data = take(&mut curr_data);
                 curr_key_length = 0;
-- 
2.43.0


From 73de63095455dcca279abc975db17d2788929e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 044/131] fix: reject the map key that stands for no key

---
 crates/dmm-tools/src/dmm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dmm-tools/src/dmm.rs b/crates/dmm-tools/src/dmm.rs
index f1b1647..1b877af 100644
--- a/crates/dmm-tools/src/dmm.rs
+++ b/crates/dmm-tools/src/dmm.rs
@@ -408,6 +408,7 @@ fn advance_key(current: KeyType, next_digit: KeyType) -> Result<KeyType, &'stati
     current
         .checked_mul(52)
         .and_then(|b| b.checked_add(next_digit))
+        .filter(|&key| Key(key) != Key::invalid())
         .ok_or({
             // https://www.byond.com/forum/?post=2340796#comment23770802
             "Key overflow, max is 'ymo'"
-- 
2.43.0


From efd5c93e20bebcc853e8c5c8d74a53f39bd90b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 045/131] fix: allow more than one space before a value in a
 map

---
 crates/dmm-tools/src/dmm/read.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 83ce101..c491134 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -98,7 +98,6 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if skip_whitespace && ch == b' ' {
-                    skip_whitespace = false;
                     continue;
                 }
                 skip_whitespace = false;
-- 
2.43.0


From c735c9aea4adb05f70a605dc25446d44bd077c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 046/131] fix: report malformed icon metadata instead of
 panicking

---
 crates/dreammaker/src/dmi.rs | 86 +++++++++++++++++++++++++++---------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..9403104 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -5,6 +5,7 @@ use std::collections::BTreeMap;
 use std::fmt::Display;
 use std::io;
 use std::path::Path;
+use std::str::FromStr;
 
 use derivative::Derivative;
 use lodepng::Decoder;
@@ -284,7 +285,9 @@ impl Metadata {
         for (key, value) in decoder.info_png().text_keys() {
             if key == b"Description" {
                 if let Ok(value) = std::str::from_utf8(value) {
-                    return Metadata::meta_from_str(value);
+                    let metadata = Metadata::meta_from_str(value)?;
+                    metadata.check_fits(width, height)?;
+                    return Ok(metadata);
                 }
                 break;
             }
@@ -297,6 +300,19 @@ impl Metadata {
         })
     }
 
+    /// Check that the image has room for all of the sprites.
+    fn check_fits(&self, width: u32, height: u32) -> io::Result<()> {
+        let cells = (width / self.width) as usize * (height / self.height) as usize;
+        let sprites = self.states.last().map_or(0, |s| s.offset + s.num_sprites());
+        if cells < std::cmp::max(sprites, 1) {
+            return Err(invalid_data(format!(
+                "{width}x{height} image cannot hold {sprites} icons of {}x{}",
+                self.width, self.height
+            )));
+        }
+        Ok(())
+    }
+
     /// Parse metadata from a `Description` string.
     #[inline]
     pub fn meta_from_str(data: &str) -> io::Result<Metadata> {
@@ -405,6 +421,16 @@ impl Frames {
 // ----------------------------------------------------------------------------
 // Metadata parser
 
+fn invalid_data(text: String) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, text)
+}
+
+fn parse_number<T: FromStr>(key: &str, value: &str) -> io::Result<T> {
+    value
+        .parse()
+        .map_err(|_| invalid_data(format!("Bad dmi metadata: {key} = {value}")))
+}
+
 fn parse_metadata(data: &str) -> io::Result<Metadata> {
     let mut metadata = Metadata {
         width: 32,
@@ -427,7 +453,7 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
     }
 
     let mut state: Option<State> = None;
-    let mut frames_so_far = 0;
+    let mut frames_so_far = 0usize;
 
     let mut duplicate_map: HashMap<String, u32> = HashMap::new();
 
@@ -435,17 +461,24 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let bad_line = || invalid_data(format!("Bad dmi metadata line: {line:?}"));
+        let (key, value) = line.trim().split_once(" = ").ok_or_else(bad_line)?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = parse_number(key, value)?,
+            "height" => metadata.height = parse_number(key, value)?,
             "state" => {
                 if let Some(state) = state.take() {
                     frames_so_far += state.frames.count() * state.dirs.count();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                let unquoted = value
+                    .strip_prefix('"')
+                    .and_then(|v| v.strip_suffix('"'))
+                    .ok_or_else(bad_line)?
+                    .to_owned(); // TODO: unquote
+                if unquoted.contains('\\') || unquoted.contains('"') {
+                    return Err(bad_line());
+                }
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +506,32 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
+                let n: u8 = parse_number(key, value)?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(bad_line()),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(bad_line()),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                state.frames = match parse_number::<u16>(key, value)? {
+                    0 => return Err(bad_line()),
+                    n => Frames::Count(n.into()),
+                };
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(bad_line)?;
                 let mut vector: Vec<f32> = value
                     .split(',')
-                    .map(str::parse)
-                    .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map(|delay| parse_number(key, delay))
+                    .collect::<Result<Vec<_>, _>>()?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,16 +546,23 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(bad_line()),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => state.as_mut().ok_or_else(bad_line)?.loop_ = parse_number(key, value)?,
+            "rewind" => {
+                state.as_mut().ok_or_else(bad_line)?.rewind = parse_number::<u8>(key, value)? != 0
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                state.as_mut().ok_or_else(bad_line)?.movement = parse_number::<u8>(key, value)? != 0
+            },
+            _ => return Err(bad_line()),
         }
     }
+    if metadata.width == 0 || metadata.height == 0 {
+        return Err(invalid_data("Bad dmi metadata: empty icons".to_owned()));
+    }
     metadata.states.extend(state);
 
     Ok(metadata)
-- 
2.43.0


From 0f8453be95caeee989779563d7be9252d108828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 047/131] fix: accept icon states with quotes and backslashes
 in their names

---
 crates/dreammaker/src/dmi.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 9403104..fd327d5 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -425,6 +425,20 @@ fn invalid_data(text: String) -> io::Error {
     io::Error::new(io::ErrorKind::InvalidData, text)
 }
 
+/// Take the backslashes off the quotes and backslashes in a state name.
+fn unescape(text: &str) -> Option<String> {
+    let mut result = String::with_capacity(text.len());
+    let mut chars = text.chars();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '\\' => result.push(chars.next()?),
+            '"' => return None,
+            ch => result.push(ch),
+        }
+    }
+    Some(result)
+}
+
 fn parse_number<T: FromStr>(key: &str, value: &str) -> io::Result<T> {
     value
         .parse()
@@ -474,11 +488,8 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 let unquoted = value
                     .strip_prefix('"')
                     .and_then(|v| v.strip_suffix('"'))
-                    .ok_or_else(bad_line)?
-                    .to_owned(); // TODO: unquote
-                if unquoted.contains('\\') || unquoted.contains('"') {
-                    return Err(bad_line());
-                }
+                    .and_then(unescape)
+                    .ok_or_else(bad_line)?;
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
-- 
2.43.0


From 2e5869832208aeda9df5ee2a2cc8f8d219f77afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 048/131] fix: a short list of delays must not reduce the
 number of frames

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index fd327d5..fe3c31f 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -552,7 +552,7 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                         }
                     },
                     Frames::Count(n) => {
-                        vector.truncate(n);
+                        vector.resize(n, 1.);
                         if !vector.iter().all(|&n| n == 1.) {
                             state.frames = Frames::Delays(vector);
                         }
-- 
2.43.0


From 8c682698beaf40bd33b29b10cd30d68ac1c46be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 049/131] fix: southwest turned clockwise is northwest

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index fe3c31f..4761d11 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -173,7 +173,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From fef075c3bb9d669345bef7f2d2529229feb5e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 050/131] fix: do not wrap around bright translucent colours
 when compositing

---
 crates/dmm-tools/src/dmi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..4dac28f 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -215,9 +215,11 @@ impl Image {
                 let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
                 if out_a != 0 {
                     for i in 0..3 {
+                        // out_A is rounded down, so the quotient can be above 255
                         dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
                             + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                            / out_a as u32)
+                            .min(255) as u8;
                     }
                 } else {
                     for i in 0..3 {
-- 
2.43.0


From 6a5cdb31bfbd08c4a4606893aa4efa64528dc71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 051/131] fix: sort layers just below a whole number above
 those further below

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..1349e7f 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -461,7 +461,7 @@ impl From<f32> for Layer {
     fn from(f: f32) -> Layer {
         Layer {
             whole: f.floor() as i16,
-            frac: ((f.fract() + 1.).fract() * 65536.) as u16,
+            frac: ((f - f.floor()) * 65536.) as u16,
         }
     }
 }
-- 
2.43.0


From 3f02440992491072f3b84c5d51ae64e2516ce6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 052/131] fix: do not overflow on long colour strings

---
 crates/dmm-tools/src/minimap.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 1349e7f..f3a6f51 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -563,14 +563,16 @@ pub fn color_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T) -
 
     match *atom.get_var("color", objtree) {
         Constant::String(ref color) if color.starts_with('#') => {
-            let mut sum = 0;
-            for ch in color[1..color.len()].chars() {
+            let length = color.chars().count();
+            let mut sum = 0u32;
+            // longer ones are invalid below
+            for ch in color[1..].chars().take(6) {
                 sum = 16 * sum + ch.to_digit(16).unwrap_or(0);
             }
-            if color.len() == 7 {
+            if length == 7 {
                 // #rrggbb
                 [(sum >> 16) as u8, (sum >> 8) as u8, sum as u8, alpha]
-            } else if color.len() == 4 {
+            } else if length == 4 {
                 // #rgb
                 [
                     (0x11 * ((sum >> 8) & 0xf)) as u8,
-- 
2.43.0


From 2cca4fa926804d3917c1d9ab2aa2f8cd3884a8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 053/131] fix: do not overflow on huge pixel offsets

---
 crates/dmm-tools/src/minimap.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index f3a6f51..dc77b1e 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -162,10 +162,12 @@ pub fn generate(ctx: Context, icon_cache: &IconCache) -> Result<Image, ()> {
 
         if let Some(rect) = icon_file.rect_of(&sprite.icon_state.into(), sprite.dir) {
             let pixel_x = sprite.ofs_x;
-            let pixel_y = sprite.ofs_y + icon_file.metadata.height as i32;
+            let pixel_y = sprite
+                .ofs_y
+                .saturating_add(icon_file.metadata.height as i32);
             let loc = (
-                ((x - ctx.min.0 as u32) * TILE_SIZE) as i32 + pixel_x,
-                ((y + 1 - min_y as u32) * TILE_SIZE) as i32 - pixel_y,
+                (((x - ctx.min.0 as u32) * TILE_SIZE) as i32).saturating_add(pixel_x),
+                (((y + 1 - min_y as u32) * TILE_SIZE) as i32).saturating_sub(pixel_y),
             );
 
             if let Some((loc, rect)) = clip((map_image.width, map_image.height), loc, rect) {
@@ -195,20 +197,20 @@ fn clip(
     mut rect: dmi::Rect,
 ) -> Option<(dmi::Coordinate, dmi::Rect)> {
     if loc.0 < 0 {
-        rect.0 += (-loc.0) as u32;
-        rect.2 = rect.2.checked_sub((-loc.0) as u32)?;
+        rect.2 = rect.2.checked_sub(loc.0.unsigned_abs())?;
+        rect.0 += loc.0.unsigned_abs();
         loc.0 = 0;
     }
-    let overhang = loc.0 + rect.2 as i32 - bounds.0 as i32;
+    let overhang = loc.0.saturating_add(rect.2 as i32) - bounds.0 as i32;
     if overhang > 0 {
         rect.2 = rect.2.checked_sub(overhang as u32)?;
     }
     if loc.1 < 0 {
-        rect.1 += (-loc.1) as u32;
-        rect.3 = rect.3.checked_sub((-loc.1) as u32)?;
+        rect.3 = rect.3.checked_sub(loc.1.unsigned_abs())?;
+        rect.1 += loc.1.unsigned_abs();
         loc.1 = 0;
     }
-    let overhang = loc.1 + rect.3 as i32 - bounds.1 as i32;
+    let overhang = loc.1.saturating_add(rect.3 as i32) - bounds.1 as i32;
     if overhang > 0 {
         rect.3 = rect.3.checked_sub(overhang as u32)?;
     }
@@ -512,8 +514,8 @@ impl<'s> Sprite<'s> {
                 .and_then(Dir::from_int)
                 .unwrap_or_default(),
             color: color_of(objtree, vars),
-            ofs_x: pixel_x + pixel_w + step_x,
-            ofs_y: pixel_y + pixel_z + step_y,
+            ofs_x: pixel_x.saturating_add(pixel_w).saturating_add(step_x),
+            ofs_y: pixel_y.saturating_add(pixel_z).saturating_add(step_y),
             plane: plane_of(objtree, vars),
             layer: layer_of(objtree, vars),
         }
-- 
2.43.0


From 6b6c0b57301d779348185078e31f2ad36483d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 054/131] fix: report failures to write the end of a PNG

---
 crates/dmm-tools/src/dmi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 4dac28f..661f358 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -180,6 +180,8 @@ impl Image {
             let mut writer = encoder.write_header()?;
             // TODO: metadata with write_chunk()
             writer.write_image_data(bytemuck::cast_slice(self.data.as_slice().unwrap()))?;
+            // dropping the writer would ignore errors
+            writer.finish()?;
         }
         Ok(())
     }
-- 
2.43.0


From d3edc69759f06d5abb87d3665594d152f5ae1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 055/131] fix: report failures to export an animation instead
 of panicking or ignoring them

---
 crates/dmm-tools/src/dmi/render.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmi/render.rs b/crates/dmm-tools/src/dmi/render.rs
index 29dead2..9fa9e40 100644
--- a/crates/dmm-tools/src/dmi/render.rs
+++ b/crates/dmm-tools/src/dmi/render.rs
@@ -164,7 +164,15 @@ impl<'a> IconRenderer<'a> {
 
         let mut canvas = self.get_canvas(icon_state.dirs);
 
-        let mut encoder = gif::Encoder::new(target, canvas.width as u16, canvas.height as u16, &[])
+        let (Ok(width), Ok(height)) = (u16::try_from(canvas.width), u16::try_from(canvas.height))
+        else {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Tried to render gif which is too large",
+            ));
+        };
+
+        let mut encoder = gif::Encoder::new(target, width, height, &[])
             .map_err(|e| io::Error::other(format!("{e}")))?;
 
         encoder
@@ -181,8 +189,7 @@ impl<'a> IconRenderer<'a> {
             self.render_dirs(icon_state, &mut canvas, frame as u32);
 
             let mut pixels = bytemuck::cast_slice_mut(canvas.data.as_slice_mut().unwrap());
-            let mut gif_frame =
-                gif::Frame::from_rgba(canvas.width as u16, canvas.height as u16, &mut pixels);
+            let mut gif_frame = gif::Frame::from_rgba(width, height, &mut pixels);
             // gif::Frame delays are measured in "Frame delay in units of 10 ms."
             // aka centiseconds. We're measuring in BYOND ticks, aka deciseconds.
             // And it's a u16 for some reason so we just SHRUG and floor it.
@@ -191,11 +198,17 @@ impl<'a> IconRenderer<'a> {
             // the disposal method by default is "keep the previous frame under the alpha mask"
             // wtf
             gif_frame.dispose = DisposalMethod::Background;
-            encoder.write_frame(&gif_frame).unwrap();
+            encoder
+                .write_frame(&gif_frame)
+                .map_err(|e| io::Error::other(format!("{e}")))?;
             // Clear the canvas.
             canvas.clear();
         }
 
+        // dropping the encoder would ignore errors
+        encoder
+            .into_inner()
+            .map_err(|e| io::Error::other(format!("{e}")))?;
         Ok(())
     }
 
-- 
2.43.0


From fc792e7a47b6158656d0376b468b3733e21d5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 056/131] fix: check switches on rand() with swapped bounds and
 fractional cases

---
 crates/dreamchecker/src/switch_rand_range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 3a4635d..57fb504 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -27,7 +27,7 @@ pub fn check_switch_rand_range(
             if let Some((start, end)) = get_case_range(case, location) {
                 let start = start.ceil() as i32;
                 let end = end.floor() as i32;
-                if start <= rand_end && end >= rand_start {
+                if start <= end && start <= rand_end && end >= rand_start {
                     case_ranges.push((start, end));
                 } else {
                     DMError::new(location, format!("Case range '{start} to {end}' will never trigger as it is outside the rand() range {rand_start} to {rand_end}"))
@@ -111,5 +111,6 @@ fn get_rand_range(maybe_rand: &Expression) -> Option<(i32, i32)> {
         _ => return None,
     };
 
-    Some((min.ceil() as i32, max.floor() as i32))
+    // rand() takes its bounds in either order
+    Some((min.min(max).ceil() as i32, min.max(max).floor() as i32))
 }
-- 
2.43.0


From 9c92dab5babd53a1c22b26770a0dff317e1b5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 057/131] fix: do not report gaps in switches on rand() with
 cases of unknown value

---
 crates/dreamchecker/src/switch_rand_range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 57fb504..0b0fce8 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -21,6 +21,7 @@ pub fn check_switch_rand_range(
     };
 
     let mut case_ranges = Vec::with_capacity(cases.len());
+    let mut all_known = true;
     for case_block in cases.iter() {
         let location = case_block.0.location;
         for case in case_block.0.elem.iter() {
@@ -35,12 +36,15 @@ pub fn check_switch_rand_range(
                         .set_severity(Severity::Warning)
                         .register(context);
                 }
+            } else {
+                all_known = false;
             }
         }
     }
 
-    if default.is_some() {
-        // covers the whole range directly so no need to check for gaps
+    if default.is_some() || !all_known {
+        // covers the whole range directly, or may do so with values that are
+        // not known here, so no need to check for gaps
         return;
     }
 
-- 
2.43.0


From f4e8593baaabd1e0bd0f3703222c959cd064b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 058/131] fix: report overrides of final and
 should_not_override procs that bear the directive themselves

---
 crates/dreamchecker/src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..de03a90 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1499,17 +1499,15 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
             }
             if let Some((proc, true, location)) =
-                self.env.must_not_override.get_self_or_parent(self.proc_ref)
+                self.env.must_not_override.get_self_or_parent(parent)
             {
-                if proc != self.proc_ref {
-                    error(
-                        self.proc_ref.location,
-                        format!("proc overrides parent, prohibited by {proc}"),
-                    )
-                    .with_note(location, "prohibited by this must_not_override annotation")
-                    .with_errortype("must_not_override")
-                    .register(self.context);
-                }
+                error(
+                    self.proc_ref.location,
+                    format!("proc overrides parent, prohibited by {proc}"),
+                )
+                .with_note(location, "prohibited by this must_not_override annotation")
+                .with_errortype("must_not_override")
+                .register(self.context);
             }
             if self.calls_parent {
                 if !matches!(
-- 
2.43.0


From 9924c0ad481a00248381dda75dbf291bd5419be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 059/131] fix: look at the arguments of calls that cannot be
 resolved

---
 crates/dreamchecker/src/lib.rs | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index de03a90..5f522ce 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2502,6 +2502,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("undefined proc: {:?} on {}", unscoped_name, self.ty),
                     )
                     .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2520,6 +2521,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, format!("proc has no parent: {}", self.proc_ref))
                         .with_errortype("proc_has_no_parent")
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2537,6 +2539,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 } else {
                     error(location, format!("undefined global proc: {global_name:?}"))
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2548,6 +2551,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, "no type hint available on implicit new()")
                         .with_errortype("no_typehint_implicit_new")
                         .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
@@ -2561,11 +2567,17 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("failed to resolve path {}", FormatTypePath(&prefab.path)),
                     )
                     .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { args, .. } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
@@ -2711,16 +2723,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
@@ -2927,6 +2944,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "prohibited by this private_proc annotation",
                                 )
                                 .register(self.context);
+                                self.visit_arguments(location, arguments, local_vars);
                                 return Analysis::empty(); // dont double up with visit_call()
                             }
                         }
@@ -2953,6 +2971,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     } else {
                         error(location, format!("undefined proc: {name:?} on {ty}"))
                             .register(self.context);
+                        self.visit_arguments(location, arguments, local_vars);
                         Analysis::empty()
                     }
                 } else {
@@ -2964,6 +2983,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .with_errortype("proc_call_static_type")
                     .with_fix_hint(&lhs)
                     .register(self.context);
+                    self.visit_arguments(location, arguments, local_vars);
                     Analysis::empty()
                 }
             },
-- 
2.43.0


From 34e654365bece452b71f9a2529f962249e9d270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 060/131] fix: look at the initial value of for loops over a
 range

---
 crates/dreamchecker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5f522ce..41763d9 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1902,6 +1902,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    self.visit_expression(location, start, None, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
-- 
2.43.0


From 07cd75f56d0972f83651154eb0d3337624422aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 061/131] fix: do not miss sleeping calls of procs met earlier
 under another should_not_sleep proc

---
 crates/dreamchecker/src/lib.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 41763d9..127ee68 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,16 +753,14 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        // The same proc may dispatch differently on a different receiver.
+        let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
@@ -804,21 +802,24 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
+                // Skip A->B->C chains when a B->C chain would be detected.
+                if self.must_not_sleep.directive.contains_key(&nextproc) {
                     continue;
                 }
-                if self.waitfor_procs.contains(&nextproc) {
+                if !visited.insert((nextproc, receiver, is_exact)) {
                     continue;
                 }
-                if self.sleep_exempt.get(nextproc).is_some() {
+                if self.waitfor_procs.contains(&nextproc) {
                     continue;
                 }
-                // Skip A->B->C chains when a B->C chain would be detected.
-                if self.must_not_sleep.directive.contains_key(&nextproc) {
+                if self.sleep_exempt.get(nextproc).is_some() {
                     continue;
                 }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
-- 
2.43.0


From 57dfe47345cdb4d7bc8e64e9a58548480c975258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 062/131] fix: follow unscoped calls to the definition the
 receiver has when looking for sleeping calls

---
 crates/dreamchecker/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 127ee68..58b17f4 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -607,6 +607,16 @@ struct CallEdge<'o> {
     inherit_receiver: bool,
 }
 
+impl<'o> CallEdge<'o> {
+    /// The definition which runs when this call is made on the given receiver.
+    fn dispatch(&self, receiver: TypeRef<'o>) -> ProcRef<'o> {
+        if self.is_exact || self.proc.ty().is_root() {
+            return self.proc;
+        }
+        receiver.get_proc(self.proc.name()).unwrap_or(self.proc)
+    }
+}
+
 /// A deeper analysis of an ObjectTree
 pub struct AnalyzeObjectTree<'o> {
     context: &'o Context,
@@ -784,11 +794,12 @@ impl<'o> AnalyzeObjectTree<'o> {
                     } else {
                         each.src
                     };
+                    let proc = each.dispatch(receiver);
                     to_visit.push_back((
-                        each.proc,
+                        proc,
                         newstack,
                         each.new_context,
-                        each.proc,
+                        proc,
                         receiver,
                         each.is_exact,
                     ));
@@ -878,11 +889,12 @@ impl<'o> AnalyzeObjectTree<'o> {
                         } else {
                             each.src
                         };
+                        let proc = each.dispatch(call_receiver);
                         to_visit.push_back((
-                            each.proc,
+                            proc,
                             newstack,
                             each.new_context,
-                            each.proc,
+                            proc,
                             call_receiver,
                             each.is_exact,
                         ));
-- 
2.43.0


From f2f2d5bad06b2791efb9424f605befd66e375a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 063/131] fix: evaluate the delay of a spawn in the spawning
 proc

---
 crates/dreamchecker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 58b17f4..27d6533 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1961,11 +1961,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Setting { .. } => {},
             Statement::Spawn { delay, block } => {
-                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 let mut scoped_locals = local_vars.clone();
                 if let Some(delay) = delay {
                     self.visit_expression(location, delay, None, &mut scoped_locals);
                 }
+                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 self.visit_block(block, &mut scoped_locals, false);
                 self.inside_newcontext = self.inside_newcontext.wrapping_sub(1);
             },
-- 
2.43.0


From a9b5ef54a9df1f8ddabdba8ce95ba2de1303d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 064/131] fix: do not call giving a local var another value
 impure

---
 crates/dreamchecker/src/lib.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 27d6533..a6979b1 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1314,6 +1314,12 @@ pub fn check_var_defs(objtree: &ObjectTree, context: &Context) {
 
 // ----------------------------------------------------------------------------
 // Procedure analyzer
+
+/// Whether an expression is just the name of a local var or parameter.
+fn is_local_var(expr: &Expression, local_vars: &HashMap<Ident, LocalVar>) -> bool {
+    matches!(expr.as_term(), Some(Term::Ident(name)) if local_vars.contains_key(name))
+}
+
 #[derive(Debug)]
 pub struct ControlFlow {
     pub returns: bool,
@@ -2207,6 +2213,14 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Expression::Base { term, follow } => {
                 let base_type_hint = if follow.is_empty() { type_hint } else { None };
                 let mut ty = self.visit_term(term.location, &term.elem, base_type_hint, local_vars);
+                if let (Term::Ident(name), Some(Follow::Unary(_))) =
+                    (&term.elem, follow.first().map(|f| &f.elem))
+                {
+                    // Counting in a local var or parameter is pure.
+                    if local_vars.contains_key(name) && ty.static_ty == StaticType::None {
+                        ty.is_impure = None;
+                    }
+                }
                 for each in follow.iter() {
                     ty = self.visit_follow(each.location, ty, &each.elem, local_vars);
                 }
@@ -2359,9 +2373,14 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 self.visit_binary(lty, rty, *op)
             },
-            Expression::AssignOp { lhs, rhs, .. } => {
+            Expression::AssignOp { op, lhs, rhs } => {
+                let is_local = is_local_var(lhs, local_vars);
                 let lhs = self.visit_expression(location, lhs, None, local_vars);
-                if let Some(true) = lhs.is_impure {
+                // Giving a local var or parameter another value is pure,
+                // but operating on a list within one changes that list.
+                let changes_local =
+                    is_local && (*op == AssignOp::Assign || !lhs.static_ty.is_list());
+                if lhs.is_impure == Some(true) && !changes_local {
                     self.env.impure_procs.insert_violator(
                         self.proc_ref,
                         "Assignment on purity breaking expression",
-- 
2.43.0


From 4b78ac150a7cd6d8b1a1731a8a256a9d3435c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 065/131] fix: call changes to fields of impure objects and
 elements of impure lists impure

---
 crates/dreamchecker/src/lib.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a6979b1..4eec806 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1462,7 +1462,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         );
         local_vars.insert(
             "usr".into(),
-            Analysis::from_static_type(self.objtree.expect("/mob")).into(),
+            Analysis::from_static_type_impure(self.objtree.expect("/mob")).into(),
         );
         local_vars.insert(
             "callee".into(),
@@ -1473,7 +1473,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Analysis::from_static_type(self.objtree.expect("/callee")).into(),
         );
         if !self.ty.is_root() {
-            local_vars.insert("src".into(), Analysis::from_static_type(self.ty).into());
+            local_vars.insert(
+                "src".into(),
+                Analysis::from_static_type_impure(self.ty).into(),
+            );
         }
         local_vars.insert(
             "global".into(),
@@ -2843,6 +2846,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 match lhs.static_ty {
                     StaticType::List { keys, .. } => {
                         let mut res = Analysis::from(*keys);
+                        res.is_impure = lhs.is_impure;
                         if let Some((loc, _)) = lhs.fix_hint {
                             res.fix_hint =
                                 Some((loc, "add a type annotation after /list here".to_owned()))
@@ -2897,8 +2901,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
                         }
-                        self.static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here")
+                        let mut res = self
+                            .static_type(location, &decl.var_type.type_path)
+                            .with_fix_hint(decl.location, "add additional type info here");
+                        res.is_impure = lhs.is_impure;
+                        res
                     } else {
                         error(location, format!("undefined field: {name:?} on {ty}"))
                             .register(self.context);
@@ -2913,7 +2920,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .with_errortype("field_access_static_type")
                     .with_fix_hint(&lhs)
                     .register(self.context);
-                    Analysis::empty()
+                    Analysis {
+                        is_impure: lhs.is_impure,
+                        ..Analysis::empty()
+                    }
                 }
             },
             Follow::StaticField(name) => {
-- 
2.43.0


From 4c3c8ea1944d7834cf0fa8321aa87b374e658ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 066/131] fix: call deleting an object from outside the proc
 impure

---
 crates/dreamchecker/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 4eec806..75baffa 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2086,7 +2086,14 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 self.visit_block(block, &mut local_vars.clone(), false);
             },
             Statement::Del(expr) => {
-                self.visit_expression(location, expr, None, local_vars);
+                let analysis = self.visit_expression(location, expr, None, local_vars);
+                if analysis.is_impure == Some(true) {
+                    self.env.impure_procs.insert_violator(
+                        self.proc_ref,
+                        "del on non-local var",
+                        location,
+                    );
+                }
             },
             Statement::ForKeyValue(for_key_value) => {
                 let ForKeyValueStatement {
-- 
2.43.0


From 29be5fa4dfa568e45f6330802839bd4b493bec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 067/131] fix: let the type which declares a protected var use
 it on its descendants

---
 crates/dreamchecker/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 75baffa..101bc53 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2896,8 +2896,16 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .set_severity(Severity::Warning)
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
-                        } else if !self.ty.is_subtype_of(ty.get())
-                            && decl.var_type.flags.is_protected()
+                        } else if decl.var_type.flags.is_protected()
+                            && !ty
+                                .iter_parent_types()
+                                .find(|parent| {
+                                    parent
+                                        .vars
+                                        .get(name)
+                                        .is_some_and(|var| var.declaration.is_some())
+                                })
+                                .is_some_and(|parent| self.ty.is_subtype_of(parent.get()))
                         {
                             error(
                                 location,
-- 
2.43.0


From bf314b7a1f0e93d2dbd46803d24e3b058432c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 068/131] fix: a range loop's step decides whether its body
 runs

---
 crates/dreammaker/src/ast.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/ast.rs b/crates/dreammaker/src/ast.rs
index 4f3422b..42cbe38 100644
--- a/crates/dreammaker/src/ast.rs
+++ b/crates/dreammaker/src/ast.rs
@@ -1256,13 +1256,22 @@ impl Term {
                     return Some(false);
                 }
                 if let Some(stepexp) = step {
-                    if let Some(stepterm) = stepexp.as_term() {
-                        if let Term::Int(_s) = stepterm {
-                            return Some(true);
-                        }
-                    } else {
-                        return Some(true);
-                    }
+                    return match stepexp {
+                        Expression::Base { term, follow } => {
+                            let negative = match &**follow {
+                                [] => false,
+                                [neg] if neg.elem == Follow::Unary(UnaryOp::Neg) => true,
+                                _ => return None,
+                            };
+                            match (&term.elem, negative) {
+                                (Term::Int(0), _) => None,
+                                (Term::Int(_), false) => Some(i <= o),
+                                (Term::Int(_), true) => Some(i >= o),
+                                _ => None,
+                            }
+                        },
+                        _ => None,
+                    };
                 }
                 return Some(i <= o);
             }
-- 
2.43.0


From 601381387fe9e8b4c33c2d1db3b931fcc87656c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:40 +0000
Subject: [PATCH 069/131] fix: code after a loop that may break or continue is
 not unreachable

---
 crates/dreamchecker/src/lib.rs | 75 +++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 101bc53..916ba20 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1326,6 +1326,12 @@ pub struct ControlFlow {
     pub continues: bool,
     pub breaks: bool,
     pub fuzzy: bool,
+    /// Some path may continue the innermost loop.
+    pub may_continue: bool,
+    /// Some path may break the innermost loop.
+    pub may_break: bool,
+    /// Some path may break or continue a loop by its label.
+    pub may_jump: bool,
 }
 
 impl ControlFlow {
@@ -1335,6 +1341,9 @@ impl ControlFlow {
             continues: true,
             breaks: true,
             fuzzy: false,
+            may_continue: false,
+            may_break: false,
+            may_jump: false,
         }
     }
 
@@ -1344,6 +1353,9 @@ impl ControlFlow {
             continues: false,
             breaks: false,
             fuzzy: false,
+            may_continue: false,
+            may_break: false,
+            may_jump: false,
         }
     }
 
@@ -1351,8 +1363,9 @@ impl ControlFlow {
         !self.fuzzy && (self.returns || self.continues || self.breaks)
     }
 
+    /// Whether the body of a loop always leaves the loop the first time.
     pub fn terminates_loop(&self) -> bool {
-        !self.fuzzy && (self.returns || self.breaks)
+        !self.fuzzy && (self.returns || self.breaks) && !self.may_continue && !self.may_jump
     }
 
     pub fn no_else(&mut self) {
@@ -1361,7 +1374,19 @@ impl ControlFlow {
         self.breaks = false;
     }
 
+    /// Whether the body of a loop always returns the first time.
+    pub fn returns_from_loop(&self) -> bool {
+        !self.fuzzy && self.returns && !self.may_continue && !self.may_break && !self.may_jump
+    }
+
+    fn merge_possible(&mut self, other: &ControlFlow) {
+        self.may_continue |= other.may_continue;
+        self.may_break |= other.may_break;
+        self.may_jump |= other.may_jump;
+    }
+
     pub fn merge(&mut self, other: ControlFlow) {
+        self.merge_possible(&other);
         if !self.fuzzy && other.returns {
             self.returns = true;
         }
@@ -1380,6 +1405,7 @@ impl ControlFlow {
     }
 
     pub fn merge_false(&mut self, other: ControlFlow) {
+        self.merge_possible(&other);
         if !other.returns {
             self.returns = false;
         }
@@ -1405,6 +1431,8 @@ impl ControlFlow {
         self.continues = false;
         self.breaks = false;
         self.fuzzy = false;
+        self.may_continue = false;
+        self.may_break = false;
     }
 }
 
@@ -1709,17 +1737,13 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 local_vars.get_mut(".").unwrap().analysis = return_type;
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Return(None) => {
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Crash(expr) => {
@@ -1728,9 +1752,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Throw(expr) => {
@@ -1753,6 +1775,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    if state.returns_from_loop() {
+                        return state;
+                    }
+                    state.end_loop();
                     return state;
                 }
                 self.visit_expression(
@@ -1937,7 +1963,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "for range loop body is never reached due to invalid range",
                                 )
                                 .register(self.context);
-                            } else {
+                            } else if state.returns_from_loop() {
                                 return state;
                             }
                         }
@@ -2038,7 +2064,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut flow = ControlFlow::allfalse();
+                let state = self.visit_block(try_block, &mut local_vars.clone(), false);
+                flow.merge_possible(&state);
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2063,27 +2091,34 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                let state = self.visit_block(catch_block, &mut catch_locals, false);
+                flow.merge_possible(&state);
+                return flow;
             },
-            Statement::Continue(_) => {
+            Statement::Continue(label) => {
                 return ControlFlow {
-                    returns: false,
                     continues: true,
-                    breaks: false,
                     fuzzy: true,
+                    may_continue: label.is_none(),
+                    may_jump: label.is_some(),
+                    ..ControlFlow::allfalse()
                 };
             },
-            Statement::Break(_) => {
+            Statement::Break(label) => {
                 return ControlFlow {
-                    returns: false,
-                    continues: false,
                     breaks: true,
                     fuzzy: true,
+                    may_break: label.is_none(),
+                    may_jump: label.is_some(),
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                let state = self.visit_block(block, &mut local_vars.clone(), false);
+                let mut flow = ControlFlow::allfalse();
+                flow.merge_possible(&state);
+                return flow;
             },
             Statement::Del(expr) => {
                 let analysis = self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From 68c897392d375ab2fcc4c5e5093cdc932bd7ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 070/131] fix: named arguments are checked against overrides
 below a type that only inherits the proc

---
 crates/dreamchecker/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 916ba20..0418b3f 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1106,10 +1106,12 @@ impl<'o> AnalyzeObjectTree<'o> {
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
 
         // Start at the parent - calls which immediately resolve to bad kwargs
-        // error earlier in the process.
-        let mut next = proc.parent_proc();
+        // error earlier in the process. Go by type rather than by parent proc,
+        // since the type a call was made on may only inherit the proc.
+        let mut next = proc.ty().parent_type_without_root();
         while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+            let called = format!("{}/proc/{}", current, proc.name());
+            if let Some(kwargs) = self.used_kwargs.get_mut(&called) {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
@@ -1128,7 +1130,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                     );
                 }
             }
-            next = current.parent_proc();
+            next = current.parent_type_without_root();
         }
     }
 
@@ -3404,8 +3406,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     }
                                 });
                                 error.register(self.context);
-                            } else if !is_exact {
+                            } else if !is_exact && !proc.ty().is_root() {
                                 // If it does, mark it as "used".
+                                // Global procs cannot be overridden.
                                 // Format with src/proc/foo here, rather than the
                                 // type the proc actually appears on, so that
                                 // calling /datum/foo() on a /datum/A won't
-- 
2.43.0


From c2a59d80b6464d8aa9d3eb3590fa1407b16c44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 071/131] fix: the names in `new a.b(...)` are resolved

---
 crates/dreamchecker/src/lib.rs | 225 ++++++++++++++++++---------------
 1 file changed, 124 insertions(+), 101 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 0418b3f..749644b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2473,35 +2473,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             ),
             Term::As(_) => assumption_set![Assumption::IsNum(true)].into(),
 
-            Term::Ident(unscoped_name) => {
-                if let Some(var) = local_vars.get(unscoped_name) {
-                    var.analysis
-                        .clone()
-                        .with_fix_hint(var.location, "add additional type info here")
-                } else if unscoped_name == "type" {
-                    // Strictly speaking "type" might be any subset of our current type, but let's return something useful
-                    // so that `nameof(type::foo)` is sensible.
-                    let ty = self.ty;
-                    let pop = dm::constants::Pop::from_path_str(&ty.path);
-                    Analysis {
-                        static_ty: StaticType::None,
-                        aset: assumption_set![Assumption::IsPath(true, ty)],
-                        value: Some(Constant::Prefab(Box::new(pop))),
-                        fix_hint: None,
-                        is_impure: None,
-                    }
-                } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
-                    let mut ana = self
-                        .static_type(location, &decl.var_type.type_path)
-                        .with_fix_hint(decl.location, "add additional type info here");
-                    ana.is_impure = Some(true);
-                    ana
-                } else {
-                    error(location, format!("undefined var: {unscoped_name:?}"))
-                        .register(self.context);
-                    Analysis::empty()
-                }
-            },
+            Term::Ident(unscoped_name) => self.visit_ident(location, unscoped_name, local_vars),
             Term::GlobalIdent(global_name) => {
                 if let Some(decl) = self.objtree.root().get_var_declaration(global_name) {
                     let mut ana = self
@@ -2654,8 +2626,17 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { args, .. } => {
-                // TODO: evaluate
+            Term::NewMiniExpr { expr, args } => {
+                let mut ty = self.visit_ident(location, &expr.ident, local_vars);
+                for field in expr.fields.iter() {
+                    ty = match field.kind {
+                        PropertyAccessKind::Colon | PropertyAccessKind::SafeColon => {
+                            Analysis::empty()
+                        },
+                        _ => self.visit_field(location, ty, &field.ident),
+                    };
+                }
+                // The value of the var decides what is made.
                 if let Some(args) = args {
                     self.visit_arguments(location, args, local_vars);
                 }
@@ -2849,6 +2830,117 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    fn visit_ident(
+        &mut self,
+        location: Location,
+        unscoped_name: &Ident,
+        local_vars: &HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        if let Some(var) = local_vars.get(unscoped_name) {
+            var.analysis
+                .clone()
+                .with_fix_hint(var.location, "add additional type info here")
+        } else if unscoped_name == "type" {
+            // Strictly speaking "type" might be any subset of our current type, but let's return something useful
+            // so that `nameof(type::foo)` is sensible.
+            let ty = self.ty;
+            let pop = dm::constants::Pop::from_path_str(&ty.path);
+            Analysis {
+                static_ty: StaticType::None,
+                aset: assumption_set![Assumption::IsPath(true, ty)],
+                value: Some(Constant::Prefab(Box::new(pop))),
+                fix_hint: None,
+                is_impure: None,
+            }
+        } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
+            let mut ana = self
+                .static_type(location, &decl.var_type.type_path)
+                .with_fix_hint(decl.location, "add additional type info here");
+            ana.is_impure = Some(true);
+            ana
+        } else {
+            error(location, format!("undefined var: {unscoped_name:?}"))
+                .register(self.context);
+            Analysis::empty()
+        }
+    }
+
+    fn visit_field(
+        &mut self,
+        location: Location,
+        lhs: Analysis<'o>,
+        name: &Ident,
+    ) -> Analysis<'o> {
+        if let StaticType::Proc = lhs.static_ty {
+            match name.as_str() {
+                "type" | "name" | "desc" | "category" | "invisibility" => {},
+                _ => {
+                    error(location, format!("undefined field: {name:?} on procpath"))
+                        .register(self.context);
+                },
+            }
+            Analysis::empty()
+        } else if let Some(ty) = lhs.static_ty.basic_type() {
+            if ty.path == "/callee" && name == "proc" {
+                // Special cased for now because this might be the only place it appears?
+                // Or maybe we should also handle new procpath() returning a procpath.
+                Analysis::from(StaticType::Proc)
+            } else if let Some(decl) = ty.get_var_declaration(name) {
+                if ty != self.ty && decl.var_type.flags.is_private() {
+                    error(
+                        location,
+                        format!("field {name:?} on {ty} is declared as private"),
+                    )
+                    .with_errortype("private_var")
+                    .set_severity(Severity::Warning)
+                    .with_note(decl.location, "definition is here")
+                    .register(self.context);
+                } else if decl.var_type.flags.is_protected()
+                    && !ty
+                        .iter_parent_types()
+                        .find(|parent| {
+                            parent
+                                .vars
+                                .get(name)
+                                .is_some_and(|var| var.declaration.is_some())
+                        })
+                        .is_some_and(|parent| self.ty.is_subtype_of(parent.get()))
+                {
+                    error(
+                        location,
+                        format!("field {name:?} on {ty} is declared as protected"),
+                    )
+                    .with_errortype("protected_var")
+                    .set_severity(Severity::Warning)
+                    .with_note(decl.location, "definition is here")
+                    .register(self.context);
+                }
+                let mut res = self
+                    .static_type(location, &decl.var_type.type_path)
+                    .with_fix_hint(decl.location, "add additional type info here");
+                res.is_impure = lhs.is_impure;
+                res
+            } else {
+                error(location, format!("undefined field: {name:?} on {ty}"))
+                    .register(self.context);
+                Analysis::empty()
+            }
+        } else {
+            error(
+                location,
+                format!("field access requires static type: {name:?}"),
+            )
+            .set_severity(Severity::Warning)
+            .with_errortype("field_access_static_type")
+            .with_fix_hint(&lhs)
+            .register(self.context);
+            Analysis {
+                is_impure: lhs.is_impure,
+                ..Analysis::empty()
+            }
+        }
+    }
+
     fn visit_follow(
         &mut self,
         location: Location,
@@ -2908,76 +3000,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     _ => lhs.clone(), // carry through fix_hint
                 }
             },
-            Follow::Field(kind, name) => {
-                if let StaticType::Proc = lhs.static_ty {
-                    match name.as_str() {
-                        "type" | "name" | "desc" | "category" | "invisibility" => {},
-                        _ => {
-                            error(location, format!("undefined field: {name:?} on procpath"))
-                                .register(self.context);
-                        },
-                    }
-                    Analysis::empty()
-                } else if let Some(ty) = lhs.static_ty.basic_type() {
-                    if ty.path == "/callee" && name == "proc" {
-                        // Special cased for now because this might be the only place it appears?
-                        // Or maybe we should also handle new procpath() returning a procpath.
-                        Analysis::from(StaticType::Proc)
-                    } else if let Some(decl) = ty.get_var_declaration(name) {
-                        if ty != self.ty && decl.var_type.flags.is_private() {
-                            error(
-                                location,
-                                format!("field {name:?} on {ty} is declared as private"),
-                            )
-                            .with_errortype("private_var")
-                            .set_severity(Severity::Warning)
-                            .with_note(decl.location, "definition is here")
-                            .register(self.context);
-                        } else if decl.var_type.flags.is_protected()
-                            && !ty
-                                .iter_parent_types()
-                                .find(|parent| {
-                                    parent
-                                        .vars
-                                        .get(name)
-                                        .is_some_and(|var| var.declaration.is_some())
-                                })
-                                .is_some_and(|parent| self.ty.is_subtype_of(parent.get()))
-                        {
-                            error(
-                                location,
-                                format!("field {name:?} on {ty} is declared as protected"),
-                            )
-                            .with_errortype("protected_var")
-                            .set_severity(Severity::Warning)
-                            .with_note(decl.location, "definition is here")
-                            .register(self.context);
-                        }
-                        let mut res = self
-                            .static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here");
-                        res.is_impure = lhs.is_impure;
-                        res
-                    } else {
-                        error(location, format!("undefined field: {name:?} on {ty}"))
-                            .register(self.context);
-                        Analysis::empty()
-                    }
-                } else {
-                    error(
-                        location,
-                        format!("field access requires static type: {name:?}"),
-                    )
-                    .set_severity(Severity::Warning)
-                    .with_errortype("field_access_static_type")
-                    .with_fix_hint(&lhs)
-                    .register(self.context);
-                    Analysis {
-                        is_impure: lhs.is_impure,
-                        ..Analysis::empty()
-                    }
-                }
-            },
+            Follow::Field(_, name) => self.visit_field(location, lhs, name),
             Follow::StaticField(name) => {
                 let real_type = match lhs.static_ty.basic_type() {
                     Some(existing_type) => existing_type,
-- 
2.43.0


From 8ae6944f5b834a40334864cfea3bcaea3a0d6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 072/131] fix: global vars and procs are not members of every
 object

---
 crates/dreamchecker/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 749644b..930419b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1235,6 +1235,22 @@ fn static_type<'o>(
     }
 }
 
+/// The declaration of a var on a type or its parents, leaving out global vars,
+/// which are not members of every object.
+fn member_declaration<'o>(ty: TypeRef<'o>, name: &str) -> Option<&'o dm::objtree::VarDeclaration> {
+    if name == "vars" || ty.is_root() {
+        return ty.get_var_declaration(name);
+    }
+    let mut next = Some(ty);
+    while let Some(current) = next.filter(|t| !t.is_root()) {
+        if let Some(decl) = current.get().vars.get(name).and_then(|v| v.declaration.as_ref()) {
+            return Some(decl);
+        }
+        next = current.parent_type();
+    }
+    None
+}
+
 fn error<S: Into<String>>(location: Location, desc: S) -> DMError {
     DMError::new(location, desc).with_component(dm::Component::DreamChecker)
 }
@@ -2885,7 +2901,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 // Special cased for now because this might be the only place it appears?
                 // Or maybe we should also handle new procpath() returning a procpath.
                 Analysis::from(StaticType::Proc)
-            } else if let Some(decl) = ty.get_var_declaration(name) {
+            } else if let Some(decl) = member_declaration(ty, name) {
                 if ty != self.ty && decl.var_type.flags.is_private() {
                     error(
                         location,
@@ -3045,7 +3061,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Follow::Call(kind, name, arguments) => {
                 if let Some(ty) = lhs.static_ty.basic_type() {
                     self.check_type_sleepers(ty, location, name);
-                    if let Some(proc) = ty.get_proc(name) {
+                    // Global procs are not members of every object.
+                    let proc = ty.get_proc(name);
+                    if let Some(proc) = proc.filter(|p| ty.is_root() || !p.ty().is_root()) {
                         if let Some((privateproc, true, decllocation)) =
                             self.env.private.get_self_or_parent(proc)
                         {
-- 
2.43.0


From 9c89daaff8d5f94606b1daa65924b26d20197410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:34 +0000
Subject: [PATCH 073/131] fix: a loop over an undeclared var is reported

---
 crates/dreamchecker/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 930419b..b22bd2d 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1947,6 +1947,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None, &mut scoped_locals);
+                } else {
+                    self.visit_ident(location, name, &scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 state.end_loop();
@@ -1969,6 +1971,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
                 } else {
+                    self.visit_ident(location, name, &scoped_locals);
                     self.visit_expression(location, start, None, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
-- 
2.43.0


From 4a5610171ad05fa307985ee504a17809d7132ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 074/131] fix: the default values of parameters are checked

---
 crates/dreamchecker/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b22bd2d..c238e59 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1548,6 +1548,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             );
             //println!("adding parameters {:#?}", self.local_vars);
         }
+        for param in self.proc_ref.get().parameters.iter() {
+            if let Some(default) = &param.default {
+                let hint = local_vars[&param.name].analysis.static_ty.basic_type();
+                self.visit_expression(param.location, default, hint, &mut local_vars);
+            }
+        }
 
         self.visit_block(block, &mut local_vars, true);
 
-- 
2.43.0


From 188a2a0ab6d9f0e1cd555217df85b458da6d2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:17 +0000
Subject: [PATCH 075/131] fix: exit status of failing runs does not wrap around
 to success

---
 crates/dmm-tools-cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index febfede..e537a99 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -43,7 +43,8 @@ fn main() {
 
     run(&opt, &opt.command, &mut context);
 
-    std::process::exit(context.exit_status.into_inner() as i32);
+    // Most platforms only keep the low 8 bits, so avoid wrapping back to success.
+    std::process::exit(context.exit_status.into_inner().min(255) as i32);
 }
 
 #[derive(Default)]
-- 
2.43.0


From a1f294946965b488aa20597e42ecf34ef09e44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 076/131] fix: render-many clamps every bound of a chunk to the
 map

---
 crates/dmm-tools-cli/src/main.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index e537a99..5974b44 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -634,21 +634,20 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
                 .map(|(chunk_idx, chunk)| {
                     eprintln!("{file_idx}/{chunk_idx}: render {chunk:?}");
 
+                    // Default and clamp to [1, max].
+                    let min_x = clamp(chunk.min_x.unwrap_or(1), 1, dim_x);
+                    let min_y = clamp(chunk.min_y.unwrap_or(1), 1, dim_y);
+                    let max_x = clamp(chunk.max_x.unwrap_or(dim_x), min_x, dim_x);
+                    let max_y = clamp(chunk.max_y.unwrap_or(dim_y), min_y, dim_y);
+
                     // Render the image.
                     let bump = Default::default();
                     let minimap_context = minimap::Context {
                         objtree,
                         map: &map,
                         level: map.z_level(chunk.z - 1),
-                        // Default and clamp to [1, max].
-                        min: (
-                            chunk.min_x.unwrap_or(1).max(1) - 1,
-                            chunk.min_y.unwrap_or(1).max(1) - 1,
-                        ),
-                        max: (
-                            chunk.max_x.unwrap_or(dim_x).min(dim_x) - 1,
-                            chunk.max_y.unwrap_or(dim_y).min(dim_y) - 1,
-                        ),
+                        min: (min_x - 1, min_y - 1),
+                        max: (max_x - 1, max_y - 1),
                         render_passes,
                         errors: &errors,
                         bump: &bump,
-- 
2.43.0


From fd40ad24c8f5d4c7e12caa698a36ea21dabcff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 077/131] fix: render-many keeps maps of the same name apart

---
 crates/dmm-tools-cli/src/main.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index 5974b44..ba4874b 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -604,6 +604,14 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         panic!();
     }
 
+    // Maps with the same name must not overwrite each other's results.
+    let mut stem_counts = HashMap::<_, usize>::new();
+    for file in command.files.iter() {
+        *stem_counts
+            .entry(file.path.file_stem().map(|stem| stem.to_owned()))
+            .or_default() += 1;
+    }
+
     // Iterate over the maps
     let result_files: Vec<_> = command
         .files
@@ -612,6 +620,11 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         .map(|(file_idx, file)| {
             eprintln!("{}: load {}", file_idx, file.path.display());
             let stem = file.path.file_stem().unwrap().to_string_lossy();
+            let suffix = if stem_counts[&file.path.file_stem().map(|stem| stem.to_owned())] > 1 {
+                format!("_file{file_idx}")
+            } else {
+                String::new()
+            };
             let map = dmm::Map::from_file(&file.path).unwrap(); // TODO: error handling
             let (dim_x, dim_y, dim_z) = map.dim_xyz();
 
@@ -656,8 +669,10 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
                     let image = minimap::generate(minimap_context, icon_cache).unwrap(); // TODO: error handling
 
                     // Write it to file.
-                    let filename =
-                        PathBuf::from(format!("{}_z{}_chunk{}.png", stem, chunk.z, chunk_idx,));
+                    let filename = PathBuf::from(format!(
+                        "{}_z{}_chunk{}{}.png",
+                        stem, chunk.z, chunk_idx, suffix
+                    ));
                     eprintln!("{}/{}: save {}", file_idx, chunk_idx, filename.display());
                     let outfile = output_directory.join(&filename);
                     image.to_file(&outfile).unwrap(); // TODO: error handling
-- 
2.43.0


From 87f20fb84304cdce1bcc05b4b99ee18d488ca6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 078/131] fix: give the missing operator overload error the
 type its option governs

---
 crates/dreamchecker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index c238e59..e7f2051 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3225,6 +3225,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             location,
             format!("Attempting {operator} on a {typeerror} which does not overload {operator}"),
         )
+        .with_errortype("no_operator_overload")
         .register(self.context);
         Analysis::empty()
     }
-- 
2.43.0


From 6487f471e62a6d6187b73f52ede800f4d1ab249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 079/131] fix: keep slashes at the ends of line doc comments'
 text

---
 crates/dreammaker/src/docs.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index 3c4dc14..f31e58f 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -150,9 +150,13 @@ fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
         }
 
         let this_prefix = &line[..line.len()
-            - line
-                .trim_start_matches(|c: char| c.is_whitespace() || c == ignore_char)
-                .len()];
+            - if ignore_char == '/' {
+                // a slash after whitespace starts a path
+                line.trim_start_matches(ignore_char).trim_start().len()
+            } else {
+                line.trim_start_matches(|c: char| c.is_whitespace() || c == ignore_char)
+                    .len()
+            }];
         match prefix {
             None => prefix = Some(this_prefix),
             Some(ref mut prefix) => {
@@ -173,9 +177,19 @@ fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
             },
         }
 
-        let this_suffix = &line[line
-            .trim_end_matches(|c: char| c.is_whitespace() || c == ignore_char)
-            .len()..];
+        let this_suffix = {
+            let text = line.trim_end();
+            let without_markers = text.trim_end_matches(ignore_char);
+            let decorated = without_markers.ends_with(char::is_whitespace);
+            if ignore_char == '/' && !decorated {
+                // a slash after text ends a path
+                &line[text.len()..]
+            } else {
+                &line[line
+                    .trim_end_matches(|c: char| c.is_whitespace() || c == ignore_char)
+                    .len()..]
+            }
+        };
         match suffix {
             None => suffix = Some(this_suffix),
             Some(ref mut suffix) => {
-- 
2.43.0


From cfd6de026022e01688ba7d05b3038df1f3ffb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 080/131] fix: keep the marker of a block doc comment out of
 its text

---
 crates/dreammaker/src/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 1681718..0eecea7 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -831,15 +831,17 @@ impl<'ctx> Lexer<'ctx> {
 
         // read the first character and check for being a comment
         let mut comment = None;
+        let mut marker = false;
         match self.next() {
             // '*' must be tracked to accurately end the block comment, and
-            // will be stripped by the documentation parser.
+            // is not part of its text.
             Some(b'*') => {
                 comment = Some(DocComment::new(
                     CommentKind::Block,
                     DocTarget::FollowingItem,
                 ));
                 buffer[1] = b'*';
+                marker = true;
             },
             // '!' will not be skipped by the documentation parser, and is not
             // important to checking when the block comment has ended.
@@ -874,6 +876,9 @@ impl<'ctx> Lexer<'ctx> {
                 }
             }
 
+            if std::mem::take(&mut marker) {
+                continue;
+            }
             if buffer[0] != 0 && comment.is_some() {
                 comment_text.push(buffer[0]);
             }
-- 
2.43.0


From 3c3c9f6848a66599e6a3c59fbe3d7c13a951968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 081/131] fix: keep every line of doc comments at the start of
 a block

---
 crates/dreammaker/src/parser.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index d118185..8338e8f 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -654,6 +654,29 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         self.next_comment_of_target(DocTarget::EnclosingItem)
     }
 
+    /// Collect the enclosing doc comments on the first lines of a block, which
+    /// are separated by semicolons.
+    fn block_doc_comments(
+        &mut self,
+        docs: &mut DocCollection,
+        mut semicolons: Option<&mut Vec<LocatedToken>>,
+    ) -> Result<(), DMError> {
+        loop {
+            while let Some(comment) = self.enclosing_doc_comment()? {
+                docs.push(comment);
+            }
+            if !self.doc_comments_pending.is_empty()
+                || self.peek() != &Token::Punct(Punctuation::Semicolon)
+            {
+                return Ok(());
+            }
+            let token = self.take();
+            if let Some(tokens) = semicolons.as_mut() {
+                tokens.push(LocatedToken::new(self.location, token));
+            }
+        }
+    }
+
     // ------------------------------------------------------------------------
     // Object tree - root
 
@@ -928,9 +951,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 let start = self.updated_location();
 
                 // Inside-block `//!` comments for types.
-                while let Some(comment) = self.enclosing_doc_comment()? {
-                    docs.push(comment);
-                }
+                self.block_doc_comments(&mut docs, None)?;
                 if !docs.is_empty() && (proc_builder.is_some() || var_type.is_some()) {
                     // Can't apply docs to `var/` or `proc/` blocks.
                     DMError::new(
@@ -1218,9 +1239,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             body_tt.push(LocatedToken::new(self.location, Punct(LBrace)));
 
             // enclosing doc comments `//!` can appear after the `{`
-            while let Some(comment) = self.enclosing_doc_comment()? {
-                docs.push(comment);
-            }
+            self.block_doc_comments(&mut docs, Some(&mut body_tt))?;
 
             // read the rest of the line
             while self.exact(Punct(RBrace))?.is_none() {
-- 
2.43.0


From 7073e0ee1446de85b5927bdcdc9ade4f05ed3b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 082/131] fix: keep doc comments before #if for the item inside

---
 crates/dreammaker/src/preprocessor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 77071d8..57b1e10 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -715,6 +715,9 @@ impl<'ctx> Preprocessor<'ctx> {
             return Ok(false);
         }
 
+        // docs before the directive are for what follows it, not its condition
+        let docs_in = std::mem::take(&mut self.docs_in);
+
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
         while let Some(tok) = self.inner_next() {
@@ -729,6 +732,7 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         }
 
+        self.docs_in = docs_in;
         let expr = crate::parser::parse_expression(self.context, start, self.output.drain(..))?;
         Ok(
             crate::constants::preprocessor_evaluate(
-- 
2.43.0


From b5925cfc22f2add27cabce44cb8a072b89eb8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 083/131] fix: keep dmdoc's dry run status nonzero with many
 diagnostics

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..9731333 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -660,7 +660,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // exit statuses wrap around at 256
+            std::process::exit(exit_code.min(255));
         }
     }
 
-- 
2.43.0


From d03f4d11601e5e7047a58440d0d9a53b6966b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 084/131] fix: let dmdoc crosslinks name Markdown and text
 files

---
 crates/dmdoc/src/main.rs | 50 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 9731333..a508a6f 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -172,6 +172,31 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
             module.items_wip.push((line, ModuleItem::DocComment(doc)));
         }
     }
+    // search the code tree for Markdown files
+    for modules_path in code_directories {
+        for entry in walkdir::WalkDir::new(modules_path)
+            .into_iter()
+            .filter_entry(is_visible)
+        {
+            let entry = entry?;
+            let path = entry.path();
+
+            if let Some(buf) = read_as_markdown(path)? {
+                if Some(path) != index_path.as_ref().map(Path::new) {
+                    let module = module_entry(&mut modules1, path);
+                    module.items_wip.push((
+                        0,
+                        ModuleItem::DocComment(DocComment {
+                            kind: CommentKind::Block,
+                            target: DocTarget::EnclosingItem,
+                            text: buf,
+                        }),
+                    ));
+                }
+            }
+        }
+    }
+
     let mut modules_which_exist: BTreeSet<_> = modules1.keys().cloned().collect();
 
     // build a map of macro names to the module.html files in which they appear
@@ -252,31 +277,6 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         macro_count += 1;
     }
 
-    // search the code tree for Markdown files
-    for modules_path in code_directories {
-        for entry in walkdir::WalkDir::new(modules_path)
-            .into_iter()
-            .filter_entry(is_visible)
-        {
-            let entry = entry?;
-            let path = entry.path();
-
-            if let Some(buf) = read_as_markdown(path)? {
-                if Some(path) != index_path.as_ref().map(Path::new) {
-                    let module = module_entry(&mut modules1, path);
-                    module.items_wip.push((
-                        0,
-                        ModuleItem::DocComment(DocComment {
-                            kind: CommentKind::Block,
-                            target: DocTarget::EnclosingItem,
-                            text: buf,
-                        }),
-                    ));
-                }
-            }
-        }
-    }
-
     // Incorporate the index file if requested.
     let mut index_docs = None;
     if let Some(index_path) = index_path {
-- 
2.43.0


From 69d93ba1a2ae1de0c051c1915fd821a3d01a3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:30 +0000
Subject: [PATCH 085/131] fix: close dmdoc's block around text files on its own
 line

---
 crates/dmdoc/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index a508a6f..dfb52e4 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -1263,6 +1263,9 @@ fn read_as_markdown(path: &Path) -> std::io::Result<Option<String>> {
         }
         File::open(path)?.read_to_string(&mut buf)?;
         if is_txt {
+            if !buf.ends_with('\n') {
+                buf.push('\n');
+            }
             buf.push_str("```");
         }
         Ok(Some(buf))
-- 
2.43.0


From 96c48b7041c5f70d2c6d5db476876d87eb0d0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:31 +0000
Subject: [PATCH 086/131] fix: escape titles in dmdoc once

---
 crates/dmdoc/src/markdown.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/markdown.rs b/crates/dmdoc/src/markdown.rs
index a0a4420..9e76eb7 100644
--- a/crates/dmdoc/src/markdown.rs
+++ b/crates/dmdoc/src/markdown.rs
@@ -46,8 +46,15 @@ impl DocBlock {
                     }
                 }
 
+                // the templates escape titles, so they are plain text
                 let mut title = String::new();
-                push_html(&mut title, pieces);
+                for piece in pieces {
+                    match piece {
+                        Event::Text(text) | Event::Code(text) => title.push_str(&text),
+                        Event::SoftBreak | Event::HardBreak => title.push(' '),
+                        _ => {},
+                    }
+                }
                 Some(title)
             } else {
                 None
-- 
2.43.0


From cda1dc546436fea07f6f764d8f274bb75dfac896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 087/131] fix: place the last declaration in the file it ends,
 not the one including it

---
 crates/dreammaker/src/indents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 0222524..cc4f890 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -227,7 +227,7 @@ where
             } else if self.eof_yielded {
                 return None;
             } else {
-                self.push(Token::Punct(Punctuation::Semicolon));
+                self.push_semicolon();
                 if let Some((_, indents)) = self.current {
                     for _ in 0..indents {
                         self.push(Token::Punct(Punctuation::RBrace));
-- 
2.43.0


From 5636411713af27a2f42dfef2ae08a75f2c12010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 088/131] fix: tolerate positions past what a location can
 express in the language server

---
 crates/dm-langserver/src/main.rs | 50 +++++++++++++-------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..c347144 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -978,11 +978,7 @@ impl Engine {
     ) -> Result<Option<dm::objtree::SymbolId>, jsonrpc::Error> {
         let (_, file_id, annotations) =
             self.get_annotations(&text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: text_document_position.position.line + 1,
-            column: text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, text_document_position.position);
 
         let mut symbol_id = None;
 
@@ -1553,11 +1549,7 @@ impl Engine {
     fn HoverRequest(&mut self, params: P<HoverRequest>) -> R<HoverRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let symbol_id = self.symbol_id_at(tdp)?;
         let mut results = Vec::new();
 
@@ -1728,11 +1720,7 @@ impl Engine {
     fn GotoDefinition(&mut self, params: P<GotoDefinition>) -> R<GotoDefinition> {
         let tdp = params.text_document_position_params;
         let (real_file_id, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let mut results = Vec::new();
 
         let iter = annotations.get_location(location);
@@ -1859,11 +1847,7 @@ impl Engine {
         // Like GotoDefinition, but only supports vars, then finds their types
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
 
         let mut type_path: &[Ident] = &[];
 
@@ -1957,11 +1941,7 @@ impl Engine {
     fn Completion(&mut self, params: P<Completion>) -> R<Completion> {
         let (_, file_id, annotations) =
             self.get_annotations(&params.text_document_position.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: params.text_document_position.position.line + 1,
-            column: params.text_document_position.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, params.text_document_position.position);
         let iter = annotations.get_location(location);
         let mut results = Vec::new();
         let mut any_annotation = false;
@@ -2039,11 +2019,7 @@ impl Engine {
     fn SignatureHelpRequest(&mut self, params: P<SignatureHelpRequest>) -> R<SignatureHelpRequest> {
         let tdp = params.text_document_position_params;
         let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
-        let location = dm::Location {
-            file: file_id,
-            line: tdp.position.line + 1,
-            column: tdp.position.character as u16 + 1,
-        };
+        let location = position_to_location(file_id, tdp.position);
         let iter = annotations.get_location(location);
         let mut result = None;
 
@@ -2634,6 +2610,20 @@ fn is_constructor_name(name: &str) -> bool {
     name == "New" || name == "init" || name == "Initialize"
 }
 
+fn position_to_location(file: FileId, position: lsp_types::Position) -> dm::Location {
+    // Anything past what a location can express is past the end of the file or
+    // line anyways.
+    dm::Location {
+        file,
+        line: position.line.saturating_add(1),
+        column: position
+            .character
+            .saturating_add(1)
+            .try_into()
+            .unwrap_or(u16::MAX),
+    }
+}
+
 fn location_to_position(loc: dm::Location) -> lsp_types::Position {
     lsp_types::Position {
         line: loc.line.saturating_sub(1),
-- 
2.43.0


From 3fd1f8f5bd3b05b6e6837587bb0b3e461ac6845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 089/131] fix: read every header field of a message, and
 tolerate invalid UTF-8 in it

---
 crates/dm-langserver/src/jrpc_io.rs | 37 ++++++++++++++++-------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/crates/dm-langserver/src/jrpc_io.rs b/crates/dm-langserver/src/jrpc_io.rs
index ff83cae..ff3ed01 100644
--- a/crates/dm-langserver/src/jrpc_io.rs
+++ b/crates/dm-langserver/src/jrpc_io.rs
@@ -19,33 +19,36 @@ pub fn run_with_read<R: BufRead, F: FnMut(&str)>(input: &mut R, mut f: F) {
 }
 
 fn read<R: BufRead>(input: &mut R) -> Result<Option<String>, Box<dyn std::error::Error>> {
-    // read the content-length
+    // read the header fields, up to the blank line
+    let mut size = None;
     let mut buffer = String::new();
-    input.read_line(&mut buffer)?;
-    if buffer.is_empty() {
-        return Ok(None);
-    }
-    let size = {
-        let parts: Vec<&str> = buffer.split(' ').collect();
-        if parts.len() != 2 {
-            eprintln!("JSON-RPC read error: parts.len() != 2\n{parts:?}");
+    loop {
+        buffer.clear();
+        if input.read_line(&mut buffer)? == 0 {
             return Ok(None);
         }
-        if !parts[0].eq_ignore_ascii_case("content-length:") {
-            eprintln!("JSON-RPC read error: !parts[0].eq_ignore_ascii_case(\"content-length:\")\n{parts:?}");
+        let line = buffer.trim();
+        if line.is_empty() {
+            break;
+        }
+        let Some((name, value)) = line.split_once(':') else {
+            eprintln!("JSON-RPC read error: not a header field\n{line:?}");
             return Ok(None);
+        };
+        if name.eq_ignore_ascii_case("content-length") {
+            size = Some(value.trim().parse::<usize>()?);
         }
-        parts[1].trim().parse::<usize>()?
+    }
+    let Some(size) = size else {
+        eprintln!("JSON-RPC read error: no content-length");
+        return Ok(None);
     };
 
-    // skip blank line
-    buffer.clear();
-    input.read_line(&mut buffer)?;
-
     // read content
     let mut content = vec![0; size];
     input.read_exact(&mut content)?;
-    Ok(Some(String::from_utf8(content)?))
+    // invalid UTF-8 must not end the session, so leave it to the JSON parser
+    Ok(Some(String::from_utf8_lossy(&content).into_owned()))
 }
 
 pub fn write(output: &str) {
-- 
2.43.0


From 64859d6caa37f2d92600b50c4231d7428ce3ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 090/131] fix: end document positions at the end of their line,
 and reject backward ranges

---
 crates/dm-langserver/src/document.rs | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..ee49777 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -142,9 +142,8 @@ impl Document {
             },
         };
 
-        let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
-        let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
-        Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
+        let range = range_offsets(&self.text, range)?;
+        Rc::make_mut(&mut self.text).replace_range(range, &change.text);
         Ok(())
     }
 }
@@ -166,8 +165,14 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults back
+    // to the line length."
+    let rest = &text[start..];
+    let line = &rest[..rest.find('\n').unwrap_or(rest.len())];
+    let line = line.strip_suffix('\r').unwrap_or(line);
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +180,19 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line.len() - chars.as_str().len())
+}
+
+fn range_offsets(
+    text: &str,
+    range: lsp_types::Range,
+) -> Result<std::ops::Range<usize>, jsonrpc::Error> {
+    let start = total_offset(text, range.start.line, range.start.character)?;
+    let end = total_offset(text, range.end.line, range.end.character)?;
+    if start > end {
+        return Err(invalid_request("range ends before it starts"));
+    }
+    Ok(start..end)
 }
 
 // Reverse of the above.
@@ -199,10 +216,7 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
 }
 
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    Ok(&text[range_offsets(text, range)?])
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
-- 
2.43.0


From 0ec3e054bd5e905db95e5d7eab48ebe76deebb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 091/131] fix: do not take the var keyword for the root type in
 the language server

---
 crates/dm-langserver/src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index c347144..19f1782 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1018,7 +1018,10 @@ impl Engine {
             },
             Annotation::TreePath(absolute, parts) => {
                 if let Some(ty) = self.objtree.type_by_path(completion::combine_tree_path(&iter, *absolute, parts)) {
-                    symbol_id = Some(ty.id);
+                    // 'var' on its own is not a use of the root
+                    if !ty.is_root() {
+                        symbol_id = Some(ty.id);
+                    }
                 }
             },
             Annotation::TypePath(parts) => {
@@ -1030,7 +1033,7 @@ impl Engine {
                         }
                     },
                     // 'datum/bar'
-                    Some(completion::TypePathResult { ty, decl: None, proc: None }) => {
+                    Some(completion::TypePathResult { ty, decl: None, proc: None }) if !ty.is_root() => {
                         symbol_id = Some(ty.id);
                     },
                     _ => {}
@@ -1729,7 +1732,10 @@ impl Engine {
                 let full_path: Vec<&str> = completion::combine_tree_path(&iter, *absolute, parts).collect();
 
                 if let Some(ty) = self.objtree.type_by_path(full_path.iter().cloned()) {
-                    results.push(self.convert_location(ty.location, &ty.docs, &[&ty.path])?);
+                    // 'var' on its own has no definition
+                    if !ty.is_root() {
+                        results.push(self.convert_location(ty.location, &ty.docs, &[&ty.path])?);
+                    }
                 } else if let Some((&proc_name, prefix)) = full_path.split_last() {
                     // If it's not a type, try to find the proc equivalent. Start
                     // at the parent type so that this is a decent shortcut for
@@ -1755,7 +1761,7 @@ impl Engine {
                         results.push(self.convert_location(proc.location, &proc.docs, &[&ty.path, "/proc/", proc_name])?);
                     },
                     // 'datum/bar'
-                    Some(completion::TypePathResult { ty, decl: None, proc: None }) => {
+                    Some(completion::TypePathResult { ty, decl: None, proc: None }) if !ty.is_root() => {
                         results.push(self.convert_location(ty.location, &ty.docs, &[&ty.path])?);
                     },
                     _ => {}
-- 
2.43.0


From a179c88d18888a773dc2ff0c8784707fc46c0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:28 +0000
Subject: [PATCH 092/131] fix: answer object tree queries before anything is
 loaded

---
 crates/dm-langserver/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 19f1782..f2a9f28 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2399,6 +2399,8 @@ impl Engine {
         let ty = self
             .objtree
             .find(&params.path)
+            // before anything is loaded, not even the root exists
+            .filter(|_| self.objtree.iter_types().next().is_some())
             .ok_or_else(|| invalid_request(format!("Unknown type path {:?}", params.path)))?;
         Ok(self.objtree_with_placeholders(ty))
     }
-- 
2.43.0


From 4de7f069024d1dfe104cc7add326f6e884db286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 093/131] fix: forget what was known of a document whenever its
 contents may have changed

---
 crates/dm-langserver/src/main.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index f2a9f28..b1b5020 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2492,8 +2492,9 @@ impl Engine {
     // ------------------------------------------------------------------------
     // document content management
     fn DidOpenTextDocument(&mut self, params: N<DidOpenTextDocument>) -> NR {
-        self.docs.open(params.text_document)?;
-        Ok(())
+        // Even an invalid notification may have changed the contents.
+        self.annotations.remove(&params.text_document.uri);
+        self.docs.open(params.text_document)
     }
 
     fn DidCloseTextDocument(&mut self, params: N<DidCloseTextDocument>) -> NR {
@@ -2503,10 +2504,10 @@ impl Engine {
     }
 
     fn DidChangeTextDocument(&mut self, params: N<DidChangeTextDocument>) -> NR {
-        let url = self
-            .docs
+        // Even an invalid notification may have changed the contents.
+        self.annotations.remove(&params.text_document.uri);
+        self.docs
             .change(params.text_document, params.content_changes)?;
-        self.annotations.remove(&url);
         Ok(())
     }
 
-- 
2.43.0


From 346c11464854653ec1eb4702ef80917d2c431b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 094/131] fix: redo the edit undone last in the map editor, not
 the oldest branch

---
 crates/spaceman-dmm/src/history.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/spaceman-dmm/src/history.rs b/crates/spaceman-dmm/src/history.rs
index 6680ba3..41a41e0 100644
--- a/crates/spaceman-dmm/src/history.rs
+++ b/crates/spaceman-dmm/src/history.rs
@@ -106,7 +106,8 @@ impl<T, E> History<T, E> {
         if let Some(edge) = self
             .graph
             .edges_directed(self.idx, Direction::Outgoing)
-            .last()
+            // Edges are visited newest first.
+            .next()
         {
             undo = Some((edge.id(), (edge.weight().redo)(env, &mut self.current)));
             self.idx = edge.target();
-- 
2.43.0


From 3414102395c70ed401701df85421403eee244dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 095/131] fix: save tiles without instances as empty in the map
 editor

---
 crates/spaceman-dmm/src/map_repr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/spaceman-dmm/src/map_repr.rs b/crates/spaceman-dmm/src/map_repr.rs
index 9d81ad1..0451b2a 100644
--- a/crates/spaceman-dmm/src/map_repr.rs
+++ b/crates/spaceman-dmm/src/map_repr.rs
@@ -100,6 +100,12 @@ impl AtomMap {
         // Map the instance space down to tiles.
         let mut coords = HashMap::<(usize, usize, usize), Vec<&Prefab>>::new();
         for (z, level) in self.levels.iter().enumerate() {
+            // Tiles without instances need a key as well.
+            for y in 0..self.size.1 as usize {
+                for x in 0..self.size.0 as usize {
+                    coords.insert((x, y, z), Vec::new());
+                }
+            }
             for (_, inst) in level.instances.keys_iter() {
                 coords
                     .entry((inst.x as usize, (self.size.1 - 1 - inst.y) as usize, z))
-- 
2.43.0


From 7a89d35ce6c5802db4dd642514fe0d156f1c5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 096/131] fix: find live instances behind free slots in the map
 editor

---
 crates/spaceman-dmm/src/map_repr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/spaceman-dmm/src/map_repr.rs b/crates/spaceman-dmm/src/map_repr.rs
index 0451b2a..9546d7a 100644
--- a/crates/spaceman-dmm/src/map_repr.rs
+++ b/crates/spaceman-dmm/src/map_repr.rs
@@ -335,7 +335,7 @@ impl AtomMap {
 
     pub fn get_instance(&self, id: &InstanceId) -> Option<&Instance> {
         let level = &self.levels[id.z as usize];
-        if id.idx >= level.instances.len() || level.instances.freelist.contains(&id.idx) {
+        if id.idx >= level.instances.keys.len() || level.instances.freelist.contains(&id.idx) {
             // TODO: the contains() call is probably not fast
             None
         } else {
-- 
2.43.0


From d9be794589ff701868ed10db89184ab9341eaa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 097/131] fix: leave other turfs alone when undoing a deletion
 in the map editor

---
 crates/spaceman-dmm/src/map_repr.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/spaceman-dmm/src/map_repr.rs b/crates/spaceman-dmm/src/map_repr.rs
index 9546d7a..ff8e50b 100644
--- a/crates/spaceman-dmm/src/map_repr.rs
+++ b/crates/spaceman-dmm/src/map_repr.rs
@@ -247,6 +247,19 @@ impl AtomMap {
             }
         }
 
+        AddedInstance {
+            replaced,
+            ..self.insert_instance((x, y, z), prefab)
+        }
+    }
+
+    /// Add an instance without replacing any other.
+    fn insert_instance(
+        &mut self,
+        (x, y, z): (u32, u32, u32),
+        prefab: Arc<Prefab>,
+    ) -> AddedInstance {
+        let level = &mut self.levels[z as usize];
         let pops = &mut self.pops;
         let new_instance = level.prep_instance(pops, (x, y), prefab);
         let sorted_order = &mut level.sorted_order;
@@ -321,7 +334,7 @@ impl AtomMap {
                 z,
                 idx: new_instance,
             },
-            replaced,
+            replaced: None,
         }
     }
 
@@ -355,7 +368,7 @@ impl AtomMap {
         objtree: &ObjectTree,
     ) {
         let pop = self.add_pop(&removed.old.pop, icons, objtree);
-        self.add_instance((removed.old.x, removed.old.y, removed.z), pop);
+        self.insert_instance((removed.old.x, removed.old.y, removed.z), pop);
     }
 
     pub fn iter_instances<'a>(
-- 
2.43.0


From 4e8703ffd5b6c2beaa1cc25c1f632588bee26a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 098/131] fix: forget local variables at the end of their block
 when finding references

---
 crates/dm-langserver/src/find_references.rs | 52 ++++++++++++++-------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9f446d2..9dbca2f 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -138,6 +138,7 @@ impl<'o> StaticType<'o> {
     }
 }
 
+#[derive(Clone)]
 struct Local<'o> {
     ty: StaticType<'o>,
     symbol: SymbolId,
@@ -241,9 +242,18 @@ impl<'o> WalkProc<'o> {
     }
 
     fn visit_block(&mut self, block: &'o [Spanned<Statement>]) {
-        for stmt in block.iter() {
-            self.visit_statement(stmt.location, &stmt.elem);
-        }
+        self.visit_scope(|this| {
+            for stmt in block.iter() {
+                this.visit_statement(stmt.location, &stmt.elem);
+            }
+        });
+    }
+
+    /// Forget the local variables declared by `f` afterwards.
+    fn visit_scope<F: FnOnce(&mut Self)>(&mut self, f: F) {
+        let local_vars = self.local_vars.clone();
+        f(self);
+        self.local_vars = local_vars;
     }
 
     fn visit_statement(&mut self, location: Location, statement: &'o Statement) {
@@ -286,18 +296,18 @@ impl<'o> WalkProc<'o> {
                 test,
                 inc,
                 block,
-            } => {
+            } => self.visit_scope(|this| {
                 if let Some(init) = init {
-                    self.visit_statement(location, init);
+                    this.visit_statement(location, init);
                 }
                 if let Some(test) = test {
-                    self.visit_expression(location, test, None);
+                    this.visit_expression(location, test, None);
                 }
                 if let Some(inc) = inc {
-                    self.visit_statement(location, inc);
+                    this.visit_statement(location, inc);
                 }
-                self.visit_block(block);
-            },
+                this.visit_block(block);
+            }),
             Statement::ForList(for_list) => {
                 let ForListStatement {
                     var_type,
@@ -309,10 +319,12 @@ impl<'o> WalkProc<'o> {
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
-                if let Some(var_type) = var_type {
-                    self.visit_var(location, var_type, name, None);
-                }
-                self.visit_block(block);
+                self.visit_scope(|this| {
+                    if let Some(var_type) = var_type {
+                        this.visit_var(location, var_type, name, None);
+                    }
+                    this.visit_block(block);
+                });
             },
             Statement::ForRange(for_range) => {
                 let ForRangeStatement {
@@ -327,10 +339,12 @@ impl<'o> WalkProc<'o> {
                 if let Some(step) = step {
                     self.visit_expression(location, step, None);
                 }
-                if let Some(var_type) = var_type {
-                    self.visit_var(location, var_type, name, Some(start));
-                }
-                self.visit_block(block);
+                self.visit_scope(|this| {
+                    if let Some(var_type) = var_type {
+                        this.visit_var(location, var_type, name, Some(start));
+                    }
+                    this.visit_block(block);
+                });
             },
             Statement::Var(var) => self.visit_var_stmt(location, var),
             Statement::Vars(vars) => {
@@ -375,6 +389,7 @@ impl<'o> WalkProc<'o> {
                 catch_block,
             } => {
                 self.visit_block(try_block);
+                let local_vars = self.local_vars.clone();
                 for caught in catch_params.iter() {
                     let (var_name, mut type_path) = match caught.split_last() {
                         Some(x) => x,
@@ -388,6 +403,7 @@ impl<'o> WalkProc<'o> {
                     self.visit_var(location, &var_type, var_name, None);
                 }
                 self.visit_block(catch_block);
+                self.local_vars = local_vars;
             },
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
@@ -409,6 +425,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(in_list) = in_list {
                     self.visit_expression(location, in_list, None);
                 }
+                let local_vars = self.local_vars.clone();
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None);
                 }
@@ -421,6 +438,7 @@ impl<'o> WalkProc<'o> {
                 };
                 self.visit_var(location, &var_type_value, value, None);
                 self.visit_block(block);
+                self.local_vars = local_vars;
             },
         }
     }
-- 
2.43.0


From d13b8f5710bcf51bf24547481631d29446cd13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 099/131] fix: find references in every statement and argument

---
 crates/dm-langserver/src/find_references.rs | 32 ++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9dbca2f..d824316 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -322,6 +322,8 @@ impl<'o> WalkProc<'o> {
                 self.visit_scope(|this| {
                     if let Some(var_type) = var_type {
                         this.visit_var(location, var_type, name, None);
+                    } else {
+                        this.visit_ident(location, name);
                     }
                     this.visit_block(block);
                 });
@@ -342,6 +344,9 @@ impl<'o> WalkProc<'o> {
                 self.visit_scope(|this| {
                     if let Some(var_type) = var_type {
                         this.visit_var(location, var_type, name, Some(start));
+                    } else {
+                        this.visit_ident(location, name);
+                        this.visit_expression(location, start, None);
                     }
                     this.visit_block(block);
                 });
@@ -352,7 +357,9 @@ impl<'o> WalkProc<'o> {
                     self.visit_var_stmt(location, each);
                 }
             },
-            Statement::Setting { .. } => {},
+            Statement::Setting { value, .. } => {
+                self.visit_expression(location, value, None);
+            },
             Statement::Spawn { delay, block } => {
                 if let Some(delay) = delay {
                     self.visit_expression(location, delay, None);
@@ -408,7 +415,11 @@ impl<'o> WalkProc<'o> {
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
             Statement::Goto(_) => {},
-            Statement::Crash(_) => {},
+            Statement::Crash(expr) => {
+                if let Some(expr) = expr {
+                    self.visit_expression(location, expr, None);
+                }
+            },
             Statement::Label { name: _, block } => self.visit_block(block),
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None);
@@ -428,6 +439,8 @@ impl<'o> WalkProc<'o> {
                 let local_vars = self.local_vars.clone();
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None);
+                } else {
+                    self.visit_ident(location, key);
                 }
                 // the "v" in a DM for (var/k, v) statement is essentially typeless.
                 // There is currently no way to change that.
@@ -573,6 +586,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(proc) = self.ty.get_proc(unscoped_name) {
                     self.visit_call(location, src, proc, args, false)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -582,6 +596,7 @@ impl<'o> WalkProc<'o> {
                     // Self calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -592,6 +607,7 @@ impl<'o> WalkProc<'o> {
                     // Parent calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -601,11 +617,12 @@ impl<'o> WalkProc<'o> {
                 let typepath = self.visit_prefab(location, prefab);
                 self.visit_new(location, typepath, args)
             },
-            Term::NewMiniExpr { expr, .. } => {
+            Term::NewMiniExpr { expr, args } => {
                 let mut current = self.visit_ident(location, &expr.ident);
                 for field in expr.fields.iter() {
                     current = self.visit_field(location, current, &field.ident);
                 }
+                self.visit_arguments(location, args.as_deref().unwrap_or(&[]));
                 // The whole point is it's dynamic, so don't try anything
                 StaticType::None
             },
@@ -712,22 +729,26 @@ impl<'o> WalkProc<'o> {
         typepath: Option<TypeRef<'o>>,
         args: &'o Option<Box<[Expression]>>,
     ) -> StaticType<'o> {
+        let args = args.as_deref().unwrap_or(&[]);
         if let Some(typepath) = typepath {
             if let Some(new_proc) = typepath.get_proc("New") {
                 self.visit_call(
                     location,
                     typepath,
                     new_proc,
-                    args.as_ref().map_or(&[], |v| &v[..]),
+                    args,
                     // New calls are exact: `new /datum()` will always call
                     // `/datum/New()` and never an override.
                     true,
                 );
+            } else {
+                self.visit_arguments(location, args);
             }
             // If we had a diagnostic context here, we'd error for
             // types other than `/list`, which has no `New()`.
             StaticType::Type(typepath)
         } else {
+            self.visit_arguments(location, args);
             StaticType::None
         }
     }
@@ -756,6 +777,9 @@ impl<'o> WalkProc<'o> {
             }
             Some(nav.ty())
         } else {
+            for (_, expr) in prefab.vars.iter() {
+                self.visit_expression(location, expr, None);
+            }
             None
         }
     }
-- 
2.43.0


From e2ddbc39cfa2fae4f400db7653a5f418791c2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:10 +0000
Subject: [PATCH 100/131] fix: count the declared types of fields and globals
 as references to them

---
 crates/dm-langserver/src/find_references.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index d824316..a3faa46 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -47,6 +47,11 @@ impl ReferencesTable {
 
         objtree.root().recurse(&mut |ty| {
             for (name, var) in ty.vars.iter() {
+                if let Some(decl) = &var.declaration {
+                    let mut walk = WalkProc::from_ty(&mut tab, objtree, ty);
+                    let var_type = walk.static_type(decl.location, &decl.var_type.type_path);
+                    walk.use_type(decl.location, &var_type);
+                }
                 if let Some(ref expr) = var.value.expression {
                     let mut walk = WalkProc::from_ty(&mut tab, objtree, ty);
                     let type_hint = match ty.get_var_declaration(name) {
-- 
2.43.0


From 5f4e0a810197e7def4683a0e7f40b3b2a9547455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 101/131] fix: do not take the members of untyped variables for
 globals in the language server

---
 crates/dm-langserver/src/main.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b1b5020..140de32 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -945,16 +945,12 @@ impl Engine {
             next = self.objtree.find("/callee");
         } else {
             next = match self.find_unscoped_var(iter, next, proc_name, first) {
-                UnscopedVar::Parameter { param, .. } => {
-                    self.objtree.type_by_path(param.var_type.type_path.iter())
-                },
+                UnscopedVar::Parameter { param, .. } => self.var_type(&param.var_type),
                 UnscopedVar::Variable { ty, .. } => match ty.get_var_declaration(first) {
-                    Some(decl) => self.objtree.type_by_path(decl.var_type.type_path.iter()),
+                    Some(decl) => self.var_type(&decl.var_type),
                     None => None,
                 },
-                UnscopedVar::Local { var_type, .. } => {
-                    self.objtree.type_by_path(var_type.type_path.iter())
-                },
+                UnscopedVar::Local { var_type, .. } => self.var_type(var_type),
                 UnscopedVar::None => None,
             };
         }
@@ -963,7 +959,7 @@ impl Engine {
         for var_name in priors {
             if let Some(current) = next.take() {
                 if let Some(decl) = current.get_var_declaration(var_name) {
-                    next = self.objtree.type_by_path(decl.var_type.type_path.iter());
+                    next = self.var_type(&decl.var_type);
                 }
             } else {
                 break;
@@ -972,6 +968,16 @@ impl Engine {
         next
     }
 
+    /// The type of what a variable may hold, if it was declared with any.
+    fn var_type(&self, var_type: &dm::ast::VarType) -> Option<TypeRef<'_>> {
+        if var_type.type_path.is_empty() {
+            // Not the root, which is what an empty path refers to elsewhere.
+            None
+        } else {
+            self.objtree.type_by_path(var_type.type_path.iter())
+        }
+    }
+
     fn symbol_id_at(
         &mut self,
         text_document_position: lsp_types::TextDocumentPositionParams,
-- 
2.43.0


From 531179199cc2f20e80c39b8952a9e1e3326a6a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 102/131] fix: do not take members for globals of the same name
 when finding references

---
 crates/dm-langserver/src/find_references.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index a3faa46..bd1a52a 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -149,6 +149,18 @@ struct Local<'o> {
     symbol: SymbolId,
 }
 
+/// Whether a variable found by this name on the type is really a global.
+fn is_global_var(ty: TypeRef, name: &str) -> bool {
+    let mut next = Some(ty);
+    while let Some(ty) = next {
+        if ty.vars.contains_key(name) {
+            return false;
+        }
+        next = ty.parent_type_without_root();
+    }
+    true
+}
+
 struct WalkProc<'o> {
     tab: &'o mut ReferencesTable,
     objtree: &'o ObjectTree,
@@ -796,6 +808,10 @@ impl<'o> WalkProc<'o> {
         name: &'o str,
     ) -> StaticType<'o> {
         if let Some(ty) = lhs.basic_type() {
+            if !ty.is_root() && is_global_var(ty, name) {
+                // Globals are not members of other types.
+                return StaticType::None;
+            }
             if let Some(decl) = ty.get_var_declaration(name) {
                 self.tab.use_symbol(decl.id, location);
                 self.static_type(location, &decl.var_type.type_path)
@@ -828,7 +844,10 @@ impl<'o> WalkProc<'o> {
             Follow::StaticField(name) => self.visit_field(location, lhs, name),
             Follow::Call(_, name, arguments) => {
                 if let Some(ty) = lhs.basic_type() {
-                    if let Some(proc) = ty.get_proc(name) {
+                    if let Some(proc) = ty
+                        .get_proc(name)
+                        .filter(|proc| ty.is_root() || !proc.ty().is_root())
+                    {
                         self.visit_call(location, ty, proc, arguments, false)
                     } else {
                         self.visit_arguments(location, arguments);
-- 
2.43.0


From 71e4d20d64b16f6b94b4431800096734fea91c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 103/131] fix: refer to the innermost of several local
 variables of the same name

---
 crates/dm-langserver/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 140de32..45798e0 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -881,17 +881,18 @@ impl Engine {
     where
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
-        // local variables
+        // local variables, the innermost of which was declared last
+        let mut local = None;
         for (span, annotation) in iter.clone() {
             if let Annotation::LocalVarScope(var_type, name) = annotation {
-                if name == var_name {
-                    return UnscopedVar::Local {
-                        loc: span.start,
-                        var_type,
-                    };
+                if name == var_name && local.is_none_or(|(loc, _)| span.start > loc) {
+                    local = Some((span.start, var_type));
                 }
             }
         }
+        if let Some((loc, var_type)) = local {
+            return UnscopedVar::Local { loc, var_type };
+        }
 
         // proc parameters
         let ty = ty.unwrap_or_else(|| self.objtree.root());
-- 
2.43.0


From 3178578027e1bf68439c3181405cd227ce190603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 104/131] fix: find the definition of a proc which the cursor
 is in among all of them

---
 crates/dm-langserver/src/main.rs | 34 ++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 45798e0..5d13a46 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -833,16 +833,19 @@ impl Engine {
         })
     }
 
-    fn find_type_context<'b, I, Ign>(
+    fn find_type_context<'b, I>(
         &self,
         iter: &I,
     ) -> (Option<TypeRef<'_>>, Option<(&'b str, usize)>)
     where
-        I: Iterator<Item = (Ign, &'b Annotation)> + Clone,
+        I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
         let mut found = None;
         let mut proc_name = None;
-        if_annotation! { Annotation::ProcBody(proc_path, idx) in iter; {
+        for (span, annotation) in iter.clone() {
+            let Annotation::ProcBody(proc_path, idx) = annotation else {
+                continue;
+            };
             // chop off proc name and 'proc/' or 'verb/' if it's there
             // TODO: factor this logic somewhere
             let mut proc_path = &proc_path[..];
@@ -856,7 +859,11 @@ impl Engine {
                 _ => {}
             }
             found = self.objtree.type_by_path(proc_path);
-        }}
+            if let (Some(ty), Some((name, idx))) = (found, proc_name.as_mut()) {
+                *idx = proc_index(ty, name, span.start.file, *idx);
+            }
+            break;
+        }
         if found.is_none() {
             if_annotation! { Annotation::TreeBlock(tree_path) in iter; {
                 // cut off if we're in a declaration block
@@ -1822,10 +1829,6 @@ impl Engine {
             },
             Annotation::ParentCall => {
                 if let (Some(ty), Some((proc_name, idx))) = self.find_type_context(&iter) {
-                    // TODO: idx is always 0 unless there are multiple overrides in
-                    // the same .dm file, due to annotations operating against a
-                    // dummy ObjectTree which does not contain any definitions from
-                    // other files.
                     if idx == 0 {
                         // first proc on the type, go to the REAL parent
                         let mut next = ty.parent_type();
@@ -2622,6 +2625,21 @@ enum UnscopedVar<'a> {
     None,
 }
 
+/// Annotations operate against a dummy ObjectTree which does not contain any
+/// definitions from other files, so their index is that among the definitions
+/// in the file, in the order in which they appear there.
+fn proc_index(ty: TypeRef, name: &str, file: FileId, idx: usize) -> usize {
+    let Some(proc) = ty.get().procs.get(name) else {
+        return idx;
+    };
+    let mut in_file: Vec<_> = (0..proc.value.len())
+        .filter(|&i| proc.value[i].location.file == file)
+        .collect();
+    in_file.sort_by_key(|&i| proc.value[i].location);
+    // Any others were added to the end since.
+    in_file.get(idx).copied().unwrap_or(proc.value.len())
+}
+
 fn is_constructor_name(name: &str) -> bool {
     name == "New" || name == "init" || name == "Initialize"
 }
-- 
2.43.0


From 7f26c6c6fe7cd86cd4cd7b0f3293be142b0ebdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 105/131] fix: annotate the variable which the type of a new
 expression is read from

---
 crates/dreammaker/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 8338e8f..862bf62 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -2392,6 +2392,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 // The following is what seems a reasonable approximation.
 
                 // Try to read an ident or path, then read the arguments.
+                let ident_start = self.updated_location();
                 if let Some(()) = self.exact(Token::Punct(Punctuation::Dot))? {
                     if let Some(ident) = self.ident()? {
                         // prefab
@@ -2411,6 +2412,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                         }
                     }
                 } else if let Some(ident) = self.ident()? {
+                    self.annotate(ident_start, || Annotation::UnscopedVar(ident.clone()));
                     let mut fields = Vec::new();
                     let mut belongs_to = vec![ident.clone()];
                     while let Some(item) = self.field(&mut belongs_to, false)? {
-- 
2.43.0


From 0c41939fb63ab84dfebd8ec77581278b43756869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:14 +0000
Subject: [PATCH 106/131] fix: know the scope of loop variables and caught
 exceptions in annotations

---
 crates/dreammaker/src/parser.rs | 39 +++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 862bf62..19d4baa 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1497,7 +1497,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 } else if let Some(()) = self.exact(Token::Punct(Punctuation::Semicolon))? {
                     continue;
                 } else {
-                    statements.push(require!(self.statement(loop_ctx, &mut vars)));
+                    statements.push(require!(self.scoped_statement(loop_ctx, &mut vars)));
                 }
             }
             statements
@@ -1506,7 +1506,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             Vec::new()
         } else {
             // and one-line blocks: if(1) neat();
-            let statement = require!(self.statement(loop_ctx, &mut vars));
+            let statement = require!(self.scoped_statement(loop_ctx, &mut vars));
             vec![statement]
         };
         for (loc, var_type, name) in vars {
@@ -1515,6 +1515,31 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         success(result.into_boxed_slice())
     }
 
+    /// Parse a statement, ending the scope of the variables of a loop with it.
+    fn scoped_statement(
+        &mut self,
+        loop_ctx: &LoopContext,
+        vars: &mut Vec<(Location, VarType, Ident)>,
+    ) -> Status<Spanned<Statement>> {
+        let outer = vars.len();
+        let statement = require!(self.statement(loop_ctx, vars));
+        if let Statement::ForLoop { .. }
+        | Statement::ForList(_)
+        | Statement::ForRange(_)
+        | Statement::ForKeyValue(_) = statement.elem
+        {
+            for (loc, var_type, name) in vars.drain(outer..) {
+                self.annotate(loc, || Annotation::LocalVarScope(var_type, name));
+            }
+            if let Statement::ForKeyValue(ref for_key_value) = statement.elem {
+                self.annotate(statement.location, || {
+                    Annotation::LocalVarScope(VarType::default(), for_key_value.value.clone())
+                });
+            }
+        }
+        success(statement)
+    }
+
     fn statement(
         &mut self,
         loop_ctx: &LoopContext,
@@ -1824,6 +1849,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let try_block = require!(self.block(loop_ctx));
             self.skip_phantom_semicolons()?;
             require!(self.exact_ident("catch"));
+            let catch_start = self.location();
             let catch_params = if let Some(()) = self.exact(Token::Punct(Punctuation::LParen))? {
                 require!(
                     self.separated(Punctuation::Comma, Punctuation::RParen, None, |this| {
@@ -1835,6 +1861,15 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 Vec::new()
             };
             let catch_block = require!(self.block(loop_ctx));
+            for caught in catch_params.iter() {
+                if let Some((name, type_path)) = caught.split_last() {
+                    let type_path = type_path.iter().skip_while(|each| *each == "var");
+                    let var_type = type_path.map(ToOwned::to_owned).collect();
+                    self.annotate(catch_start, || {
+                        Annotation::LocalVarScope(var_type, name.to_owned())
+                    });
+                }
+            }
             spanned(Statement::TryCatch {
                 try_block,
                 catch_params: catch_params.into_boxed_slice(),
-- 
2.43.0


From dcdea185ee93ae7d78073b15d86a32bd47e1af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:14 +0000
Subject: [PATCH 107/131] fix: annotate variables with what separates their
 path from their type, and locals from their name on

---
 crates/dreammaker/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 19d4baa..f5f0f31 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -2003,7 +2003,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 var_type.suffix(&var_suffix);
 
                 if self.annotations.is_some() {
-                    vars.push((self.location, var_type.clone().build(), name.clone()));
+                    vars.push((type_path_start, var_type.clone().build(), name.clone()));
                 }
 
                 let value = if let Some(()) = self.exact(Token::Punct(Punctuation::Assign))? {
@@ -2941,6 +2941,8 @@ fn reconstruct_path(
         result.extend(deets.flags.iter().map(Ident::from_static));
     }
     if let Some(var) = var_type {
+        // What follows is the declared type, not a part of the path.
+        result.push(Ident::from_static("var"));
         result.extend(var.flags.iter().map(Ident::from_static));
         result.extend(var.type_path.iter().cloned());
     }
-- 
2.43.0


From 9d386dfca075147508df2f229f7f3fcaa15926d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 108/131] fix: look names up from the innermost block around
 the cursor

---
 crates/dm-langserver/src/completion.rs | 22 +++++++++++++++++++---
 crates/dm-langserver/src/main.rs       | 15 +++++++--------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index 5c3f1b9..e77bce8 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -131,6 +131,22 @@ fn items_ty<'a>(
     }
 }
 
+/// The path of the innermost of the blocks around a location.
+pub fn innermost_block<'a, I>(iter: &I) -> Option<&'a [Ident]>
+where
+    I: Iterator<Item = (Span, &'a Annotation)> + Clone,
+{
+    let mut found = None;
+    for (span, annotation) in iter.clone() {
+        if let Annotation::TreeBlock(parts) = annotation {
+            if found.is_none_or(|(start, _)| span.start > start) {
+                found = Some((span.start, &parts[..]));
+            }
+        }
+    }
+    found.map(|(_, parts)| parts)
+}
+
 pub fn combine_tree_path<'a, I>(
     iter: &I,
     mut absolute: bool,
@@ -159,13 +175,13 @@ where
 
     let mut prefix_parts = &[][..];
     if !absolute {
-        if_annotation! { Annotation::TreeBlock(parts) in iter; {
+        if let Some(parts) = innermost_block(iter) {
             prefix_parts = parts;
             if let Some(i) = prefix_parts.iter().position(|x| x == "var") {
                 // if we're inside a 'var' block, start the lookup there
-                prefix_parts = &prefix_parts[i+1..];
+                prefix_parts = &prefix_parts[i + 1..];
             }
-        }}
+        }
     }
 
     prefix_parts.iter().chain(parts).map(|x| &**x)
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 5d13a46..b6b3b1c 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -865,15 +865,14 @@ impl Engine {
             break;
         }
         if found.is_none() {
-            if_annotation! { Annotation::TreeBlock(tree_path) in iter; {
+            if let Some(tree_path) = completion::innermost_block(iter) {
                 // cut off if we're in a declaration block
-                let mut tree_path = &tree_path[..];
-                match tree_path.split_last() {
-                    Some((kwd, rest)) if kwd == "proc" || kwd == "verb" || kwd == "var" => tree_path = rest,
-                    _ => {}
-                }
-                found = self.objtree.type_by_path(tree_path);
-            }}
+                let end = tree_path
+                    .iter()
+                    .position(|kwd| kwd == "proc" || kwd == "verb" || kwd == "var")
+                    .unwrap_or(tree_path.len());
+                found = self.objtree.type_by_path(&tree_path[..end]);
+            }
         }
         (found, proc_name)
     }
-- 
2.43.0


From 59b864acc0316e37bff524616957e99d46a6ac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 109/131] fix: do not take globals for fields in the middle of
 an expression

---
 crates/dm-langserver/src/find_references.rs | 2 +-
 crates/dm-langserver/src/main.rs            | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index bd1a52a..2cb498b 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -150,7 +150,7 @@ struct Local<'o> {
 }
 
 /// Whether a variable found by this name on the type is really a global.
-fn is_global_var(ty: TypeRef, name: &str) -> bool {
+pub fn is_global_var(ty: TypeRef, name: &str) -> bool {
     let mut next = Some(ty);
     while let Some(ty) = next {
         if ty.vars.contains_key(name) {
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b6b3b1c..b900035 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -965,6 +965,10 @@ impl Engine {
         // find the rest; only look on the type we've found
         for var_name in priors {
             if let Some(current) = next.take() {
+                if !current.is_root() && find_references::is_global_var(current, var_name) {
+                    // Globals are not members of other types.
+                    continue;
+                }
                 if let Some(decl) = current.get_var_declaration(var_name) {
                     next = self.var_type(&decl.var_type);
                 }
-- 
2.43.0


From 4942db58a747cd221fcbcbf011ea07ee84b492c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 110/131] fix: do not go from a method to the global proc of
 its name

---
 crates/dm-langserver/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b900035..577a3c7 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1760,14 +1760,14 @@ impl Engine {
                     // TODO: only do this if we're in a ProcHeader.
                     let mut next = self.objtree.type_by_path(prefix);
                     if let Some(ty) = next {
-                        next = ty.parent_type();
+                        next = ty.parent_type_without_root();
                     }
                     while let Some(ty) = next {
                         if let Some(proc) = ty.procs.get(proc_name) {
                             results.push(self.convert_location(proc.main_value().location, &proc.main_value().docs, &[&ty.path, "/proc/", proc_name])?);
                             break;
                         }
-                        next = ty.parent_type();
+                        next = ty.parent_type_without_root();
                     }
                 }
             },
@@ -1834,13 +1834,13 @@ impl Engine {
                 if let (Some(ty), Some((proc_name, idx))) = self.find_type_context(&iter) {
                     if idx == 0 {
                         // first proc on the type, go to the REAL parent
-                        let mut next = ty.parent_type();
+                        let mut next = ty.parent_type_without_root();
                         while let Some(ty) = next {
                             if let Some(proc) = ty.procs.get(proc_name) {
                                 results.push(self.convert_location(proc.main_value().location, &proc.main_value().docs, &[&ty.path, "/proc/", proc_name])?);
                                 break;
                             }
-                            next = ty.parent_type();
+                            next = ty.parent_type_without_root();
                         }
                     } else if let Some(proc) = ty.procs.get(proc_name) {
                         // override, go to the previous version of the proc
-- 
2.43.0


From 19f337627916031f0bab2922735b2657c69c2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:27 +0000
Subject: [PATCH 111/131] fix: a global proc is not the parent of a method of
 the same name

---
 crates/dreammaker/src/objtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 9d6d9f4..38785ef 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -614,7 +614,11 @@ impl<'a> ProcRef<'a> {
                 idx,
             })
         } else {
-            self.ty.parent_type().and_then(|ty| ty.get_proc(self.name))
+            // A global proc of the same name is not what `..()` calls.
+            self.ty
+                .parent_type()
+                .and_then(|ty| ty.get_proc(self.name))
+                .filter(|parent| !parent.ty.is_root())
         }
     }
 
-- 
2.43.0


From a36c3e63804079b58d7678863b7e1a94e531b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 112/131] fix: extools: announce the connection only once
 requests can use it

---
 crates/dm-langserver/src/debugger/extools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 9226d44..dc025e3 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -158,7 +158,6 @@ pub struct Extools {
 impl Extools {
     fn from_stream(seq: Arc<SequenceNumber>, stream: TcpStream) -> (Extools, ExtoolsThread) {
         output!(in seq, "[extools] Connected.");
-        seq.issue_event(dap_types::InitializedEvent);
 
         let sender = ExtoolsSender {
             seq: seq.clone(),
@@ -397,6 +396,9 @@ struct ExtoolsThread {
 
 impl ExtoolsThread {
     fn read_loop(&mut self) {
+        // The connection has been handed over, so requests can use it from here on.
+        self.seq.issue_event(dap_types::InitializedEvent);
+
         let mut buffer = Vec::new();
         let mut read_buf = [0u8; 4096];
         loop {
-- 
2.43.0


From 97123f14dc5466370370706748c47f4d29216ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 113/131] fix: extools: queue a runtime before telling the
 client about it

---
 crates/dm-langserver/src/debugger/extools.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index dc025e3..de4f055 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -548,12 +548,14 @@ impl ExtoolsThread {
 
     fn Runtime(&mut self, runtime: Runtime) -> R {
         output!(in self.seq, "[extools] Runtime in {}: {}", runtime.proc, runtime.message);
+        let text = runtime.message.clone();
+        // Must be available by the time the client asks about the exception.
+        self.queue(&self.runtime_tx, runtime);
         self.stopped(dap_types::StoppedEvent {
             reason: dap_types::StoppedEvent::REASON_EXCEPTION.to_owned(),
-            text: Some(runtime.message.clone()),
+            text: Some(text),
             ..Default::default()
         });
-        self.queue(&self.runtime_tx, runtime);
         Ok(())
     }
 
-- 
2.43.0


From 9407093af29ada4fe9643fedef17316ad6175851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 114/131] fix: extools: do not panic when the connection to the
 game is lost

---
 crates/dm-langserver/src/debugger/extools.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index de4f055..f73cb41 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -245,7 +245,10 @@ impl Extools {
                 proc: proc_ref.to_owned(),
                 override_id,
             }));
-            bytecode_rx.recv().expect("error receiving bytecode").instructions
+            match bytecode_rx.recv() {
+                Ok(disasm) => disasm.instructions,
+                Err(_) => Vec::new(), // disconnected
+            }
         })
     }
 
@@ -413,7 +416,10 @@ impl ExtoolsThread {
                     }
                     buffer.extend_from_slice(slice);
                 },
-                Err(e) => panic!("extools read error: {e:?}"),
+                Err(e) => {
+                    output!(in self.seq, "[extools] Error reading: {}", e);
+                    break;
+                },
             }
 
             // chop off as many full messages from the buffer as we can
@@ -627,8 +633,8 @@ impl ExtoolsSender {
         .expect("extools encode error");
         buffer.push(0);
         // TODO: needs more synchronization
-        (&self.stream)
-            .write_all(&buffer[..])
-            .expect("extools write error");
+        if let Err(e) = (&self.stream).write_all(&buffer[..]) {
+            output!(in self.seq, "[extools] Error sending {}: {}", M::TYPE, e);
+        }
     }
 }
-- 
2.43.0


From e560c6700bbe79f892552799b3e318b6bef33f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 115/131] fix: extools: do not divide by zero when no call
 stacks are known

---
 crates/dm-langserver/src/debugger/extools.rs |  3 +++
 crates/dm-langserver/src/debugger/mod.rs     | 12 +++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index f73cb41..1183b72 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -223,6 +223,9 @@ impl Extools {
     ) -> Result<(ThreadInfo, usize), Box<dyn Error>> {
         let frame_id = frame_id as usize;
         let threads = self.threads.lock().unwrap();
+        if threads.is_empty() {
+            return Err(Box::new(super::GenericError("No call stacks available")));
+        }
         let thread_id = (frame_id % threads.len()) as i64;
         let frame_no = frame_id / threads.len();
         let thread = threads.get(&thread_id).cloned().ok_or_else(|| {
diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index aa484e0..0c9b735 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -1122,14 +1122,12 @@ impl Debugger {
         match &mut self.client {
             DebugClient::Extools(extools) => {
                 let extools = extools.get()?;
-                let frame_id = frameId as usize;
 
-                let threads = extools.get_all_threads();
-                let thread_id = (frame_id % threads.len()) as i64;
-                let frame_no = frame_id / threads.len();
-
-                let Some(frame) = threads[&thread_id].call_stack.get(frame_no) else {
-                    return Err(Box::new(GenericError2(format!("Stack frame out of range: {frameId} (thread {thread_id}, depth {frame_no})"))));
+                let (thread, frame_no) = extools.get_thread_by_frame_id(frameId)?;
+                let Some(frame) = thread.call_stack.get(frame_no) else {
+                    return Err(Box::new(GenericError2(format!(
+                        "Stack frame out of range: {frameId} (depth {frame_no})"
+                    ))));
                 };
 
                 Ok(ScopesResponse {
-- 
2.43.0


From 2b7d8e14eadb71fc2be86684756994f2312197e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 116/131] fix: give stack frames the memory references that
 disassemble takes

---
 crates/dm-langserver/src/debugger/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index 0c9b735..b1e2cb8 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -967,7 +967,7 @@ impl Debugger {
                         name: ex_frame.proc.clone(),
                         id: (i * extools.get_all_threads().len()) as i64 + params.threadId,
                         instructionPointerReference: Some(format!(
-                            "{}@{}#{}",
+                            "{}#{}@{}",
                             ex_frame.proc, ex_frame.override_id, ex_frame.offset
                         )),
                         ..Default::default()
@@ -1049,7 +1049,7 @@ impl Debugger {
                         name: aux_proc.path.to_owned(),
                         id: aux_frame.id as i64,
                         instructionPointerReference: Some(format!(
-                            "{}@{}#{}",
+                            "{}#{}@{}",
                             aux_proc.path, aux_proc.override_id, aux_frame.instruction.offset
                         )),
                         ..Default::default()
-- 
2.43.0


From d334f0b34328390e118dae95d3b81ba86fb4c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 117/131] fix: locate a var declaration without a value at the
 declaration

Its location was that of the token after it, which is on another line when
the declaration is the last in a block closed on a line of its own.
---
 crates/dreammaker/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index f5f0f31..0bbd8ab 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1076,10 +1076,15 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                                 last_part,
                             ))
                         });
+                        // The next token may be the end of a block, lines below.
+                        let mut location = self.location;
+                        if (location.file, location.line) != (entry_start.file, entry_start.line) {
+                            location = entry_start;
+                        }
                         self.tree.declare_var(
                             current,
                             last_part,
-                            self.location,
+                            location,
                             docs,
                             var_type.build(),
                             var_suffix.into_initializer(),
-- 
2.43.0


From 547a0ab316cf4b7726e3c006a3bedb7fc1be56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 118/131] fix: keep the outcome of an overtaken check from
 replacing newer diagnostics

---
 crates/dm-langserver/src/main.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 577a3c7..4a544f7 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -169,6 +169,8 @@ impl ClientCaps {
 #[derive(Default)]
 struct DiagnosticsTracker {
     sent: HashSet<Url>,
+    /// How many times the environment has been parsed.
+    generation: usize,
 }
 
 impl DiagnosticsTracker {
@@ -521,6 +523,14 @@ impl Engine {
         let original_start = std::time::Instant::now();
         let mut start = original_start;
         eprintln!("environment: {}", environment.display());
+
+        // From here on, the outcome of any earlier check is out of date.
+        let generation = {
+            let mut tracker = self.diagnostics_tracker.lock().unwrap();
+            tracker.generation += 1;
+            tracker.generation
+        };
+
         if let Some(stem) = environment.file_stem() {
             self.issue_notification::<extras::WindowStatus>(extras::WindowStatusParams {
                 environment: Some(stem.to_string_lossy().into_owned()),
@@ -638,9 +648,12 @@ impl Engine {
                     &context.errors(),
                     related_info,
                 );
-                diagnostics_tracker.lock().unwrap().send(map);
-
-                issue_notification::<extras::WindowStatus>(Default::default());
+                // Unless the environment has been parsed again meanwhile.
+                let mut diagnostics_lock = diagnostics_tracker.lock().unwrap();
+                if diagnostics_lock.generation == generation {
+                    diagnostics_lock.send(map);
+                    issue_notification::<extras::WindowStatus>(Default::default());
+                }
             });
         } else {
             self.issue_notification::<extras::WindowStatus>(Default::default());
-- 
2.43.0


From 71df4f9183848b940be26f53ace9c2ed2aa95c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 119/131] fix: send object trees in the order they were made

---
 crates/dm-langserver/src/main.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 4a544f7..ddd36ce 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -290,6 +290,7 @@ struct Engine {
 
     annotations: HashMap<Url, (FileId, FileId, Rc<AnnotationTree>)>,
     diagnostics_tracker: Arc<Mutex<DiagnosticsTracker>>,
+    objtree_thread: Option<std::thread::JoinHandle<()>>,
 
     client_caps: ClientCaps,
     extools_dll: Option<String>,
@@ -313,6 +314,7 @@ impl Engine {
 
             annotations: Default::default(),
             diagnostics_tracker: Arc::new(Mutex::new(Default::default())),
+            objtree_thread: None,
 
             client_caps: Default::default(),
             extools_dll: None,
@@ -401,13 +403,18 @@ impl Engine {
     // ------------------------------------------------------------------------
     // Object tree explorer
 
-    fn update_objtree(&self) {
+    fn update_objtree(&mut self) {
         if self.client_caps.object_tree_2 {
             issue_notification::<extras::ObjectTree2>(extras::ObjectTree2Params {});
         } else if self.client_caps.object_tree {
             let root = self.objtree_recurse(self.objtree.root());
-            // offload serialization costs to another thread
-            std::thread::spawn(move || {
+            // offload serialization costs to another thread, after any
+            // earlier tree has been sent
+            let previous = self.objtree_thread.take();
+            self.objtree_thread = Some(std::thread::spawn(move || {
+                if let Some(previous) = previous {
+                    let _ = previous.join();
+                }
                 let start = std::time::Instant::now();
                 issue_notification::<extras::ObjectTree>(extras::ObjectTreeParams { root });
                 let elapsed = start.elapsed();
@@ -416,7 +423,7 @@ impl Engine {
                     elapsed.as_secs(),
                     elapsed.subsec_millis()
                 );
-            });
+            }));
         }
     }
 
-- 
2.43.0


From 1494f6ba8b1f97d16b4a55e776bb3b82d8639960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 120/131] fix: annotate documents anew after a reparse

---
 crates/dm-langserver/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ddd36ce..15820ff 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -556,6 +556,9 @@ impl Engine {
             );
         };
 
+        // Macros may have changed for the files they are used in.
+        self.annotations.clear();
+
         // Set up the preprocessor.
         self.context.reset_io_time();
         self.context.autodetect_config(&environment);
-- 
2.43.0


From 0dfe959f288cdfdfc99e084dff1013dab4f12acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 121/131] fix: escape reserved characters of file names in URLs

---
 crates/dm-langserver/src/main.rs | 34 +++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 15820ff..b9048d4 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -175,11 +175,10 @@ struct DiagnosticsTracker {
 
 impl DiagnosticsTracker {
     fn file_url(root: Option<&Url>, file_list: &dm::FileList, file: dm::FileId) -> Option<Url> {
-        let fname_string = file_list.get_path(file).display().to_string();
         if let Some(root) = root {
-            root.join(&fname_string).ok()
+            join_path(root, &file_list.get_path(file)).ok()
         } else {
-            Url::parse(&fname_string).ok()
+            Url::parse(&file_list.get_path(file).display().to_string()).ok()
         }
     }
 
@@ -356,8 +355,7 @@ impl Engine {
 
     fn file_url(&self, file: dm::FileId) -> Result<Url, jsonrpc::Error> {
         if let Some(ref root) = self.root {
-            root.join(&self.context.file_path(file).display().to_string())
-                .map_err(|e| invalid_request(format!("error in file_url: {e}")))
+            join_path(root, &self.context.file_path(file))
         } else {
             Url::parse(&self.context.file_path(file).display().to_string())
                 .map_err(|e| invalid_request(format!("error in rootless file_url {e}")))
@@ -2605,6 +2603,32 @@ fn path_to_url(path: PathBuf) -> Result<Url, jsonrpc::Error> {
     Url::from_file_path(path).map_err(|_| invalid_request(format!("bad file path: {formatted}",)))
 }
 
+/// The URL of a path, which may be relative to the given directory.
+fn join_path(root: &Url, path: &std::path::Path) -> Result<Url, jsonrpc::Error> {
+    if path.is_absolute() {
+        return path_to_url(path.to_owned());
+    }
+    let mut url = root.clone();
+    {
+        let mut segments = url
+            .path_segments_mut()
+            .map_err(|_| invalid_request("URI cannot have a path"))?;
+        segments.pop_if_empty();
+        for component in path.components() {
+            match component {
+                std::path::Component::ParentDir => {
+                    segments.pop();
+                },
+                std::path::Component::Normal(name) => {
+                    segments.push(&name.to_string_lossy());
+                },
+                _ => {},
+            }
+        }
+    }
+    Ok(url)
+}
+
 fn is_region_marker(line: &str, marker: &str) -> bool {
     let Some(comment) = line.strip_prefix("//") else {
         return false;
-- 
2.43.0


From 02e589e4cc5b51c2f2720746949e440196791e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:37 +0000
Subject: [PATCH 122/131] fix: read the workspace configuration once, whenever
 it is parsed

---
 crates/dm-langserver/src/main.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b9048d4..5f89d35 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -559,7 +559,14 @@ impl Engine {
 
         // Set up the preprocessor.
         self.context.reset_io_time();
-        self.context.autodetect_config(&environment);
+        // The configuration in the workspace root has been read already.
+        let in_root = match self.root {
+            Some(ref root) => url_to_path(root).ok().as_deref() == environment.parent(),
+            None => false,
+        };
+        if !in_root {
+            self.context.autodetect_config(&environment);
+        }
         let mut pp = match dm::preprocessor::Preprocessor::new(&self.context, environment.clone()) {
             Ok(pp) => pp,
             Err(err) => {
@@ -1425,13 +1432,6 @@ impl Engine {
             }
             eprintln!("workspace root: {url}");
 
-            if let Ok(root_path) = url_to_path(&url) {
-                let config_path = root_path.join("SpacemanDMM.toml");
-                if config_path.exists() {
-                    self.context.force_config(&config_path);
-                }
-            }
-
             self.root = Some(url);
         } else {
             eprintln!("single file mode");
@@ -2483,6 +2483,10 @@ impl Engine {
         if let Some(ref root) = self.root {
             // TODO: support non-files here
             if let Ok(root_path) = url_to_path(root) {
+                let config_path = root_path.join("SpacemanDMM.toml");
+                if config_path.exists() {
+                    self.context.force_config(&config_path);
+                }
                 if let Some(dme) = self.context.config().environment.as_ref() {
                     environment = Some(root_path.join(dme));
                 } else {
-- 
2.43.0


From bc1c0e3075c1a30ef7e709fc26b6401f954eb2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:42 +0000
Subject: [PATCH 123/131] fix: keep annotations within the file they start in

---
 crates/dreammaker/src/annotation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/annotation.rs b/crates/dreammaker/src/annotation.rs
index b38ffd0..4dd6acb 100644
--- a/crates/dreammaker/src/annotation.rs
+++ b/crates/dreammaker/src/annotation.rs
@@ -68,8 +68,16 @@ impl Default for AnnotationTree {
 
 impl AnnotationTree {
     pub fn insert(&mut self, place: std::ops::Range<Location>, value: Annotation) {
-        self.tree
-            .insert(range(place.start, place.end.pred()), value);
+        let mut end = place.end.pred();
+        if end.file != place.start.file {
+            // What ends with its file is only seen to end in some other file.
+            end = Location {
+                file: place.start.file,
+                line: !0,
+                column: !0,
+            };
+        }
+        self.tree.insert(range(place.start, end), value);
         self.len += 1;
     }
 
-- 
2.43.0


From 70e6936cc6ae7f58a326b93799d923d19425a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:15 +0000
Subject: [PATCH 124/131] fix: locate local vars in the document they were
 looked up in

---
 crates/dm-langserver/src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 5f89d35..b5f2db4 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1760,7 +1760,7 @@ impl Engine {
 
     fn GotoDefinition(&mut self, params: P<GotoDefinition>) -> R<GotoDefinition> {
         let tdp = params.text_document_position_params;
-        let (real_file_id, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
+        let (_, file_id, annotations) = self.get_annotations(&tdp.text_document.uri)?;
         let location = position_to_location(file_id, tdp.position);
         let mut results = Vec::new();
 
@@ -1826,7 +1826,11 @@ impl Engine {
                         results.push(self.convert_location(var.value.location, &var.value.docs, &[&ty.path, "/var/", var_name])?);
                     },
                     UnscopedVar::Local { loc, .. } => {
-                        results.push(self.convert_location(dm::Location { file: real_file_id, ..loc }, &Default::default(), &[])?);
+                        // Local to this document, which may not be part of the environment.
+                        results.push(lsp_types::Location {
+                            uri: tdp.text_document.uri.clone(),
+                            range: location_to_range(loc),
+                        });
                     },
                     UnscopedVar::None => {}
                 }
-- 
2.43.0


From 27051cfabac58a393dfee5686e5db63dab713970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:32 +0000
Subject: [PATCH 125/131] fix: stop at the declaration when telling about a
 member on hover

---
 crates/dm-langserver/src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b5f2db4..13d73ad 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1193,6 +1193,10 @@ impl Engine {
                 if !proc_value.docs.is_empty() {
                     docstring = Some(proc_value.docs.text());
                 }
+                if proc.declaration.is_some() {
+                    // A global of the same name is something else.
+                    break;
+                }
             }
 
             if scoped {
@@ -1239,6 +1243,10 @@ impl Engine {
                 if !var.value.docs.is_empty() {
                     docstring = Some(var.value.docs.text());
                 }
+                if var.declaration.is_some() {
+                    // A global of the same name is something else.
+                    break;
+                }
             }
 
             if scoped {
@@ -1641,6 +1649,10 @@ impl Engine {
                             if !var.value.docs.is_empty() {
                                 docstring = Some(var.value.docs.text());
                             }
+                            if var.declaration.is_some() {
+                                // A global of the same name is something else.
+                                break;
+                            }
                         }
                         next = current.parent_type();
                     }
@@ -1703,6 +1715,10 @@ impl Engine {
                             if !proc_value.docs.is_empty() {
                                 docstring = Some(proc_value.docs.text());
                             }
+                            if proc.declaration.is_some() {
+                                // A global of the same name is something else.
+                                break;
+                            }
                         }
                         next = current.parent_type();
                     }
-- 
2.43.0


From 4df6e6edb57c3c0e90e1aad69676b09087829d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:32 +0000
Subject: [PATCH 126/131] fix: help with the signature of the innermost call

---
 crates/dm-langserver/src/main.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 13d73ad..909a67c 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2083,12 +2083,25 @@ impl Engine {
         let iter = annotations.get_location(location);
         let mut result = None;
 
-        if_annotation! { Annotation::ProcArguments(priors, proc_name, idx) in iter; {
+        // of calls within each other's arguments, help with the innermost
+        let mut call: Option<(dm::Location, _, _, _)> = None;
+        for (span, annotation) in iter.clone() {
+            if let Annotation::ProcArguments(priors, proc_name, idx) = annotation {
+                if call.is_none_or(|(start, ..)| span.start > start) {
+                    call = Some((span.start, priors, proc_name, *idx));
+                }
+            }
+        }
+        if let Some((start, priors, proc_name, mut idx)) = call {
             // take the specific argument we're working on
-            let mut idx = *idx;
-            if_annotation! { Annotation::ProcArgument(i) in iter; {
-                idx = *i;
-            }}
+            for (span, annotation) in iter.clone() {
+                if let Annotation::ProcArgument(i) = annotation {
+                    if span.start >= start {
+                        idx = *i;
+                        break;
+                    }
+                }
+            }
 
             let mut next = self.find_scoped_type(&iter, priors);
             while let Some(ty) = next {
@@ -2142,7 +2155,7 @@ impl Engine {
                     }
                 }
             }
-        }}
+        }
 
         Ok(result)
     }
-- 
2.43.0


From 747f77e455b395c9e11bde58ac9c6cf85f25a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:32 +0000
Subject: [PATCH 127/131] fix: offer no globals as members to override

---
 crates/dm-langserver/src/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index e77bce8..f771e4a 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -328,7 +328,7 @@ impl Engine {
                     });
                 }
             }
-            next = ty.parent_type();
+            next = ty.parent_type_without_root();
         }
     }
 
-- 
2.43.0


From 17a86ef8660e24fce545719a01632c09d733ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:32 +0000
Subject: [PATCH 128/131] fix: show that the last parameter of a macro takes
 all arguments left

---
 crates/dreammaker/src/preprocessor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 57b1e10..1ec958f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -70,7 +70,10 @@ impl<'a> fmt::Display for NameAndDefine<'a> {
     fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
         write!(fmt, "#define {}", self.0)?;
 
-        if let Define::Function { params, .. } = self.1 {
+        if let Define::Function {
+            params, variadic, ..
+        } = self.1
+        {
             fmt.write_str("(")?;
             for (i, name) in params.iter().enumerate() {
                 if i > 0 {
@@ -78,6 +81,9 @@ impl<'a> fmt::Display for NameAndDefine<'a> {
                 }
                 fmt.write_str(name)?;
             }
+            if *variadic {
+                fmt.write_str("...")?;
+            }
             fmt.write_str(")")?;
         }
 
-- 
2.43.0


From c42712e6f5fb5b6f106d21bc437786788ee73352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:19 +0000
Subject: [PATCH 129/131] fix: link resources to the project rather than the
 server's directory

---
 crates/dm-langserver/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 909a67c..94ce71a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2416,14 +2416,17 @@ impl Engine {
                 }
                 match annotation {
                     Annotation::Include(path) | Annotation::Resource(path) => {
-                        let pathbuf = if path.is_relative() {
-                            std::env::current_dir().map_err(invalid_request)?.join(path)
-                        } else {
-                            path.to_owned()
+                        let target = match self.root {
+                            Some(ref root) => join_path(root, path)?,
+                            None => path_to_url(
+                                std::env::current_dir()
+                                    .map_err(invalid_request)?
+                                    .join(path),
+                            )?,
                         };
                         results.push(DocumentLink {
                             range: span_to_range(span.start..span.end.add_columns(1)),
-                            target: Some(path_to_url(pathbuf)?),
+                            target: Some(target),
                             tooltip: None,
                             data: None,
                         });
-- 
2.43.0


From 648224c06c019d524fb4348334a15bcdeea02509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:50 +0000
Subject: [PATCH 130/131] fix: smooth with the types listed to smooth with

---
 crates/dmm-tools/src/render_passes/icon_smoothing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 3c92ae2..56cd92c 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -2,6 +2,7 @@
 
 use crate::dmi::Dir;
 use crate::minimap::{Atom, GetVar, Neighborhood, Sprite};
+use dm::ast::FormatTreePath;
 use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 
@@ -158,7 +159,11 @@ fn find_type_in_direction(
 
 fn smoothlist_contains(list: &[(Constant, Option<Constant>)], desired: &str) -> bool {
     for (key, _) in list {
-        if key == desired {
+        let matches = match key {
+            Constant::Prefab(pop) => FormatTreePath(&pop.path).to_string() == desired,
+            _ => key == desired,
+        };
+        if matches {
             return true;
         }
     }
-- 
2.43.0


From 04027ee7c6277741615c1e3a42383544212c4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:50 +0000
Subject: [PATCH 131/131] fix: leave unanchored movables unsmoothed

---
 crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs | 2 +-
 crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index aff702f..61103fd 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -103,7 +103,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index bcdcaba..2f4b9fb 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -92,7 +92,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
-- 
2.43.0

