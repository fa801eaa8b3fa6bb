From 529eb02e32e56316e73d37aed514cffbdb2dae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 01/14] fix: roll operands at once so that large shifts neither
 overflow nor stall

---
 src/type2/program.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..ba82534 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -216,20 +216,7 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
-                    match shift.cmp(&0) {
-                        std::cmp::Ordering::Greater => {
-                            for _ in 0..shift {
-                                let operand = pop!();
-                                self.stack.insert(position, operand);
-                            }
-                        }
-                        std::cmp::Ordering::Less => {
-                            for _ in 0..(-shift) {
-                                push!(self.stack.remove(position));
-                            }
-                        }
-                        _ => {}
-                    }
+                    self.stack[position..].rotate_right(shift.rem_euclid(span) as usize);
                 }
             }
             Dup => push!(read!(0)),
-- 
2.43.0


From affa136c195664ac69ee808b97c0ecda5c00cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 02/14] fix: reject subroutine numbers that overflow when the
 bias is added

---
 src/type2/program.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index ba82534..d8375f8 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -254,11 +254,12 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
-                    if i < 0 || i as usize >= count {
-                        raise!("found no subroutine");
+                    match address.checked_add(bias(count)) {
+                        Some(i) if i >= 0 && (i as usize) < count => {
+                            Routine::new(&subroutines[i as usize])
+                        }
+                        _ => raise!("found no subroutine"),
                     }
-                    Routine::new(&subroutines[i as usize])
                 };
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
-- 
2.43.0


From bf0960664d36a5dd736dcbe6a08e23513a1547a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 03/14] fix: take the width from the first stack-clearing
 operator only

---
 src/type2/program.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index d8375f8..c477b26 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -12,6 +12,7 @@ pub struct Program<'l> {
     stack: Vec<Operand>,
     stems: usize,
     width: Option<Operand>,
+    cleared: bool,
 }
 
 struct Routine<'l> {
@@ -31,6 +32,7 @@ impl<'l> Program<'l> {
             stack: vec![],
             stems: 0,
             width: None,
+            cleared: false,
         }
     }
 
@@ -129,9 +131,10 @@ impl<'l> Program<'l> {
                 }
                 let mut stack = std::mem::take(&mut self.stack);
                 let operands = stack.drain(min..).collect();
-                if min > 0 && self.width.is_none() {
+                if min > 0 && !self.cleared {
                     self.width = Some(stack[min - 1]);
                 }
+                self.cleared = true;
                 return Ok(Some((operator, operands)));
             });
         );
@@ -164,9 +167,10 @@ impl<'l> Program<'l> {
                     std::mem::replace(&mut self.routine, *caller);
                 }
                 let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                if matches!(length, 1 | 5) && !self.cleared {
+                    self.width = Some(self.stack[0]);
                 }
+                self.cleared = true;
                 return Ok(None);
             }
 
@@ -178,7 +182,12 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
-                clear!([equal(0)]);
+                if self.stack.len() & 1 == 1 && !self.cleared {
+                    self.width = Some(self.stack[0]);
+                }
+                self.cleared = true;
+                self.stack.clear();
+                return Ok(Some((operator, vec![])));
             }
 
             // Arithmetic operators
-- 
2.43.0


From 15360c398dda87e24a07375acb1dbd7f165700e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 04/14] fix: run long and recursive programs without
 overflowing the call stack

---
 src/type2/program.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index c477b26..49bed5e 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -1,9 +1,13 @@
 use std::io::Cursor;
+use std::ops::ControlFlow;
 
 use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+/// The maximum depth of subroutine calls, which the format requires to be at least 10.
+const MAX_DEPTH: usize = 64;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -18,6 +22,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -38,12 +43,20 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let ControlFlow::Break(operation) = self.advance()? {
+                return Ok(operation);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn advance(&mut self) -> Result<ControlFlow<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(ControlFlow::Break(None));
         }
 
         macro_rules! pop(
@@ -135,7 +148,7 @@ impl<'l> Program<'l> {
                     self.width = Some(stack[min - 1]);
                 }
                 self.cleared = true;
-                return Ok(Some((operator, operands)));
+                return Ok(ControlFlow::Break(Some((operator, operands))));
             });
         );
 
@@ -171,7 +184,7 @@ impl<'l> Program<'l> {
                     self.width = Some(self.stack[0]);
                 }
                 self.cleared = true;
-                return Ok(None);
+                return Ok(ControlFlow::Break(None));
             }
 
             // Hint operators
@@ -187,7 +200,7 @@ impl<'l> Program<'l> {
                 }
                 self.cleared = true;
                 self.stack.clear();
-                return Ok(Some((operator, vec![])));
+                return Ok(ControlFlow::Break(Some((operator, vec![]))));
             }
 
             // Arithmetic operators
@@ -256,6 +269,9 @@ impl<'l> Program<'l> {
             // Subroutine operators
             CallSubr | CallGSubr => {
                 let address = pop!(i32);
+                if self.routine.depth >= MAX_DEPTH {
+                    raise!("found too many nested calls");
+                }
                 let mut routine = {
                     let subroutines = if operator == CallSubr {
                         &self.local
@@ -270,6 +286,7 @@ impl<'l> Program<'l> {
                         _ => raise!("found no subroutine"),
                     }
                 };
+                routine.depth = self.routine.depth + 1;
                 std::mem::swap(&mut self.routine, &mut routine);
                 self.routine.caller = Some(Box::new(routine));
             }
@@ -283,7 +300,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(ControlFlow::Continue(()))
     }
 
     /// Return the width difference with respect to the nominal width.
@@ -299,6 +316,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From 5e79a38617dd79b3b5f2c2ef6ad3f73631709e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 05/14] fix: keep reporting the end of a program after its end
 operator

---
 src/type2/program.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 49bed5e..f4bd040 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -184,6 +184,8 @@ impl<'l> Program<'l> {
                     self.width = Some(self.stack[0]);
                 }
                 self.cleared = true;
+                let size = self.routine.size as u64;
+                self.routine.jump(size)?;
                 return Ok(ControlFlow::Break(None));
             }
 
-- 
2.43.0


From 98343635a7efe03e13230709a75f1f54ba0a8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 06/14] fix: index the expert character sets by glyph instead
 of by string

---
 src/compact1/character_set.rs | 498 +++++++++++++++++-----------------
 1 file changed, 249 insertions(+), 249 deletions(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..8debd81 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -401,170 +401,170 @@ fn get_iso_adobe(glyph_id: GlyphID) -> Option<&'static str> {
 fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
         1 => "space",
-        229 => "exclamsmall",
-        230 => "Hungarumlautsmall",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        233 => "ampersandsmall",
-        234 => "Acutesmall",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        252 => "questionsmall",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        271 => "Circumflexsmall",
-        272 => "hyphensuperior",
-        273 => "Gravesmall",
-        274 => "Asmall",
-        275 => "Bsmall",
-        276 => "Csmall",
-        277 => "Dsmall",
-        278 => "Esmall",
-        279 => "Fsmall",
-        280 => "Gsmall",
-        281 => "Hsmall",
-        282 => "Ismall",
-        283 => "Jsmall",
-        284 => "Ksmall",
-        285 => "Lsmall",
-        286 => "Msmall",
-        287 => "Nsmall",
-        288 => "Osmall",
-        289 => "Psmall",
-        290 => "Qsmall",
-        291 => "Rsmall",
-        292 => "Ssmall",
-        293 => "Tsmall",
-        294 => "Usmall",
-        295 => "Vsmall",
-        296 => "Wsmall",
-        297 => "Xsmall",
-        298 => "Ysmall",
-        299 => "Zsmall",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        303 => "Tildesmall",
-        304 => "exclamdownsmall",
-        305 => "centoldstyle",
-        306 => "Lslashsmall",
-        307 => "Scaronsmall",
-        308 => "Zcaronsmall",
-        309 => "Dieresissmall",
-        310 => "Brevesmall",
-        311 => "Caronsmall",
-        312 => "Dotaccentsmall",
-        313 => "Macronsmall",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        316 => "Ogoneksmall",
-        317 => "Ringsmall",
-        318 => "Cedillasmall",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        319 => "questiondownsmall",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
-        347 => "Agravesmall",
-        348 => "Aacutesmall",
-        349 => "Acircumflexsmall",
-        350 => "Atildesmall",
-        351 => "Adieresissmall",
-        352 => "Aringsmall",
-        353 => "AEsmall",
-        354 => "Ccedillasmall",
-        355 => "Egravesmall",
-        356 => "Eacutesmall",
-        357 => "Ecircumflexsmall",
-        358 => "Edieresissmall",
-        359 => "Igravesmall",
-        360 => "Iacutesmall",
-        361 => "Icircumflexsmall",
-        362 => "Idieresissmall",
-        363 => "Ethsmall",
-        364 => "Ntildesmall",
-        365 => "Ogravesmall",
-        366 => "Oacutesmall",
-        367 => "Ocircumflexsmall",
-        368 => "Otildesmall",
-        369 => "Odieresissmall",
-        370 => "OEsmall",
-        371 => "Oslashsmall",
-        372 => "Ugravesmall",
-        373 => "Uacutesmall",
-        374 => "Ucircumflexsmall",
-        375 => "Udieresissmall",
-        376 => "Yacutesmall",
-        377 => "Thornsmall",
-        378 => "Ydieresissmall",
+        2 => "exclamsmall",
+        3 => "Hungarumlautsmall",
+        4 => "dollaroldstyle",
+        5 => "dollarsuperior",
+        6 => "ampersandsmall",
+        7 => "Acutesmall",
+        8 => "parenleftsuperior",
+        9 => "parenrightsuperior",
+        10 => "twodotenleader",
+        11 => "onedotenleader",
+        12 => "comma",
+        13 => "hyphen",
+        14 => "period",
+        15 => "fraction",
+        16 => "zerooldstyle",
+        17 => "oneoldstyle",
+        18 => "twooldstyle",
+        19 => "threeoldstyle",
+        20 => "fouroldstyle",
+        21 => "fiveoldstyle",
+        22 => "sixoldstyle",
+        23 => "sevenoldstyle",
+        24 => "eightoldstyle",
+        25 => "nineoldstyle",
+        26 => "colon",
+        27 => "semicolon",
+        28 => "commasuperior",
+        29 => "threequartersemdash",
+        30 => "periodsuperior",
+        31 => "questionsmall",
+        32 => "asuperior",
+        33 => "bsuperior",
+        34 => "centsuperior",
+        35 => "dsuperior",
+        36 => "esuperior",
+        37 => "isuperior",
+        38 => "lsuperior",
+        39 => "msuperior",
+        40 => "nsuperior",
+        41 => "osuperior",
+        42 => "rsuperior",
+        43 => "ssuperior",
+        44 => "tsuperior",
+        45 => "ff",
+        46 => "fi",
+        47 => "fl",
+        48 => "ffi",
+        49 => "ffl",
+        50 => "parenleftinferior",
+        51 => "parenrightinferior",
+        52 => "Circumflexsmall",
+        53 => "hyphensuperior",
+        54 => "Gravesmall",
+        55 => "Asmall",
+        56 => "Bsmall",
+        57 => "Csmall",
+        58 => "Dsmall",
+        59 => "Esmall",
+        60 => "Fsmall",
+        61 => "Gsmall",
+        62 => "Hsmall",
+        63 => "Ismall",
+        64 => "Jsmall",
+        65 => "Ksmall",
+        66 => "Lsmall",
+        67 => "Msmall",
+        68 => "Nsmall",
+        69 => "Osmall",
+        70 => "Psmall",
+        71 => "Qsmall",
+        72 => "Rsmall",
+        73 => "Ssmall",
+        74 => "Tsmall",
+        75 => "Usmall",
+        76 => "Vsmall",
+        77 => "Wsmall",
+        78 => "Xsmall",
+        79 => "Ysmall",
+        80 => "Zsmall",
+        81 => "colonmonetary",
+        82 => "onefitted",
+        83 => "rupiah",
+        84 => "Tildesmall",
+        85 => "exclamdownsmall",
+        86 => "centoldstyle",
+        87 => "Lslashsmall",
+        88 => "Scaronsmall",
+        89 => "Zcaronsmall",
+        90 => "Dieresissmall",
+        91 => "Brevesmall",
+        92 => "Caronsmall",
+        93 => "Dotaccentsmall",
+        94 => "Macronsmall",
+        95 => "figuredash",
+        96 => "hypheninferior",
+        97 => "Ogoneksmall",
+        98 => "Ringsmall",
+        99 => "Cedillasmall",
+        100 => "onequarter",
+        101 => "onehalf",
+        102 => "threequarters",
+        103 => "questiondownsmall",
+        104 => "oneeighth",
+        105 => "threeeighths",
+        106 => "fiveeighths",
+        107 => "seveneighths",
+        108 => "onethird",
+        109 => "twothirds",
+        110 => "zerosuperior",
+        111 => "onesuperior",
+        112 => "twosuperior",
+        113 => "threesuperior",
+        114 => "foursuperior",
+        115 => "fivesuperior",
+        116 => "sixsuperior",
+        117 => "sevensuperior",
+        118 => "eightsuperior",
+        119 => "ninesuperior",
+        120 => "zeroinferior",
+        121 => "oneinferior",
+        122 => "twoinferior",
+        123 => "threeinferior",
+        124 => "fourinferior",
+        125 => "fiveinferior",
+        126 => "sixinferior",
+        127 => "seveninferior",
+        128 => "eightinferior",
+        129 => "nineinferior",
+        130 => "centinferior",
+        131 => "dollarinferior",
+        132 => "periodinferior",
+        133 => "commainferior",
+        134 => "Agravesmall",
+        135 => "Aacutesmall",
+        136 => "Acircumflexsmall",
+        137 => "Atildesmall",
+        138 => "Adieresissmall",
+        139 => "Aringsmall",
+        140 => "AEsmall",
+        141 => "Ccedillasmall",
+        142 => "Egravesmall",
+        143 => "Eacutesmall",
+        144 => "Ecircumflexsmall",
+        145 => "Edieresissmall",
+        146 => "Igravesmall",
+        147 => "Iacutesmall",
+        148 => "Icircumflexsmall",
+        149 => "Idieresissmall",
+        150 => "Ethsmall",
+        151 => "Ntildesmall",
+        152 => "Ogravesmall",
+        153 => "Oacutesmall",
+        154 => "Ocircumflexsmall",
+        155 => "Otildesmall",
+        156 => "Odieresissmall",
+        157 => "OEsmall",
+        158 => "Oslashsmall",
+        159 => "Ugravesmall",
+        160 => "Uacutesmall",
+        161 => "Ucircumflexsmall",
+        162 => "Udieresissmall",
+        163 => "Yacutesmall",
+        164 => "Thornsmall",
+        165 => "Ydieresissmall",
         _ => return None,
     })
 }
@@ -572,91 +572,91 @@ fn get_expert(glyph_id: GlyphID) -> Option<&'static str> {
 fn get_expert_subset(glyph_id: GlyphID) -> Option<&'static str> {
     Some(match glyph_id {
         1 => "space",
-        231 => "dollaroldstyle",
-        232 => "dollarsuperior",
-        235 => "parenleftsuperior",
-        236 => "parenrightsuperior",
-        237 => "twodotenleader",
-        238 => "onedotenleader",
-        13 => "comma",
-        14 => "hyphen",
-        15 => "period",
-        99 => "fraction",
-        239 => "zerooldstyle",
-        240 => "oneoldstyle",
-        241 => "twooldstyle",
-        242 => "threeoldstyle",
-        243 => "fouroldstyle",
-        244 => "fiveoldstyle",
-        245 => "sixoldstyle",
-        246 => "sevenoldstyle",
-        247 => "eightoldstyle",
-        248 => "nineoldstyle",
-        27 => "colon",
-        28 => "semicolon",
-        249 => "commasuperior",
-        250 => "threequartersemdash",
-        251 => "periodsuperior",
-        253 => "asuperior",
-        254 => "bsuperior",
-        255 => "centsuperior",
-        256 => "dsuperior",
-        257 => "esuperior",
-        258 => "isuperior",
-        259 => "lsuperior",
-        260 => "msuperior",
-        261 => "nsuperior",
-        262 => "osuperior",
-        263 => "rsuperior",
-        264 => "ssuperior",
-        265 => "tsuperior",
-        266 => "ff",
-        109 => "fi",
-        110 => "fl",
-        267 => "ffi",
-        268 => "ffl",
-        269 => "parenleftinferior",
-        270 => "parenrightinferior",
-        272 => "hyphensuperior",
-        300 => "colonmonetary",
-        301 => "onefitted",
-        302 => "rupiah",
-        305 => "centoldstyle",
-        314 => "figuredash",
-        315 => "hypheninferior",
-        158 => "onequarter",
-        155 => "onehalf",
-        163 => "threequarters",
-        320 => "oneeighth",
-        321 => "threeeighths",
-        322 => "fiveeighths",
-        323 => "seveneighths",
-        324 => "onethird",
-        325 => "twothirds",
-        326 => "zerosuperior",
-        150 => "onesuperior",
-        164 => "twosuperior",
-        169 => "threesuperior",
-        327 => "foursuperior",
-        328 => "fivesuperior",
-        329 => "sixsuperior",
-        330 => "sevensuperior",
-        331 => "eightsuperior",
-        332 => "ninesuperior",
-        333 => "zeroinferior",
-        334 => "oneinferior",
-        335 => "twoinferior",
-        336 => "threeinferior",
-        337 => "fourinferior",
-        338 => "fiveinferior",
-        339 => "sixinferior",
-        340 => "seveninferior",
-        341 => "eightinferior",
-        342 => "nineinferior",
-        343 => "centinferior",
-        344 => "dollarinferior",
-        345 => "periodinferior",
-        346 => "commainferior",
+        2 => "dollaroldstyle",
+        3 => "dollarsuperior",
+        4 => "parenleftsuperior",
+        5 => "parenrightsuperior",
+        6 => "twodotenleader",
+        7 => "onedotenleader",
+        8 => "comma",
+        9 => "hyphen",
+        10 => "period",
+        11 => "fraction",
+        12 => "zerooldstyle",
+        13 => "oneoldstyle",
+        14 => "twooldstyle",
+        15 => "threeoldstyle",
+        16 => "fouroldstyle",
+        17 => "fiveoldstyle",
+        18 => "sixoldstyle",
+        19 => "sevenoldstyle",
+        20 => "eightoldstyle",
+        21 => "nineoldstyle",
+        22 => "colon",
+        23 => "semicolon",
+        24 => "commasuperior",
+        25 => "threequartersemdash",
+        26 => "periodsuperior",
+        27 => "asuperior",
+        28 => "bsuperior",
+        29 => "centsuperior",
+        30 => "dsuperior",
+        31 => "esuperior",
+        32 => "isuperior",
+        33 => "lsuperior",
+        34 => "msuperior",
+        35 => "nsuperior",
+        36 => "osuperior",
+        37 => "rsuperior",
+        38 => "ssuperior",
+        39 => "tsuperior",
+        40 => "ff",
+        41 => "fi",
+        42 => "fl",
+        43 => "ffi",
+        44 => "ffl",
+        45 => "parenleftinferior",
+        46 => "parenrightinferior",
+        47 => "hyphensuperior",
+        48 => "colonmonetary",
+        49 => "onefitted",
+        50 => "rupiah",
+        51 => "centoldstyle",
+        52 => "figuredash",
+        53 => "hypheninferior",
+        54 => "onequarter",
+        55 => "onehalf",
+        56 => "threequarters",
+        57 => "oneeighth",
+        58 => "threeeighths",
+        59 => "fiveeighths",
+        60 => "seveneighths",
+        61 => "onethird",
+        62 => "twothirds",
+        63 => "zerosuperior",
+        64 => "onesuperior",
+        65 => "twosuperior",
+        66 => "threesuperior",
+        67 => "foursuperior",
+        68 => "fivesuperior",
+        69 => "sixsuperior",
+        70 => "sevensuperior",
+        71 => "eightsuperior",
+        72 => "ninesuperior",
+        73 => "zeroinferior",
+        74 => "oneinferior",
+        75 => "twoinferior",
+        76 => "threeinferior",
+        77 => "fourinferior",
+        78 => "fiveinferior",
+        79 => "sixinferior",
+        80 => "seveninferior",
+        81 => "eightinferior",
+        82 => "nineinferior",
+        83 => "centinferior",
+        84 => "dollarinferior",
+        85 => "periodinferior",
+        86 => "commainferior",
         _ => return None,
     })
 }
-- 
2.43.0


From 05bc43a88767d8445ee78f89839b13b67646ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 07/14] fix: reject string identifiers that do not fit instead
 of truncating them

---
 src/compact1/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..eb7ce53 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,10 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) => match Self::try_from(value) {
+                Ok(value) => Ok(value),
+                _ => raise!("found a malformed string ID"),
+            },
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From 7250739789b00e83fa4ec447abb3668e8ed068c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 08/14] fix: reject a character set of format 0 for a font
 without glyphs

---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 8debd81..8653f33 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From b2daf5ecf199ff44db1be091f32a335f5e016c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 09/14] fix: read the codes or ranges that a supplemental
 encoding supplements

---
 src/compact1/encoding.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compact1/encoding.rs b/src/compact1/encoding.rs
index 9a31bed..cdea2f6 100644
--- a/src/compact1/encoding.rs
+++ b/src/compact1/encoding.rs
@@ -38,9 +38,26 @@ table! {
 }
 
 table! {
-    /// An encoding in the supplemental format.
+    /// An encoding in format 0 or 1 with supplements.
     pub EncodingSupplemental { // Supplemental Encoding Data
-        format           (u8),
+        format           (u8), // format
+        count            (u8), // nCodes or nRanges
+
+        codes (Vec<u8>) |this, tape| { // code
+            match this.format {
+                0x80 => tape.take_given(this.count as usize),
+                0x81 => Ok(vec![]),
+                format => raise!("found an unknown format of encodings ({format})"),
+            }
+        },
+
+        ranges (Vec<Range1>) |this, tape| { // Range1
+            match this.format {
+                0x81 => tape.take_given(this.count as usize),
+                _ => Ok(vec![]),
+            }
+        },
+
         supplement_count (u8), // nSups
 
         supplements (Vec<Supplement>) |this, tape| { // Supplement
-- 
2.43.0


From ff188c611b22b3c0816a37708b3b7e39390453db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 10/14] fix: reject negative and overflowing offsets and sizes
 in font sets

---
 src/compact1/font_set/character_id_keyed.rs   | 10 +++----
 src/compact1/font_set/character_name_keyed.rs |  6 ++---
 src/compact1/font_set/mod.rs                  | 27 ++++++++++++++++---
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..7fbc7fc 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -74,9 +74,9 @@ impl<'l> crate::walue::Read<'l> for Record {
             Some(operands) if operands.len() == 3 => operands,
             _ => raise!("found a malformed character-ID-keyed record"),
         };
-        let offset = get!(@single top_operations, FDSelect);
+        let offset = get!(@offset top_operations, FDSelect);
         let encoding = jump_take_given!(@unwrap tape, position, offset, character_strings);
-        let offset = get!(@single top_operations, FDArray);
+        let offset = get!(@offset top_operations, FDArray);
         let operations: Dictionaries = jump_take!(@unwrap tape, position, offset);
         let operations: Vec<_> = (&operations).try_into()?;
         let mut records = vec![];
@@ -103,11 +103,11 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
     ) -> Result<Self> {
         use crate::tape::Read;
 
-        let (size, offset) = get!(@double top_operations, Private);
+        let (size, offset) = get!(@range top_operations, Private);
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
-        let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+        let subroutines = match get!(@try @relative operations, Subrs, offset) {
+            Some(offset) => jump_take!(@unwrap tape, position, offset),
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..eeea67b 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -22,11 +22,11 @@ impl<'l> crate::walue::Read<'l> for Record {
     ) -> Result<Self> {
         use crate::tape::Read;
 
-        let (size, offset) = get!(@double top_operations, Private);
+        let (size, offset) = get!(@range top_operations, Private);
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
-        let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+        let subroutines = match get!(@try @relative operations, Subrs, offset) {
+            Some(offset) => jump_take!(@unwrap tape, position, offset),
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..9f97a7a 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -15,6 +15,12 @@ macro_rules! get(
             _ => None,
         }
     );
+    (@offset $operations:expr, $operator:ident) => (
+        match u32::try_from(get!(@single $operations, $operator)) {
+            Ok(value) => value,
+            _ => raise!(concat!("found a malformed offset with operator ", stringify!($operator))),
+        }
+    );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
             Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
@@ -22,6 +28,21 @@ macro_rules! get(
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
     );
+    (@range $operations:expr, $operator:ident) => (
+        match get!(@double $operations, $operator) {
+            (size, offset) if size >= 0 && offset >= 0 => (size as u32, offset as u32),
+            _ => raise!(concat!("found a malformed range with operator ", stringify!($operator))),
+        }
+    );
+    (@try @relative $operations:expr, $operator:ident, $offset:expr) => (
+        match get!(@try @single $operations, $operator) {
+            Some(another_offset) => match u32::try_from($offset as i64 + another_offset as i64) {
+                Ok(value) => Some(value),
+                _ => raise!(concat!("found a malformed offset with operator ", stringify!($operator))),
+            },
+            _ => None,
+        }
+    );
 );
 
 pub mod character_id_keyed;
@@ -79,10 +100,10 @@ impl crate::value::Read for FontSet {
                 @unwrap
                 tape,
                 position,
-                get!(@single operations, CharStrings),
+                get!(@offset operations, CharStrings),
                 get!(@single operations, CharStringType)
             ));
-            character_sets.push(match get!(@single operations, CharSet) {
+            character_sets.push(match get!(@offset operations, CharSet) {
                 0 => CharacterSet::ISOAdobe,
                 1 => CharacterSet::Expert,
                 2 => CharacterSet::ExpertSubset,
@@ -94,7 +115,7 @@ impl crate::value::Read for FontSet {
                     character_strings[i].count as usize
                 ),
             });
-            encodings.push(match get!(@single operations, Encoding) {
+            encodings.push(match get!(@offset operations, Encoding) {
                 0 => Encoding::Standard,
                 1 => Encoding::Expert,
                 offset => jump_take!(@unwrap tape, position, offset),
-- 
2.43.0


From 407ebd7b271bdd0da89987c9938037b8b758d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 11/14] fix: report a malformed glyph-to-dictionary encoding
 instead of asserting

---
 src/compact1/font_set/character_id_keyed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 7fbc7fc..2de62b3 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -142,7 +142,9 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         character_strings: Self::Parameter,
     ) -> Result<Self> {
         let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


From 5a26eae893a8191d77930acbcbac65f4beb3f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 12/14] fix: reject font sets with different numbers of names
 and dictionaries

---
 src/compact1/font_set/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 9f97a7a..7138757 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -89,6 +89,9 @@ impl crate::value::Read for FontSet {
         let header = tape.take::<Header>()?;
         let names: Names = jump_take!(@unwrap tape, position, header.header_size);
         let operations: Vec<_> = (&tape.take::<Dictionaries>()?).try_into()?;
+        if operations.len() != names.len() {
+            raise!("found a mismatch between the names and the dictionaries of a font set");
+        }
         let strings = tape.take::<Strings>()?;
         let subroutines = tape.take::<Subroutines>()?;
         let mut encodings = vec![];
-- 
2.43.0


From d3b12d50d846bc2a18de155298981dd639fcc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 13/14] fix: reserve no more memory for objects and private
 dictionaries than there is data

---
 src/compact1/font_set/character_id_keyed.rs   |  5 +++--
 src/compact1/font_set/character_name_keyed.rs |  5 +++--
 src/compact1/index/mod.rs                     |  4 ++--
 src/compact1/mod.rs                           | 12 ++++++++++++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 2de62b3..12b4d30 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::{CharacterStrings, Dictionaries, Subroutines};
-use crate::compact1::{GlyphID, Number, Operations, Operator, StringID};
+use crate::compact1::{read_bytes, GlyphID, Number, Operations, Operator, StringID};
 use crate::Result;
 
 /// A character-ID-keyed record in a font set.
@@ -104,7 +104,8 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         use crate::tape::Read;
 
         let (size, offset) = get!(@range top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @relative operations, Subrs, offset) {
             Some(offset) => jump_take!(@unwrap tape, position, offset),
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index eeea67b..c4671e6 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -3,7 +3,7 @@
 use std::io::Cursor;
 
 use crate::compact1::index::Subroutines;
-use crate::compact1::Operations;
+use crate::compact1::{read_bytes, Operations};
 use crate::Result;
 
 /// A character-name-keyed record in a font set.
@@ -23,7 +23,8 @@ impl<'l> crate::walue::Read<'l> for Record {
         use crate::tape::Read;
 
         let (size, offset) = get!(@range top_operations, Private);
-        let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
+        tape.jump(position + offset as u64)?;
+        let chunk = read_bytes(tape, size as usize)?;
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @relative operations, Subrs, offset) {
             Some(offset) => jump_take!(@unwrap tape, position, offset),
diff --git a/src/compact1/index/mod.rs b/src/compact1/index/mod.rs
index d5f36ce..b8995b4 100644
--- a/src/compact1/index/mod.rs
+++ b/src/compact1/index/mod.rs
@@ -1,6 +1,6 @@
 //! The indices.
 
-use crate::compact1::{Offset, OffsetSize};
+use crate::compact1::{read_bytes, Offset, OffsetSize};
 use crate::Result;
 
 table! {
@@ -42,7 +42,7 @@ impl crate::value::Read for Index {
                 raise!("found a malformed index");
             }
             let size = (offsets[i + 1].0 - offsets[i].0) as usize;
-            data.push(tape.take_given(size)?);
+            data.push(read_bytes(tape, size)?);
         }
         Ok(Index {
             count,
diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index eb7ce53..f2f626c 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -43,3 +43,15 @@ impl TryFrom<Number> for StringID {
         }
     }
 }
+
+/// Read a number of bytes without reserving more memory than there is data.
+fn read_bytes<T: crate::tape::Read>(tape: &mut T, size: usize) -> Result<Vec<u8>> {
+    use std::io::Read;
+
+    let mut bytes = Vec::with_capacity(size.min(4096));
+    Read::take(tape, size as u64).read_to_end(&mut bytes)?;
+    if bytes.len() != size {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(bytes)
+}
-- 
2.43.0


From dbe11b2e43faa893398959b10e3d21827c1aad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 14/14] fix: reject an integer operand that is just beyond the
 largest integer

Two to the power of 31 was taken for one less, as comparing in single
precision cannot tell the two apart, so that roll rotated by one place too
few.
---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index f4bd040..6ac5f22 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -69,7 +69,7 @@ impl<'l> Program<'l> {
                 _ => raise!("expected an operand"),
             });
             (i32) => (match self.stack.pop() {
-                Some(value) if value as i32 as Operand == value => value as i32,
+                Some(value) if value as i32 as f64 == value as f64 => value as i32,
                 _ => raise!("expected an operand of a different type"),
             });
         );
-- 
2.43.0

