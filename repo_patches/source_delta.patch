From 8662c9a7c9cdce6b28cc75b88952bbd7e7839948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:22 +0000
Subject: [PATCH 01/34] fix: lex binary integer literals and digit separators
 as integers

0b101 panicked (radix 2 was unreachable!()), and 1_000 or 0x_1F were
classified as FCONST because i32 parsing does not accept underscores.
---
 .../src/parser_generator/lexer/lexer_ported.rs            | 8 +++++---
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..725f374 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,10 +119,12 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores may separate the digits of a literal
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 | 8 | 16 => i32::from_str_radix(&digits[2..], radix as u32),
+            10 => digits.parse::<i32>(),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..725f374 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,10 +119,12 @@ impl Lexer {
             _ => (),
         }
 
+        // Underscores may separate the digits of a literal
+        let digits = yytext.replace('_', "");
+
         let res_parse_as_i32 = match radix {
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 | 8 | 16 => i32::from_str_radix(&digits[2..], radix as u32),
+            10 => digits.parse::<i32>(),
             _ => unreachable!(),
         };
 
-- 
2.43.0


From a30dd1e9bf0273332902268b69823c443bee5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 02/34] fix: do not panic on hexadecimal escapes in extended
 strings

E'\x41' passed "x41" to from_str_radix; skip the 'x' as well.
---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 patches/patch_scan.patch                                      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..74962e8 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index d775931..c3b041c 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -732,7 +732,7 @@
 +					// if (c == '\0' || IS_HIGHBIT_SET(c))
 +					// 	yyextra->saw_non_ascii = true;
 +
-+					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
++					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 +					let c = char::from_u32(c).unwrap();
 +
 +					// self.check_escape_warning();
-- 
2.43.0


From 107fcea90be52a407d291caf79ec74bcf800844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 03/34] fix: report out-of-range Unicode escapes instead of
 panicking

E'\U00110000' unwrapped char::from_u32; raise PostgreSQL's
"invalid Unicode escape value" error.
---
 crates/lexer-generator/resources/scan.l             |  5 ++++-
 .../src/parser_generator/lexer/generated.rs         | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs | 10 ++++++++--
 patches/patch_scan.patch                            | 13 ++++++++-----
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 74962e8..030d991 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						let Some(c) = char::from_u32(c) else {
+							yyerror!("invalid Unicode escape value");
+						};
+						self.addunicode(c)?;
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 42b8026..95ec680 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 42b8026..95ec680 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index c3b041c..5072b68 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -336,7 +336,7 @@
  					/*
  					 * When we are scanning a quoted string and see an end
  					 * quote, we must look ahead for a possible continuation.
-@@ -603,193 +702,366 @@
+@@ -603,193 +702,369 @@
  					 * we use a single "xqs" state to do the lookahead for all
  					 * types of strings.
  					 */
@@ -551,7 +551,10 @@
 +					} else if is_utf16_surrogate_second(c) {
 +						yyerror!("invalid Unicode surrogate pair");
 +					} else {
-+						self.addunicode(char::from_u32(c as u32).unwrap())?;
++						let Some(c) = char::from_u32(c) else {
++							yyerror!("invalid Unicode escape value");
++						};
++						self.addunicode(c)?;
  					}
 -					else if (is_utf16_surrogate_second(c))
 -						yyerror("invalid Unicode surrogate pair");
@@ -823,7 +826,7 @@
  					}
  					else
  					{
-@@ -798,143 +1070,332 @@
+@@ -798,143 +1073,332 @@
  						 * the $... part to the output, but put back the final
  						 * $ for rescanning.  Consider $delim$...$junk$delim$
  						 */
@@ -1229,7 +1232,7 @@
  
  					/*
  					 * For SQL compatibility, '+' and '-' cannot be the
-@@ -944,68 +1405,61 @@
+@@ -944,68 +1408,61 @@
  					 * to forbid operator names like '?-' that could not be
  					 * sequences of SQL operators.
  					 */
@@ -1334,7 +1337,7 @@
  						}
  					}
  
-@@ -1015,115 +1469,190 @@
+@@ -1015,115 +1472,190 @@
  					 * and-truncate, because the odds are we are looking at
  					 * a syntactic mistake anyway.
  					 */
-- 
2.43.0


From 7afe47cfb3baaa945b003e507e6387530c7526a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 04/34] fix: do not panic on parameter numbers above i32::MAX

---
 crates/lexer-generator/resources/scan.l                   | 3 ++-
 .../src/parser_generator/lexer/generated.rs               | 8 ++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs       | 8 ++++----
 patches/patch_scan.patch                                  | 5 +++--
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 030d991..1bbe44b 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1486,7 +1486,8 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					// Numbers that do not fit are saturated, the token is a PARAM all the same
+					self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 95ec680..118bdb4 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4926,8 +4926,8 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        // Numbers that do not fit are saturated, the token is a PARAM all the same
+                        self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6439,8 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        // Numbers that do not fit are saturated, the token is a PARAM all the same
+                        self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 95ec680..118bdb4 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4926,8 +4926,8 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        // Numbers that do not fit are saturated, the token is a PARAM all the same
+                        self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6439,8 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        // Numbers that do not fit are saturated, the token is a PARAM all the same
+                        self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index 5072b68..6366d6c 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -1337,7 +1337,7 @@
  						}
  					}
  
-@@ -1015,115 +1472,190 @@
+@@ -1015,115 +1472,191 @@
  					 * and-truncate, because the odds are we are looking at
  					 * a syntactic mistake anyway.
  					 */
@@ -1362,7 +1362,8 @@
 +					// return PARAM;
 +
 +					self.set_yylloc();
-+					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
++					// Numbers that do not fit are saturated, the token is a PARAM all the same
++					self.yylval = Yylval::I(self.yytext()[1..].parse().unwrap_or(i32::MAX));
 +					return Ok(Some(TokenKind::PARAM));
  				}
  
-- 
2.43.0


From 7ecdde0a51551cd8df0a588dff726fa41140c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 05/34] fix: do not split multi-byte characters in the lexer
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A one-byte pattern such as {other} or [\\][^0-7] could match the first
byte of a multi-byte character ('abc'é, E'\é'), and slicing the input
there panicked.
---
 .../src/parser_generator/lexer/util.rs            | 15 ++++++++++++---
 crates/postgresql-cst-parser/src/lexer/util.rs    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..2db77d5 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -5,6 +5,15 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// Patterns are matched byte by byte, so that `.` or `[^0-7]` can stop inside a multi-byte character.
+/// The match is extended to the end of that character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +85,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +105,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +135,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..2db77d5 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -5,6 +5,15 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// Patterns are matched byte by byte, so that `.` or `[^0-7]` can stop inside a multi-byte character.
+/// The match is extended to the end of that character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +85,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +105,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +135,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
-- 
2.43.0


From bf413a68539f721798571e2eaa46a6ead80833cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 06/34] fix: report a syntax error for tokens the grammar does
 not know

Stray characters (such as {, \, $ or control characters) reached unreachable!() in
token_kind_to_component_id.
---
 crates/parser-generator/templates/parser_template.rs |  9 +++++----
 crates/postgresql-cst-parser/src/cst.rs              | 11 +++++++++--
 crates/postgresql-cst-parser/src/parser.rs           |  9 +++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..76943e1 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,11 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    Some(match kind {{token_to_component_id}
+    // The lexer also produces tokens that the grammar does not know, such as stray characters
+    _ => return None,
+    })
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..cf7c69d 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -177,7 +177,13 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let Some(cid) = token_kind_to_component_id(&token.kind) else {
+            return Err(ParserError::ParseError {
+                message: format!("syntax error at byte position {}", token.start_byte_pos),
+                start_byte_pos: token.start_byte_pos,
+                end_byte_pos: token.end_byte_pos,
+            });
+        };
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +329,8 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        // Only comments can precede $end here
+        let cid = token_kind_to_component_id(&token.kind).unwrap();
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..f21aefd 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,8 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    Some(match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33570,9 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        // The lexer also produces tokens that the grammar does not know, such as stray characters
+        _ => return None,
+    })
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From 2e15cee3f2044558ed2de9b72ed13a6e7e593b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 07/34] fix: accept strings and identifiers with Unicode
 escapes

U&'...' and U&"..." panicked: their tokens had wrong end positions and were
never turned into SCONST and IDENT, as parser.c does.
---
 crates/parser-generator/src/parser_generator/lexer.rs        | 2 ++
 .../src/parser_generator/lexer/lexer_ported.rs               | 5 ++++-
 crates/postgresql-cst-parser/src/lexer.rs                    | 2 ++
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs       | 5 ++++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..ae2b307 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -172,6 +172,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::IDENT
                 | TokenKind::C_COMMENT
         ) {
diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 725f374..5d95acc 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -161,8 +161,11 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
-    for i in 0..tokens.len() - 1 {
+    for i in 0..tokens.len() {
         match &tokens[i].kind {
+            // The grammar only knows the plain kinds
+            TokenKind::USCONST => tokens[i].kind = TokenKind::SCONST,
+            TokenKind::UIDENT => tokens[i].kind = TokenKind::IDENT,
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
                 if let Some(j) = next_token_index(tokens, i) {
                     if tokens[j].kind == TokenKind::KEYWORD("JSON".to_string()) {
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..ae2b307 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -172,6 +172,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
             TokenKind::SCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::IDENT
                 | TokenKind::C_COMMENT
         ) {
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 725f374..5d95acc 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -161,8 +161,11 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
-    for i in 0..tokens.len() - 1 {
+    for i in 0..tokens.len() {
         match &tokens[i].kind {
+            // The grammar only knows the plain kinds
+            TokenKind::USCONST => tokens[i].kind = TokenKind::SCONST,
+            TokenKind::UIDENT => tokens[i].kind = TokenKind::IDENT,
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
                 if let Some(j) = next_token_index(tokens, i) {
                     if tokens[j].kind == TokenKind::KEYWORD("JSON".to_string()) {
-- 
2.43.0


From a40a91f7b23a93f661bb97f78a5222a0e5533cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 08/34] fix: reject NUL characters instead of dropping the rest
 of the input

A NUL was taken for the end of the input, and everything after it became
whitespace of a successful parse. PostgreSQL rejects such strings.
---
 crates/parser-generator/src/parser_generator/lexer.rs | 7 +++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index ae2b307..f85c32f 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The scanner represents the end of the input by byte value 0
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index ae2b307..f85c32f 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The scanner represents the end of the input by byte value 0
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From c2d8cd38dbbb27ef54701789eddf143222eb73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 09/34] Add verification hooks guarded by cfg(pgcst_verif)

---
 crates/postgresql-cst-parser/src/cst.rs | 57 +++++++++++++++++++++++++
 crates/postgresql-cst-parser/src/lib.rs |  6 +++
 2 files changed, 63 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index cf7c69d..3246c48 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -348,3 +348,60 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
 
     Ok(SyntaxNode::new_root_with_resolver(ast, resolver))
 }
+
+/// Read-only views of the scanner and of the parse tables for external verification tools.
+/// Only compiled with `--cfg pgcst_verif`.
+#[cfg(pgcst_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    fn view(tokens: Vec<Token>) -> Vec<(String, usize, usize)> {
+        tokens
+            .into_iter()
+            .map(|t| (t.kind.to_id(), t.start_byte_pos, t.end_byte_pos))
+            .collect()
+    }
+
+    /// Tokens (comments included) before the look-ahead rewriting
+    pub fn scan(input: &str) -> Result<Vec<(String, usize, usize)>, ParserError> {
+        lex(input).map(view)
+    }
+
+    /// Tokens (comments included) after the look-ahead rewriting
+    pub fn scan_rewritten(input: &str) -> Result<Vec<(String, usize, usize)>, ParserError> {
+        lex(input).map(|mut tokens| {
+            init_tokens(&mut tokens);
+            view(tokens)
+        })
+    }
+
+    /// Encoded action: 0 error, s + 1 shift, -(r + 1) reduce, `i32::MAX` accept
+    pub fn action(state: u32, cid: u32) -> i32 {
+        match lookup_parser_action(state, cid) {
+            ERROR_ACTION_CODE => 0,
+            0 => i32::MAX,
+            v => v as i32,
+        }
+    }
+
+    pub fn goto(state: u32, cid: u32) -> Option<u32> {
+        u32::try_from(lookup_goto_state(state, cid)).ok()
+    }
+
+    /// Left-hand side (as a raw syntax kind) and length of a rule
+    pub fn rule(index: usize) -> (u32, usize) {
+        let rule = &RULES[index];
+        (
+            rule_name_to_component_id(rule.name) + num_terminal_symbol(),
+            rule.len,
+        )
+    }
+
+    pub fn num_terminals() -> u32 {
+        num_terminal_symbol()
+    }
+
+    pub fn num_states() -> usize {
+        ACTION_TABLE_INDEX.len()
+    }
+}
diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index 8f212e6..a70e39f 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -1,4 +1,6 @@
 #![allow(non_camel_case_types)]
+// `pgcst_verif` is only set by external verification tools
+#![allow(unexpected_cfgs)]
 
 mod lexer;
 
@@ -7,6 +9,10 @@ mod parser;
 mod cst;
 pub mod syntax_kind;
 
+#[cfg(pgcst_verif)]
+#[doc(hidden)]
+pub use cst::verif_hooks;
+
 pub use cst::NodeOrToken;
 pub use cst::PostgreSQLSyntax;
 pub use cst::ResolvedNode;
-- 
2.43.0


From 6327e62059355b83089859ff35c77cb6726c0a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 10/34] Add scanner hooks guarded by cfg(pgcst_verif)

---
 crates/postgresql-cst-parser/src/lexer.rs | 50 +++++++++++++++++++++++
 crates/postgresql-cst-parser/src/lib.rs   |  3 ++
 2 files changed, 53 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index f85c32f..3b3e0c7 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -201,3 +201,53 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
     // dbg!(&tokens);
     Ok(tokens)
 }
+
+/// Read-only views of the scanner engines for model checking; see `cst::verif_hooks`
+#[cfg(pgcst_verif)]
+pub mod verif_hooks {
+    use super::generated::State;
+
+    const STATES: [State; 12] = [
+        State::INITIAL,
+        State::xb,
+        State::xc,
+        State::xd,
+        State::xh,
+        State::xq,
+        State::xqs,
+        State::xe,
+        State::xdolq,
+        State::xui,
+        State::xus,
+        State::xeu,
+    ];
+
+    /// Scanner state, transition table and accepted rule of every automaton
+    #[cfg(not(feature = "regex-match"))]
+    pub fn automata() -> Vec<(String, &'static [[u8; 256]], &'static [u8])> {
+        STATES
+            .iter()
+            .map(|state| {
+                let (transition, accept) = super::generated::dfa::get_dfa_table(*state);
+                (format!("{state:?}"), transition, accept)
+            })
+            .collect()
+    }
+
+    /// Scanner state, pattern, end-of-file flag and kind of every rule, in order
+    #[cfg(feature = "regex-match")]
+    pub fn rules() -> Vec<(String, String, bool, String)> {
+        super::generated::get_rules()
+            .into_iter()
+            .filter(|rule| STATES.contains(&rule.state))
+            .map(|rule| {
+                (
+                    format!("{:?}", rule.state),
+                    rule.pattern.as_str().to_string(),
+                    rule.eof,
+                    format!("{:?}", rule.kind),
+                )
+            })
+            .collect()
+    }
+}
diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index a70e39f..3e9a72c 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -12,6 +12,9 @@ pub mod syntax_kind;
 #[cfg(pgcst_verif)]
 #[doc(hidden)]
 pub use cst::verif_hooks;
+#[cfg(pgcst_verif)]
+#[doc(hidden)]
+pub use lexer::verif_hooks as scanner_hooks;
 
 pub use cst::NodeOrToken;
 pub use cst::PostgreSQLSyntax;
-- 
2.43.0


From 9d7bc9197ed19d0f96eeebfdbdae14af47bd7809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:50 +0000
Subject: [PATCH 11/34] fix: prefer accepting to reducing at the end of the
 input, as bison does

---
 crates/parser-generator/src/parser_generator/lalr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/lalr.rs b/crates/parser-generator/src/parser_generator/lalr.rs
index ab23126..042713b 100644
--- a/crates/parser-generator/src/parser_generator/lalr.rs
+++ b/crates/parser-generator/src/parser_generator/lalr.rs
@@ -538,11 +538,13 @@ impl Lalr {
         let mut goto_table: HashMap<(usize, ComponentId), usize> = HashMap::new();
 
         for (i, s) in state_set.states.iter().enumerate() {
-            let reduce_rules: Vec<_> = s
+            let mut reduce_rules: Vec<_> = s
                 .items
                 .iter()
                 .filter(|item| self.rules[item.rule_index].components.len() == item.dot_pos)
                 .collect();
+            // In bison, accepting is a shift of the end marker, so it is preferred to any reduction
+            reduce_rules.sort_by_key(|item| item.rule_index != start_rule_index);
 
             let get_conflicted_reduce_rule = |shift_comp: &ComponentId| -> Option<&&Item> {
                 reduce_rules
-- 
2.43.0


From 55703345d15c4f0adfa74e11599c8789f5c6df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 12/34] fix: do not underflow on a character literal at the
 start of a line

---
 crates/parser-generator/src/parser_generator/bison.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 2f5a201..e4034a5 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -430,6 +430,7 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             value.push('\'');
+            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
 
             tokens.push(BisonToken::Literal {
                 range: Range {
@@ -443,7 +444,6 @@ fn scan(body: String) -> Vec<BisonToken> {
                 value,
             });
 
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
             continue;
         }
 
-- 
2.43.0


From a1ffb2b83051e863e9c6ebbab663e6d29a5362d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 13/34] fix: accept a character literal after %prec

---
 crates/parser-generator/src/parser_generator/bison.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index e4034a5..06b2db5 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -533,7 +533,8 @@ fn parse_grammar_rules(bison: &mut Bison, body: String) {
             for i in (0..rule.len()).rev() {
                 if matches!(rule[i], BisonToken::Prec { .. }) {
                     prec = Some(match &rule[i + 1] {
-                        BisonToken::Identifier { value, .. } => value.clone(),
+                        BisonToken::Identifier { value, .. }
+                        | BisonToken::Literal { value, .. } => value.clone(),
                         _ => unreachable!(),
                     });
 
-- 
2.43.0


From ad6235403eb1b351aa22af7ad6675cc1b75f6272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 14/34] fix: do not panic on a state without any action

---
 crates/parser-generator/src/parser_generator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 194ee80..014c0ae 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -82,7 +82,10 @@ fn compress_action_table(
             }
         }
 
-        cnt.iter().max_by_key(|(_, v)| *v).map(|(k, _)| *k).unwrap()
+        // %nonassoc can leave a state without any action
+        cnt.iter()
+            .max_by_key(|(_, v)| *v)
+            .map_or(ERROR_ACTION_CODE, |(k, _)| *k)
     }
 
     for state_index in 0..lalr.state_set.states.len() {
-- 
2.43.0


From 7488ed13fe3d179f83e70d1f4becc0863402bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 15/34] Add generator hooks guarded by cfg(pgcst_verif)

---
 .../parser-generator/src/parser_generator.rs  | 144 ++++++++++++++++++
 .../src/parser_generator/lexer.rs             |  50 ++++++
 2 files changed, 194 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 014c0ae..3651fea 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -485,3 +485,147 @@ pub fn generate() {
 
     write_file(&bison, &lalr);
 }
+
+/// Read-only views of the grammar reader and of the table construction for model checking.
+/// Only compiled with `--cfg pgcst_verif`.
+#[cfg(pgcst_verif)]
+pub mod verif_hooks {
+    use super::*;
+    use super::bison::AssocDirective;
+
+    /// What the reader makes of a grammar file
+    pub struct Grammar {
+        /// Left-hand side, right-hand side and `%prec` of every rule
+        pub rules: Vec<(String, Vec<String>, Option<String>)>,
+        /// Symbol, level and associativity
+        pub precedence: Vec<(String, usize, char)>,
+    }
+
+    /// The tables built for a grammar file
+    pub struct Tables {
+        pub terminals: Vec<String>,
+        pub non_terminals: Vec<String>,
+        pub end: usize,
+        /// Left-hand side and length of every rule
+        pub rules: Vec<(String, usize)>,
+        pub num_states: usize,
+        lalr: Lalr,
+        columns: Vec<Component>,
+        goto_columns: Vec<Component>,
+        compressed: Option<(CompressedParserTable, Vec<i16>, CompressedParserTable)>,
+    }
+
+    fn name(c: &Component) -> String {
+        c.to_rule_string_without_quote()
+    }
+
+    pub fn read(text: &str) -> Grammar {
+        let bison = parse_bison(text);
+        Grammar {
+            rules: bison
+                .rules
+                .iter()
+                .map(|r| {
+                    let comps = r.components.iter().map(name).collect();
+                    (r.name.clone(), comps, r.prec.clone())
+                })
+                .collect(),
+            precedence: bison
+                .assoc
+                .iter()
+                .map(|(symbol, a)| {
+                    let directive = match a.directive {
+                        AssocDirective::Left => 'l',
+                        AssocDirective::Right => 'r',
+                        AssocDirective::NonAssoc => 'n',
+                    };
+                    (symbol.clone(), a.priority, directive)
+                })
+                .collect(),
+        }
+    }
+
+    pub fn tables(text: &str, compress: bool) -> Tables {
+        let bison = parse_bison(text);
+        let mut lalr = Lalr::new(&bison);
+        lalr.build_lalr1_parse_table();
+
+        let (columns, goto_columns): (Vec<_>, Vec<_>) = lalr
+            .id_mapper
+            .components
+            .iter()
+            .cloned()
+            .partition(|c| matches!(c, Component::Terminal(_)));
+        let compressed = compress.then(|| {
+            let (action, default) = compress_action_table(&lalr, &columns);
+            (action, default, compress_goto_table(&lalr, &goto_columns))
+        });
+
+        Tables {
+            terminals: columns.iter().map(name).collect(),
+            non_terminals: goto_columns.iter().map(name).collect(),
+            end: columns
+                .iter()
+                .position(|c| *c == lalr.end_rule_component)
+                .unwrap(),
+            rules: bison
+                .rules
+                .iter()
+                .map(|r| (r.name.clone(), r.components.len()))
+                .collect(),
+            num_states: lalr.state_set.states.len(),
+            lalr,
+            columns,
+            goto_columns,
+            compressed,
+        }
+    }
+
+    impl Tables {
+        /// Encoded action: 0 error, s + 1 shift, -(r + 1) reduce, `i32::MAX` accept
+        pub fn action(&self, state: usize, terminal: usize) -> i32 {
+            let id = self.lalr.id_mapper.to_component_id(&self.columns[terminal]);
+            match self.lalr.action_table.get(&(state, id)) {
+                Some(Action::Shift(s)) => *s as i32 + 1,
+                Some(Action::Reduce(r)) => -(*r as i32) - 1,
+                Some(Action::Accept) => i32::MAX,
+                Some(Action::Error) | None => 0,
+            }
+        }
+
+        pub fn goto(&self, state: usize, non_terminal: usize) -> Option<usize> {
+            let id = self
+                .lalr
+                .id_mapper
+                .to_component_id(&self.goto_columns[non_terminal]);
+            self.lalr.goto_table.get(&(state, id)).copied()
+        }
+
+        /// The same action, looked up in the compressed table as the parser does
+        pub fn compressed_action(&self, state: usize, terminal: usize) -> i32 {
+            let (table, default, _) = self.compressed.as_ref().unwrap();
+            let i = table.state_to_offset[state] as usize + terminal;
+            if table.index_check[i] != terminal as i16 {
+                return 0;
+            }
+            let value = match table.compressed_values[i] {
+                DEFAULT_ACTION_CODE => default[state],
+                v => v,
+            };
+            match value {
+                ERROR_ACTION_CODE => 0,
+                0 => i32::MAX,
+                v => v as i32,
+            }
+        }
+
+        pub fn compressed_goto(&self, state: usize, non_terminal: usize) -> Option<usize> {
+            let (_, _, table) = self.compressed.as_ref().unwrap();
+            let i = table.state_to_offset[state] as usize + non_terminal;
+            if table.index_check[i] != non_terminal as i16 {
+                return None;
+            }
+            usize::try_from(table.compressed_values[i]).ok()
+        }
+    }
+}
diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index f85c32f..3b3e0c7 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -201,3 +201,53 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
     // dbg!(&tokens);
     Ok(tokens)
 }
+
+/// Read-only views of the scanner engines for model checking; see `cst::verif_hooks`
+#[cfg(pgcst_verif)]
+pub mod verif_hooks {
+    use super::generated::State;
+
+    const STATES: [State; 12] = [
+        State::INITIAL,
+        State::xb,
+        State::xc,
+        State::xd,
+        State::xh,
+        State::xq,
+        State::xqs,
+        State::xe,
+        State::xdolq,
+        State::xui,
+        State::xus,
+        State::xeu,
+    ];
+
+    /// Scanner state, transition table and accepted rule of every automaton
+    #[cfg(not(feature = "regex-match"))]
+    pub fn automata() -> Vec<(String, &'static [[u8; 256]], &'static [u8])> {
+        STATES
+            .iter()
+            .map(|state| {
+                let (transition, accept) = super::generated::dfa::get_dfa_table(*state);
+                (format!("{state:?}"), transition, accept)
+            })
+            .collect()
+    }
+
+    /// Scanner state, pattern, end-of-file flag and kind of every rule, in order
+    #[cfg(feature = "regex-match")]
+    pub fn rules() -> Vec<(String, String, bool, String)> {
+        super::generated::get_rules()
+            .into_iter()
+            .filter(|rule| STATES.contains(&rule.state))
+            .map(|rule| {
+                (
+                    format!("{:?}", rule.state),
+                    rule.pattern.as_str().to_string(),
+                    rule.eof,
+                    format!("{:?}", rule.kind),
+                )
+            })
+            .collect()
+    }
+}
-- 
2.43.0


From 38532b1f7048adf97b6014c83064e37a2c638683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 16/34] fix: '/*/' opens a comment of a grammar file and does
 not end it

---
 crates/parser-generator/src/parser_generator/bison.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 06b2db5..4376ccf 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -405,6 +405,8 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             if c == '*' {
+                // The asterisk that opens the comment is not part of its end
+                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 while !chars[i..].starts_with(&['*', '/']) {
                     update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 }
-- 
2.43.0


From 687e59b2b40ce3f91352e15f90a9f6959ad45fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 17/34] fix: comments in precedence declarations of a grammar
 file are skipped wherever they stand

---
 .../src/parser_generator/bison.rs             | 43 +++++++++++++++----
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 4376ccf..29700dc 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -222,13 +222,41 @@ fn parse_token(bison: &mut Bison, line: &str, deq: &mut VecDeque<String>) {
     }
 }
 
+/// Removes the comments of a declaration line. `in_comment` tells whether the line starts (and, on
+/// return, whether it ends) inside a block comment.
+fn remove_comments(line: &str, in_comment: &mut bool) -> String {
+    let mut res = String::new();
+    let mut rest = line;
+
+    loop {
+        if *in_comment {
+            let Some(end) = rest.find("*/") else {
+                return res;
+            };
+            rest = &rest[end + 2..];
+            *in_comment = false;
+            res.push(' ');
+        } else {
+            let block = rest.find("/*").unwrap_or(rest.len());
+            let line = rest.find("//").unwrap_or(rest.len());
+            res.push_str(&rest[..block.min(line)]);
+            if block >= line {
+                return res;
+            }
+            rest = &rest[block + 2..];
+            *in_comment = true;
+        }
+    }
+}
+
 fn parse_assoc(
     bison: &mut Bison,
     line: &str,
     deq: &mut VecDeque<String>,
     directive: AssocDirective,
 ) {
-    let mut line = line
+    let mut in_comment = false;
+    let mut line = remove_comments(line, &mut in_comment)
         .split_ascii_whitespace()
         .skip(1)
         .collect::<Vec<_>>()
@@ -238,12 +266,6 @@ fn parse_assoc(
 
     loop {
         for name in line.split_whitespace() {
-            // If we find the start of a block comment, end
-            // This is rough but works fine for parsing postgresql's grammar
-            if name == "/*" {
-                break;
-            }
-
             let assoc = Assoc {
                 name: name.to_string(),
                 priority,
@@ -254,8 +276,11 @@ fn parse_assoc(
         }
 
         // If it starts with a space, consider it as a continuation line
-        if deq.front().is_some_and(is_start_whitespace) {
-            line = deq.pop_front().unwrap();
+        if in_comment || deq.front().is_some_and(is_start_whitespace) {
+            let Some(next) = deq.pop_front() else {
+                break;
+            };
+            line = remove_comments(&next, &mut in_comment);
         } else {
             break;
         }
-- 
2.43.0


From ce352ba6b63068f1fbb3f59af10393b199a95b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 18/34] fix: the <<EOF>> transition was followed before the end
 of the text

---
 crates/automata/src/dfa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/automata/src/dfa.rs b/crates/automata/src/dfa.rs
index 5e393fd..10d2827 100644
--- a/crates/automata/src/dfa.rs
+++ b/crates/automata/src/dfa.rs
@@ -32,7 +32,7 @@ impl DFA {
         for &b in bs {
             let next_state = self.states[state].transitions[b as usize];
             if next_state == INVALID_STATE {
-                break;
+                return accepted;
             }
 
             if self.states[next_state].accept_lexer_rule_id.is_some() {
-- 
2.43.0


From 8c2d69f352e6c124bbc83b737ee9c78a23f33a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 19/34] fix: braces in comments and literals of a grammar
 file's actions do not count

---
 .../src/parser_generator/bison.rs             | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 29700dc..ddaa2a9 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -316,6 +316,29 @@ impl BisonToken {
     }
 }
 
+/// If a comment, a string or a character literal of the C code of an action starts at `i`, returns
+/// the position behind it.
+fn end_of_comment_or_literal(chars: &[char], i: usize) -> Option<usize> {
+    let behind = |start: usize, end: &[char]| {
+        (start..chars.len())
+            .find(|&j| chars[j..].starts_with(end))
+            .map_or(chars.len(), |j| j + end.len())
+    };
+
+    match (chars[i], chars.get(i + 1)) {
+        ('/', Some('/')) => Some(behind(i + 2, &['\n'])),
+        ('/', Some('*')) => Some(behind(i + 2, &['*', '/'])),
+        (quote @ ('"' | '\''), _) => {
+            let mut j = i + 1;
+            while j < chars.len() && chars[j] != quote {
+                j += if chars[j] == '\\' { 2 } else { 1 };
+            }
+            Some((j + 1).min(chars.len()))
+        }
+        _ => None,
+    }
+}
+
 /// scan bison's grammar file
 fn scan(body: String) -> Vec<BisonToken> {
     let mut tokens = Vec::new();
@@ -407,7 +430,11 @@ fn scan(body: String) -> Vec<BisonToken> {
                     _ => (),
                 }
 
-                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                // Braces in comments and literals do not count
+                let end = end_of_comment_or_literal(&chars, i).unwrap_or(i + 1);
+                while i < end {
+                    update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                }
                 if depth == 0 {
                     break;
                 }
-- 
2.43.0


From 34a3a113c1dda1d4ac0dc66507543a22c964282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 20/34] fix: any blanks separate the names of a scanner file's
 definitions and start conditions

---
 crates/lexer-generator/src/flex_file.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index d8f5a99..5c20a61 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -136,13 +136,14 @@ pub fn parse_flex_file(s: impl AsRef<str>) -> FlexFile {
             continue;
         }
 
-        if let Some(rest) = line.strip_prefix("%x ") {
-            flex_file.all_states.push(rest.to_owned());
+        if let Some(rest) = line.strip_prefix("%x").filter(|s| s.starts_with([' ', '\t'])) {
+            let states = rest.split_whitespace().map(str::to_owned);
+            flex_file.all_states.extend(states);
             continue;
         }
 
         if pattern_identifier.is_match(&line) {
-            let (a, b) = line.split_once('\t').unwrap();
+            let (a, b) = line.split_once([' ', '\t']).unwrap();
             let b = b.trim();
 
             flex_file.definitions.push(Definition {
-- 
2.43.0


From 08b9212ffafc292ab3238d85175d13ecba557568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 21/34] fix: blanks in quotes and classes do not end a pattern
 of a scanner file, nor is an action required

---
 crates/lexer-generator/src/flex_file.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index 5c20a61..155f1c7 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -45,6 +45,28 @@ fn parse_actions(mut line: String, it: &mut impl Iterator<Item = String>) -> Str
     }
 }
 
+/// Returns where the pattern of a rule ends: at the first blank outside quotes and character classes
+fn end_of_pattern(line: &str) -> usize {
+    let mut in_quotes = false;
+    let mut in_class = false;
+    let mut it = line.char_indices();
+
+    while let Some((i, c)) = it.next() {
+        match c {
+            '\\' => {
+                it.next();
+            }
+            '"' if !in_class => in_quotes = !in_quotes,
+            '[' if !in_quotes => in_class = true,
+            ']' if !in_quotes => in_class = false,
+            c if c.is_whitespace() && !in_quotes && !in_class => return i,
+            _ => (),
+        }
+    }
+
+    line.len()
+}
+
 fn parse_pattern_actions(
     line: String,
     it: &mut impl Iterator<Item = String>,
@@ -59,7 +81,7 @@ fn parse_pattern_actions(
         return Some(("<<EOF>>".to_owned(), actions));
     }
 
-    let j = line.chars().position(|c| c.is_whitespace()).unwrap();
+    let j = end_of_pattern(&line);
 
     let pattern = line[..j].to_owned();
     let actions = parse_actions(line[j..].to_owned(), it);
-- 
2.43.0


From 25b1a47fbcb675c687cc23ea3eb7f299ce966449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 22/34] fix: braces in comments and literals of a scanner
 file's actions do not count

---
 crates/lexer-generator/src/flex_file.rs | 47 +++++++++++++++++++++----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index 155f1c7..28eb765 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -24,20 +24,50 @@ pub struct FlexFile {
 fn parse_actions(mut line: String, it: &mut impl Iterator<Item = String>) -> String {
     let mut depth = 0;
     let mut res = String::new();
+    let mut in_comment = false;
+    let mut in_string = false;
 
     loop {
-        for c in line.chars() {
-            if c == '{' {
-                depth += 1;
-            } else if c == '}' {
-                depth -= 1;
+        // Braces in comments, strings and character literals do not count
+        let mut rest = line.as_str();
+        while let Some(c) = rest.chars().next() {
+            let mut len = c.len_utf8();
+            if in_comment {
+                if rest.starts_with("*/") {
+                    in_comment = false;
+                    len = 2;
+                }
+            } else if in_string {
+                match c {
+                    '\\' => len += rest[1..].chars().next().map_or(0, char::len_utf8),
+                    '"' => in_string = false,
+                    _ => (),
+                }
+            } else if rest.starts_with("//") {
+                break;
+            } else if rest.starts_with("/*") {
+                in_comment = true;
+                len = 2;
+            } else if let Some(s) = ["'{'", "'}'", "'\"'", "'\\\"'"]
+                .iter()
+                .find(|s| rest.starts_with(**s))
+            {
+                len = s.len();
+            } else {
+                match c {
+                    '{' => depth += 1,
+                    '}' => depth -= 1,
+                    '"' => in_string = true,
+                    _ => (),
+                }
             }
+            rest = &rest[len..];
         }
 
         res += &line;
         res += "\n";
 
-        if depth == 0 {
+        if depth == 0 && !in_comment {
             return res;
         }
 
@@ -158,7 +188,10 @@ pub fn parse_flex_file(s: impl AsRef<str>) -> FlexFile {
             continue;
         }
 
-        if let Some(rest) = line.strip_prefix("%x").filter(|s| s.starts_with([' ', '\t'])) {
+        if let Some(rest) = line
+            .strip_prefix("%x")
+            .filter(|s| s.starts_with([' ', '\t']))
+        {
             let states = rest.split_whitespace().map(str::to_owned);
             flex_file.all_states.extend(states);
             continue;
-- 
2.43.0


From bb961db7176120d0e6dc000e382ffd20e93ed2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 23/34] fix: comments and indented rules of a scanner file

---
 crates/lexer-generator/src/flex_file.rs | 26 ++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index 28eb765..b50d76f 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -122,12 +122,24 @@ fn parse_pattern_actions(
 fn parse_rules(states: Vec<String>, it: &mut impl Iterator<Item = String>) -> Vec<Rule> {
     let mut rules = Vec::new();
 
+    // Only the rules of a start condition scope may be indented
+    let in_scope = !states.is_empty();
+
     while let Some(mut line) = it.next() {
+        if line.trim_start().starts_with("/*") {
+            skip_comment(&line, it);
+            continue;
+        }
+
+        if in_scope {
+            line = line.trim_start().to_owned();
+        }
+
         if line.starts_with("%%") || line.starts_with('}') {
             break;
         }
 
-        if line.trim().is_empty() {
+        if line.trim().is_empty() || line.starts_with([' ', '\t']) {
             continue;
         }
 
@@ -161,6 +173,13 @@ fn parse_rules(states: Vec<String>, it: &mut impl Iterator<Item = String>) -> Ve
     rules
 }
 
+/// Skips the lines of a comment that starts at `line`
+fn skip_comment(line: &str, it: &mut impl Iterator<Item = String>) {
+    if !line.contains("*/") {
+        it.find(|line| line.contains("*/"));
+    }
+}
+
 fn skip_c_source(it: &mut impl Iterator<Item = String>) {
     for line in it {
         if line == "%}" {
@@ -188,6 +207,11 @@ pub fn parse_flex_file(s: impl AsRef<str>) -> FlexFile {
             continue;
         }
 
+        if line.starts_with("/*") {
+            skip_comment(&line, &mut it);
+            continue;
+        }
+
         if let Some(rest) = line
             .strip_prefix("%x")
             .filter(|s| s.starts_with([' ', '\t']))
-- 
2.43.0


From 8de691f8d4436c593842074c543bf14a690b7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 24/34] fix: blanks and comments after the brace that opens a
 start condition scope made it a rule

---
 crates/lexer-generator/src/flex_file.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index b50d76f..363f307 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -149,7 +149,11 @@ fn parse_rules(states: Vec<String>, it: &mut impl Iterator<Item = String>) -> Ve
             states = line[1..end].split(',').map(str::to_owned).collect();
             line = line[end + 1..].to_owned();
 
-            if line.starts_with('{') && line.len() == 1 {
+            let opening = line.strip_prefix('{').map(str::trim_start);
+            if let Some(rest) = opening.filter(|s| s.is_empty() || s.starts_with("/*")) {
+                if !rest.is_empty() {
+                    skip_comment(rest, it);
+                }
                 let mut nested_rules = parse_rules(states, it);
                 rules.append(&mut nested_rules);
                 continue;
-- 
2.43.0


From c0960bf5cb6a1d327a27870233315ef59afd2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 25/34] fix: start conditions of a rule inside a scope replaced
 those of the scope

---
 crates/lexer-generator/src/flex_file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index 363f307..6d8aa55 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -146,7 +146,12 @@ fn parse_rules(states: Vec<String>, it: &mut impl Iterator<Item = String>) -> Ve
         let mut states = states.clone();
         if line.starts_with("<") && !line.starts_with("<<") {
             let end = line.find('>').unwrap();
-            states = line[1..end].split(',').map(str::to_owned).collect();
+            // inside a scope the start conditions of a rule add to those of the scope
+            for state in line[1..end].split(',').map(str::to_owned) {
+                if !states.contains(&state) {
+                    states.push(state);
+                }
+            }
             line = line[end + 1..].to_owned();
 
             let opening = line.strip_prefix('{').map(str::trim_start);
-- 
2.43.0


From 532efa5c412d4aa7aa58e1aa89df57c09d2b9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 26/34] fix: escapes in quoted text of a pattern were taken
 literally

---
 crates/automata/src/regexp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 5e9c230..316b287 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -204,6 +204,12 @@ impl RegexpParser {
         self.index += 1;
         loop {
             let c = self.bytes[self.index];
+
+            if c == b'\\' {
+                nodes.push(self.parse_escape_sequence_as_node());
+                continue;
+            }
+
             self.index += 1;
 
             if c == b'"' {
-- 
2.43.0


From 58df8e52cff795595cc8eb20fc336dade18a6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 27/34] fix: numeric escapes of a pattern took more digits than
 flex does

---
 crates/automata/src/regexp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 316b287..7c7b87c 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -91,8 +91,9 @@ impl RegexpParser {
             b'v' => b'\x0b',
             b'x' => {
                 let mut v = 0;
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
                     if !c.is_ascii_hexdigit() {
@@ -113,13 +114,14 @@ impl RegexpParser {
                 v
             }
             // If no format specified, treat as octal number
-            b'0'..=b'9' => {
+            b'0'..=b'7' => {
                 let mut v = c - b'0';
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
-                    if !c.is_ascii_digit() {
+                    if !(b'0'..=b'7').contains(&c) {
                         break;
                     }
 
-- 
2.43.0


From 021f71f12c33bc7c31d62d6543bf66bd67498fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 28/34] fix: \a in a pattern stood for the letter a

---
 crates/automata/src/regexp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 7c7b87c..3746806 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -83,6 +83,7 @@ impl RegexpParser {
         self.index += 1;
 
         match c {
+            b'a' => b'\x07',
             b'b' => b'\x08',
             b'f' => b'\x0c',
             b't' => b'\t',
-- 
2.43.0


From f48b3d26e3a72d386040cd61951d50bfd799b361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 29/34] fix: a bracket that comes first in a character class of
 a pattern closed it

---
 crates/automata/src/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 3746806..88ed72a 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -154,6 +154,7 @@ impl RegexpParser {
             false
         };
 
+        let first = self.index;
         let mut is_minus = false;
         while self.index < self.bytes.len() {
             let c = self.bytes[self.index];
@@ -162,7 +163,7 @@ impl RegexpParser {
             is_minus = false;
 
             match c {
-                b']' => {
+                b']' if self.index > first => {
                     let bs = nodes
                         .into_iter()
                         .map(|node| match node {
-- 
2.43.0


From ab5d3b9aa61b73b57788fb1e7dc90bd563cc8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 30/34] fix: a repetition without an upper limit made the
 reader of patterns panic

---
 crates/automata/src/regexp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 88ed72a..dd7f992 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -255,6 +255,13 @@ impl RegexpParser {
             let max_str = std::str::from_utf8(&content[i + 1..]).unwrap();
 
             let min = min_str.parse().unwrap();
+            if max_str.is_empty() {
+                let rest = RegexpNode::ZeroOrMore(last.clone().into());
+                return RegexpNode::Concatenation(vec![
+                    RegexpNode::Repeat(last.into(), min, min),
+                    rest,
+                ]);
+            }
             let max = max_str.parse().unwrap();
             return RegexpNode::Repeat(last.into(), min, max);
         }
-- 
2.43.0


From 0844128604ffc099c21beab2f917a445d1adcc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 31/34] fix: a bracket that comes first in a character class
 ended the class in the reader of scanner files

---
 crates/lexer-generator/src/flex_file.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index 6d8aa55..e56efae 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -87,7 +87,16 @@ fn end_of_pattern(line: &str) -> usize {
                 it.next();
             }
             '"' if !in_class => in_quotes = !in_quotes,
-            '[' if !in_quotes => in_class = true,
+            '[' if !in_quotes && !in_class => {
+                in_class = true;
+
+                // A bracket that comes first belongs to the class
+                let rest = &line[i + 1..];
+                let first = rest.strip_prefix('^').unwrap_or(rest);
+                if first.starts_with(']') {
+                    it.nth(rest.len() - first.len());
+                }
+            }
             ']' if !in_quotes => in_class = false,
             c if c.is_whitespace() && !in_quotes && !in_class => return i,
             _ => (),
-- 
2.43.0


From f4a4d2f62dc7d45b3dc217c5edcd63c1ed17db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 32/34] fix: a closing bracket outside a character class ended
 a pattern

---
 crates/automata/src/regexp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index dd7f992..3225c17 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -324,7 +324,7 @@ impl RegexpParser {
                 self.index += 1;
                 RegexpNode::NoneOf(Vec::new())
             }
-            b']' | b')' | b'}' => unreachable!(),
+            b')' | b'}' => unreachable!(),
             _ => {
                 self.index += 1;
                 RegexpNode::Char(c)
@@ -340,7 +340,7 @@ impl RegexpParser {
             let c = self.bytes[self.index];
 
             match c {
-                b')' | b']' | b'}' => {
+                b')' | b'}' => {
                     break;
                 }
                 b'|' => {
-- 
2.43.0


From 26289e30aca71b4500b1a2593bd812c82c545713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 33/34] fix: a scanner state without rules made the
 construction of automata panic

---
 crates/automata/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/automata/src/lib.rs b/crates/automata/src/lib.rs
index b8c829c..cc0b544 100644
--- a/crates/automata/src/lib.rs
+++ b/crates/automata/src/lib.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use dfa::{DFA, INVALID_STATE};
 use nfa::{NFA, NFAState, Transition};
@@ -178,8 +178,8 @@ pub fn to_flex_pattern_dfa(
     let num_state = pattern_defs
         .iter()
         .flat_map(|p| p.state_set.iter().cloned())
-        .collect::<HashSet<_>>()
-        .len();
+        .max()
+        .map_or(0, |max_state| max_state + 1);
 
     let state_start_node = (0..num_state).map(|_| nfa.new_state()).collect::<Vec<_>>();
 
-- 
2.43.0


From d4cde45188d08b1ea6134d42c70cab4a6d173c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 34/34] fix: of several rules that compete with a shift, only
 the first was compared with it

---
 .../src/parser_generator/lalr.rs              | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lalr.rs b/crates/parser-generator/src/parser_generator/lalr.rs
index 042713b..8fb83d5 100644
--- a/crates/parser-generator/src/parser_generator/lalr.rs
+++ b/crates/parser-generator/src/parser_generator/lalr.rs
@@ -546,10 +546,10 @@ impl Lalr {
             // In bison, accepting is a shift of the end marker, so it is preferred to any reduction
             reduce_rules.sort_by_key(|item| item.rule_index != start_rule_index);
 
-            let get_conflicted_reduce_rule = |shift_comp: &ComponentId| -> Option<&&Item> {
+            let get_conflicted_reduce_rules = |shift_comp: ComponentId| {
                 reduce_rules
                     .iter()
-                    .find(|item| item.lookahead.contains(shift_comp))
+                    .filter(move |item| item.lookahead.contains(&shift_comp))
             };
 
             for e in &s.edge {
@@ -563,7 +563,11 @@ impl Lalr {
             }
 
             for terminal in &self.all_terminal {
-                if let Some(item) = get_conflicted_reduce_rule(terminal) {
+                // Without a shift, the first rule is adopted. Otherwise, bison settles the conflict
+                // with the shift for each of the rules
+                let mut undecided = None;
+
+                for item in get_conflicted_reduce_rules(*terminal) {
                     let reduce_action = if item.rule_index == start_rule_index {
                         Action::Accept
                     } else {
@@ -575,7 +579,7 @@ impl Lalr {
                     // not conflict
                     if let Entry::Vacant(e) = action_table.entry(key) {
                         e.insert(reduce_action);
-                        continue;
+                        break;
                     }
 
                     // shift-reduce conflict
@@ -588,17 +592,20 @@ impl Lalr {
                         }
                         (Some(reduce), Some(shift)) if reduce.priority > shift.priority => {
                             // adopt reduce
-                            action_table.insert(key, reduce_action);
+                            action_table.insert(key, undecided.unwrap_or(reduce_action));
+                            break;
                         }
                         (Some(_), Some(shift)) => {
                             match shift.directive {
                                 AssocDirective::NonAssoc => {
                                     // This case is a parse error
                                     action_table.insert(key, Action::Error);
+                                    break;
                                 }
                                 AssocDirective::Left => {
                                     // adopt reduce
-                                    action_table.insert(key, reduce_action);
+                                    action_table.insert(key, undecided.unwrap_or(reduce_action));
+                                    break;
                                 }
                                 AssocDirective::Right => {
                                     // adopt shift
@@ -607,6 +614,7 @@ impl Lalr {
                         }
                         _ => {
                             // If either one doesn't have a priority, shift seems to be preferred
+                            undecided.get_or_insert(reduce_action);
                         }
                     }
                 }
-- 
2.43.0

