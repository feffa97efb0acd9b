From b5a5bc703530745f8fc93acfdde40d9b1be3b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:56 +0000
Subject: [PATCH 01/45] verif hook: expose internals under cfg(bq2cst_verif)

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4b7a678..accbd4e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 // https://github.com/rustwasm/wasm-bindgen/issues/2882
 #![allow(non_upper_case_globals)]
+#![allow(unexpected_cfgs)] // bq2cst_verif
 
 mod constants;
 mod cst;
@@ -10,6 +11,17 @@ mod token;
 mod types;
 mod utils;
 
+// Verification hook: exposes the internals to an external harness.
+// It is compiled only with RUSTFLAGS="--cfg bq2cst_verif".
+#[cfg(bq2cst_verif)]
+pub mod verif {
+    pub use crate::cst::{ContentType, Node, NodeType};
+    pub use crate::error::BQ2CSTError;
+    pub use crate::lexer::Lexer;
+    pub use crate::parser::Parser;
+    pub use crate::token::Token;
+}
+
 use serde::Serialize;
 use serde_wasm_bindgen::Serializer;
 use wasm_bindgen::prelude::*;
-- 
2.43.0


From 9d7fe367d59171e99d08d805e54bd4ada5c58da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:50 +0000
Subject: [PATCH 02/45] fix: tokenizer crashed on a leading `<` and missed a
 type list after a comment

A `<` as the first token unwrapped an empty token list, and a comment between
ARRAY/STRUCT and `<` hid the type declaration, so that a following `>>` was not
split.
---
 src/lexer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..b480bc1 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,9 +153,8 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
+                    let prev = self.tokens.iter().rev().find(|t| !t.is_comment());
+                    if prev.is_some_and(|t| t.in_(&vec!["ARRAY", "STRUCT"])) {
                         self.type_declaration_depth += 1;
                     }
                     self.next_char()?;
-- 
2.43.0


From cf8c1666015219fba14eb632e0806c02ada3451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:51 +0000
Subject: [PATCH 03/45] fix: split `>>` that closes a RANGE<...> type

`TABLE<x RANGE<DATE>>` was tokenized with a shift operator.
---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index b480bc1..c163279 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -154,7 +154,7 @@ impl Lexer {
                     self.construct_token(line, column, "<>".to_string())
                 } else {
                     let prev = self.tokens.iter().rev().find(|t| !t.is_comment());
-                    if prev.is_some_and(|t| t.in_(&vec!["ARRAY", "STRUCT"])) {
+                    if prev.is_some_and(|t| t.in_(&vec!["ARRAY", "STRUCT", "RANGE"])) {
                         self.type_declaration_depth += 1;
                     }
                     self.next_char()?;
-- 
2.43.0


From 191e707deac2a722047fee734ae37cc99bc6ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:51 +0000
Subject: [PATCH 04/45] fix: `/*/` is not a complete block comment

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index c163279..65d85b7 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -311,6 +311,8 @@ impl Lexer {
     }
     fn read_multiline_comment(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        self.next_char()?; // / -> *
+        self.next_char()?; // * ->
         while !(self.get_char(0) == Some('*') && self.get_char(1) == Some('/')) {
             self.next_char()?;
         }
-- 
2.43.0


From 44dc21bbe4d68c430773403d36d3b65a6d5185b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:51 +0000
Subject: [PATCH 05/45] fix: an empty template such as `{}` ended at a later
 brace

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 65d85b7..9766dd8 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -223,9 +223,9 @@ impl Lexer {
                 } else {
                     let mut end = false;
                     'outer: while !end {
-                        self.next_char()?;
                         for i in 0..count {
                             if self.get_char(i) != Some('}') {
+                                self.next_char()?;
                                 continue 'outer;
                             };
                         }
-- 
2.43.0


From 170eda0b1b4b12320c71e677542660ef5116d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:51 +0000
Subject: [PATCH 06/45] fix: a quoted identifier ended at an escaped backtick

Quoted identifiers have the same escape sequences as string literals.
---
 src/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9766dd8..3e76ac2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -268,8 +268,10 @@ impl Lexer {
     fn read_back_quoted(&mut self) -> BQ2CSTResult<String> {
         let quote = self.get_char(0);
         let first_position = self.position;
+        let mut odd_backslashes = false;
         self.next_char()?;
-        while self.get_char(0) != quote {
+        while odd_backslashes || self.get_char(0) != quote {
+            odd_backslashes = !odd_backslashes && self.get_char(0) == Some('\\');
             self.next_char()?;
         }
         self.next_char()?; // ' -> next_ch
-- 
2.43.0


From 0b8fcf1fc162cc26b10d8bc0f4d72eee690fde85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:51 +0000
Subject: [PATCH 07/45] fix: a unary operator bound tighter than field access
 and function chains

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..f1c0edf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -459,7 +459,7 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(102, false, false, false, true)?;
+                    let right = self.parse_expr(103, false, false, false, true)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
-- 
2.43.0


From d0b6764f9ed948f50f3229417757b3b91830f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:10 +0000
Subject: [PATCH 08/45] fix: a sort direction was attached to the last operand
 instead of the whole expression

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f1c0edf..231faac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -217,14 +217,14 @@ impl Parser {
         // NOTE `AND` is not parsed as binary operator because of precedence
         between.push_node(
             "right_min",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         self.next_token()?; // expr1 -> AND
         between.push_node("and", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // AND -> expr2
         between.push_node(
             "right_max",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(between)
     }
@@ -243,7 +243,7 @@ impl Parser {
         node.push_node("left", left);
         node.push_node(
             "right",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(node)
     }
@@ -459,7 +459,7 @@ impl Parser {
                 "-" | "+" | "~" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // - -> expr
-                    let right = self.parse_expr(103, false, false, false, true)?;
+                    let right = self.parse_expr(103, false, false, false, false)?;
                     left.push_node("right", right);
                 }
                 "DATE" | "TIME" | "DATETIME" | "TIMESTAMP" | "NUMERIC" | "BIGNUMERIC"
@@ -470,7 +470,7 @@ impl Parser {
                     {
                         left.node_type = NodeType::UnaryOperator;
                         self.next_token()?; // -> expr
-                        let right = self.parse_expr(002, false, false, false, true)?;
+                        let right = self.parse_expr(002, false, false, false, false)?;
                         left.push_node("right", right);
                     }
                 }
@@ -491,13 +491,13 @@ impl Parser {
                 "TABLE" | "MODEL" => {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // TABLE -> ident
-                    let right = self.parse_expr(002, false, true, false, true)?;
+                    let right = self.parse_expr(002, false, true, false, false)?;
                     left.push_node("right", right);
                 }
                 "B" | "R" | "BR" | "RB" => {
                     if self.get_token(1)?.is_string() {
                         self.next_token()?; // R -> 'string'
-                        let right = self.parse_expr(001, false, false, false, true)?;
+                        let right = self.parse_expr(001, false, false, false, false)?;
                         left.push_node("right", right);
                         left.node_type = NodeType::UnaryOperator;
                     }
@@ -513,7 +513,7 @@ impl Parser {
                 }
                 "NOT" => {
                     self.next_token()?; // NOT -> boolean
-                    let right = self.parse_expr(110, false, false, false, true)?;
+                    let right = self.parse_expr(110, false, false, false, false)?;
                     left.push_node("right", right);
                     left.node_type = NodeType::UnaryOperator;
                 }
@@ -732,7 +732,7 @@ impl Parser {
                     if self.get_token(0)?.literal.as_str() == "*" {
                         dot.push_node(
                             "right",
-                            self.parse_expr(usize::MAX, false, false, false, true)?,
+                            self.parse_expr(usize::MAX, false, false, false, false)?,
                         );
                     } else {
                         // after dot true means parse as identifier
@@ -743,7 +743,7 @@ impl Parser {
                                 false,
                                 as_table,
                                 !is_chained_function,
-                                true,
+                                false,
                             )?,
                         );
                     }
@@ -987,7 +987,7 @@ impl Parser {
             self.next_token()?; // IN -> UNNEST
             let mut unnest = self.parse_expr(
                 102, // NOTE 102 is a little greater than `(` (calling function)
-                false, false, false, true,
+                false, false, false, false,
             )?;
             unnest.node_type = NodeType::CallingUnnest;
             node.push_node("right", unnest);
@@ -1021,7 +1021,7 @@ impl Parser {
         self.next_token()?; // FROM -> expr
         node.push_node(
             "right",
-            self.parse_expr(precedence, false, false, false, true)?,
+            self.parse_expr(precedence, false, false, false, false)?,
         );
         Ok(node)
     }
-- 
2.43.0


From 576ebd6d8db84d9864a4bc7f3b83900fa1c57024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:31 +0000
Subject: [PATCH 09/45] fix: numbers such as `1.` and `1.e3` were not numeric
 literals

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 55df731..b2574ef 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -90,7 +90,7 @@ impl Token {
         }
     }
     pub fn is_numeric(&self) -> bool {
-        let re = Regex::new(r"^([0-9]+|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
+        let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
         re.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
-- 
2.43.0


From 805a0cc4bb4c1efa007d433193afdc2abe31d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:39 +0000
Subject: [PATCH 10/45] fix: DEFAULT used as a value was an Unknown node

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 231faac..e958cb3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -73,6 +73,8 @@ impl Parser {
                     node.node_type = NodeType::Template;
                 } else if curr_token.literal.to_uppercase() == "NULL" {
                     node.node_type = NodeType::NullLiteral;
+                } else if curr_token.is("DEFAULT") {
+                    node.node_type = NodeType::Keyword; // INSERT ... VALUES (DEFAULT)
                 } else if let "(" | "." = self.get_token(1)?.literal.as_str() {
                     node.node_type = NodeType::Identifier;
                 }
-- 
2.43.0


From 15ebd7928d1661b7bbe6ec7886cada3ee671de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:45 +0000
Subject: [PATCH 11/45] fix: a call of the RANGE function was parsed as a range
 literal

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e958cb3..b1f0e70 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -421,7 +421,7 @@ impl Parser {
                     struct_literal.push_node("type", type_);
                     left = struct_literal;
                 }
-                "RANGE" => {
+                "RANGE" if self.get_token(1)?.is("<") => {
                     let type_ = self.parse_type(false, false)?;
                     self.next_token()?; // > -> '[lower, upper)'
                     let mut range_literal = self.construct_node(NodeType::RangeLiteral)?;
-- 
2.43.0


From 90c62ee68a8e3b157bbb041280760cb73c952c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:53 +0000
Subject: [PATCH 12/45] fix: a column named `table` or `model` swallowed the
 next token

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b1f0e70..747bc14 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -490,7 +490,10 @@ impl Parser {
                     }
                     left.push_node("expr", right);
                 }
-                "TABLE" | "MODEL" => {
+                // TABLE and MODEL are not reserved keywords
+                "TABLE" | "MODEL"
+                    if self.get_token(1)?.is_identifier() || self.get_token(1)?.is_template() =>
+                {
                     left.node_type = NodeType::UnaryOperator;
                     self.next_token()?; // TABLE -> ident
                     let right = self.parse_expr(002, false, true, false, false)?;
-- 
2.43.0


From 494099e1e78f2c78b3f1d4bca785ebebb3cc6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:01 +0000
Subject: [PATCH 13/45] fix: a parenthesized WITH(...) expression was parsed as
 a subquery

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 747bc14..8bb0f7a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -380,7 +380,9 @@ impl Parser {
                 "(" => {
                     self.next_token()?; // ( -> expr
                     let mut exprs;
-                    if self.get_token(0)?.in_(&vec!["WITH", "SELECT"]) {
+                    if self.get_token(0)?.is("SELECT")
+                        || self.get_token(0)?.is("WITH") && !self.get_token(1)?.is("(")
+                    {
                         left.node_type = NodeType::GroupedStatement;
                         left.push_node("stmt", self.parse_select_statement(false, true)?);
                         self.next_token()?; // expr -> )
@@ -998,7 +1000,9 @@ impl Parser {
             node.push_node("right", unnest);
         } else {
             self.next_token()?; // IN -> (
-            if self.get_token(1)?.in_(&vec!["SELECT", "WITH"]) {
+            if self.get_token(1)?.is("SELECT")
+                || self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(")
+            {
                 let mut lparen = self.construct_node(NodeType::GroupedStatement)?;
                 self.next_token()?; // -> SELECT | WITH
                 lparen.push_node("stmt", self.parse_select_statement(false, true)?);
-- 
2.43.0


From 48fe9c42545130fdd3de348db1669b417a422dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:31 +0000
Subject: [PATCH 14/45] fix: the parser crashed where an identifier was missing
 at end of input

---
 src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8bb0f7a..4fe0f5d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -949,6 +949,12 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
+                if curr_token.literal.is_empty() {
+                    return Err(BQ2CSTError::from_token(
+                        curr_token,
+                        "Expected identifier but got EOF".to_string(),
+                    ));
+                }
                 if curr_token.literal.chars().next().unwrap() == '`' {
                     break;
                 }
-- 
2.43.0


From b3a923c8d99381ec8cb58027b074adbae851d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:38 +0000
Subject: [PATCH 15/45] fix: a semicolon in the middle of MERGE was overwritten
 and lost

---
 src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4fe0f5d..bdf6c56 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2662,10 +2662,6 @@ impl Parser {
             self.parse_expr(usize::MAX, true, false, false, true)?,
         );
         merge.push_node("using", using);
-        if self.get_token(1)?.is(";") {
-            self.next_token()?; // -> ;
-            merge.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
-        }
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // ON -> expr
-- 
2.43.0


From fc06e7bcea35d93fc7001fe96a1b1cf843870995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:44 +0000
Subject: [PATCH 16/45] fix: an unnamed struct field with a parameterized type
 was taken for a field name

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bdf6c56..e6ce518 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1453,7 +1453,7 @@ impl Parser {
                     let mut type_declarations = Vec::new();
                     while !self.get_token(0)?.is(">") {
                         let mut type_declaration;
-                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<"]) {
+                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<", "("]) {
                             // `is_identifier` is not availabe here,
                             // because `int64` is valid identifier
                             type_declaration = self.construct_node(NodeType::TypeDeclaration)?;
-- 
2.43.0


From 4b6b38764be4a3c6718bd7843230862aa7b10221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:49 +0000
Subject: [PATCH 17/45] fix: `|>` directly after a table name became part of
 the name

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e6ce518..9ac35ec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -962,7 +962,7 @@ impl Parser {
                     Ok(n) => n,
                     Err(_) => break, // in the case of EOF
                 };
-                if next_token.in_(&vec![",", ".", "(", ")", ";"]) {
+                if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
                 if !(curr_token.literal.chars().last().unwrap() == '.')
-- 
2.43.0


From 20347ef0debd20967d190247ee5bc4a36810bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:55 +0000
Subject: [PATCH 18/45] fix: the closing brace of a pattern quantifier without
 upper bound was its upper bound

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9ac35ec..4e293ff 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1979,8 +1979,10 @@ impl Parser {
         if self.get_token(1)?.is(",") {
             self.next_token()?; // -> ,
             quantifier.push_node("comma", self.construct_node(NodeType::Symbol)?);
-            self.next_token()?; // -> n
-            quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            if !self.get_token(1)?.is("}") {
+                self.next_token()?; // -> n
+                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);
+            }
         }
         self.next_token()?; // -> }
         quantifier.push_node("rbrace", self.construct_node(NodeType::Symbol)?);
-- 
2.43.0


From f53ac725bcdb8541f914fd85eb485b6bf4220b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:26 +0000
Subject: [PATCH 19/45] fix: a pipe query inside another statement took the
 semicolon of that statement

---
 src/parser.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4e293ff..d301869 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -305,7 +305,7 @@ impl Parser {
         let mut grouped = self.construct_node(NodeType::GroupedStatement)?;
         self.next_token()?; // ( -> SELECT | FROM
         if self.get_token(0)?.is("FROM") {
-            grouped.push_node("stmt", self.parse_from_statement()?);
+            grouped.push_node("stmt", self.parse_from_statement(false)?);
         } else {
             grouped.push_node("stmt", self.parse_select_statement(false, true)?);
         }
@@ -1112,7 +1112,7 @@ impl Parser {
                 // actually, it may be pipe syntax
                 self.parse_select_statement(semicolon, true)?
             }
-            "FROM" => self.parse_from_statement()?, // pipe syntax
+            "FROM" => self.parse_from_statement(semicolon)?, // pipe syntax
             // DML
             "INSERT" => self.parse_insert_statement(semicolon)?,
             "DELETE" => self.parse_delete_statement(semicolon)?,
@@ -2029,7 +2029,7 @@ impl Parser {
             let mut node = self.construct_node(NodeType::GroupedStatement)?;
             self.next_token()?; // ( -> SELECT
             if self.get_token(0)?.is("FROM") {
-                node.push_node("stmt", self.parse_from_statement()?);
+                node.push_node("stmt", self.parse_from_statement(false)?);
             } else {
                 node.push_node("stmt", self.parse_select_statement(false, true)?);
             }
@@ -2085,7 +2085,7 @@ impl Parser {
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
             } else if self.get_token(1)?.is("|>") {
                 self.next_token()?; // -> |>
-                return self.parse_pipe_statement(node);
+                return self.parse_pipe_statement(node, semicolon);
             }
             return Ok(node);
         }
@@ -2093,7 +2093,7 @@ impl Parser {
             let with = self.parse_with_clause()?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
-                self.parse_from_statement()?
+                self.parse_from_statement(semicolon)?
             } else {
                 self.parse_select_statement(semicolon, true)?
             };
@@ -2258,27 +2258,27 @@ impl Parser {
             node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         } else if self.get_token(1)?.is("|>") && root {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(node);
+            return self.parse_pipe_statement(node, semicolon);
         }
         Ok(node)
     }
-    fn parse_from_statement(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
         from.push_node("expr", self.parse_table(true)?);
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(from);
+            return self.parse_pipe_statement(from, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             from.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
         Ok(from)
     }
-    fn parse_pipe_statement(&mut self, left: Node) -> BQ2CSTResult<Node> {
+    fn parse_pipe_statement(&mut self, left: Node, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut pipe = self.construct_node(NodeType::PipeStatement)?;
         pipe.push_node("left", left);
         self.next_token()?; // -> SELECT | LIMIT | ...
@@ -2318,10 +2318,10 @@ impl Parser {
 
         if self.get_token(1)?.is("|>") {
             self.next_token()?; // -> |>
-            return self.parse_pipe_statement(pipe);
+            return self.parse_pipe_statement(pipe, semicolon);
         }
 
-        if self.get_token(1)?.is(";") {
+        if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // -> ;
             pipe.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
         };
-- 
2.43.0


From 573035cf1c8959fea06829bc7497030d9c91c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:31 +0000
Subject: [PATCH 20/45] fix: a pipe after a parenthesized operand was attached
 to the operand

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d301869..2292b9b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2083,7 +2083,7 @@ impl Parser {
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
                 node.push_node("semicolon", self.construct_node(NodeType::Symbol)?)
-            } else if self.get_token(1)?.is("|>") {
+            } else if self.get_token(1)?.is("|>") && root {
                 self.next_token()?; // -> |>
                 return self.parse_pipe_statement(node, semicolon);
             }
-- 
2.43.0


From 1ed7c41eabcc1349841354d794345034f0560c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 21/45] fix: NOT NULL after a DEFAULT expression was rejected

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2292b9b..8bf1319 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -130,7 +130,7 @@ impl Parser {
             "=" | "<" | ">" | "<=" | ">=" | "!=" | "<>" | "LIKE" | "BETWEEN" | "IN" | "IS" => 109,
             "NOT" => match self.get_token(offset + 1)?.literal.to_uppercase().as_str() {
                 "IN" | "LIKE" | "BETWEEN" => 109,
-                "ENFORCED" => usize::MAX,
+                "ENFORCED" | "NULL" => usize::MAX, // constraint or schema
                 _ => {
                     return Err(BQ2CSTError::from_token(
                         self.get_token(offset + 1)?,
-- 
2.43.0


From 656fae304025622a84202c8e133b340988ad5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:50 +0000
Subject: [PATCH 22/45] fix: `* EXCEPT (...) REPLACE (...)` and `SELECT *
 EXCEPT DISTINCT ...` were rejected

---
 src/parser.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8bf1319..13f19d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -356,24 +356,13 @@ impl Parser {
             match self.get_token(0)?.literal.to_uppercase().as_str() {
                 "*" => {
                     left.node_type = NodeType::Asterisk;
-                    match self.get_token(1)?.literal.to_uppercase().as_str() {
-                        "REPLACE" => {
-                            self.next_token()?; // * -> REPLACE
-                            let mut replace =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // REPLACE -> (
-                            replace.push_node("group", self.parse_grouped_exprs(true)?);
-                            left.push_node("replace", replace);
-                        }
-                        "EXCEPT" => {
-                            self.next_token()?; // * -> except
-                            let mut except =
-                                self.construct_node(NodeType::KeywordWithGroupedXXX)?;
-                            self.next_token()?; // except -> (
-                            except.push_node("group", self.parse_grouped_exprs(false)?);
-                            left.push_node("except", except);
-                        }
-                        _ => (),
+                    if self.get_token(1)?.is("EXCEPT") && self.get_token(2)?.is("(") {
+                        self.next_token()?; // * -> except
+                        left.push_node("except", self.parse_keyword_with_grouped_exprs(false)?);
+                    }
+                    if self.get_token(1)?.is("REPLACE") && self.get_token(2)?.is("(") {
+                        self.next_token()?; // -> REPLACE
+                        left.push_node("replace", self.parse_keyword_with_grouped_exprs(true)?);
                     }
                 }
                 // STRUCT
-- 
2.43.0


From 4791f95c908c7293f356c9b6f64165ba66c300f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:57 +0000
Subject: [PATCH 23/45] fix: the AGGREGATE pipe operator without aggregates was
 rejected

---
 src/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 13f19d2..e481836 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2370,9 +2370,11 @@ impl Parser {
     }
     fn parse_aggregate_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
         let mut operator = self.construct_node(NodeType::AggregatePipeOperator)?;
-        self.next_token()?; // -> expr
-        let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
-        operator.push_node_vec("exprs", exprs);
+        if !self.get_token(1)?.is("GROUP") {
+            self.next_token()?; // -> expr
+            let exprs = self.parse_exprs(&vec![";", "GROUP"], true, true)?;
+            operator.push_node_vec("exprs", exprs);
+        }
         if self.get_token(1)?.is("GROUP") {
             self.next_token()?; // expr -> GROUP
             operator.push_node("groupby", self.parse_groupby_exprs(true)?);
-- 
2.43.0


From 6322521eeb2dc2621fd35487c78f184b391ed83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:52 +0000
Subject: [PATCH 24/45] fix: LEFT, INNER or FULL of a set operator after FROM
 was parsed as a join

---
 src/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e481836..db74183 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1369,9 +1369,14 @@ impl Parser {
             left.push_node("tablesample", tablesample);
         }
         // JOIN
-        while self.get_token(1)?.in_(&vec![
-            "left", "right", "cross", "inner", "full", "join", ",",
-        ]) && root
+        // NOTE LEFT, INNER and FULL may be the beginning of a set operator (e.g. FULL OUTER UNION)
+        while root
+            && (self.get_token(1)?.in_(&vec!["join", ","])
+                || self
+                    .get_token(1)?
+                    .in_(&vec!["left", "right", "cross", "inner", "full"])
+                    && (self.get_token(2)?.is("join")
+                        || self.get_token(2)?.is("outer") && self.get_token(3)?.is("join")))
         {
             self.next_token()?; // table -> LEFT, RIGHT, INNER, CROSS, FULL, JOIN, ","
             let mut join = if self.get_token(0)?.in_(&vec!["join", ","]) {
-- 
2.43.0


From bfb01c2997107c2b8696204a52aec0900e4abb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:58 +0000
Subject: [PATCH 25/45] fix: ORDER BY and LIMIT after a parenthesized last
 operand of a set operator were rejected

---
 src/parser.rs | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index db74183..e82d933 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2056,23 +2056,7 @@ impl Parser {
             // LIMIT
             if self.get_token(1)?.is("LIMIT") && root {
                 self.next_token()?; // -> LIMIT
-                let mut limit = self.construct_node(NodeType::LimitClause)?;
-                self.next_token()?; // -> expr
-                limit.push_node(
-                    "expr",
-                    self.parse_expr(usize::MAX, false, false, false, true)?,
-                );
-                if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
-                    self.next_token()?; // expr -> OFFSET
-                    let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
-                    self.next_token()?; // OFFSET -> expr
-                    offset.push_node(
-                        "expr",
-                        self.parse_expr(usize::MAX, false, false, false, true)?,
-                    );
-                    limit.push_node("offset", offset);
-                }
-                node.push_node("limit", limit);
+                node.push_node("limit", self.parse_limit_clause()?);
             }
             if self.get_token(1)?.is(";") && semicolon && root {
                 self.next_token()?; // expr -> ;
@@ -2214,23 +2198,7 @@ impl Parser {
         // LIMIT
         if self.get_token(1)?.is("LIMIT") {
             self.next_token()?; // expr -> LIMIT
-            let mut limit = self.construct_node(NodeType::LimitClause)?;
-            self.next_token()?; // LIMIT -> expr
-            limit.push_node(
-                "expr",
-                self.parse_expr(usize::MAX, false, false, false, true)?,
-            );
-            if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
-                self.next_token()?; // expr -> OFFSET
-                let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
-                self.next_token()?; // OFFSET -> expr
-                offset.push_node(
-                    "expr",
-                    self.parse_expr(usize::MAX, false, false, false, true)?,
-                );
-                limit.push_node("offset", offset);
-            }
-            node.push_node("limit", limit);
+            node.push_node("limit", self.parse_limit_clause()?);
         }
         // UNION
         while self.get_token(1)?.in_(&vec![
@@ -2246,6 +2214,17 @@ impl Parser {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
+        // ORDER BY, LIMIT of set operator whose last operand is parenthesized
+        if node.node_type == NodeType::SetOperator {
+            if self.get_token(1)?.is("ORDER") {
+                self.next_token()?; // -> ORDER
+                node.push_node("orderby", self.parse_xxxby_exprs()?);
+            }
+            if self.get_token(1)?.is("LIMIT") {
+                self.next_token()?; // -> LIMIT
+                node.push_node("limit", self.parse_limit_clause()?);
+            }
+        }
         // ;
         if self.get_token(1)?.is(";") && semicolon {
             self.next_token()?; // expr -> ;
@@ -2256,6 +2235,25 @@ impl Parser {
         }
         Ok(node)
     }
+    fn parse_limit_clause(&mut self) -> BQ2CSTResult<Node> {
+        let mut limit = self.construct_node(NodeType::LimitClause)?;
+        self.next_token()?; // LIMIT -> expr
+        limit.push_node(
+            "expr",
+            self.parse_expr(usize::MAX, false, false, false, true)?,
+        );
+        if self.get_token(1)?.is("OFFSET") {
+            self.next_token()?; // expr -> OFFSET
+            let mut offset = self.construct_node(NodeType::KeywordWithExpr)?;
+            self.next_token()?; // OFFSET -> expr
+            offset.push_node(
+                "expr",
+                self.parse_expr(usize::MAX, false, false, false, true)?,
+            );
+            limit.push_node("offset", offset);
+        }
+        Ok(limit)
+    }
     fn parse_from_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut from = self.construct_node(NodeType::FromStatement)?;
         self.next_token()?; // -> ident
-- 
2.43.0


From abb9966eaf08953336a030490e8bcd17b0624620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:00 +0000
Subject: [PATCH 26/45] fix: the source of MERGE was parsed as an expression
 instead of a table

---
 src/parser.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e82d933..d37a390 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2653,10 +2653,7 @@ impl Parser {
         self.next_token()?; // -> USING
         let mut using = self.construct_node(NodeType::KeywordWithExpr)?;
         self.next_token()?; // USING -> expr
-        using.push_node(
-            "expr",
-            self.parse_expr(usize::MAX, true, false, false, true)?,
-        );
+        using.push_node("expr", self.parse_table(true)?);
         merge.push_node("using", using);
         self.next_token()?; // -> ON
         let mut on = self.construct_node(NodeType::KeywordWithExpr)?;
-- 
2.43.0


From 01e1c24f797dcc3aeb5346e5946cf3cec942b1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:56 +0000
Subject: [PATCH 27/45] fix: the WITH pipe operator was rejected at the end of
 a query

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d37a390..6587436 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1663,7 +1663,7 @@ impl Parser {
         with.push_node("next_keyword", connection);
         Ok(with)
     }
-    fn parse_with_clause(&mut self) -> BQ2CSTResult<Node> {
+    fn parse_with_clause(&mut self, pipe: bool) -> BQ2CSTResult<Node> {
         let mut with = self.construct_node(NodeType::WithClause)?;
         if self.get_token(1)?.is("RECURSIVE") {
             self.next_token()?; // -> RECURSIVE
@@ -1674,6 +1674,7 @@ impl Parser {
             && self.get_token(1)?.literal != "("
             && self.get_token(1)?.literal != "|>"
             && self.get_token(1)?.literal.to_uppercase() != "FROM"
+            && !(pipe && (self.get_token(1)?.in_(&vec![";", ")"]) || self.is_eof(1)))
         {
             self.next_token()?; // WITH -> ident, ) -> ident
             queries.push(self.parse_cte()?);
@@ -2068,7 +2069,7 @@ impl Parser {
             return Ok(node);
         }
         if self.get_token(0)?.literal.to_uppercase() == "WITH" {
-            let with = self.parse_with_clause()?;
+            let with = self.parse_with_clause(false)?;
             self.next_token()?; // -> SELECT | '(' | FROM
             let mut node = if self.get_token(0)?.is("FROM") {
                 self.parse_from_statement(semicolon)?
@@ -2500,7 +2501,7 @@ impl Parser {
         Ok(operator)
     }
     fn parse_with_pipe_operator(&mut self) -> BQ2CSTResult<Node> {
-        let mut operator = self.parse_with_clause()?;
+        let mut operator = self.parse_with_clause(true)?;
         operator.node_type = NodeType::WithPipeOperator;
         Ok(operator)
     }
-- 
2.43.0


From 9482e4a26143e836a5dd919080a90e721d856654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:04 +0000
Subject: [PATCH 28/45] fix: an unnamed struct field with COLLATE was taken for
 a field name

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6587436..30a51d2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1447,7 +1447,10 @@ impl Parser {
                     let mut type_declarations = Vec::new();
                     while !self.get_token(0)?.is(">") {
                         let mut type_declaration;
-                        if !self.get_token(1)?.in_(&vec![",", ">", "TYPE", "<", "("]) {
+                        if !self
+                            .get_token(1)?
+                            .in_(&vec![",", ">", "TYPE", "<", "(", "COLLATE"])
+                        {
                             // `is_identifier` is not availabe here,
                             // because `int64` is valid identifier
                             type_declaration = self.construct_node(NodeType::TypeDeclaration)?;
-- 
2.43.0


From 6dbc21cfff1be6a2176373ea4afd8083c7ff57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:12 +0000
Subject: [PATCH 29/45] fix: a parenthesized join that starts with a subquery
 was parsed as a set operator

---
 src/parser.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 30a51d2..b8a77a3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -183,6 +183,18 @@ impl Parser {
         };
         self.tokens.len() - 1 <= idx
     }
+    fn is_set_operator(&self, offset: usize) -> BQ2CSTResult<bool> {
+        let operators = vec!["UNION", "INTERSECT", "EXCEPT"];
+        let token = self.get_token(offset)?;
+        if token.in_(&operators) {
+            return Ok(true);
+        }
+        // NOTE `LEFT JOIN` is not a set operator
+        Ok(token.in_(&vec!["INNER", "FULL", "LEFT", "OUTER"])
+            && (self.get_token(offset + 1)?.in_(&operators)
+                || self.get_token(offset + 1)?.is("OUTER")
+                    && self.get_token(offset + 2)?.in_(&operators)))
+    }
     fn next_token(&mut self) -> BQ2CSTResult<()> {
         // leading comments
         self.leading_comment_indices = Vec::new();
@@ -2039,16 +2051,7 @@ impl Parser {
                 ));
             }
             node.push_node("rparen", self.construct_node(NodeType::Symbol)?);
-            while self.get_token(1)?.in_(&vec![
-                "UNION",
-                "INTERSECT",
-                "EXCEPT",
-                "INNER",
-                "FULL",
-                "LEFT",
-                "OUTER",
-            ]) && root
-            {
+            while root && self.is_set_operator(1)? {
                 self.next_token()?;
                 node = self.parse_set_operator(node)?;
             }
@@ -2205,16 +2208,7 @@ impl Parser {
             node.push_node("limit", self.parse_limit_clause()?);
         }
         // UNION
-        while self.get_token(1)?.in_(&vec![
-            "UNION",
-            "INTERSECT",
-            "EXCEPT",
-            "INNER",
-            "FULL",
-            "LEFT",
-            "OUTER",
-        ]) && root
-        {
+        while root && self.is_set_operator(1)? {
             self.next_token()?;
             node = self.parse_set_operator(node)?;
         }
-- 
2.43.0


From a23d4d6f26dda3b2baec4f874f736378d320e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:57 +0000
Subject: [PATCH 30/45] fix: DROP VECTOR INDEX was rejected

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b8a77a3..ca45be5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3808,7 +3808,7 @@ impl Parser {
             drop.push_node("table", self.construct_node(NodeType::Keyword)?)
         }
         self.next_token()?; // -> SCHEMA, TABLE, VIEW, FUNCTION, PROCEDURE, SEARCH
-        if self.get_token(0)?.is("SEARCH") {
+        if self.get_token(0)?.in_(&vec!["SEARCH", "VECTOR"]) {
             let mut what = self.construct_node(NodeType::KeywordSequence)?;
             self.next_token()?; // -> INDEX
             what.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
-- 
2.43.0


From b407efe182283395a1e6b3e0da00b5ad47139486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:04 +0000
Subject: [PATCH 31/45] fix: NOT NULL after PRIMARY KEY or REFERENCES was
 parsed as NOT ENFORCED

---
 src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ca45be5..950b16d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1526,7 +1526,10 @@ impl Parser {
             let key = self.construct_node(NodeType::Keyword)?;
             primary.push_node("next_keyword", key);
             res.push_node("primarykey", primary);
-            if self.get_token(1)?.in_(&vec!["NOT", "ENFORCED"]) {
+            // NOTE `NOT` may be the beginning of `NOT NULL`
+            if self.get_token(1)?.is("ENFORCED")
+                || self.get_token(1)?.is("NOT") && self.get_token(2)?.is("ENFORCED")
+            {
                 self.next_token()?; // -> NOT | ENFORCED
                 res.push_node("enforced", self.parse_enforced()?);
             }
@@ -1538,7 +1541,10 @@ impl Parser {
             let col = self.parse_expr(usize::MAX, false, true, false, true)?;
             references.push_node("expr", col);
             res.push_node("references", references);
-            if self.get_token(1)?.in_(&vec!["NOT", "ENFORCED"]) {
+            // NOTE `NOT` may be the beginning of `NOT NULL`
+            if self.get_token(1)?.is("ENFORCED")
+                || self.get_token(1)?.is("NOT") && self.get_token(2)?.is("ENFORCED")
+            {
                 self.next_token()?; // -> NOT | ENFORCED
                 res.push_node("enforced", self.parse_enforced()?);
             }
-- 
2.43.0


From e4d59a71bae47a520c91336fe8f5705461ad1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:10 +0000
Subject: [PATCH 32/45] fix: OPTIONS after CLONE was parsed as an alias

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 950b16d..a6cd521 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1302,11 +1302,12 @@ impl Parser {
             left.node_type = NodeType::CallingTableFunction; // EXTERNAL_QUERY() is included
         }
         // alias
-        // NOTE PIVOT, UNPIVOT and MATCH_RECOGNIZE are not reserved keywords
+        // NOTE PIVOT, UNPIVOT, MATCH_RECOGNIZE and OPTIONS (after CLONE) are not reserved keywords
         if !(self
             .get_token(1)?
             .in_(&vec!["PIVOT", "UNPIVOT", "MATCH_RECOGNIZE"])
-            && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"]))
+            && self.get_token(2)?.in_(&vec!["(", "INCLUDE", "EXCLUDE"])
+            || self.get_token(1)?.is("OPTIONS") && self.get_token(2)?.is("("))
         {
             left = self.push_trailing_alias(left)?;
         }
-- 
2.43.0


From e69f26e8f46011015e2ef916278e7ce681875803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:17 +0000
Subject: [PATCH 33/45] fix: OPTIONS of a table function or SQL function was
 rejected

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a6cd521..2f37c52 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3073,8 +3073,12 @@ impl Parser {
                 self.next_token()?; // -> OPTIONS
                 node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
             }
-        } else if self.get_token(1)?.is("AS") {
+        } else if self.get_token(1)?.is("AS") || is_tvf {
             // sql function definition
+            if self.get_token(1)?.is("OPTIONS") {
+                self.next_token()?; // -> OPTIONS
+                node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+            }
             self.next_token()?; // -> AS
             if is_tvf {
                 let mut as_ = self.construct_node(NodeType::KeywordWithStatement)?;
@@ -3094,6 +3098,10 @@ impl Parser {
                 group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                 as_.push_node("group", group);
                 node.push_node("as", as_);
+                if self.get_token(1)?.is("OPTIONS") {
+                    self.next_token()?; // -> OPTIONS
+                    node.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
+                }
             }
         } else {
             // javascript | python function definition
-- 
2.43.0


From 67e1072234915c35d87c7b11cea002f734a1a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:22 +0000
Subject: [PATCH 34/45] fix: the semicolon of a last labeled or BREAK statement
 was mandatory

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2f37c52..b7e97cd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4132,7 +4132,7 @@ impl Parser {
         };
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> trailing_label
             stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);
         }
@@ -4144,7 +4144,7 @@ impl Parser {
     }
     fn parse_break_continue_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
         let mut node = self.construct_node(NodeType::BreakContinueStatement)?;
-        if !self.get_token(1)?.is(";") {
+        if !self.get_token(1)?.is(";") && !self.is_eof(1) {
             self.next_token()?; // -> label
             node.push_node("label", self.construct_node(NodeType::Identifier)?);
         }
-- 
2.43.0


From 7e8e2816f04df0af866454d7cee6b92ceff87793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:49 +0000
Subject: [PATCH 35/45] fix: an unclosed subquery in FROM was accepted as a
 parenthesised table

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b7e97cd..56ed5b2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1264,7 +1264,7 @@ impl Parser {
                         Ok(stmt) => stmt,
 
                         // maybe that is a table quoted by ()! not a select statement!
-                        Err(_) => {
+                        Err(err) => {
                             // restore original state
                             self.position = org.position;
                             self.leading_comment_indices = org.leading_comment_indices;
@@ -1276,6 +1276,10 @@ impl Parser {
                             self.next_token()?; // ( -> table
                             group.push_node("expr", self.parse_table(true)?);
                             self.next_token()?; // -> )
+                            if !self.get_token(0)?.is(")") {
+                                self.get_token(1)?; // EOF is unexpected
+                                return Err(err);
+                            }
                             group.push_node("rparen", self.construct_node(NodeType::Symbol)?);
                             group
                         }
-- 
2.43.0


From 61906e00f027bfae9ab1547f152e37a23fa0bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:03 +0000
Subject: [PATCH 36/45] fix: type declarations did not match the returned nodes

---
 src/types.rs | 77 ++++++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 89f22f7..af51e86 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -203,7 +203,7 @@ export type Expr = BaseNode & {
 
 export type FromItemExpr = Expr & {
   children: {
-    with_offset: NodeChild;
+    with_offset?: NodeChild;
     pivot?: NodeChild;
     unpivot?: NodeChild;
     match_recognize?: NodeChild;
@@ -284,7 +284,7 @@ export type AlterColumnStatement = BaseNode & {
     if_exists?: NodeVecChild;
     ident: NodeChild;
     // SET
-    set: NodeChild;
+    set?: NodeChild;
     options?: NodeChild;
     data_type?: NodeVecChild;
     type?: NodeChild;
@@ -434,8 +434,8 @@ export type AssertStatement = XXXStatement & {
   node_type: "AssertStatement";
   children: {
     expr: NodeChild;
-    as: NodeChild;
-    description: NodeChild;
+    as?: NodeChild;
+    description?: NodeChild;
   };
 };
 
@@ -697,7 +697,7 @@ export type CreateSchemaStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    default_collate: NodeChild;
+    default_collate?: NodeChild;
     with_connection?: NodeChild;
     options?: NodeChild;
   };
@@ -729,8 +729,8 @@ export type CreateTableStatement = XXXStatement & {
     what: NodeChild;
     if_not_exists?: NodeVecChild;
     ident: NodeChild;
-    like_or_copy: NodeChild;
-    source_table: NodeChild;
+    like_or_copy?: NodeChild;
+    source_table?: NodeChild;
     column_schema_group?: NodeChild;
     default_collate?: NodeChild;
     clone?: NodeChild;
@@ -771,7 +771,7 @@ export type DeclareStatement = XXXStatement & {
 export type DeleteStatement = XXXStatement & {
   node_type: "DeleteStatement";
   children: {
-    from: NodeChild;
+    from?: NodeChild;
     table_name: NodeChild;
     where: NodeChild;
   };
@@ -847,7 +847,7 @@ export type ExecuteStatement = XXXStatement & {
   children: {
     immediate: NodeChild;
     sql_expr: NodeChild;
-    into: NodeChild;
+    into?: NodeChild;
     using?: NodeChild;
   };
 };
@@ -877,8 +877,8 @@ export type ExtractArgument = BaseNode & {
   children: {
     extract_datepart: NodeChild;
     extract_from: NodeChild;
-    at_time_zone: NodeVecChild;
-    time_zone: NodeChild;
+    at_time_zone?: NodeVecChild;
+    time_zone?: NodeChild;
   };
 };
 
@@ -904,7 +904,7 @@ export type ForSystemTimeAsOfClause = BaseNode & {
 export type FromStatement = XXXStatement & {
   node_type: "FromStatement";
   children: {
-    with: NodeChild;
+    with?: NodeChild;
     expr: NodeChild;
   };
 }
@@ -986,15 +986,15 @@ export type GroupedStatement = FromItemExpr &
       with?: { Node: WithClause };
       stmt: NodeChild;
       rparen: NodeChild;
-      orderby: NodeChild;
-      limit: NodeChild;
+      orderby?: NodeChild;
+      limit?: NodeChild;
     };
   };
 
 export type GroupedTypeDeclarationOrConstraints = BaseNode & {
   node_type: "GroupedTypeDeclarationOrConstraints";
   children: {
-    declarations: NodeVecChild;
+    declarations?: NodeVecChild;
     rparen: NodeChild;
   };
 };
@@ -1009,6 +1009,9 @@ export type GroupedType = BaseNode & {
 
 export type Identifier = IdentifierGeneral & {
   node_type: "Identifier";
+  children: {
+    row_value_alias?: NodeChild; // UNPIVOT
+  };
 };
 
 export type IdentWithOptions = Expr & {
@@ -1027,8 +1030,8 @@ export type IfStatement = XXXStatement & {
   children: {
     condition: NodeChild;
     then: NodeChild;
-    elseifs: NodeVecChild;
-    else: NodeChild;
+    elseifs?: NodeVecChild;
+    else?: NodeChild;
     end_if: NodeVecChild;
   };
 };
@@ -1059,8 +1062,6 @@ export type IntervalLiteral = Expr & {
     date_part: NodeChild;
     to?: NodeChild;
     to_date_part?: NodeChild;
-    order: undefined;
-    null_order: undefined;
   };
 };
 
@@ -1078,12 +1079,12 @@ export type IsDistinctFromOperator = Expr & {
 export type JoinOperator = FromItemExpr & {
   node_type: "JoinOperator";
   children: {
-    join_type: NodeChild;
-    outer: NodeChild;
+    join_type?: NodeChild;
+    outer?: NodeChild;
     left: NodeChild;
     right: NodeChild;
-    on: NodeChild;
-    using: NodeChild;
+    on?: NodeChild;
+    using?: NodeChild;
     order: undefined;
     null_order: undefined;
     comma: undefined;
@@ -1102,12 +1103,15 @@ export type JoinPipeOperator = PipeOperator & {
 export type Keyword = BaseNode & {
   token: Token;
   node_type: "Keyword";
+  children: {
+    comma?: NodeChild; // VALUES (DEFAULT, ...)
+  };
 };
 
 export type KeywordSequence = BaseNode & {
   node_type: "KeywordSequence";
   children: {
-    next_keyword: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
+    next_keyword?: { Node: Keyword | KeywordSequence | KeywordWithExpr | KeywordWithGroupedXXX };
   };
 };
 
@@ -1317,6 +1321,7 @@ export type PipeStatement = XXXStatement & {
   children: {
     left: NodeChild;
     right: NodeChild;
+    with?: { Node: WithClause };
   };
 }
 
@@ -1435,6 +1440,8 @@ export type SetOperator = XXXStatement & {
     distinct_or_all: NodeChild;
     left: { Node: SetOperator | SelectStatement | GroupedStatement };
     right: { Node: SetOperator | SelectStatement | GroupedStatement };
+    orderby?: NodeChild;
+    limit?: NodeChild;
   };
 };
 
@@ -1542,10 +1549,10 @@ export type Type = BaseNode & {
 };
 
 export type TypeDeclaration = BaseNode & {
-  token: Token;
+  token: Token | null; // null if the field of struct is anonymous
   node_type: "TypeDeclaration";
   children: {
-    in_out: NodeChild;
+    in_out?: NodeChild;
     type: NodeChild;
     comma?: NodeChild;
   };
@@ -1602,7 +1609,7 @@ export type UnpivotOperator = BaseNode & {
   token: Token;
   node_type: "UnpivotOperator";
   children: {
-    include_or_exclude_nulls: NodeVecChild;
+    include_or_exclude_nulls?: NodeVecChild;
     config: NodeChild;
     as?: NodeChild;
     alias?: NodeChild;
@@ -1615,7 +1622,7 @@ export type UpdateStatement = XXXStatement & {
     table_name?: NodeChild;
     set: NodeChild;
     from?: NodeChild;
-    where: NodeChild;
+    where?: NodeChild;
   };
 };
 
@@ -1624,8 +1631,8 @@ export type WhenClause = BaseNode & {
   children: {
     not?: NodeChild;
     matched: NodeChild;
-    by_target_or_source: NodeVecChild;
-    and: NodeChild;
+    by_target_or_source?: NodeVecChild;
+    and?: NodeChild;
     then: NodeChild;
   };
 };
@@ -1673,9 +1680,9 @@ export type WindowSpecification = BaseNode & {
   node_type: "WindowSpecification";
   children: {
     name?: NodeChild;
-    partitionby: NodeChild;
-    orderby: NodeChild;
-    frame: NodeChild;
+    partitionby?: NodeChild;
+    orderby?: NodeChild;
+    frame?: NodeChild;
     rparen: NodeChild;
   };
 };
@@ -1710,7 +1717,7 @@ export type WithPartitionColumnsClause = BaseNode & {
   node_type: "WithPartitionColumnsClause";
   children: {
     partition_columns: NodeVecChild;
-    column_schema_group: NodeChild;
+    column_schema_group?: NodeChild;
   };
 };
 
@@ -1720,7 +1727,7 @@ export type WithQuery = BaseNode & {
   children: {
     as: { Node: Keyword };
     stmt: { Node: GroupedStatement };
-    comma: NodeChild;
+    comma?: NodeChild;
   };
 };
 
-- 
2.43.0


From bcfc335b40a07d373e658480f4474be3c29e9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 37/45] fix: ENFORCED of a column was lost when it was given
 twice

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56ed5b2..f3872bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1547,8 +1547,9 @@ impl Parser {
             references.push_node("expr", col);
             res.push_node("references", references);
             // NOTE `NOT` may be the beginning of `NOT NULL`
-            if self.get_token(1)?.is("ENFORCED")
-                || self.get_token(1)?.is("NOT") && self.get_token(2)?.is("ENFORCED")
+            if !res.children.contains_key("enforced")
+                && (self.get_token(1)?.is("ENFORCED")
+                    || self.get_token(1)?.is("NOT") && self.get_token(2)?.is("ENFORCED"))
             {
                 self.next_token()?; // -> NOT | ENFORCED
                 res.push_node("enforced", self.parse_enforced()?);
-- 
2.43.0


From c2721cfb7c6a7b683c4d330966bb697f994eb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:57 +0000
Subject: [PATCH 38/45] fix: subscript after a chained function call applies to
 the result of the chain

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f3872bb..7a168a7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -119,7 +119,8 @@ impl Parser {
         // 200... => (ST_GEOGFROMGEOJSON)
         let precedence = match self.get_token(offset)?.literal.to_uppercase().as_str() {
             // return precedence of BINARY operator
-            "(" | "[" => 101,
+            "(" => 101,
+            "[" => 102, // does not belong to the right side of chained function call
             "." => 102, // when used with chained function call (otherwise 101)
             "*" | "/" | "||" => 103,
             "+" | "-" => 104,
-- 
2.43.0


From 8867ac0e440842198012350918f980a66b8c6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:04 +0000
Subject: [PATCH 39/45] fix: parenthesis that opens a query in FROM is not
 retried as a table

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7a168a7..16b908f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1264,6 +1264,9 @@ impl Parser {
                     group = match self.parse_select_statement(false, false) {
                         Ok(stmt) => stmt,
 
+                        // `(` is followed by a statement
+                        Err(err) if offset == 1 => return Err(err),
+
                         // maybe that is a table quoted by ()! not a select statement!
                         Err(err) => {
                             // restore original state
-- 
2.43.0


From e719bc0cd357f758b211a7dc659f36ae3c12adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:09 +0000
Subject: [PATCH 40/45] fix: name went on after a template only if the template
 was on one line

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 16b908f..8ee6ac9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -967,7 +967,15 @@ impl Parser {
                 if next_token.in_(&vec![",", ".", "(", ")", ";", "|>"]) {
                     break;
                 }
+                let multi_line_adjacent = match curr_token.literal.rsplit_once('\n') {
+                    Some((head, tail)) => {
+                        curr_token.line + head.matches('\n').count() + 1 == next_token.line
+                            && tail.chars().count() + 1 == next_token.column
+                    }
+                    None => false,
+                };
                 if !(curr_token.literal.chars().last().unwrap() == '.')
+                    && !multi_line_adjacent
                     && !(curr_token.line == next_token.line
                         && curr_token.column + curr_token.literal.chars().count()
                             == next_token.column)
-- 
2.43.0


From 9db198849863fe4e2abbbab0e2cebf39ff076d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:24 +0000
Subject: [PATCH 41/45] fix: EXTERNAL TABLE as the resource type of GRANT and
 REVOKE

---
 src/parser.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8ee6ac9..af3ef8a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3898,7 +3898,14 @@ impl Parser {
         self.next_token()?; // -> ON
         grant.push_node("on", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> resource_type
-        grant.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        if self.get_token(0)?.is("EXTERNAL") && self.get_token(1)?.is("TABLE") {
+            let mut external = self.construct_node(NodeType::KeywordSequence)?;
+            self.next_token()?; // -> TABLE
+            external.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
+            grant.push_node("resource_type", external);
+        } else {
+            grant.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        }
         self.next_token()?; // -> ident
         grant.push_node("ident", self.parse_identifier()?);
         self.next_token()?; // -> TO
@@ -3919,7 +3926,14 @@ impl Parser {
         self.next_token()?; // -> ON
         revoke.push_node("on", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> resource_type
-        revoke.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        if self.get_token(0)?.is("EXTERNAL") && self.get_token(1)?.is("TABLE") {
+            let mut external = self.construct_node(NodeType::KeywordSequence)?;
+            self.next_token()?; // -> TABLE
+            external.push_node("next_keyword", self.construct_node(NodeType::Keyword)?);
+            revoke.push_node("resource_type", external);
+        } else {
+            revoke.push_node("resource_type", self.construct_node(NodeType::Keyword)?);
+        }
         self.next_token()?; // -> ident
         revoke.push_node("ident", self.parse_identifier()?);
         self.next_token()?; // -> FROM
-- 
2.43.0


From b874870c32189e16023a8d2e33bb64cd587a2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:48 +0000
Subject: [PATCH 42/45] fix: hexadecimal integer was split into a number and an
 alias

---
 src/lexer.rs | 10 ++++++++++
 src/token.rs |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 3e76ac2..15534ae 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -358,6 +358,16 @@ impl Lexer {
     }
     fn read_number(&mut self) -> BQ2CSTResult<String> {
         let first_position = self.position;
+        if let (Some('0'), Some('x') | Some('X')) = (self.get_char(0), self.get_char(1)) {
+            if self.get_char(2).is_some_and(|ch| ch.is_ascii_hexdigit()) {
+                self.next_char()?; // 0 -> x
+                self.next_char()?; // x -> f
+                while self.get_char(0).is_some_and(|ch| ch.is_ascii_hexdigit()) {
+                    self.next_char()?;
+                }
+                return Ok(self.input[first_position..self.position].iter().collect());
+            }
+        }
         while is_digit(&self.get_char(0)) {
             self.next_char()?;
         } // 9 -> .
diff --git a/src/token.rs b/src/token.rs
index b2574ef..e1aeec5 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -91,7 +91,8 @@ impl Token {
     }
     pub fn is_numeric(&self) -> bool {
         let re = Regex::new(r"^([0-9]+\.?|([0-9]*\.[0-9]+))([eE][\+\-]?[0-9]+)?$").unwrap();
-        re.is_match(self.literal.as_str())
+        let hex = Regex::new(r"^0[xX][0-9a-fA-F]+$").unwrap();
+        re.is_match(self.literal.as_str()) || hex.is_match(self.literal.as_str())
     }
     pub fn is_boolean(&self) -> bool {
         self.literal.to_uppercase() == "TRUE" || self.literal.to_uppercase() == "FALSE"
-- 
2.43.0


From 91c859d3a90c96fcfe467e24128ec68a918487eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:55 +0000
Subject: [PATCH 43/45] fix: DROP SNAPSHOT TABLE was rejected

---
 src/parser.rs | 3 +++
 src/types.rs  | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index af3ef8a..e74e60e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3835,6 +3835,9 @@ impl Parser {
         } else if self.get_token(1)?.is("MATERIALIZED") {
             self.next_token()?; // -> MATERIALIZED
             drop.push_node("materialized", self.construct_node(NodeType::Keyword)?);
+        } else if self.get_token(1)?.is("SNAPSHOT") {
+            self.next_token()?; // -> SNAPSHOT
+            drop.push_node("snapshot", self.construct_node(NodeType::Keyword)?);
         } else if self.get_token(1)?.is("TABLE") && self.get_token(2)?.is("FUNCTION") {
             self.next_token()?; // -> TABLE
             drop.push_node("table", self.construct_node(NodeType::Keyword)?)
diff --git a/src/types.rs b/src/types.rs
index af51e86..2b5f225 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -809,6 +809,7 @@ export type DropStatement = XXXStatement & {
   children: {
     external?: NodeChild;
     materialized?: NodeChild;
+    snapshot?: NodeChild;
     table?: NodeChild;
     what: NodeChild;
     if_exists?: NodeVecChild;
-- 
2.43.0


From 21a7f36361aba8041f13647e9d812c6d5e50e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 44/45] fix: WITH CONNECTION of CREATE TABLE was accepted for
 external tables only

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e74e60e..58c06a5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2904,7 +2904,7 @@ impl Parser {
             self.next_token()?; // -> CLUSTER
             create.push_node("clusterby", self.parse_xxxby_exprs()?);
         }
-        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") && external {
+        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") {
             self.next_token()?; // -> WITH
             create.push_node("with_connection", self.parse_with_connection_clause()?);
         }
-- 
2.43.0


From cac6f94a1e7d8e5a1d3e498aa412886139fbeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 45/45] fix: LOAD DATA INTO TEMP TABLE was rejected

---
 src/parser.rs | 4 ++++
 src/types.rs  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 58c06a5..34b067d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4428,6 +4428,10 @@ impl Parser {
         load.push_node("data", self.construct_node(NodeType::Keyword)?);
         self.next_token()?; // -> INTO | OVERWRITE
         load.push_node("into", self.construct_node(NodeType::Keyword)?);
+        if self.get_token(1)?.in_(&vec!["TEMP", "TEMPORARY"]) && self.get_token(2)?.is("TABLE") {
+            self.next_token()?; // -> TEMP | TEMPORARY
+            load.push_node_vec("temp_table", self.parse_n_keywords(2)?);
+        }
         self.next_token()?; // -> ident
         load.push_node("ident", self.parse_identifier()?);
         if self.get_token(1)?.in_(&vec!["OVERWRITE", "PARTITIONS"]) {
diff --git a/src/types.rs b/src/types.rs
index 2b5f225..6da1591 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1217,6 +1217,7 @@ export type LoadStatement = XXXStatement & {
   children: {
     data: NodeChild;
     into: NodeChild;
+    temp_table?: NodeVecChild;
     ident: NodeChild;
     overwrite_partitions?: NodeChild;
     column_group?: NodeChild;
-- 
2.43.0

