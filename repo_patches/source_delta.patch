From 70608c167769fc3a79e4c5b6485c50161fd116cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 01/14] fix: measure consumed text in bytes where bytes are
 meant (non-ASCII input)

---
 src/lib.rs        | 2 +-
 src/parser/mod.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..a6d42a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,7 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    match (st.it_parsing.as_str().is_empty(), st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..6e19659 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -160,10 +160,15 @@ mod test;
 //-----------------------------------------------------------------------
 impl Error {
     pub(crate) fn from_status(status: &Status, descr: &str, prior: ErrPriority) -> Self {
+        //  pos counts chars, slices of the text are in bytes
+        let pending = status.it_parsing.as_str();
+        let consumed = &status.text2parse[..status.text2parse.len() - pending.len()];
+        let line_before = consumed.rsplit('\n').next().unwrap_or("");
+
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: line_before.to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From e320453a3beb0741ba7caca1441d50c006b98fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 02/14] fix: a repetition with maximum 0 matches nothing (it
 had no maximum)

---
 src/parser/expression/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..c5cb4d7 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -300,6 +300,10 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         None => false,
     };
 
+    if let Some(NRep(0)) = rep_info.max {
+        return Ok((status, vec![]));
+    }
+
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-- 
2.43.0


From a78e745f4fb329a830bf32b57a8e4b372d539c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 03/14] fix: repeating an expression which consumes nothing
 ends

---
 src/parser/expression/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index c5cb4d7..e52268c 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -304,10 +304,19 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
         return Ok((status, vec![]));
     }
 
+    //  an iteration consuming nothing, would be repeated forever
+    let is_last = |counter, from: &Status, to: &Status| {
+        touch_max_bound(counter) || (from.pos.n == to.pos.n && big_min_bound(counter + 1))
+    };
+
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
+        let last = match try_parse {
+            Ok((ref status, _)) => is_last(acc.1, &acc.0, status),
+            Err(_) => false,
+        };
+        match (try_parse, big_min_bound(acc.1), last) {
             (Err(e), true, _) => {
                 if e.priority == ErrPriority::Critical {
                     TailCall::Return(Err(e))
-- 
2.43.0


From bfe869e99586e588d43291d42b80b2b7c4db9024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 04/14] fix: end of file gives an EOF node, not a value with
 the text EOF

---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From d52ad6307c96b773262633fe5c876bd1060d2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 05/14] fix: flatten keeps EOF nodes

---
 src/ast/flat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/flat.rs b/src/ast/flat.rs
index 181b0fe..721b26e 100644
--- a/src/ast/flat.rs
+++ b/src/ast/flat.rs
@@ -81,7 +81,7 @@ impl ast::Node {
     pub fn flatten(&self) -> Vec<Node> {
         fn flatten_acc(acc: Vec<Node>, next: &ast::Node) -> Vec<Node> {
             match next {
-                ast::Node::EOF => acc,
+                ast::Node::EOF => acc.ipush(Node::EOF),
                 ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),
                 ast::Node::Rule((n, vn)) => {
                     let acc = acc.ipush(Node::BeginRule(n.to_string()));
-- 
2.43.0


From 1768e1d5558ef3be380bdd7d7009733325d292a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/14] fix: generated code of names and matches compiles for
 any characters

---
 src/peg/gcode.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..fc769a8 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -58,7 +58,7 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
 }
 
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!("{:?} => {}", name, expr2code(expr))
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -68,7 +68,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!("ref_rule!({:?})", rname),
     }
 }
 
@@ -100,19 +100,10 @@ fn atom2code(atom: &Atom) -> String {
 }
 
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
-    fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
-        match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
-            }
-            None => acc,
-        }
-    }
-
     format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
-        bounds2code(String::new(), &mrules.1)
+        "ematch!(chlist {:?}, from2 vec!{:?})",
+        mrules.chars(),
+        mrules.ranges()
     )
 }
 
-- 
2.43.0


From 8404def256344f74ef2f35563d44c5d05f6be997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 07/14] fix: add the macro eof!, used by the generated code

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a6d42a7..d3820a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,6 +237,14 @@ macro_rules! dot {
     }};
 }
 
+/// Generate code to detect the end of file
+#[macro_export]
+macro_rules! eof {
+    () => {{
+        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::EOF)
+    }};
+}
+
 /// Generate a match expression with optional characters and a list
 /// of bounds
 ///
-- 
2.43.0


From 7e22a95b1c2398583ae3533884fcfde3ed804fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/14] fix: single quoted literals keep backslashes, generated
 code escapes them

---
 src/peg/gcode.rs | 11 ++---------
 src/peg/mod.rs   |  2 +-
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index fc769a8..605c210 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -83,16 +83,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!("lit!({:?})", s),
+        Atom::Error(s) => format!("error!({:?})", s),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..116a2ba 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -790,7 +790,7 @@ fn consume_literal_no_esc(
         let (nodes, context) = consume_single_quote(nodes, context)?;
         let (val, nodes) = flat::consume_val(nodes)?;
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From f1af13e1f8f0248f2a211484a2fe0d326b788fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 09/14] fix: accept the empty single quoted literal

---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 116a2ba..de4c38e 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes), //  empty literal
+        };
 
         let val = val.to_string();
         let vclone = val.clone();
-- 
2.43.0


From af6228373e2767b298e50f8fe8095d0ecddf1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 10/14] fix: a sequence can go on after error(...)

---
 src/peg/mod.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index de4c38e..cbfc611 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -504,17 +504,28 @@ fn consume_and(
                 Ok((eov, nodes, context))
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
-                let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_next_ands(eov.ipush(expr), nodes, context)
             }
         })
     }
 
+    //  there can be several, an "and" being just an error ends there
+    fn rec_consume_next_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_next_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
+
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-- 
2.43.0


From 6c32ab36e9cdb5aa83f994b1d8cf771630694c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 11/14] fix: a line comment does not consume the end of line

---
 src/peg/peg2code.rs | 2 +-
 src/peg/rules.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index 638b6e0..dc3829e 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -106,7 +106,7 @@ fn text_peg2code() -> &'static str {
     comment         =   line_comment
                     /   mline_comment
 
-    line_comment    =   '//' (!eol .)*  eol
+    line_comment    =   '//' (!eol .)*
     mline_comment   =   '/*' (!'*/' .)* '*/'
     "#
 }
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index 5561a8b..ba9139e 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -20,7 +20,7 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
        , r#"rep_or_neg"# => or!(and!(ref_rule!(r#"atom_or_par"#), rep!(or!(lit!("*"), lit!("+"), lit!("?")), 0, 1)), and!(lit!("!"), ref_rule!(r#"atom_or_par"#)))
        , r#"_eol"# => and!(rep!(or!(lit!(" "), ref_rule!(r#"comment"#)), 0), ref_rule!(r#"eol"#))
-       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0), ref_rule!(r#"eol"#))
+       , r#"line_comment"# => and!(lit!("//"), rep!(and!(not!(ref_rule!(r#"eol"#)), dot!()), 0))
        , r#"lit_noesc"# => and!(ref_rule!(r#"_'"#), rep!(and!(not!(ref_rule!(r#"_'"#)), dot!()), 0), ref_rule!(r#"_'"#))
        , r#"rule_name"# => and!(rep!(lit!("."), 0, 1), ref_rule!(r#"symbol"#), rep!(and!(lit!("."), ref_rule!(r#"symbol"#)), 0))
        , r#"_""# => lit!("\"")
-- 
2.43.0


From 955105a958f9a69d59517ad0843193f542ade554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 12/14] verif: access to the peg rules and the peg text under
 cfg(dynparser_verif)

---
 src/peg/mod.rs      | 7 +++++++
 src/peg/peg2code.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index cbfc611..be0434d 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -198,6 +198,13 @@ pub fn rules_from_peg(peg: &str) -> Result {
 //  A P I
 // -------------------------------------------------------------------------------------
 
+/// Rules used to parse peg grammars, for the verification harness
+#[cfg(dynparser_verif)]
+#[doc(hidden)]
+pub fn verif_peg_rules() -> expression::SetOfRules {
+    rules::parse_peg()
+}
+
 fn rules_from_flat_ast(nodes: &[flat::Node]) -> Result {
     let (rules, nodes, _context) = consume_main(&nodes, Context::new())?;
     if !nodes.is_empty() {
diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index dc3829e..6c1b9fa 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -111,6 +111,13 @@ fn text_peg2code() -> &'static str {
     "#
 }
 
+/// Peg grammar to parse peg grammars, for the verification harness
+#[cfg(dynparser_verif)]
+#[doc(hidden)]
+pub fn verif_peg_text() -> &'static str {
+    text_peg2code()
+}
+
 /// A parser for the parser.
 ///
 /// It will take the peg grammar to parse peg grammars
-- 
2.43.0


From 05a6fc75ff784327af90f884731d6e26f90febde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 13/14] fix: the number of rules, escapes, ranges and dots in a
 peg text is not limited by the stack

---
 src/peg/mod.rs | 88 ++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 49 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index be0434d..09fcce9 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -274,30 +274,29 @@ fn consume_grammar(
         let rules = rules.merge(mod_rules);
         Ok((rules, nodes, context))
     }
-    fn rec_consume_rules_or_modules(
+    fn consume_rules_or_modules(
         rules: expression::SetOfRules,
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(expression::SetOfRules, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::BeginRule(rule_or_module) => {
-                let (rules, nodes, context) = match rule_or_module.as_ref() {
-                    "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
-                    "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
-                    unknown => Err(error_peg_s(&format!(
-                        "expected rule or module, received: {}",
-                        unknown
-                    ))),
-                }?;
-                rec_consume_rules_or_modules(rules, nodes, context)
-            }
-            _ => Ok((rules, nodes, context)),
+        let mut acc = (rules, nodes, context);
+        while let flat::Node::BeginRule(rule_or_module) = flat::peek_first_node(acc.1)? {
+            let (rules, nodes, context) = acc;
+            acc = match rule_or_module.as_ref() {
+                "rule" => consume_rule_and_add_set_of_rules(rules, nodes, context),
+                "module" => consume_module_and_add_set_of_rules(rules, nodes, context),
+                unknown => Err(error_peg_s(&format!(
+                    "expected rule or module, received: {}",
+                    unknown
+                ))),
+            }?;
         }
+        Ok(acc)
     }
     //  --------------------------
 
     consuming_rule("grammar", nodes, context, |nodes, context| {
-        rec_consume_rules_or_modules(rules!(), &nodes, context)
+        consume_rules_or_modules(rules!(), &nodes, context)
     })
 }
 
@@ -351,24 +350,19 @@ fn consume_rule_name(
 ) -> result::Result<(String, &[flat::Node], Context), Error> {
     // rule_name       =   '.'?  symbol  ('.' symbol)*
 
-    fn rec_consume_dot_symbol(
+    fn consume_dot_symbols(
         acc_name: String,
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        match flat::peek_first_node(nodes)? {
-            flat::Node::Val(ch) => {
-                if ch == "." {
-                    let (_, nodes) = flat::consume_val(nodes)?;
-                    let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-                    let acc_name = format!("{}.{}", acc_name, symbol);
-                    rec_consume_dot_symbol(acc_name, nodes, context)
-                } else {
-                    Ok((acc_name, nodes, context))
-                }
-            }
-            _ => Ok((acc_name, nodes, context)),
+        let mut acc = (acc_name, nodes, context);
+        while flat::get_node_val(flat::peek_first_node(acc.1)?) == Ok(".") {
+            let (acc_name, nodes, context) = acc;
+            let (_, nodes) = flat::consume_val(nodes)?;
+            let (symbol, nodes, context) = consume_symbol(nodes, context)?;
+            acc = (acc_name + "." + symbol, nodes, context);
         }
+        Ok(acc)
     }
 
     let get_dot_or_empty =
@@ -389,7 +383,7 @@ fn consume_rule_name(
     consuming_rule("rule_name", nodes, context, |nodes, context| {
         let (start_dot, nodes, context) = get_dot_or_empty(nodes, context)?;
         let (symbol, nodes, context) = consume_symbol(nodes, context)?;
-        let (dot_symbol, nodes, context) = rec_consume_dot_symbol(String::new(), nodes, context)?;
+        let (dot_symbol, nodes, context) = consume_dot_symbols(String::new(), nodes, context)?;
 
         let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);
         Ok((str_result, nodes, context))
@@ -724,26 +718,24 @@ fn consume_literal_esc(
         Ok((val.to_string(), nodes, context))
     }
 
-    fn rec_consume_lit_esc_ch(
+    fn consume_lit_esc_chs(
         s: String,
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(String, &[flat::Node], Context), Error> {
-        let next_node_name = flat::get_nodename(flat::peek_first_node(nodes)?);
-
-        match next_node_name {
-            Ok("_\"") => Ok((s, nodes, context)),
-            _ => {
-                let (v, nodes, context) = consume_element(nodes, context)?;
-                rec_consume_lit_esc_ch(s + &v.to_string(), nodes, context)
-            }
+        let mut acc = (s, nodes, context);
+        while flat::get_nodename(flat::peek_first_node(acc.1)?) != Ok("_\"") {
+            let (s, nodes, context) = acc;
+            let (v, nodes, context) = consume_element(nodes, context)?;
+            acc = (s + &v, nodes, context);
         }
+        Ok(acc)
     }
 
     consuming_rule("lit_esc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_quote(nodes, context)?;
 
-        let (val, nodes, context) = rec_consume_lit_esc_ch(String::new(), nodes, context)?;
+        let (val, nodes, context) = consume_lit_esc_chs(String::new(), nodes, context)?;
 
         let vclone = val.clone();
         push_err!(&format!("lesc:({})", vclone), {
@@ -880,20 +872,18 @@ fn consume_match(
 
     type VecChCh = Vec<(char, char)>;
     consuming_rule("match", nodes, context, |nodes, context| {
-        fn rec_consume_mbetween(
+        fn consume_mbetweens(
             acc: Vec<(char, char)>,
             nodes: &[flat::Node],
             context: Context,
         ) -> result::Result<(VecChCh, &[flat::Node], Context), Error> {
-            let next_node = flat::peek_first_node(nodes)?;
-            let node_name = flat::get_nodename(next_node);
-            match node_name {
-                Ok("mbetween") => {
-                    let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
-                    rec_consume_mbetween(acc.ipush((from, to)), nodes, context)
-                }
-                _ => Ok((acc, nodes, context)),
+            let mut acc = (acc, nodes, context);
+            while flat::get_nodename(flat::peek_first_node(acc.1)?) == Ok("mbetween") {
+                let (vchars, nodes, context) = acc;
+                let ((from, to), nodes, context) = consume_mbetween(nodes, context)?;
+                acc = (vchars.ipush((from, to)), nodes, context);
             }
+            Ok(acc)
         }
         //  --------------------------
 
@@ -907,7 +897,7 @@ fn consume_match(
             _ => (None, nodes, context),
         };
 
-        let (vchars, nodes, context) = rec_consume_mbetween(vec![], nodes, context)?;
+        let (vchars, nodes, context) = consume_mbetweens(vec![], nodes, context)?;
 
         let (expr, nodes) = match (omchars, vchars.is_empty()) {
             (Some(chars), true) => Ok((ematch!(chlist chars, from2 vec![]), nodes)),
-- 
2.43.0


From 796df5497051e70e787a40397e229439f3d103ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 14/14] fix: the number of alternatives and elements in a peg
 rule is not limited by the stack

---
 src/peg/mod.rs      | 63 +++++++++++++++++----------------------------
 src/peg/peg2code.rs |  4 +--
 src/peg/rules.rs    |  4 +--
 3 files changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 09fcce9..cab8fe2 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -434,25 +434,23 @@ fn consume_or(
     nodes: &[flat::Node],
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
-    // or              =   and         ( _  '/'  _  or )?
+    // or              =   and         ( _  '/'  _  and )*
 
-    fn rec_consume_or(
-        eov: ExprOrVecExpr,
+    fn consume_ands(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
         consuming_rule("or", nodes, context, |nodes, context| {
             let (expr, nodes, context) = consume_and(nodes, context)?;
-            let eov = eov.ipush(expr);
-            let next_node = flat::peek_first_node(nodes)?;
+            let mut acc = (ExprOrVecExpr::None.ipush(expr), nodes, context);
 
-            match next_node {
-                flat::Node::Val(_) => {
-                    let nodes = flat::consume_this_value("/", nodes)?;
-                    rec_consume_or(eov, nodes, context)
-                }
-                _ => Ok((eov, nodes, context)),
+            while let flat::Node::Val(_) = flat::peek_first_node(acc.1)? {
+                let (eov, nodes, context) = acc;
+                let nodes = flat::consume_this_value("/", nodes)?;
+                let (expr, nodes, context) = consume_and(nodes, context)?;
+                acc = (eov.ipush(expr), nodes, context);
             }
+            Ok(acc)
         })
     };
 
@@ -460,7 +458,7 @@ fn consume_or(
     //  --------------------------
 
     push_err!("or:", {
-        let (eov, nodes, context) = rec_consume_or(ExprOrVecExpr::None, nodes, context)?;
+        let (eov, nodes, context) = consume_ands(nodes, context)?;
 
         match eov {
             ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
@@ -491,46 +489,31 @@ fn consume_and(
     context: Context,
 ) -> result::Result<(Expression, &[flat::Node], Context), Error> {
     // and             =   error
-    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
+    //                 /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
 
-    fn rec_consume_and(
-        eov: ExprOrVecExpr,
+    fn consume_errors_or_reps(
         nodes: &[flat::Node],
         context: Context,
     ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
         consuming_rule("and", nodes, context, |nodes, context| {
-            if "error" == flat::get_nodename(flat::peek_first_node(nodes)?)? {
-                let (expr, nodes, context) = consume_error(nodes, context)?;
-                let eov = eov.ipush(expr);
-                Ok((eov, nodes, context))
-            } else {
-                let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
-                rec_consume_next_ands(eov.ipush(expr), nodes, context)
+            let mut acc = (ExprOrVecExpr::None, nodes, context);
+
+            while let flat::Node::BeginRule(rule_name) = flat::peek_first_node(acc.1)? {
+                let (eov, nodes, context) = acc;
+                let (expr, nodes, context) = match rule_name.as_ref() {
+                    "error" => consume_error(nodes, context),
+                    _ => consume_rep_or_neg(nodes, context),
+                }?;
+                acc = (eov.ipush(expr), nodes, context);
             }
+            Ok(acc)
         })
     }
 
-    //  there can be several, an "and" being just an error ends there
-    fn rec_consume_next_ands(
-        eov: ExprOrVecExpr,
-        nodes: &[flat::Node],
-        context: Context,
-    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
-        let next_node = flat::peek_first_node(nodes)?;
-
-        match (next_node, flat::get_nodename(next_node)) {
-            (flat::Node::BeginRule(_), Ok("and")) => {
-                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
-                rec_consume_next_ands(eov, nodes, context)
-            }
-            _ => Ok((eov, nodes, context)),
-        }
-    }
-
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-    let (eov, nodes, context) = rec_consume_and(ExprOrVecExpr::None, nodes, context)?;
+    let (eov, nodes, context) = consume_errors_or_reps(nodes, context)?;
     match eov {
         ExprOrVecExpr::None => Err(error_peg_s("logic error, empty or parsing???")),
         ExprOrVecExpr::Expr(e) => Ok((e, nodes, context)),
diff --git a/src/peg/peg2code.rs b/src/peg/peg2code.rs
index 6c1b9fa..68ebaea 100644
--- a/src/peg/peg2code.rs
+++ b/src/peg/peg2code.rs
@@ -41,11 +41,11 @@ fn text_peg2code() -> &'static str {
 
     expr            =   or
 
-    or              =   and         ( _  '/'  _  or )?
+    or              =   and         ( _  '/'  _  and )*
     error           =   'error' _  '('  _  literal  _  ')'
 
     and             =   error 
-                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) and )*
+                    /   rep_or_neg  ( _1 _ !(rule_name _ ('=' / '{')) (error / rep_or_neg) )*
     _1              =   (' ' / eol)     //  this is the and separator
 
     rep_or_neg      =   atom_or_par ('*' / '+' / '?')?
diff --git a/src/peg/rules.rs b/src/peg/rules.rs
index ba9139e..ec4f1b3 100644
--- a/src/peg/rules.rs
+++ b/src/peg/rules.rs
@@ -7,14 +7,14 @@ pub(crate) fn parse_peg() -> parser::expression::SetOfRules {
        , r#"mline_comment"# => and!(lit!("/*"), rep!(and!(not!(lit!("*/")), dot!()), 0), lit!("*/"))
        , r#"_1"# => or!(lit!(" "), ref_rule!(r#"eol"#))
        , r#"comment"# => or!(ref_rule!(r#"line_comment"#), ref_rule!(r#"mline_comment"#))
-       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"or"#)), 0, 1))
+       , r#"or"# => and!(ref_rule!(r#"and"#), rep!(and!(ref_rule!(r#"_"#), lit!("/"), ref_rule!(r#"_"#), ref_rule!(r#"and"#)), 0))
        , r#"literal"# => or!(ref_rule!(r#"lit_noesc"#), ref_rule!(r#"lit_esc"#))
        , r#"mod_name"# => ref_rule!(r#"symbol"#)
        , r#"esc_char"# => or!(lit!("\\r"), lit!("\\n"), lit!("\\t"), lit!("\\\\"), lit!("\\\""))
        , r#"atom"# => or!(ref_rule!(r#"literal"#), ref_rule!(r#"match"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"dot"#))
        , r#"hex_char"# => and!(lit!("\\0x"), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ), ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))
        , r#"parenth"# => and!(lit!("("), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_"#), or!(lit!(")"), error!("unbalanced parethesis: missing ')'")))
-       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), ref_rule!(r#"and"#)), 0)))
+       , r#"and"# => or!(ref_rule!(r#"error"#), and!(ref_rule!(r#"rep_or_neg"#), rep!(and!(ref_rule!(r#"_1"#), ref_rule!(r#"_"#), not!(and!(ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), or!(lit!("="), lit!("{")))), or!(ref_rule!(r#"error"#), ref_rule!(r#"rep_or_neg"#))), 0)))
        , r#"rule"# => and!(ref_rule!(r#"_"#), ref_rule!(r#"rule_name"#), ref_rule!(r#"_"#), lit!("="), ref_rule!(r#"_"#), ref_rule!(r#"expr"#), ref_rule!(r#"_eol"#), ref_rule!(r#"_"#))
        , r#"grammar"# => rep!(or!(ref_rule!(r#"rule"#), ref_rule!(r#"module"#)), 1)
        , r#"match"# => and!(lit!("["), or!(and!(ref_rule!(r#"mchars"#), rep!(ref_rule!(r#"mbetween"#), 0)), rep!(ref_rule!(r#"mbetween"#), 1)), lit!("]"))
-- 
2.43.0

