From 11c89a3890497cdbdc24da60ed5ec111b69e201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 01/27] fix: lex numerals with leading zeros or a trailing dot
 as one identifier

'graph{007}' was parsed as three nodes 0, 0 and 7, and '1.' was rejected.
DOT numerals are [-]?(.[0-9]+ | [0-9]+(.[0-9]*)?).
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..8028861 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
-- 
2.43.0


From f8e971f7711b0ce445c67aec37e48c5177822632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 02/27] fix: match the whole compass point after a port name

The ordered choice tried 'n' before 'ne'/'nw' and 's' before 'sw' and had no
word boundary, so 'a:p:ne -> b' was read as node a:p:n and edge e -> b.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 8028861..28ce471 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From 78b2ad3cee6e980f5aedca21f24dbdf6fecafc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 03/27] fix: end an html string at its matching bracket

An html string ran until the next '>>', so '<x>' swallowed the statements up
to the end of a later '<<i>y</i>>', or was rejected.
---
 src/grammar/dot.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 28ce471..554d434 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,8 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | ("." ~ ASCII_DIGIT+))}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html_inner = _{ (!("<" | ">") ~ ANY | "<" ~ html_inner ~ ">")* }
+html = ${"<" ~ html_inner ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From dcaf2e91f69193fe771d31502d9d2cc6ea8a98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 04/27] fix: accept non-ascii letters in unquoted identifiers

DOT identifiers may contain any character above 0x7f.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 554d434..9a13d94 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,6 +1,6 @@
 WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
-word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
+word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
 char = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From 2b1a2f52e958713b629edd5735bec4483ffe592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 05/27] fix: treat a lone carriage return as whitespace

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 9a13d94..20a35c8 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,4 +1,4 @@
-WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
 word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
-- 
2.43.0


From c3814bcbafa1b3083adf6b4a8e3507600f32671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 06/27] fix: recognise keywords in any case and only as whole
 words

DOT keywords are case-independent, but 'DIGRAPH t {}' was rejected. They also
matched as a prefix: 'strictgraph t {}' and 'digraphfoo {}' were accepted, and
the statements 'subgraphx {}' were read as a subgraph named x.
---
 src/grammar/dot.pest | 9 +++++----
 src/parser.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 20a35c8..a8ced05 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -24,17 +24,18 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = {"graph" | "node" | "edge"}
+attr_mark = @{(^"graph" | ^"node" | ^"edge") ~ !(word | ASCII_DIGIT)}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {&subgraph_kw ~ ^"subgraph" ~ id? ~ body}
 stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = @{^"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = @{(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
diff --git a/src/parser.rs b/src/parser.rs
index c7e08a1..3b26d43 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -210,7 +210,10 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
         _ => false,
     };
 
-    let is_di = matches!(graph_r.next().map(|r| r.as_str()), Some("digraph"));
+    let is_di = graph_r
+        .next()
+        .map(|r| r.as_str().eq_ignore_ascii_case("digraph"))
+        .unwrap_or(false);
 
     let id = match graph_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(graph_r.next().unwrap()),
-- 
2.43.0


From 1371d3954af3dd0af012cc611edb5225ebcd8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 07/27] fix: parse edges that start with a subgraph, without
 reparsing subgraphs

'subgraph {a} -> b' was rejected, though the printer writes it, because the
subgraph alternative was taken before the edge one. The same alternatives
parsed every subgraph twice when its body had an error, so a syntax error
under 25 nested subgraphs kept the parser busy for minutes.
---
 src/grammar/dot.pest |  6 ++++--
 src/parser.rs        | 41 +++++++++++++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index a8ced05..84bc2a4 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -30,10 +30,12 @@ bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
-vertex = { subgraph | node_id }
+vertex = { subgraph | !subgraph_head ~ node_id }
 subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
 subgraph = {&subgraph_kw ~ ^"subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+subgraph_head = _{&subgraph_kw ~ ^"subgraph" ~ id? ~ "{"}
+subgraph_stmt = _{subgraph ~ (edge_tail+ ~ attr_list?)?}
+stmt = {attr_stmt | subgraph_stmt | !subgraph_head ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = @{^"strict" ~ !(word | ASCII_DIGIT)}
 graph_ty = @{(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
diff --git a/src/parser.rs b/src/parser.rs
index 3b26d43..97ac64e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,16 +157,18 @@ fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
     chain
 }
 
-fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
-    let mut edge_r = rule.into_inner();
-    let edges = process_edge(edge_r.next().unwrap());
-
-    let ty = if edges.len() > 2 {
+fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {
+    if edges.len() > 2 {
         EdgeTy::Chain(edges)
     } else {
         let mut edge_iter = edges.into_iter();
         EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
-    };
+    }
+}
+
+fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+    let mut edge_r = rule.into_inner();
+    let ty = process_edge_ty(process_edge(edge_r.next().unwrap()));
 
     if let Some(attr_r) = edge_r.next() {
         Edge {
@@ -188,11 +190,34 @@ fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
     GraphAttributes::new(mark, attrs)
 }
 
+// a subgraph on its own or an edge starting with a subgraph
+fn process_subgraph_stmt(head: Pair<Rule>, rest: Pairs<Rule>) -> Stmt {
+    let mut chain = vec![Vertex::S(process_subgraph(head))];
+    let mut attributes = vec![];
+    for r in rest {
+        match r.as_rule() {
+            Rule::edge_tail => chain.push(process_vertex(down(r))),
+            _ => attributes = process_attr_list(r),
+        }
+    }
+    match chain.pop() {
+        Some(Vertex::S(subgraph)) if chain.is_empty() => Stmt::Subgraph(subgraph),
+        last => {
+            chain.extend(last);
+            Stmt::Edge(Edge {
+                ty: process_edge_ty(chain),
+                attributes,
+            })
+        }
+    }
+}
+
 fn process_stmt(rule: Pair<Rule>) -> Stmt {
-    let stmt_r = down(rule);
+    let mut stmt_inner = rule.into_inner();
+    let stmt_r = stmt_inner.next().unwrap();
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph => Stmt::Subgraph(process_subgraph(stmt_r)),
+        Rule::subgraph => process_subgraph_stmt(stmt_r, stmt_inner),
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
         Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
-- 
2.43.0


From d9cb5bf0e5740b19043f72eb330f552062be5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 08/27] fix: parse a subgraph given as a bare block

'a -> {b c}' was rejected: the keyword subgraph is optional in DOT.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 84bc2a4..d93febe 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -32,7 +32,7 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | !subgraph_head ~ node_id }
 subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
-subgraph = {&subgraph_kw ~ ^"subgraph" ~ id? ~ body}
+subgraph = {(&subgraph_kw ~ ^"subgraph" ~ id?)? ~ body}
 subgraph_head = _{&subgraph_kw ~ ^"subgraph" ~ id? ~ "{"}
 subgraph_stmt = _{subgraph ~ (edge_tail+ ~ attr_list?)?}
 stmt = {attr_stmt | subgraph_stmt | !subgraph_head ~ (bare_attr | edge_stmt | node) }
-- 
2.43.0


From da42b7a90eef77e5541a91c308a0bdf4f67edb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 09/27] fix: restore the indent after printing a graph

Every graph printed with the same context was indented one step further
than the one before.
---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..ab1221c 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -335,7 +335,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let r = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -382,7 +382,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        r
     }
 }
 
-- 
2.43.0


From c133d50f2020f4f66c0a36757b0338fde1d340f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 10/27] fix: keep statements apart when printing them on one
 line

Statements on one line were joined without a separator, so a subgraph with
the nodes b and c, as the target of an edge, was printed as 'subgraph  {bc}'.
---
 src/printer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index ab1221c..53d80f0 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -390,8 +390,19 @@ impl DotPrinter for Graph {
 
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
-        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
-        attrs.join(ctx.l_s.as_str())
+        let mut body = String::new();
+        for stmt in self.iter() {
+            let stmt = stmt.print(ctx);
+            if !body.is_empty() {
+                body.push_str(&ctx.l_s);
+                // without a line separator, keep the tokens of two statements apart
+                if ctx.l_s.is_empty() && !body.ends_with([';', ']', '}']) {
+                    body.push(' ');
+                }
+            }
+            body.push_str(&stmt);
+        }
+        body
     }
 }
 
-- 
2.43.0


From 4fec1f4f236e1a0e0db0f9c8fabe09639dc153b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 11/27] fix: print the brackets of an empty attribute statement

'node []' was printed as 'node', which is not a DOT statement and is read
back as a node with that name.
---
 src/printer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index 53d80f0..543608e 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -298,6 +298,10 @@ impl DotPrinter for Vec<Attribute> {
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         match self {
+            // the brackets are not optional here: a bare keyword is not a statement
+            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
+            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
+            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
             GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
             GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
             GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
-- 
2.43.0


From 756b20ae947f795158eb4949a0f103347369bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 12/27] fix: separate attributes when the line separator is
 empty

With an empty line separator and no comma, 'a=b' and 'c=d' were printed as
'a=bc=d'.
---
 src/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 543608e..290dee0 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -275,7 +275,7 @@ impl DotPrinter for Vec<Attribute> {
                 attrs.join(&format!(
                     "{}{}{}",
                     {
-                        if ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {
+                        if ctx.l_s.is_empty() || ctx.is_inline_on() || ctx.mult_node_attr_on_s_l_comma {
                             ","
                         } else {
                             ""
-- 
2.43.0


From b172e0b6f763bfe33bd6b19914be0d8acda10c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 13/27] fix: pass the temp file to dot by its exact path

With a temp directory whose name is not UTF-8, dot was given a path that does
not exist.
---
 src/cmd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..2028667 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -46,6 +46,7 @@
 //!
 //! [`dot` command line executable]: https://graphviz.org/doc/info/command.html
 use std::{
+    ffi::OsStr,
     io::{self, ErrorKind, Write},
     process::{Command, Output},
 };
@@ -56,7 +57,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     let args = args.into_iter().map(|a| a.prepare()).collect();
     temp_file(graph).and_then(|f| {
         let path = f.into_temp_path();
-        do_exec(path.to_string_lossy().to_string(), args).and_then(|o| {
+        do_exec(path.as_os_str(), args).and_then(|o| {
             if o.status.code().map(|c| c != 0).unwrap_or(true) {
                 let mes = String::from_utf8_lossy(&o.stderr).to_string();
                 path.close()?;
@@ -69,7 +70,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     })
 }
 
-fn do_exec(input: String, args: Vec<String>) -> io::Result<Output> {
+fn do_exec(input: &OsStr, args: Vec<String>) -> io::Result<Output> {
     let mut command = Command::new("dot");
 
     for arg in args {
-- 
2.43.0


From 4ec5bb30ccb0758cac7c86a2e122f9b6eeb9e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 14/27] fix: use graphviz's own names for the osage layout and
 the wbmp format

Layout::Asage and Format::Vbmp were passed to dot as 'asage' and 'vbmp',
which it does not have.
---
 src/cmd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 2028667..5b86d30 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -123,7 +123,13 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
-            CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
+            CommandArg::Layout(l) => {
+                let str = match l {
+                    Layout::Asage => "osage".to_string(),
+                    _ => format!("{:?}", l).to_lowercase(),
+                };
+                format!("-K{}", str)
+            }
             CommandArg::Format(f) => {
                 let str = match f {
                     Format::Xdot12 => "xdot1.2".to_string(),
@@ -133,6 +139,7 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From 78c60560c554a9c7e6ff9d25854df4a0e56b4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 15/27] fix: make edge! with a list of attributes compile

The arm for a chain lacked a semicolon, and the one for a pair had one after
its expression, which rustc denies by default now.
---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..ba3daf2 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -558,7 +558,7 @@ macro_rules! edge {
     }};
 
     ($l:expr => $r:expr, $attrs:expr) => {
-        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs };
+        Edge{ ty: EdgeTy::Pair(Vertex::from($l),Vertex::from($r)), attributes: $attrs }
     };
     ($l:expr => $r:expr; $($attrs:expr),+) => {{
          let mut attrs_vec = Vec::new();
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From 7c241f34726988e2b27b7f52081ba35452ddee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 16/27] fix: keep the id of a digraph without statements in
 graph!

graph!(di id!(esc "a")) wrapped the id once more and made it the plain id
'esc "a"'.
---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index ba3daf2..6cdd806 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From 99d0a222baf8ed71cdf4a40d605e631e629d4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 17/27] fix: default arrowsize to 1.0, as graphviz does

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 16819f2..e978e6c 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -52,7 +52,7 @@ generate_attr!(enum arrowtail for EdgeAttributes;
     normal
     //endregion
 );
-generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
+generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
 generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-- 
2.43.0


From bcd7519ba13590038a49e240a303142ffe80f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 18/27] fix: read concatenated quoted strings

'"a" + "b"' was rejected; in DOT it is the string "ab".
---
 src/grammar/dot.pest | 2 +-
 src/parser.rs        | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index d93febe..bf5f72c 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -18,7 +18,7 @@ plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
-id = {plain | html | string_qt}
+id = {plain | html | string_qt ~ ("+" ~ string_qt)*}
 node_id = {id ~ port?}
 attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
diff --git a/src/parser.rs b/src/parser.rs
index 97ac64e..696a5b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -52,10 +52,15 @@ fn process_attr(rule: Pair<Rule>) -> Attribute {
 
 fn process_id(rule: Pair<Rule>) -> Id {
     let val = rule.as_str().to_string();
-    match down(rule).as_rule() {
+    let parts = rule.into_inner();
+    match parts.peek().unwrap().as_rule() {
         Rule::plain => Id::Plain(val),
         Rule::html => Id::Html(val),
-        Rule::string_qt => Id::Escaped(val),
+        // "a" + "b" is the string "ab"
+        Rule::string_qt => {
+            let inner: String = parts.map(|part| down(part).as_str()).collect();
+            Id::Escaped(format!("\"{}\"", inner))
+        }
         p => panic!("unreachable, got {:?}", p),
     }
 }
-- 
2.43.0


From e1e8c0258983d16d91220ae571256eea54f8ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 19/27] fix: do not reparse a bare block that fails to parse

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index bf5f72c..e06a4cb 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -33,7 +33,7 @@ edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | !subgraph_head ~ node_id }
 subgraph_kw = @{^"subgraph" ~ !(word | ASCII_DIGIT)}
 subgraph = {(&subgraph_kw ~ ^"subgraph" ~ id?)? ~ body}
-subgraph_head = _{&subgraph_kw ~ ^"subgraph" ~ id? ~ "{"}
+subgraph_head = _{(&subgraph_kw ~ ^"subgraph" ~ id?)? ~ "{"}
 subgraph_stmt = _{subgraph ~ (edge_tail+ ~ attr_list?)?}
 stmt = {attr_stmt | subgraph_stmt | !subgraph_head ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-- 
2.43.0


From 09d2b1b8c2f190ce14443976e39ba400152f158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 20/27] fix: build deeply nested bodies without recursion

---
 src/parser.rs | 66 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 696a5b9..fa4cc91 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,6 +3,8 @@
 //! The grammar can be viewed in `/grammar/dot.pest`
 //!
 //! ['notation']: https://graphviz.org/doc/info/lang.html
+use std::collections::HashMap;
+
 use dot_structures::*;
 use pest::{
     error::Error,
@@ -107,23 +109,39 @@ fn process_node_id(rule: Pair<Rule>) -> NodeId {
     }
 }
 
-fn process_subgraph(rule: Pair<Rule>) -> Subgraph {
+/// The statements of the bodies that are already built, by the position of the body.
+type Bodies = HashMap<usize, Vec<Stmt>>;
+
+fn process_subgraph(rule: Pair<Rule>, bodies: &mut Bodies) -> Subgraph {
     let mut sub_r = rule.into_inner();
     let id = match sub_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(sub_r.next().unwrap()),
         _ => Id::Anonymous(rand::random::<u64>().to_string()),
     };
-    let stmts = process_body(sub_r.next().unwrap());
+    let body_r = sub_r.next().unwrap();
+    let stmts = bodies
+        .remove(&body_r.as_span().start())
+        .unwrap_or_else(|| process_body(body_r));
     Subgraph { id, stmts }
 }
 
+// builds the innermost bodies first, the stack does not have to hold the nesting
 fn process_body(rule: Pair<Rule>) -> Vec<Stmt> {
-    let mut stmts = vec![];
-    let mut body_r = rule.into_inner();
-    while body_r.peek().is_some() {
-        stmts.push(process_stmt(body_r.next().unwrap()));
+    let mut bodies = Bodies::new();
+    for body_r in rule.clone().into_inner().flatten().rev() {
+        if body_r.as_rule() == Rule::body {
+            let start = body_r.as_span().start();
+            let stmts = process_stmts(body_r, &mut bodies);
+            bodies.insert(start, stmts);
+        }
     }
-    stmts
+    process_stmts(rule, &mut bodies)
+}
+
+fn process_stmts(body: Pair<Rule>, bodies: &mut Bodies) -> Vec<Stmt> {
+    body.into_inner()
+        .map(|stmt_r| process_stmt_with(stmt_r, bodies))
+        .collect()
 }
 
 fn process_node(rule: Pair<Rule>) -> Node {
@@ -143,21 +161,29 @@ fn process_node(rule: Pair<Rule>) -> Node {
 }
 
 fn process_vertex(rule: Pair<Rule>) -> Vertex {
+    process_vertex_with(rule, &mut Bodies::new())
+}
+
+fn process_vertex_with(rule: Pair<Rule>, bodies: &mut Bodies) -> Vertex {
     let vertex_r = down(rule);
     match vertex_r.as_rule() {
         Rule::node_id => Vertex::N(process_node_id(vertex_r)),
-        Rule::subgraph => Vertex::S(process_subgraph(vertex_r)),
+        Rule::subgraph => Vertex::S(process_subgraph(vertex_r, bodies)),
         _ => unreachable!(""),
     }
 }
 
 fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
+    process_edge_with(rule, &mut Bodies::new())
+}
+
+fn process_edge_with(rule: Pair<Rule>, bodies: &mut Bodies) -> Vec<Vertex> {
     let mut edge_r = rule.into_inner();
-    let h = process_vertex(edge_r.next().unwrap());
+    let h = process_vertex_with(edge_r.next().unwrap(), bodies);
     let mut chain = vec![h];
 
     while edge_r.peek().is_some() {
-        chain.push(process_vertex(down(edge_r.next().unwrap())))
+        chain.push(process_vertex_with(down(edge_r.next().unwrap()), bodies))
     }
     chain
 }
@@ -172,8 +198,12 @@ fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {
 }
 
 fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+    process_edge_stmt_with(rule, &mut Bodies::new())
+}
+
+fn process_edge_stmt_with(rule: Pair<Rule>, bodies: &mut Bodies) -> Edge {
     let mut edge_r = rule.into_inner();
-    let ty = process_edge_ty(process_edge(edge_r.next().unwrap()));
+    let ty = process_edge_ty(process_edge_with(edge_r.next().unwrap(), bodies));
 
     if let Some(attr_r) = edge_r.next() {
         Edge {
@@ -196,12 +226,12 @@ fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
 }
 
 // a subgraph on its own or an edge starting with a subgraph
-fn process_subgraph_stmt(head: Pair<Rule>, rest: Pairs<Rule>) -> Stmt {
-    let mut chain = vec![Vertex::S(process_subgraph(head))];
+fn process_subgraph_stmt(head: Pair<Rule>, rest: Pairs<Rule>, bodies: &mut Bodies) -> Stmt {
+    let mut chain = vec![Vertex::S(process_subgraph(head, bodies))];
     let mut attributes = vec![];
     for r in rest {
         match r.as_rule() {
-            Rule::edge_tail => chain.push(process_vertex(down(r))),
+            Rule::edge_tail => chain.push(process_vertex_with(down(r), bodies)),
             _ => attributes = process_attr_list(r),
         }
     }
@@ -218,14 +248,18 @@ fn process_subgraph_stmt(head: Pair<Rule>, rest: Pairs<Rule>) -> Stmt {
 }
 
 fn process_stmt(rule: Pair<Rule>) -> Stmt {
+    process_stmt_with(rule, &mut Bodies::new())
+}
+
+fn process_stmt_with(rule: Pair<Rule>, bodies: &mut Bodies) -> Stmt {
     let mut stmt_inner = rule.into_inner();
     let stmt_r = stmt_inner.next().unwrap();
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph => process_subgraph_stmt(stmt_r, stmt_inner),
+        Rule::subgraph => process_subgraph_stmt(stmt_r, stmt_inner, bodies),
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
-        Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
+        Rule::edge_stmt => Stmt::Edge(process_edge_stmt_with(stmt_r, bodies)),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From 79e20a6ad9cbf3525c6f00aa8ea5baab19ffb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 21/27] fix: honour the indent step and the inline size of
 PrinterContext::new

---
 src/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 290dee0..754f8e5 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -136,8 +136,8 @@ impl PrinterContext {
             indent_step,
             inline_size,
             l_s: line_s.clone(),
-            l_s_i: line_s,
-            l_s_m: "".to_string(),
+            l_s_i: "".to_string(),
+            l_s_m: line_s,
             attr_value_printers: HashMap::new(),
         }
     }
-- 
2.43.0


From b3376b55c045fa04f1749e1ae0354d9f4fde7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 22/27] fix: let the macros take any expression as an id or a
 value

The prefix was matched as any identifier, so that a call, a macro call, a path
or an operator after an identifier (attr!("label", format!(..))) did not compile.
---
 dot-generator/src/lib.rs | 87 +++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 6cdd806..2975de3 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -130,10 +130,12 @@ macro_rules! port {
 #[macro_export]
 macro_rules! node_id {
     () => {  NodeId(id!(),None) };
+    (html $e:expr) => { NodeId(id!(html $e),None) };
+    (html $e:expr, $p:expr) => { NodeId(id!(html $e),Some($p)) };
+    (esc $e:expr) => { NodeId(id!(esc $e),None) };
+    (esc $e:expr, $p:expr) => { NodeId(id!(esc $e),Some($p)) };
     ($e:expr) => { NodeId(id!($e),None) };
     ($e:expr, $p:expr) => { NodeId(id!($e),Some($p)) };
-    ($i:ident $e:expr) => { NodeId(id!($i$e),None) };
-    ($i:ident $e:expr, $p:expr) => { NodeId(id!($i$e),Some($p)) };
 }
 
 /// Constructs an id for node or subgraph.
@@ -192,9 +194,14 @@ macro_rules! id {
 /// ```
 #[macro_export]
 macro_rules! attr {
-    ($ik:ident $k:expr,$iv:ident $v:expr) => {Attribute(id!($ik $k),id!($iv $v))};
-    ($ik:ident $k:expr,$v:expr) => {Attribute(id!($ik $k),id!($v))};
-    ($k:expr, $iv:ident $v:expr) => {Attribute(id!($k),id!($iv $v))};
+    (html $k:expr, html $v:expr) => {Attribute(id!(html $k),id!(html $v))};
+    (html $k:expr, esc $v:expr) => {Attribute(id!(html $k),id!(esc $v))};
+    (html $k:expr, $v:expr) => {Attribute(id!(html $k),id!($v))};
+    (esc $k:expr, html $v:expr) => {Attribute(id!(esc $k),id!(html $v))};
+    (esc $k:expr, esc $v:expr) => {Attribute(id!(esc $k),id!(esc $v))};
+    (esc $k:expr, $v:expr) => {Attribute(id!(esc $k),id!($v))};
+    ($k:expr, html $v:expr) => {Attribute(id!($k),id!(html $v))};
+    ($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v))};
     ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))}
 }
 
@@ -315,15 +322,22 @@ macro_rules! stmt {
 #[macro_export]
 macro_rules! subgraph {
     () => {Subgraph{id:id!(),stmts:vec![]}};
-    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
-    ($i:ident $id:expr) => {Subgraph{id:id!($i$id),stmts:vec![]}};
-    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
-    ($i:ident $id:expr, $stmts:expr) => {Subgraph{id:id!($i$id),stmts:$stmts}};
-    ($i:ident $id:expr; $($stmts:expr),+ ) => {{
+    (html $id:expr) => {Subgraph{id:id!(html $id),stmts:vec![]}};
+    (html $id:expr, $stmts:expr) => {Subgraph{id:id!(html $id),stmts:$stmts}};
+    (html $id:expr; $($stmts:expr),+ ) => {{
+        let mut stmts_vec = Vec::new();
+        $( stmts_vec.push(stmt!($stmts)) ; )+
+        Subgraph{id:id!(html $id),stmts:stmts_vec}
+    }};
+    (esc $id:expr) => {Subgraph{id:id!(esc $id),stmts:vec![]}};
+    (esc $id:expr, $stmts:expr) => {Subgraph{id:id!(esc $id),stmts:$stmts}};
+    (esc $id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
-        Subgraph{id:id!($i$id),stmts:stmts_vec}
+        Subgraph{id:id!(esc $id),stmts:stmts_vec}
     }};
+    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
+    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
     ($id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
@@ -451,36 +465,53 @@ macro_rules! attrs {
 #[macro_export]
 macro_rules! node {
     () => {Node::new(NodeId(id!(), None), vec![])};
-    ($i:ident $id:expr) => {Node::new(NodeId(id!($i$id), None), vec![])};
-    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
-    ($i:ident $id:expr; $($attr:expr),+ ) => {{
+    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};
+    (html $id:expr, $attrs:expr) => {
+        Node::new(NodeId(id!(html $id), None), $attrs)
+    };
+    (html $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), None), attrs)
+        Node::new(NodeId(id!(html $id), None), attrs)
     }};
-     ($i:ident $id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), None), $attrs)
+    (html $id:expr => $p:expr, $attrs:expr) => {
+        Node::new(NodeId(id!(html $id), Some($p)), $attrs)
     };
-    ($id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($id), None), $attrs)
+    (html $id:expr => $p:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(html $id), Some($p)), attrs)
+    }};
+    (esc $id:expr) => {Node::new(NodeId(id!(esc $id), None), vec![])};
+    (esc $id:expr, $attrs:expr) => {
+        Node::new(NodeId(id!(esc $id), None), $attrs)
+    };
+    (esc $id:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(esc $id), None), attrs)
+    }};
+    (esc $id:expr => $p:expr, $attrs:expr) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
     };
-    ( $id:expr; $($attr:expr),+ ) => {{
+    (esc $id:expr => $p:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!( $id), None), attrs)
+        Node::new(NodeId(id!(esc $id), Some($p)), attrs)
     }};
-    ($i:ident $id:expr => $p:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), Some($p)), $attrs)
+    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
+    ($id:expr, $attrs:expr) => {
+        Node::new(NodeId(id!($id), None), $attrs)
     };
-    ($i:ident $id:expr => $p:expr; $($attr:expr),+ ) => {{
+    ($id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
-         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), Some($p)), attrs)
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!($id), None), attrs)
     }};
-    ( $id:expr => $p:expr, $attrs:expr  ) => {
+    ($id:expr => $p:expr, $attrs:expr) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
     };
-    ( $id:expr => $p:expr; $($attr:expr),+ ) => {{
+    ($id:expr => $p:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!($id), Some($p)), attrs)
-- 
2.43.0


From a13452f1d00e711873e75030c316ca7cef4e5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 23/27] fix: let node! take a port without attributes

---
 dot-generator/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 2975de3..647036d 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -474,6 +474,7 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!(html $id), None), attrs)
     }};
+    (html $id:expr => $p:expr) => {Node::new(NodeId(id!(html $id), Some($p)), vec![])};
     (html $id:expr => $p:expr, $attrs:expr) => {
         Node::new(NodeId(id!(html $id), Some($p)), $attrs)
     };
@@ -491,6 +492,7 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!(esc $id), None), attrs)
     }};
+    (esc $id:expr => $p:expr) => {Node::new(NodeId(id!(esc $id), Some($p)), vec![])};
     (esc $id:expr => $p:expr, $attrs:expr) => {
         Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
     };
@@ -508,6 +510,7 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!($id), None), attrs)
     }};
+    ($id:expr => $p:expr) => {Node::new(NodeId(id!($id), Some($p)), vec![])};
     ($id:expr => $p:expr, $attrs:expr) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
     };
-- 
2.43.0


From 0d9823e1e91cb4dccb1fd9e1000b2fc41c926451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 24/27] fix: name the attribute of a type with a raw identifier
 without its r#

---
 into-attr-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/into-attr-derive/src/lib.rs b/into-attr-derive/src/lib.rs
index 252b1fe..9f78543 100644
--- a/into-attr-derive/src/lib.rs
+++ b/into-attr-derive/src/lib.rs
@@ -5,7 +5,7 @@ use dot_generator::attr;
 use into_attr::IntoAttribute;
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{self, Data};
+use syn::{self, ext::IdentExt, Data};
 
 #[proc_macro_derive(IntoAttribute)]
 pub fn into_attr_derive(input: TokenStream) -> TokenStream {
@@ -15,7 +15,7 @@ pub fn into_attr_derive(input: TokenStream) -> TokenStream {
 
 fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
     let name = &ast.ident;
-    let name_str = name.to_string();
+    let name_str = name.unraw().to_string();
     let gen = match &ast.data {
         Data::Enum(de) => {
             quote! {
-- 
2.43.0


From 52582253e6e604d4c0442635acd50663bc044a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 25/27] fix: derive IntoAttribute for types with lifetime and
 type parameters

---
 into-attr-derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/into-attr-derive/src/lib.rs b/into-attr-derive/src/lib.rs
index 9f78543..a82b3ff 100644
--- a/into-attr-derive/src/lib.rs
+++ b/into-attr-derive/src/lib.rs
@@ -16,10 +16,11 @@ pub fn into_attr_derive(input: TokenStream) -> TokenStream {
 fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
     let name = &ast.ident;
     let name_str = name.unraw().to_string();
+    let (impl_generics, ty_generics, where_clause) = ast.generics.split_for_impl();
     let gen = match &ast.data {
         Data::Enum(de) => {
             quote! {
-              impl IntoAttribute for #name {
+              impl #impl_generics IntoAttribute for #name #ty_generics #where_clause {
                 fn into_attr(self)  -> Attribute {
                         let v = format!("{:?}",self);
                         let v =  v.as_str().strip_suffix("_").unwrap_or(v.as_str());
@@ -30,7 +31,7 @@ fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
         }
         Data::Struct(ds) => {
             quote! {
-              impl IntoAttribute for #name {
+              impl #impl_generics IntoAttribute for #name #ty_generics #where_clause {
                 fn into_attr(self) -> Attribute {
                  attr!(#name_str,self.0)
                 }
-- 
2.43.0


From d5fcbb300a64b3f55cfd5249219b6e82100286dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 26/27] fix: let graph! take a block or an operator expression
 as the id of a digraph

---
 dot-generator/src/lib.rs | 52 +++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 647036d..5b26de7 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -714,52 +714,50 @@ macro_rules! edge {
 /// ```
 #[macro_export]
 macro_rules! graph {
-    (strict $id:expr) => {
-        Graph::Graph { id: $id, strict: true, stmts: vec![] }
-    };
-    ($id:expr) => {
-        Graph::Graph { id: $id, strict: false, stmts: vec![] }
-    };
     (strict di $id:expr) => {
         Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
-    (di $id:expr) => {
-        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
-    };
-    (strict $id:expr, $stmts:expr) => {
-        Graph::Graph { id: $id, strict: true, stmts: $stmts }
-    };
-    ($id:expr, $stmts:expr) => {
-        Graph::Graph { id: $id, strict: false, stmts: $stmts }
-    };
     (strict di $id:expr, $stmts:expr) => {
         Graph::DiGraph { id: $id, strict: true, stmts: $stmts }
     };
+    (strict di $id:expr; $($stmts:expr),+) => {{
+         let mut stmts = vec![];
+         $( stmts.push(stmt!($stmts)) ; )+
+         Graph::DiGraph { id: $id, strict: true, stmts: stmts }
+    }};
+    (di $id:expr) => {
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
+    };
     (di $id:expr, $stmts:expr) => {
         Graph::DiGraph { id: $id, strict: false, stmts: $stmts }
     };
-
+    (di $id:expr; $($stmts:expr),+) => {{
+         let mut stmts = vec![];
+         $( stmts.push(stmt!($stmts)) ; )+
+         Graph::DiGraph { id: $id, strict: false, stmts: stmts }
+    }};
+    (strict $id:expr) => {
+        Graph::Graph { id: $id, strict: true, stmts: vec![] }
+    };
+    (strict $id:expr, $stmts:expr) => {
+        Graph::Graph { id: $id, strict: true, stmts: $stmts }
+    };
     (strict $id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
         Graph::Graph { id: $id, strict: true, stmts: stmts }
     }};
+    ($id:expr) => {
+        Graph::Graph { id: $id, strict: false, stmts: vec![] }
+    };
+    ($id:expr, $stmts:expr) => {
+        Graph::Graph { id: $id, strict: false, stmts: $stmts }
+    };
     ($id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
         Graph::Graph { id: $id, strict: false, stmts: stmts }
     }};
-    (strict di $id:expr; $($stmts:expr),+) => {{
-         let mut stmts = vec![];
-         $( stmts.push(stmt!($stmts)) ; )+
-         Graph::DiGraph { id: $id, strict: true, stmts: stmts }
-    }};
-    (di $id:expr; $($stmts:expr),+) => {{
-         let mut stmts = vec![];
-         $( stmts.push(stmt!($stmts)) ; )+
-         Graph::DiGraph { id: $id, strict: false, stmts: stmts }
-    }};
-
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6c5a3b65cb0fc65017fe102c12b3d8879f9a44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 27/27] fix: name the edgehref attribute edgehref

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index e978e6c..11b200f 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -72,7 +72,7 @@ generate_attr!(enum dir for EdgeAttributes; forward,back,both,none; forward);
 generate_attr!(struct diredgeconstraints for GraphAttributes; bool; false);
 generate_attr!(struct distortion for NodeAttributes; f32; 0.0);
 generate_attr!(struct dpi for GraphAttributes; f32; 96.0);
-generate_attr!(struct dedgehrefpi for EdgeAttributes; String);
+generate_attr!(struct edgehref for EdgeAttributes; String);
 generate_attr!(struct edgetarget for EdgeAttributes; String );
 generate_attr!(struct edgetooltip for EdgeAttributes; String );
 generate_attr!(struct edgeURL for EdgeAttributes; String );
-- 
2.43.0

