From 7c3b4678a7e46e64cfb8efd0add0e6b86497a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 01/31] fix: don't skip the character after a negative number

The lexer reads one character past the number and then skipped it, so
'[x=-1]' lost its closing bracket.
---
 layout/src/gv/parser/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..90a23ee 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,8 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            // The lexer already points past the number.
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From ce1147f05388641a0a89ce3f97fa667ac552c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 02/31] fix: end comments where they end

A line comment ended at any control character (a tab, for example), the
last character of a comment that runs to the end of the file was handed to
the parser, and a lone '/' was silently dropped.
---
 layout/src/gv/parser/lexer.rs | 42 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 90a23ee..ade623d 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -100,38 +100,38 @@ impl Lexer {
     }
 
     pub fn skip_comment(&mut self) -> bool {
-        let mut changed = false;
         if self.ch != '/' {
-            return changed;
+            return false;
         }
-        self.read_char();
-        changed = true;
 
-        if self.ch == '*' {
-            let mut prev = '\0';
-            while self.has_next() {
-                changed = true;
+        // A lone slash does not start a comment.
+        match self.input.get(self.pos) {
+            Some('*') => {
+                // Consume the '/', the '*' is the current char.
                 self.read_char();
-                if prev == '*' && self.ch == '/' {
+                let mut prev = '\0';
+                while self.has_next() {
                     self.read_char();
-                    return changed;
+                    if prev == '*' && self.ch == '/' {
+                        break;
+                    }
+                    prev = self.ch;
                 }
-                prev = self.ch;
             }
-            return changed;
-        }
-
-        if self.ch == '/' {
-            while self.has_next() {
-                changed = true;
-                self.read_char();
-                if self.ch.is_ascii_control() {
+            Some('/') => {
+                // Go until the end of the line, or the end of the file.
+                while self.ch != '\n' && self.has_next() {
                     self.read_char();
-                    return changed;
                 }
             }
+            _ => {
+                return false;
+            }
         }
-        changed
+
+        // Consume the last char of the comment.
+        self.read_char();
+        true
     }
 
     pub fn read_identifier(&mut self) -> String {
-- 
2.43.0


From 550cae8fd73baadb59709ecc8e8e673c975270d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 03/31] fix: accept a keyword or a brace after a node statement

The semicolon between statements is optional, but 'a node [..]',
'a subgraph x {..}' and 'a {..}' were rejected.
---
 layout/src/gv/parser/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index c61280f..105aba0 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -166,6 +166,17 @@ impl DotParser {
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
                     }
+                    // The semicolon is optional. These tokens start the next
+                    // statement.
+                    Token::GraphKW
+                    | Token::NodeKW
+                    | Token::EdgeKW
+                    | Token::SubgraphKW
+                    | Token::OpenBrace => {
+                        let ns = ast::NodeStmt::new(id0);
+                        let ns = ast::Stmt::Node(ns);
+                        Result::Ok(ns)
+                    }
                     _ => to_error("Unsupported token"),
                 }
             }
-- 
2.43.0


From 10ee9186848b6d9c78c092e53b6198f722281014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 04/31] fix: parse attribute lists with several pairs of
 brackets

The grammar (and the comment above the method) allows '[a=b][c=d]'.
---
 layout/src/gv/parser/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index 105aba0..f957208 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -219,7 +219,20 @@ impl DotParser {
     //attr_list : '[' [ a_list ] ']' [ attr_list ]
     pub fn parse_attr_list(&mut self) -> Result<ast::AttributeList, String> {
         let mut lst = ast::AttributeList::new();
+        self.parse_bracketed_attrs(&mut lst)?;
 
+        // More lists may follow the first one.
+        while let Token::OpenBracket = self.tok {
+            self.parse_bracketed_attrs(&mut lst)?;
+        }
+        Result::Ok(lst)
+    }
+
+    // '[' [ a_list ] ']'
+    fn parse_bracketed_attrs(
+        &mut self,
+        lst: &mut ast::AttributeList,
+    ) -> Result<(), String> {
         if let Token::OpenBracket = self.tok.clone() {
             self.lex();
         } else {
@@ -266,7 +279,7 @@ impl DotParser {
         } else {
             return to_error("Expected ']'");
         }
-        Result::Ok(lst)
+        Result::Ok(())
     }
 
     fn is_edge_token(&self) -> bool {
-- 
2.43.0


From 0b764563b3d61d2c2d30ff75e0190d6211c85297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 05/31] fix: reject deeply nested scopes instead of overflowing
 the stack

A file with enough '{' characters crashed the process.
---
 layout/src/gv/parser/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index f957208..ebb571b 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -6,8 +6,14 @@ use super::lexer::Token;
 pub struct DotParser {
     lexer: Lexer,
     tok: Token,
+    // The number of statement lists that are currently open.
+    depth: usize,
 }
 
+// Scopes that are nested deeper than this are rejected, because the parser (and
+// the users of the AST) recurse into the scopes.
+const MAX_NESTING_DEPTH: usize = 200;
+
 /// Creates an error from the string \p str.
 fn to_error<T>(str: &str) -> Result<T, String> {
     Result::Err(str.to_string())
@@ -19,6 +25,7 @@ impl DotParser {
         Self {
             lexer: Lexer::new(chars),
             tok: Token::Colon,
+            depth: 0,
         }
     }
 
@@ -111,6 +118,11 @@ impl DotParser {
     pub fn parse_stmt_list(&mut self) -> Result<ast::StmtList, String> {
         let mut lst = ast::StmtList::new();
 
+        self.depth += 1;
+        if self.depth > MAX_NESTING_DEPTH {
+            return to_error("The scopes are nested too deep");
+        }
+
         loop {
             if let Token::Semicolon = self.tok.clone() {
                 // Consume the semicolon.
@@ -120,6 +132,7 @@ impl DotParser {
             if let Token::CloseBrace = self.tok.clone() {
                 // Consume the '}' and exit.
                 self.lex();
+                self.depth -= 1;
                 return Result::Ok(lst);
             }
             let stmt = self.parse_stmt()?;
-- 
2.43.0


From ff8337948d5667d86eb79d47dd82a2e0d2a67b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 06/31] fix: use the right source port for each segment of an
 edge chain

In 'a:p -> b:q -> c' the edge from b left from the port of a.
---
 layout/src/gv/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..bf73b25 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -107,21 +107,21 @@ impl GraphBuilder {
 
         self.init_node_with_name(&e.from.name, false);
 
-        let mut prev = &e.from.name;
+        let mut prev = &e.from;
         for dest in &e.to {
-            let curr = &dest.0.name;
-            self.init_node_with_name(curr, false);
+            let curr = &dest.0;
+            self.init_node_with_name(&curr.name, false);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
 
             let edge = EdgeDesc {
-                from: prev.clone(),
-                to: curr.clone(),
+                from: prev.name.clone(),
+                to: curr.name.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
-                to_port: dest.0.port.clone(),
+                from_port: prev.port.clone(),
+                to_port: curr.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
-- 
2.43.0


From c4be3096e29255bedd65aa646500c68b5c5afdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 07/31] fix: keep the attributes of a node that is declared
 again

Default attributes apply to the nodes that are created after them. They
used to overwrite the explicit attributes of a node whenever it was
declared again: 'a[color=red]; node[color=blue]; a[shape=box]'.
---
 layout/src/gv/builder.rs | 43 ++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index bf73b25..abd196b 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -105,12 +105,13 @@ impl GraphBuilder {
             self.edge_attr.insert(&att.0, &att.1);
         }
 
-        self.init_node_with_name(&e.from.name, false);
+        let no_attrs = ast::AttributeList::new();
+        self.init_node_with_name(&e.from.name, &no_attrs);
 
         let mut prev = &e.from;
         for dest in &e.to {
             let curr = &dest.0;
-            self.init_node_with_name(&curr.name, false);
+            self.init_node_with_name(&curr.name, &no_attrs);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
@@ -129,33 +130,27 @@ impl GraphBuilder {
         self.edge_attr.pop();
     }
 
-    // If \p overwrite is set then we are declaring a node. This means that
-    // we need to update the properties that already exist.
-    fn init_node_with_name(&mut self, name: &str, overwrite: bool) {
-        let node_attr = self.node_attr.flatten();
-
-        if let Option::Some(prop_list) = self.nodes.get_mut(name) {
-            if !overwrite {
-                return;
-            }
-            for p in node_attr {
-                prop_list.insert(p.0, p.1);
-            }
-        } else {
+    // Create the node \p name, with the current default attributes, if it does
+    // not exist. Set the attributes \p explicit that are listed in the node
+    // declaration. The defaults don't apply to nodes that already exist.
+    fn init_node_with_name(
+        &mut self,
+        name: &str,
+        explicit: &ast::AttributeList,
+    ) {
+        if !self.nodes.contains_key(name) {
             self.node_order.push(name.to_string());
-            self.nodes.insert(name.to_string(), node_attr);
+            self.nodes.insert(name.to_string(), self.node_attr.flatten());
         }
-    }
 
-    fn visit_node(&mut self, n: &ast::NodeStmt) {
-        self.node_attr.push();
-
-        for att in n.list.iter() {
-            self.node_attr.insert(&att.0, &att.1);
+        let prop_list = self.nodes.get_mut(name).unwrap();
+        for att in explicit.iter() {
+            prop_list.insert(att.0.clone(), att.1.clone());
         }
+    }
 
-        self.init_node_with_name(&n.id.name, true);
-        self.node_attr.pop();
+    fn visit_node(&mut self, n: &ast::NodeStmt) {
+        self.init_node_with_name(&n.id.name, &n.list);
     }
 
     fn visit_att(&mut self, att: &ast::AttrStmt) {
-- 
2.43.0


From 3c4152c7fe52f59ae21ce57fcb640d45c7416e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 08/31] fix: don't read past the end of a record label

An empty label, and a label that ends with '{', caused a panic.
---
 layout/src/gv/record.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..fdf781d 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -88,6 +88,11 @@ impl RecordParser {
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
         loop {
+            // Are we at the end of the buffer?
+            if self.pos >= self.input.len() {
+                return frame.finalize_record();
+            }
+
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,10 +124,6 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
     }
 }
-- 
2.43.0


From ed36e9e86de4d09102d0aaa4f076112fdf41fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 09/31] fix: limit the nesting of rows in record labels

A label with enough '{' characters overflowed the stack.
---
 layout/src/gv/record.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index fdf781d..c08d599 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -29,8 +29,14 @@ pub fn print_record(rec: &RecordDef, indent: usize) {
 struct RecordParser {
     input: Vec<char>,
     pos: usize,
+    // The number of rows that are currently open.
+    depth: usize,
 }
 
+// The rows inside of a row that is nested this deep are merged into it, because
+// the users of the record recurse into the rows.
+const MAX_RECORD_DEPTH: usize = 100;
+
 struct RecordParserFrame {
     label: String,
     arr: Vec<RecordDef>,
@@ -82,11 +88,14 @@ impl RecordParser {
         Self {
             input: input.chars().collect(),
             pos: 0,
+            depth: 0,
         }
     }
 
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
+        // The number of open rows that we merge into this one.
+        let mut merged = 0;
         loop {
             // Are we at the end of the buffer?
             if self.pos >= self.input.len() {
@@ -101,8 +110,14 @@ impl RecordParser {
                     self.pos += 1;
                     // Finalize the label.
                     frame.finalize_label();
+                    if self.depth == MAX_RECORD_DEPTH {
+                        merged += 1;
+                        continue;
+                    }
                     // Parse the sub row:
+                    self.depth += 1;
                     let ret = self.parse();
+                    self.depth -= 1;
                     frame.arr.push(ret);
                 }
                 '|' => {
@@ -115,6 +130,10 @@ impl RecordParser {
                     self.pos += 1;
                     // Finalize the row.
                     frame.finalize_label();
+                    if merged > 0 {
+                        merged -= 1;
+                        continue;
+                    }
                     return frame.finalize_record();
                 }
                 _ => {
-- 
2.43.0


From 1c43a4e4a2fe8a80bb96e2f3e8ab3d2fbc89603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 10/31] fix: draw empty graphs

The layout of 'digraph {}' panicked.
---
 layout/src/topo/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..90caca3 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,11 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to place or draw in an empty graph.
+        if self.nodes.is_empty() {
+            return;
+        }
+
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 3bcaac26df242ccc5f12cec3c7da16a78627a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 11/31] fix: compute reachability in linear time

The search visited every path, not every node, so a small graph with many
diamonds took exponential time.
---
 layout/src/adt/dag.rs | 46 +++++++++++++------------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..b7e3866 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -205,49 +205,31 @@ impl DAG {
         self.nodes.is_empty()
     }
 
-    /// \returns True if the node \to is reachable from the node \p from.
-    /// This internal method is used for the verification of the graph.
-    fn is_reachable_inner(
-        &self,
-        from: NodeHandle,
-        to: NodeHandle,
-        visited: &mut Vec<bool>,
-    ) -> bool {
+    /// \returns True if there is a path from \p 'from' to \p 'to'.
+    pub fn is_reachable(&self, from: NodeHandle, to: NodeHandle) -> bool {
         if from == to {
             return true;
         }
 
-        // Don't step into a cycle.
-        if visited[from.idx] {
-            return false;
-        }
-
-        // Push to the dfs stack.
+        // Visit each node that is reachable from \p 'from' once.
+        let mut visited = vec![false; self.nodes.len()];
         visited[from.idx] = true;
+        let mut worklist = vec![from];
 
-        let from_node = &self.nodes[from.idx];
-        for edge in &from_node.successors {
-            if self.is_reachable_inner(*edge, to, visited) {
-                return true;
+        while let Some(node) = worklist.pop() {
+            for succ in &self.nodes[node.idx].successors {
+                if *succ == to {
+                    return true;
+                }
+                if !visited[succ.idx] {
+                    visited[succ.idx] = true;
+                    worklist.push(*succ);
+                }
             }
         }
-
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-    /// \returns True if there is a path from \p 'from' to \p 'to'.
-    pub fn is_reachable(&self, from: NodeHandle, to: NodeHandle) -> bool {
-        if from == to {
-            return true;
-        }
-
-        let mut visited = Vec::new();
-        visited.resize(self.nodes.len(), false);
-        self.is_reachable_inner(from, to, &mut visited)
-    }
-
     /// Return the topological sort order of the nodes in the dag.
     /// This is implemented as the reverse post order scan.
     fn topological_sort(&self) -> Vec<NodeHandle> {
-- 
2.43.0


From b0cca521a231ed4b194eabcaaddb2dc8326daf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 12/31] fix: don't overflow when placing text with a huge font
 size

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..8a4b11c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -216,7 +216,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From b102b2bad87a909f6b6bec811ffdfc3325ccc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 13/31] fix: replace the characters that XML does not allow

A control character in a label made the whole SVG file malformed.
---
 layout/src/backends/svg.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 8a4b11c..2de7b72 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,16 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // These characters are not allowed in XML documents, not even when
+            // they are escaped.
+            '\0'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {
+                res.push(char::REPLACEMENT_CHARACTER);
+            }
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From d2ecf7e5a07e130b68c5b3e39af55ea98d3f688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 14/31] fix: emit the font styles in a fixed order

The output for graphs with several font sizes changed from run to run.
---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 2de7b72..9d41ec3 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -66,7 +66,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -77,7 +77,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From 2f732aafe0e2442421f5787a07bebb03261faab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 15/31] fix: report errors when writing the output file

save_to_file claimed success when the disk was full.
---
 layout/src/core/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..7b526ce 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -6,8 +6,8 @@ use std::fs::File;
 use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
-    let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    let mut f = File::create(filename)?;
+    f.write_all(content.as_bytes())?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From 88fcf44ebe0df09910b4767655fcc098ed5c899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 16/31] fix: use the orientation of the inner record when
 sizing its cells

The cells were divided using the size of the transposed sub-records, so
the text of nested records did not fit its cell.
---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..c1f9d48 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -218,7 +218,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From e2c2f548bb90832895a60ee3c724a657ff49f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 17/31] fix: check the y range of vertical segments

segment_rect_intersection reported an intersection for vertical segments
that are entirely above or below the rectangle.
---
 layout/src/core/geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..21c90e0 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -489,7 +489,10 @@ pub fn segment_rect_intersection(
 
     // Check the case of vertical segment:
     if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        let in_x = seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        let top = seg.0.y.min(seg.1.y);
+        let bottom = seg.0.y.max(seg.1.y);
+        return in_x && top <= rect.1.y && bottom >= rect.0.y;
     }
 
     // Check if the lives are outside of the x range.
-- 
2.43.0


From c7cbed6b57d98b4bc81f463ac5adb53c2581eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 18/31] fix: keep the size of labels that move between rows in
 LR graphs

The label was resized while the graph is transposed, so its width and
height were swapped in the drawing.
---
 layout/src/topo/placer/move_between_rows.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..7adf6b2 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -43,8 +43,19 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
-        vg.element_mut(pred).resize();
-        vg.element_mut(curr).resize();
+        // Left-to-right graphs are transposed while we place the elements, but
+        // elements compute their size in the final orientation.
+        let is_transposed = !vg.orientation().is_top_to_bottom();
+        for node in [pred, curr] {
+            let elem = vg.element_mut(node);
+            if is_transposed {
+                elem.transpose();
+            }
+            elem.resize();
+            if is_transposed {
+                elem.transpose();
+            }
+        }
         return true;
     }
     false
-- 
2.43.0


From 9552286c0c07d8df357f916026fcb648ff1d2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 19/31] fix: ignore rounding errors when checking that the
 boxes of a row are disjoint

---
 layout/src/topo/placer/verifier.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/verifier.rs b/layout/src/topo/placer/verifier.rs
index 9aeefe5..f235b07 100644
--- a/layout/src/topo/placer/verifier.rs
+++ b/layout/src/topo/placer/verifier.rs
@@ -1,6 +1,11 @@
-use crate::core::geometry::do_boxes_intersect;
+use super::EPSILON;
+use crate::core::geometry::{do_boxes_intersect, Point};
 use crate::topo::layout::VisualGraph;
 
+/// Ignore overlaps of this fraction of the coordinates. The x coordinates are
+/// the sum of many sizes, and adjacent boxes are often placed with no gap.
+const ROUNDING: f64 = 1e-9;
+
 pub fn do_it(vg: &mut VisualGraph) {
     verify_order_in_rank(vg);
 }
@@ -19,6 +24,12 @@ fn verify_order_in_rank(vg: &mut VisualGraph) {
         for curr_node in node_iter {
             let bb0 = vg.pos(first_node).bbox(true);
             let bb1 = vg.pos(curr_node).bbox(true);
+            let largest = [bb0.0.x, bb0.1.x, bb1.0.x, bb1.1.x]
+                .iter()
+                .fold(0., |acc: f64, x| acc.max(x.abs()));
+            let tolerance = EPSILON.max(largest * ROUNDING);
+            let shifted = Point::new(tolerance, 0.);
+            let bb1 = (bb1.0.add(shifted), bb1.1.add(shifted));
             assert!(!do_boxes_intersect(bb0, bb1), "Boxes must not intersect");
             assert!(
                 bb0.0.x < bb1.0.x,
-- 
2.43.0


From 26c4a9b264eff3866f5b22b29e15f50f3305433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 20/31] fix: keep the font of labels that move between rows

---
 layout/src/topo/placer/move_between_rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 7adf6b2..c66cb4d 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -43,6 +43,8 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
+        // The label keeps its font.
+        vg.element_mut(pred).look = vg.element(curr).look.clone();
         // Left-to-right graphs are transposed while we place the elements, but
         // elements compute their size in the final orientation.
         let is_transposed = !vg.orientation().is_top_to_bottom();
-- 
2.43.0


From cd8b99fd16debc2b98678c2b786dfecba6e03ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 21/31] fix: don't normalize the zero vector when an edge
 passes through its own end

---
 layout/src/core/geometry.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 21c90e0..2e9c836 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -237,8 +237,19 @@ pub fn get_passthrough_path_invisible(
     //                         v
     //                          B (to)
 
-    let ar = center.sub(from);
-    let rb = to.sub(center);
+    let mut ar = center.sub(from);
+    let mut rb = to.sub(center);
+
+    // We can't normalize the zero vectors. If the center touches one of the
+    // ends then use the direction of the other one.
+    if ar.length() == 0. && rb.length() == 0. {
+        return create_vector_of_length(center, center, force);
+    }
+    if ar.length() == 0. {
+        ar = rb;
+    } else if rb.length() == 0. {
+        rb = ar;
+    }
 
     let a_outgoing_edge = normalize_scale_vector(ar.neg(), force);
     let b_outgoing_edge = normalize_scale_vector(rb.neg(), force);
-- 
2.43.0


From 52a1cc61f6a38bf8e49a157f855bca1ff3719f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 22/31] fix: keep straightened labels inside the canvas and off
 their neighbors

---
 layout/src/topo/placer/edge_fixer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..fab02a1 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,7 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{in_range, segment_rect_intersection, Point};
+use crate::core::geometry::{segment_rect_intersection, Point};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -88,9 +88,13 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let p2 = vg.pos(succ).center();
         let new_pos = p1.add(p2).scale(0.5);
 
+        // Labels extend to one side of their center point. Make sure that the
+        // whole box fits.
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
-            vg.pos_mut(elem).set_x(new_pos.x);
+        let mut pos = vg.pos(elem);
+        pos.set_x(new_pos.x);
+        if pos.in_x_range(bounds, false) {
+            *vg.pos_mut(elem) = pos;
             cnt += 1;
         }
     }
@@ -304,6 +308,9 @@ pub fn do_it(vg: &mut VisualGraph) {
     #[cfg(feature = "log")]
     log::info!("Straightened {} edges.", cnt);
 
+    // Boxes that moved to the left may have crossed the edge of the canvas.
+    align_to_left(vg);
+
     cnt = adjust_crossing_edges(vg);
     #[cfg(feature = "log")]
     log::info!("Adjusted crossing {} edges.", cnt);
-- 
2.43.0


From 50acebc24433ead458192972e3f293998468b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 23/31] fix: don't move labels on top of other shapes

---
 layout/src/topo/placer/edge_fixer.rs | 39 ++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index fab02a1..bab9876 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,9 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{segment_rect_intersection, Point};
+use crate::core::geometry::{
+    do_boxes_intersect, segment_rect_intersection, Point,
+};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -194,6 +196,37 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
     false
 }
 
+/// \return True if the node \p node can move by \p offset without leaving the
+/// canvas or overlapping another shape. The list \p moved saves the nodes that
+/// are about to move.
+fn can_translate(
+    vg: &VisualGraph,
+    node: NodeHandle,
+    offset: Point,
+    moved: &[(NodeHandle, Point)],
+) -> bool {
+    let mut pos = vg.pos(node);
+    pos.translate(offset);
+    let bb = pos.bbox(false);
+    if bb.0.y < 0. {
+        return false;
+    }
+
+    for other in vg.iter_nodes() {
+        if other != node && do_boxes_intersect(bb, vg.pos(other).bbox(false)) {
+            return false;
+        }
+    }
+    for (other, offset) in moved {
+        let mut pos = vg.pos(*other);
+        pos.translate(*offset);
+        if do_boxes_intersect(bb, pos.bbox(false)) {
+            return false;
+        }
+    }
+    true
+}
+
 pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
     let mut cnt = 0;
     // A list of nodes to adjust, and the dy.
@@ -276,7 +309,9 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
                         for offset in offsets {
                             let seg0 = (seg0.0, seg0.1.add(offset));
                             let seg1 = (seg1.0.add(offset), seg1.1);
-                            if !is_intersecting_any(&[seg0, seg1], &pos_all) {
+                            if !is_intersecting_any(&[seg0, seg1], &pos_all)
+                                && can_translate(vg, curr, offset, &to_move)
+                            {
                                 to_move.push((curr, offset));
                                 continue 'out;
                             }
-- 
2.43.0


From 24750fae631b9474ac215df6a48a77c4320f06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 24/31] fix: make room for the text in the SVG page

---
 layout/src/backends/svg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 9d41ec3..41f9408 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -2,7 +2,7 @@
 
 use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
-use crate::core::geometry::Point;
+use crate::core::geometry::{get_size_for_str, Point};
 use crate::core::style::StyleAttr;
 use std::collections::BTreeMap;
 
@@ -234,6 +234,10 @@ impl RenderBackend for SVGWriter {
         }
 
         self.grow_window(xy, Point::new(10., len as f64 * 10.));
+        // The text is centered around the point, and may be wider or taller
+        // than the elements around it.
+        let text_size = get_size_for_str(text, look.font_size);
+        self.grow_window(xy, text_size.scale(0.5));
         let line = format!(
             "<text dominant-baseline=\"middle\" text-anchor=\"middle\" 
             x=\"{}\" y=\"{}\" class=\"{}\">{}</text>",
-- 
2.43.0


From fa6cef4d9c5c0a946423fd90237e937c73dff567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 25/31] fix: limit the font size to what the coordinates can
 represent

---
 layout/src/gv/builder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index abd196b..4ff4531 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -15,6 +15,10 @@ use std::collections::HashMap;
 
 type PropertyList = HashMap<String, String>;
 
+/// Larger font sizes are reduced to this size. The coordinates of larger shapes
+/// don't have the precision that the layout needs to separate the shapes.
+const MAX_FONT_SIZE: usize = 1_000_000;
+
 // The methods in this file are responsible for converting the parsed Graphviz
 // AST into the VisualGraph data-structure that we use for layout and rendering
 // of the graph.
@@ -260,7 +264,7 @@ impl GraphBuilder {
 
         if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
             if let Result::Ok(x) = fx.parse::<usize>() {
-                font_size = x;
+                font_size = x.min(MAX_FONT_SIZE);
             } else {
                 #[cfg(feature = "log")]
                 log::info!("Can't parse integer \"{}\"", fx);
@@ -343,7 +347,7 @@ impl GraphBuilder {
 
         if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
             if let Result::Ok(x) = fx.parse::<usize>() {
-                font_size = x;
+                font_size = x.min(MAX_FONT_SIZE);
             } else {
                 #[cfg(feature = "log")]
                 log::info!("Can't parse integer \"{}\"", fx);
-- 
2.43.0


From a5ce171529349c0785fb5361098c7388fae2c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 26/31] fix: connect arrows to shapes without width or height

---
 layout/src/core/geometry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 2e9c836..9beaad6 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -79,7 +79,12 @@ impl std::fmt::Display for Point {
 /// Notice that a line has two intersection points with a circle, so users need
 /// to figure out which of the two values (+X, +Y) or (-X, -Y) is relevant.
 pub fn ellipse_line_intersection(a: f64, b: f64, m: f64) -> Point {
-    let x: f64 = ((a * a * b * b) / (b * b + a * a * m * m)).sqrt();
+    let denom = b * b + a * a * m * m;
+    // The ellipse is flat and the line runs along it, or it is just a point.
+    if denom == 0. {
+        return Point::new(a, 0.);
+    }
+    let x: f64 = ((a * a * b * b) / denom).sqrt();
     let y: f64 = m * x;
     Point::new(x, y)
 }
@@ -195,7 +200,7 @@ pub fn get_connection_point_for_box(
     let mut gain_y = box_x * slope_from;
 
     // Need to connect from the side.
-    if gain_y.abs() < box_y {
+    if gain_y.abs() <= box_y {
         if dx > 0. {
             box_x = -box_x;
             gain_y = -gain_y;
-- 
2.43.0


From b8736df702e8555fa409b23a49c447676c65eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 27/31] fix: draw records with their properties

---
 layout/src/std_shapes/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index c1f9d48..9416854 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -129,6 +129,7 @@ fn render_record(
     loc: Point,
     size: Point,
     look: &StyleAttr,
+    properties: Option<String>,
     canvas: &mut dyn RenderBackend,
 ) {
     struct Renderer<'a> {
@@ -182,7 +183,7 @@ fn render_record(
         Point::new(loc.x - size.x / 2., loc.y - size.y / 2.),
         Point::new(size.x, size.y),
         &look,
-        Option::None,
+        properties,
         Option::None,
     );
 }
@@ -296,6 +297,7 @@ impl Renderable for Element {
                     self.pos.center(),
                     self.pos.size(false),
                     &self.look,
+                    self.properties.clone(),
                     canvas,
                 );
             }
-- 
2.43.0


From 3093963eeddb82e73f178a2254a9d7821d42f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 28/31] fix: keep the inner ring of small double circles from
 having a negative size

---
 layout/src/std_shapes/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index 9416854..7f1be49 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -327,9 +327,11 @@ impl Renderable for Element {
                     &self.look,
                     self.properties.clone(),
                 );
+                // Small shapes have no room for the full gap between the rings.
+                let inner = self.pos.size(false).sub(Point::splat(15.));
                 canvas.draw_circle(
                     self.pos.center(),
-                    self.pos.size(false).sub(Point::splat(15.)),
+                    Point::new(inner.x.max(0.), inner.y.max(0.)),
                     &self.look,
                     Option::None,
                 );
-- 
2.43.0


From eaf099a175e2e95e06d354c4037b0b5e4d772430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 29/31] fix: point at the error, not at the end of its line

---
 layout/src/gv/parser/lexer.rs | 36 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index ade623d..c32d6b6 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -48,33 +48,31 @@ impl Lexer {
 
     pub fn print_error(&self) {
         let mut found_loc = false;
-        let mut since_last_line = 0;
-        let mut idx = 0;
-        // Print every char in the file.
-        for ch in self.input.iter() {
+        // The number of chars in the last line, up to the error.
+        let mut column = 0;
+        let mut last = '\n';
+        // Print every char in the file, until the end of the line.
+        for (idx, ch) in self.input.iter().enumerate() {
             print!("{}", ch);
-            idx += 1;
-            if idx == self.pos {
+            last = *ch;
+            // 'pos' points one char after the error.
+            if idx + 1 == self.pos {
                 found_loc = true;
             }
-            // Go until the end of the line, but keep track how many spaces we
-            // need to print.
             if *ch == '\n' {
                 if found_loc {
-                    println!();
-                    // Subtract 1, because 'pos' points one char after the error
-                    // and another one because we print a '^' marker instead of
-                    // the last space.
-                    for _ in 2..since_last_line {
-                        print!(" ");
-                    }
-                    println!("^");
-                    return;
+                    break;
                 }
-                since_last_line = 0;
+                column = 0;
+            } else if !found_loc {
+                column += 1;
             }
-            since_last_line += 1;
         }
+        // The last line of the file may have no end.
+        if last != '\n' {
+            println!();
+        }
+        println!("{}^", " ".repeat(column));
     }
 
     pub fn has_next(&self) -> bool {
-- 
2.43.0


From cff481cc31d1b86f74c5fd6db8d85177a771f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 30/31] fix: the page of a drawing contains the curves of its
 edges

---
 layout/src/backends/svg.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 41f9408..68d0d00 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -69,6 +69,9 @@ pub struct SVGWriter {
     font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
+    // The top left corner of the view. This is zero, unless the curve of an
+    // edge passes to the left of, or above, the origin.
+    view_start: Point,
 }
 
 impl SVGWriter {
@@ -79,6 +82,7 @@ impl SVGWriter {
             counter: 0,
             font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
+            view_start: Point::zero(),
         }
     }
 }
@@ -102,6 +106,12 @@ impl SVGWriter {
         self.view_size.y = self.view_size.y.max(point.y + size.y + 5.);
     }
 
+    // Grow the viewable svg window to the left and up to include \p point.
+    fn grow_window_start(&mut self, point: Point) {
+        self.view_start.x = self.view_start.x.min(point.x);
+        self.view_start.y = self.view_start.y.min(point.y);
+    }
+
     // Gets or creates a font 'class' for the parameters. Returns the class
     // name.
     fn get_or_create_font_style(&mut self, font_size: usize) -> String {
@@ -137,13 +147,16 @@ impl SVGWriter {
         let mut result = String::new();
         result.push_str(SVG_HEADER);
 
+        let size = self.view_size.sub(self.view_start);
         let svg_line = format!(
-            "<svg width=\"{}\" height=\"{}\" viewBox=\"0 0 {} {}\
+            "<svg width=\"{}\" height=\"{}\" viewBox=\"{} {} {} {}\
             \" xmlns=\"http://www.w3.org/2000/svg\">\n",
-            self.view_size.x,
-            self.view_size.y,
-            self.view_size.x,
-            self.view_size.y
+            size.x,
+            size.y,
+            self.view_start.x,
+            self.view_start.y,
+            size.x,
+            size.y
         );
         result.push_str(&svg_line);
         result.push_str(SVG_DEFS);
@@ -268,6 +281,15 @@ impl RenderBackend for SVGWriter {
         for point in path {
             self.grow_window(point.0, Point::zero());
             self.grow_window(point.1, Point::zero());
+            self.grow_window_start(point.0);
+            self.grow_window_start(point.1);
+        }
+        // The control points that 'S' mirrors around the points on the way. A
+        // curve never leaves the box around its ends and control points.
+        for point in path.iter().skip(1).rev().skip(1) {
+            let mirrored = point.1.add(point.1.sub(point.0));
+            self.grow_window(mirrored, Point::zero());
+            self.grow_window_start(mirrored);
         }
 
         let dash = if dashed {
-- 
2.43.0


From 234485fb75bf54aff00e6f66072e0941f51b2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 31/31] fix: the page is no larger than what is drawn on it

---
 layout/src/backends/svg.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 68d0d00..a5245e2 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -211,7 +211,7 @@ impl RenderBackend for SVGWriter {
         look: &StyleAttr,
         properties: Option<String>,
     ) {
-        self.grow_window(xy, size);
+        self.grow_window(xy, size.scale(0.5));
         let fill_color = look.fill_color.unwrap_or_else(Color::transparent);
         let stroke_width = look.line_width;
         let stroke_color = look.line_color;
@@ -233,8 +233,6 @@ impl RenderBackend for SVGWriter {
     }
 
     fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
-        let len = text.len();
-
         let font_class = self.get_or_create_font_style(look.font_size);
 
         let mut content = String::new();
@@ -246,7 +244,6 @@ impl RenderBackend for SVGWriter {
             content.push_str("</tspan>");
         }
 
-        self.grow_window(xy, Point::new(10., len as f64 * 10.));
         // The text is centered around the point, and may be wider or taller
         // than the elements around it.
         let text_size = get_size_for_str(text, look.font_size);
-- 
2.43.0

