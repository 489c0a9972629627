From 0eb1ec4d521379b480783b3b4d5e1b1822c5452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 01/39] fix: don't drop the character that follows a negative
 number

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..46b0b75 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,7 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From f57859ddf007409323e6fb1ba2e1f99b2d6b8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 02/39] fix: find the end of comments correctly

A line comment ended at any control character (such as a tab), a comment
that reached the end of the file left its last character behind as a token,
'/*/' was not seen as an opening, and a stray '/' was silently dropped.
---
 layout/src/gv/parser/lexer.rs | 40 ++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 46b0b75..e61e6d5 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -100,38 +100,34 @@ impl Lexer {
     }
 
     pub fn skip_comment(&mut self) -> bool {
-        let mut changed = false;
-        if self.ch != '/' {
-            return changed;
+        if self.ch != '/' || !self.has_next() {
+            return false;
         }
-        self.read_char();
-        changed = true;
 
-        if self.ch == '*' {
-            let mut prev = '\0';
-            while self.has_next() {
-                changed = true;
+        match self.input[self.pos] {
+            '*' => {
+                // Skip the opening '/*'.
                 self.read_char();
-                if prev == '*' && self.ch == '/' {
+                self.read_char();
+                let mut prev = '\0';
+                // Skip until the closing '*/', or the end of the file.
+                while self.ch != '\0' && !(prev == '*' && self.ch == '/') {
+                    prev = self.ch;
                     self.read_char();
-                    return changed;
                 }
-                prev = self.ch;
-            }
-            return changed;
-        }
-
-        if self.ch == '/' {
-            while self.has_next() {
-                changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
+                true
+            }
+            '/' => {
+                // Skip until the end of the line, or the end of the file.
+                while self.ch != '\0' && self.ch != '\n' && self.ch != '\r' {
                     self.read_char();
-                    return changed;
                 }
+                true
             }
+            // This is not a comment.
+            _ => false,
         }
-        changed
     }
 
     pub fn read_identifier(&mut self) -> String {
-- 
2.43.0


From 9132d639a48dd694c0c400b21810a9dcf7bf5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 03/39] fix: accept identifiers that start with an underscore

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index e61e6d5..c586520 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -237,7 +237,7 @@ impl Lexer {
                 tok = Token::EOF;
             }
             _ => {
-                if self.ch.is_ascii_alphabetic() {
+                if self.ch.is_ascii_alphabetic() || self.ch == '_' {
                     let name = self.read_identifier();
                     match name.as_str() {
                         "graph" => {
-- 
2.43.0


From e914515084b845d13195631ce36f53a05eef4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 04/39] fix: allow any statement to follow a node without a
 semicolon

---
 layout/src/gv/parser/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index c61280f..a35609b 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -144,7 +144,13 @@ impl DotParser {
                         let es = self.parse_attribute_stmt(id0)?;
                         Result::Ok(ast::Stmt::Attribute(es))
                     }
-                    Token::Identifier(_) => {
+                    // The next token starts another statement.
+                    Token::Identifier(_)
+                    | Token::GraphKW
+                    | Token::NodeKW
+                    | Token::EdgeKW
+                    | Token::SubgraphKW
+                    | Token::OpenBrace => {
                         let ns = ast::NodeStmt::new(id0);
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
-- 
2.43.0


From 1b94995e38f88383a0ebb677d5650370c4b4f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 05/39] fix: parse consecutive attribute lists, as in the
 documented grammar

---
 layout/src/gv/parser/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index a35609b..ed4a70a 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -261,6 +261,14 @@ impl DotParser {
         } else {
             return to_error("Expected ']'");
         }
+
+        // Parse the lists that follow this list.
+        if let Token::OpenBracket = self.tok.clone() {
+            let rest = self.parse_attr_list()?;
+            for att in rest.iter() {
+                lst.add_attr(&att.0, &att.1);
+            }
+        }
         Result::Ok(lst)
     }
 
-- 
2.43.0


From eae6a4f391ae8a6316591000874a0f748c49a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 06/39] fix: point at the offending token when reporting syntax
 errors

The marker was printed at the end of the line, and it was not printed at all
if the error was in the last line of a file that has no final newline.
---
 layout/src/gv/parser/lexer.rs | 50 ++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index c586520..2bbe2ad 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -47,34 +47,36 @@ impl Lexer {
     }
 
     pub fn print_error(&self) {
-        let mut found_loc = false;
-        let mut since_last_line = 0;
-        let mut idx = 0;
-        // Print every char in the file.
-        for ch in self.input.iter() {
-            print!("{}", ch);
-            idx += 1;
-            if idx == self.pos {
-                found_loc = true;
+        // The index of the next unread char. The lexer keeps one char ahead,
+        // unless it reached the end of the file.
+        let next = if self.ch == '\0' {
+            self.pos
+        } else {
+            self.pos - 1
+        };
+        // The last char of the offending token.
+        let error = next.saturating_sub(1);
+        // The column of the current char, and the column of the error.
+        let mut column = 0;
+        let mut error_column = 0;
+        // Print every char in the file, up to the end of the line that contains
+        // the error.
+        for (idx, ch) in self.input.iter().enumerate() {
+            if idx == error {
+                error_column = column;
             }
-            // Go until the end of the line, but keep track how many spaces we
-            // need to print.
             if *ch == '\n' {
-                if found_loc {
-                    println!();
-                    // Subtract 1, because 'pos' points one char after the error
-                    // and another one because we print a '^' marker instead of
-                    // the last space.
-                    for _ in 2..since_last_line {
-                        print!(" ");
-                    }
-                    println!("^");
-                    return;
+                if idx >= error {
+                    break;
                 }
-                since_last_line = 0;
+                column = 0;
+            } else {
+                column += 1;
             }
-            since_last_line += 1;
+            print!("{}", ch);
         }
+        println!();
+        println!("{}^", " ".repeat(error_column));
     }
 
     pub fn has_next(&self) -> bool {
@@ -268,7 +270,7 @@ impl Lexer {
                     return Token::Identifier(num);
                 }
 
-                return Token::Error(self.pos);
+                tok = Token::Error(self.pos);
             }
         }
         self.read_char();
-- 
2.43.0


From fc1b1ccf31b20ac1dc34875d33e0e16cdc0b7dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 07/39] fix: don't read past the end of empty and unterminated
 record labels

---
 layout/src/gv/record.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..525538f 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -88,6 +88,11 @@ impl RecordParser {
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
         loop {
+            // Are we at the end of the buffer?
+            if self.pos == self.input.len() {
+                return frame.finalize_record();
+            }
+
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,10 +124,6 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
     }
 }
-- 
2.43.0


From 629b956b6179ee866e56da689fcd6d6a3b390f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 08/39] fix: use the port of each node in a chain of edges

---
 layout/src/gv/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..bf73b25 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -107,21 +107,21 @@ impl GraphBuilder {
 
         self.init_node_with_name(&e.from.name, false);
 
-        let mut prev = &e.from.name;
+        let mut prev = &e.from;
         for dest in &e.to {
-            let curr = &dest.0.name;
-            self.init_node_with_name(curr, false);
+            let curr = &dest.0;
+            self.init_node_with_name(&curr.name, false);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
 
             let edge = EdgeDesc {
-                from: prev.clone(),
-                to: curr.clone(),
+                from: prev.name.clone(),
+                to: curr.name.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
-                to_port: dest.0.port.clone(),
+                from_port: prev.port.clone(),
+                to_port: curr.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
-- 
2.43.0


From 8aee77df04614c4e8dd1f3db18c0114194f3c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 09/39] fix: measure nested records in the direction in which
 they are drawn

---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..c1f9d48 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -218,7 +218,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From 045c5ba53e64cc9b856a1b2fcf47618f8abae86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 10/39] fix: keep the style of edge labels that move between
 rows

---
 layout/src/topo/placer/move_between_rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..b804e1b 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -43,6 +43,8 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
+        // The style of the label moves with the text.
+        vg.element_mut(pred).look = vg.element(curr).look.clone();
         vg.element_mut(pred).resize();
         vg.element_mut(curr).resize();
         return true;
-- 
2.43.0


From d44936b33e6079baa93f73d4bd95b885cb6bee8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 11/39] fix: don't panic on graphs without nodes

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..309728c 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to place or draw in an empty graph.
+        if self.nodes.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 4f6de77cf1dc6e2c8e47255a52d75ea19c1ccabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 12/39] fix: search each node once when checking reachability

The search took exponential time in graphs with many joining paths.
---
 layout/src/adt/dag.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..759b876 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -217,12 +217,12 @@ impl DAG {
             return true;
         }
 
-        // Don't step into a cycle.
+        // Don't step into a cycle, or into nodes that we already searched.
         if visited[from.idx] {
             return false;
         }
 
-        // Push to the dfs stack.
+        // Don't visit the nodes below this node more than once.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +232,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From f63db76b2e3b54a31ee521dc02e12675ebb94bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 13/39] fix: emit the font styles in a fixed order

---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..eedb38c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -56,7 +56,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +67,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From 612d78ce04e5d73fe3cc102630607ba98dfdd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 14/39] fix: don't overflow when placing text with a huge font
 size

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index eedb38c..6ee0084 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -216,7 +216,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 5bc1d29802b86cc28892b9084c5b66fe8e3ad2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 15/39] fix: include the whole width of text in the viewable
 window

---
 layout/src/backends/svg.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 6ee0084..c34c3a7 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -2,7 +2,7 @@
 
 use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
-use crate::core::geometry::Point;
+use crate::core::geometry::{get_size_for_str, Point};
 use crate::core::style::StyleAttr;
 use std::collections::BTreeMap;
 
@@ -210,8 +210,6 @@ impl RenderBackend for SVGWriter {
     }
 
     fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
-        let len = text.len();
-
         let font_class = self.get_or_create_font_style(look.font_size);
 
         let mut content = String::new();
@@ -223,7 +221,9 @@ impl RenderBackend for SVGWriter {
             content.push_str("</tspan>");
         }
 
-        self.grow_window(xy, Point::new(10., len as f64 * 10.));
+        // The text is centered around the point xy.
+        let size = get_size_for_str(text, look.font_size);
+        self.grow_window(xy, size.scale(0.5));
         let line = format!(
             "<text dominant-baseline=\"middle\" text-anchor=\"middle\" 
             x=\"{}\" y=\"{}\" class=\"{}\">{}</text>",
-- 
2.43.0


From 845f38c093809cd23d67001368e1ff021ffd9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 16/39] fix: report errors when writing the content of a file

---
 layout/src/core/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..4f16e9d 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -7,7 +7,7 @@ use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
     let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    write!(&f, "{}", content)?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From f99e1455df1d0ff9e064e7cee1f9ef4d9be359c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 17/39] fix: consider the ends of vertical segments when
 intersecting boxes

---
 layout/src/core/geometry.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..26b8ccb 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -487,11 +487,6 @@ pub fn segment_rect_intersection(
     assert!(rect.0.x <= rect.1.x);
     assert!(rect.0.y <= rect.1.y);
 
-    // Check the case of vertical segment:
-    if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
-    }
-
     // Check if the lives are outside of the x range.
     let above = seg.0.x < rect.0.x && seg.1.x < rect.0.x;
     let below = seg.0.x > rect.1.x && seg.1.x > rect.1.x;
@@ -506,6 +501,11 @@ pub fn segment_rect_intersection(
         return false;
     }
 
+    // Check the case of vertical segment:
+    if seg.0.x == seg.1.x {
+        return true;
+    }
+
     // Find the intersection point with the edge of the box.
     //    | o
     //    |/
-- 
2.43.0


From e722da5e36903bc1cab573b093009471c42b366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 18/39] fix: leave a gap between the boxes of a row

Boxes were scheduled exactly next to each other, and rounding errors in the
averaged placement tripped the 'Boxes must not intersect' assertion.
---
 layout/src/topo/placer/bk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..9509bc7 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -179,9 +180,9 @@ impl<'a> Scheduler<'a> {
             };
 
             if self.order.is_left_to_right() {
-                last_offset_x = last_offset_x.max(last + offset);
+                last_offset_x = last_offset_x.max(last + offset + EPSILON);
             } else {
-                last_offset_x = last_offset_x.min(last - offset);
+                last_offset_x = last_offset_x.min(last - offset - EPSILON);
             }
         }
         last_offset_x
-- 
2.43.0


From e0cde98d151466f6143d59a0d59f4a0c92858187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 19/39] fix: don't straighten edges by moving labels over other
 boxes

Only the center point of the label was checked against the bounds.
---
 layout/src/topo/placer/edge_fixer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..07f319a 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,7 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{in_range, segment_rect_intersection, Point};
+use crate::core::geometry::{segment_rect_intersection, Point};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -89,8 +89,11 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let new_pos = p1.add(p2).scale(0.5);
 
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
-            vg.pos_mut(elem).set_x(new_pos.x);
+        // Make sure that the whole box fits between the boxes next to it.
+        let mut pos = vg.pos(elem);
+        pos.set_x(new_pos.x);
+        if pos.in_x_range(bounds, true) {
+            *vg.pos_mut(elem) = pos;
             cnt += 1;
         }
     }
-- 
2.43.0


From 8df98af63c85add9de2aa2205848ebbbdf977cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 20/39] fix: don't move edge bends on top of other boxes

---
 layout/src/topo/placer/edge_fixer.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 07f319a..c80b002 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,9 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{segment_rect_intersection, Point};
+use crate::core::geometry::{
+    do_boxes_intersect, segment_rect_intersection, Point,
+};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -193,6 +195,17 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
     false
 }
 
+/// \return True if the box of \p node doesn't overlap with any other box when it
+/// is moved by \p offset.
+fn can_move(vg: &VisualGraph, node: NodeHandle, offset: Point) -> bool {
+    let mut pos = vg.pos(node);
+    pos.translate(offset);
+    let bbox = pos.bbox(false);
+    !vg.iter_nodes().any(|other| {
+        other != node && do_boxes_intersect(bbox, vg.pos(other).bbox(false))
+    })
+}
+
 pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
     let mut cnt = 0;
     // A list of nodes to adjust, and the dy.
@@ -275,7 +288,9 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
                         for offset in offsets {
                             let seg0 = (seg0.0, seg0.1.add(offset));
                             let seg1 = (seg1.0.add(offset), seg1.1);
-                            if !is_intersecting_any(&[seg0, seg1], &pos_all) {
+                            if !is_intersecting_any(&[seg0, seg1], &pos_all)
+                                && can_move(vg, curr, offset)
+                            {
                                 to_move.push((curr, offset));
                                 continue 'out;
                             }
@@ -288,8 +303,11 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
 
     // Straighten the edges by moving the center block.
     for elem in to_move {
-        vg.pos_mut(elem.0).translate(elem.1);
-        cnt += 1;
+        // The blocks that we already moved may be in the way.
+        if can_move(vg, elem.0, elem.1) {
+            vg.pos_mut(elem.0).translate(elem.1);
+            cnt += 1;
+        }
     }
     cnt
 }
-- 
2.43.0


From 5a8060b854905b1cc90f604e6edaf67583ef9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 21/39] fix: keep the size of labels that move between rows of
 left-to-right graphs

---
 layout/src/topo/placer/move_between_rows.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index b804e1b..12eb9b1 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -1,7 +1,6 @@
 //! This is a pass that moves labels up and down to rows that are less busy.
 
 use crate::adt::dag::NodeHandle;
-use crate::core::format::Visible;
 use crate::std_shapes::shapes::ShapeKind;
 use crate::topo::layout::VisualGraph;
 
@@ -45,8 +44,11 @@ fn move_label(
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
         // The style of the label moves with the text.
         vg.element_mut(pred).look = vg.element(curr).look.clone();
-        vg.element_mut(pred).resize();
-        vg.element_mut(curr).resize();
+        // The size of the label moves with the text, too. Notice that at this
+        // point the graph may be transposed.
+        let label_pos = vg.pos(curr);
+        *vg.pos_mut(curr) = vg.pos(pred);
+        *vg.pos_mut(pred) = label_pos;
         return true;
     }
     false
-- 
2.43.0


From b1930ed42d682e268e12bbd007f516a2531b5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 22/39] fix: don't write characters that XML can't represent
 into the SVG

---
 layout/src/backends/svg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index c34c3a7..c97ef3f 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,13 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // XML documents can't contain these characters in any form.
+            '\u{0}'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {}
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From 3f1d4a2dff085d91b5737c48335355be44f0e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 23/39] fix: keep moved edge labels inside of the picture

Straightening an edge or untangling crossing edges could move a label
above the first row, or left of the leftmost shape (tiny nodes with long
edge labels). Do not move labels above the picture and align the picture
to the left edge after the last movement.
---
 layout/src/topo/placer/edge_fixer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index c80b002..2bcdbe5 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -196,11 +196,14 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
 }
 
 /// \return True if the box of \p node doesn't overlap with any other box when it
-/// is moved by \p offset.
+/// is moved by \p offset, and if it doesn't leave the picture.
 fn can_move(vg: &VisualGraph, node: NodeHandle, offset: Point) -> bool {
     let mut pos = vg.pos(node);
     pos.translate(offset);
     let bbox = pos.bbox(false);
+    if bbox.0.y < 0. {
+        return false;
+    }
     !vg.iter_nodes().any(|other| {
         other != node && do_boxes_intersect(bbox, vg.pos(other).bbox(false))
     })
@@ -317,7 +320,6 @@ pub fn do_it(vg: &mut VisualGraph) {
     let mut cnt = 0;
     cnt += handle_disconnected_nodes(vg);
     cnt += align_self_edges(vg);
-    align_to_left(vg);
     #[cfg(feature = "log")]
     log::info!("Aligned {} edges.", cnt);
 
@@ -328,4 +330,7 @@ pub fn do_it(vg: &mut VisualGraph) {
     cnt = adjust_crossing_edges(vg);
     #[cfg(feature = "log")]
     log::info!("Adjusted crossing {} edges.", cnt);
+
+    // The passes above may have moved the leftmost shape.
+    align_to_left(vg);
 }
-- 
2.43.0


From 23e56f836a347b27ce1b72da2a02b9cb1269e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 24/39] fix: ignore the case of the letters in the names of
 colors

The names of colors (CSS, and DOT) are not case sensitive, but 'Red' was
drawn in black.
---
 layout/src/core/color.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/core/color.rs b/layout/src/core/color.rs
index 48b5e5c..32cbec9 100644
--- a/layout/src/core/color.rs
+++ b/layout/src/core/color.rs
@@ -178,7 +178,7 @@ impl Color {
 
     pub fn from_name(name: &str) -> Option<Color> {
         for pair in KNOWN_COLORS {
-            if name == pair.0 {
+            if name.eq_ignore_ascii_case(pair.0) {
                 return Some(Color::new((pair.1 << 8) + 0xff));
             }
         }
-- 
2.43.0


From 58f98c56b7108bc5ecbffad209bdb8c4a8adce21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 25/39] fix: accept only #rrggbb and #rrggbbaa as colors in the
 web form

'#123', '##ff0000' and '#+12345' were colors made up from the digits.
---
 layout/src/core/color.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/layout/src/core/color.rs b/layout/src/core/color.rs
index 32cbec9..36e9fc4 100644
--- a/layout/src/core/color.rs
+++ b/layout/src/core/color.rs
@@ -182,18 +182,17 @@ impl Color {
                 return Some(Color::new((pair.1 << 8) + 0xff));
             }
         }
-        // Parse the web format. Example: #edebe9.
-        if name.starts_with('#') {
-            let name = name.trim_start_matches('#');
-            if let Result::Ok(color) = u32::from_str_radix(name, 16) {
-                if name.len() <= 7 {
-                    return Some(Color::new((color << 8) + 0xff));
-                } else {
-                    return Some(Color::new(color));
-                }
-            }
+        // Parse the web format: #rrggbb or #rrggbbaa. Example: #edebe9.
+        let digits = name.strip_prefix('#')?;
+        if !digits.chars().all(|c| c.is_ascii_hexdigit()) {
+            return None;
+        }
+        let color = u32::from_str_radix(digits, 16).ok()?;
+        match digits.len() {
+            6 => Some(Color::new((color << 8) + 0xff)),
+            8 => Some(Color::new(color)),
+            _ => None,
         }
-        None
     }
 
     pub fn to_web_color(&self) -> String {
-- 
2.43.0


From f74127f8d9d5868671cb3c82b61255106d036aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 26/39] fix: attach edges to shapes without width or height

The slope of the edge was multiplied by zero and divided by zero, which
gave coordinates that are not numbers and a panic later.
---
 layout/src/core/geometry.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 26b8ccb..ca5e0c4 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -79,7 +79,12 @@ impl std::fmt::Display for Point {
 /// Notice that a line has two intersection points with a circle, so users need
 /// to figure out which of the two values (+X, +Y) or (-X, -Y) is relevant.
 pub fn ellipse_line_intersection(a: f64, b: f64, m: f64) -> Point {
-    let x: f64 = ((a * a * b * b) / (b * b + a * a * m * m)).sqrt();
+    let div = b * b + a * a * m * m;
+    // The line runs along a flat ellipse.
+    if div == 0. {
+        return Point::new(a, 0.);
+    }
+    let x: f64 = ((a * a * b * b) / div).sqrt();
     let y: f64 = m * x;
     Point::new(x, y)
 }
@@ -195,7 +200,7 @@ pub fn get_connection_point_for_box(
     let mut gain_y = box_x * slope_from;
 
     // Need to connect from the side.
-    if gain_y.abs() < box_y {
+    if gain_y.abs() <= box_y {
         if dx > 0. {
             box_x = -box_x;
             gain_y = -gain_y;
-- 
2.43.0


From cba8dd0c35c221daba6b734a5f72553224d225c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 27/39] fix: don't divide by zero when drawing records of empty
 records

---
 layout/src/std_shapes/render.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index c1f9d48..904ed8f 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -223,6 +223,12 @@ fn visit_record(
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
             }
+            // Records that only contain empty records have no size. Split the
+            // space evenly.
+            if sum == Point::zero() {
+                sizes.fill(Point::splat(1.));
+                sum = Point::splat(sizes.len() as f64);
+            }
             // Normalize the size of each element on the x axis, and the maximum
             // width of the y axis to render something like: [...][..][.][...]
             for sz in &mut sizes {
-- 
2.43.0


From 9c1738cf0790de456a3bafbba148a0c4b74ca8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 28/39] fix: draw the properties of records

---
 layout/src/std_shapes/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index 904ed8f..b7d116c 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -129,6 +129,7 @@ fn render_record(
     loc: Point,
     size: Point,
     look: &StyleAttr,
+    properties: Option<String>,
     canvas: &mut dyn RenderBackend,
 ) {
     struct Renderer<'a> {
@@ -182,7 +183,7 @@ fn render_record(
         Point::new(loc.x - size.x / 2., loc.y - size.y / 2.),
         Point::new(size.x, size.y),
         &look,
-        Option::None,
+        properties,
         Option::None,
     );
 }
@@ -302,6 +303,7 @@ impl Renderable for Element {
                     self.pos.center(),
                     self.pos.size(false),
                     &self.look,
+                    self.properties.clone(),
                     canvas,
                 );
             }
-- 
2.43.0


From 7b81fecbc9098e263c6aec2990a4e81d906a1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 29/39] fix: clip the cells of records to their outline

---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index b7d116c..a51915d 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -143,7 +143,7 @@ fn render_record(
 
     if look.rounded > 0 {
         let xy = Point::new(loc.x - size.x / 2., loc.y - size.y / 2.);
-        let ch = canvas.create_clip(xy, size, 15);
+        let ch = canvas.create_clip(xy, size, look.rounded);
         clip_handle = Option::Some(ch);
     }
 
-- 
2.43.0


From 46d86daaf6718dd3e3c9630796e0a72d277e0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 30/39] fix: parse consecutive attribute lists without
 recursion

---
 layout/src/gv/parser/parser.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index ed4a70a..ffb3855 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -213,6 +213,19 @@ impl DotParser {
     }
     //attr_list : '[' [ a_list ] ']' [ attr_list ]
     pub fn parse_attr_list(&mut self) -> Result<ast::AttributeList, String> {
+        let mut lst = self.parse_bracketed_attrs()?;
+
+        // Parse the lists that follow this list.
+        while let Token::OpenBracket = self.tok {
+            for att in self.parse_bracketed_attrs()?.iter() {
+                lst.add_attr(&att.0, &att.1);
+            }
+        }
+        Result::Ok(lst)
+    }
+
+    // '[' [ a_list ] ']'
+    fn parse_bracketed_attrs(&mut self) -> Result<ast::AttributeList, String> {
         let mut lst = ast::AttributeList::new();
 
         if let Token::OpenBracket = self.tok.clone() {
@@ -261,14 +274,6 @@ impl DotParser {
         } else {
             return to_error("Expected ']'");
         }
-
-        // Parse the lists that follow this list.
-        if let Token::OpenBracket = self.tok.clone() {
-            let rest = self.parse_attr_list()?;
-            for att in rest.iter() {
-                lst.add_attr(&att.0, &att.1);
-            }
-        }
         Result::Ok(lst)
     }
 
-- 
2.43.0


From 38452ed8ca2fbfa7f796e5619c43b3fdde615b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 31/39] fix: draw no inner circle of negative size

---
 layout/src/std_shapes/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index a51915d..ee59b06 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -333,9 +333,11 @@ impl Renderable for Element {
                     &self.look,
                     self.properties.clone(),
                 );
+                // Small shapes have no room for the whole gap.
+                let inner = self.pos.size(false).sub(Point::splat(15.));
                 canvas.draw_circle(
                     self.pos.center(),
-                    self.pos.size(false).sub(Point::splat(15.)),
+                    Point::new(inner.x.max(0.), inner.y.max(0.)),
                     &self.look,
                     Option::None,
                 );
-- 
2.43.0


From 5bf9bd590e3ec3b5c603dccb4a8c09896eb3db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:22 +0000
Subject: [PATCH 32/39] fix: keep moved bends out of the nodes of the first
 rank

---
 layout/src/topo/placer/edge_fixer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 2bcdbe5..6af9493 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -243,7 +243,7 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
 
         // Construct a list of all of the boxes in the rows above and below.
         let mut all = Vec::new();
-        if row_idx > 1 {
+        if row_idx > 0 {
             for elem in vg.dag.row(row_idx - 1) {
                 all.push(*elem);
             }
-- 
2.43.0


From eb2098a35e41f7ecbe01a5ad3b45765b910e638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:46 +0000
Subject: [PATCH 33/39] fix: apply node defaults only to nodes created after
 them

---
 layout/src/gv/builder.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index bf73b25..dcb97b4 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -105,12 +105,12 @@ impl GraphBuilder {
             self.edge_attr.insert(&att.0, &att.1);
         }
 
-        self.init_node_with_name(&e.from.name, false);
+        self.init_node_with_name(&e.from.name);
 
         let mut prev = &e.from;
         for dest in &e.to {
             let curr = &dest.0;
-            self.init_node_with_name(&curr.name, false);
+            self.init_node_with_name(&curr.name);
 
             let has_arrow = matches!(dest.1, ast::ArrowKind::Arrow);
             let prop_list = self.edge_attr.flatten();
@@ -129,33 +129,24 @@ impl GraphBuilder {
         self.edge_attr.pop();
     }
 
-    // If \p overwrite is set then we are declaring a node. This means that
-    // we need to update the properties that already exist.
-    fn init_node_with_name(&mut self, name: &str, overwrite: bool) {
-        let node_attr = self.node_attr.flatten();
-
-        if let Option::Some(prop_list) = self.nodes.get_mut(name) {
-            if !overwrite {
-                return;
-            }
-            for p in node_attr {
-                prop_list.insert(p.0, p.1);
-            }
-        } else {
-            self.node_order.push(name.to_string());
-            self.nodes.insert(name.to_string(), node_attr);
+    // Create the node, with the current defaults, if it does not exist.
+    fn init_node_with_name(&mut self, name: &str) {
+        if self.nodes.contains_key(name) {
+            return;
         }
+        self.node_order.push(name.to_string());
+        self.nodes.insert(name.to_string(), self.node_attr.flatten());
     }
 
     fn visit_node(&mut self, n: &ast::NodeStmt) {
-        self.node_attr.push();
+        self.init_node_with_name(&n.id.name);
 
+        // Update the properties that already exist. Defaults don't apply to
+        // nodes that were created before them.
+        let prop_list = self.nodes.get_mut(&n.id.name).unwrap();
         for att in n.list.iter() {
-            self.node_attr.insert(&att.0, &att.1);
+            prop_list.insert(att.0.clone(), att.1.clone());
         }
-
-        self.init_node_with_name(&n.id.name, true);
-        self.node_attr.pop();
     }
 
     fn visit_att(&mut self, att: &ast::AttrStmt) {
-- 
2.43.0


From 0917b5d041007d012327815a6da27d6598b90ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:58 +0000
Subject: [PATCH 34/39] fix: compare the width of labels' rows with the row
 above them

move_text_up kept comparing every row with the first one.
---
 layout/src/topo/placer/move_between_rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 12eb9b1..f6330ab 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -106,6 +106,8 @@ fn move_text_up(vg: &mut VisualGraph) -> usize {
                 }
             }
         }
+        // This row is above the next one.
+        prev_row_size = curr_row_size;
     }
     cnt
 }
-- 
2.43.0


From 5347d66c580a55d7703133d9305ffa11139162d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:12 +0000
Subject: [PATCH 35/39] fix: drop the edges that cross the inner segments of
 long edges, not the others

The condition was inverted, so that next to a long edge the medians of most nodes were unknown.
---
 layout/src/topo/placer/bk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index 9509bc7..c210a89 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -335,7 +335,7 @@ impl<'a> BK<'a> {
         'outer: for reg in regular_edges.iter() {
             for strong in strong_edges.iter() {
                 // Check if there is no conflict.
-                if Self::are_edges_crossing(*reg, *strong) {
+                if !Self::are_edges_crossing(*reg, *strong) {
                     // Continue to the next strong edges.
                     continue;
                 }
-- 
2.43.0


From c585f5363b4cf0476b0c9f6e072e4e113a456b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:15 +0000
Subject: [PATCH 36/39] fix: put the bends of self edges beside their nodes,
 wherever those stand

---
 layout/src/topo/placer/edge_fixer.rs | 55 ++++++++++++----------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 6af9493..cedd4a1 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -102,17 +102,24 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
     cnt
 }
 
+/// Return true if no edge goes from \p node to some other level.
+fn is_disconnected(vg: &VisualGraph, node: NodeHandle) -> bool {
+    vg.dag.successors(node).is_empty() && vg.dag.predecessors(node).is_empty()
+}
+
 pub fn handle_disconnected_nodes(vg: &mut VisualGraph) -> usize {
     let mut cnt = 0;
 
     for row_idx in 0..vg.dag.num_levels() {
         let row = vg.dag.row(row_idx).clone();
 
-        for elem in row.iter() {
+        for (i, elem) in row.iter().enumerate() {
+            // The connectors of self edges stay with the node after them.
+            let owner = row[i..].iter().find(|x| !vg.is_connector(**x));
+            let owner = *owner.unwrap_or(elem);
+
             // Only consider edges with no successors and predecessors.
-            if !vg.dag.successors(*elem).is_empty()
-                || !vg.dag.predecessors(*elem).is_empty()
-            {
+            if !is_disconnected(vg, *elem) || !is_disconnected(vg, owner) {
                 continue;
             }
 
@@ -142,40 +149,24 @@ pub fn align_self_edges(vg: &mut VisualGraph) -> usize {
     for row_idx in 0..vg.dag.num_levels() {
         let row = vg.dag.row(row_idx).clone();
 
-        for (i, curr) in row.iter().enumerate() {
+        // The connectors of a self edge stand before its node. Start with those
+        // that are next to the nodes.
+        for (i, curr) in row.iter().enumerate().rev() {
             // Only consider connectors.
             if !vg.is_connector(*curr) {
                 continue;
             }
 
-            let mut found_before = false;
-            let mut found_after = false;
-            for pred in vg.dag.predecessors(*curr) {
-                let idx = row.iter().position(|x| *x == *pred);
-                if let Option::Some(idx) = idx {
-                    if idx < i {
-                        found_before = true;
-                    }
-                    if idx > i {
-                        found_after = true;
-                    }
-                }
-            }
-
-            if found_before {
-                let prev = row[i - 1];
-                let prev_pos = vg.pos(prev);
-                vg.pos_mut(*curr).align_to_left(prev_pos.right(true));
-                cnt += 1;
-                continue;
-            }
-            if found_after {
-                let next = row[i + 1];
-                let next_pos = vg.pos(next);
-                vg.pos_mut(*curr).align_to_right(next_pos.left(true));
-                cnt += 1;
+            // Self edges are not in the dag.
+            if !is_disconnected(vg, *curr) {
                 continue;
             }
+
+            let next = row[i + 1];
+            let next_pos = vg.pos(next);
+            vg.pos_mut(*curr)
+                .align_to_right(next_pos.left(true) - EPSILON);
+            cnt += 1;
         }
     }
     cnt
@@ -318,8 +309,8 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
 #[cfg_attr(not(feature = "log"), allow(unused_assignments, unused_variables))]
 pub fn do_it(vg: &mut VisualGraph) {
     let mut cnt = 0;
-    cnt += handle_disconnected_nodes(vg);
     cnt += align_self_edges(vg);
+    cnt += handle_disconnected_nodes(vg);
     #[cfg(feature = "log")]
     log::info!("Aligned {} edges.", cnt);
 
-- 
2.43.0


From 3e0369c90776f37d5918ebb269a5c09db76cf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:38 +0000
Subject: [PATCH 37/39] fix: don't align nodes along the edges that cross the
 inner segments of long edges

---
 layout/src/topo/placer/bk.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index c210a89..5ec2596 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -358,7 +358,7 @@ impl<'a> BK<'a> {
     /// Computes the median of the predecessors, considering only allowed edges.
     /// Returns a list of x coordinates, for each node in the graph. If the node
     /// has no predecessors then the procedure returns the value zero.
-    fn get_pred_medians(&self, valid_edges: EdgeSet) -> Vec<f64> {
+    fn get_pred_medians(&self, valid_edges: &EdgeSet) -> Vec<f64> {
         // Builds the median of preds for each node.
         let mut res: Vec<f64> = Vec::new();
 
@@ -403,7 +403,7 @@ impl<'a> BK<'a> {
         let valid_edges = self.get_valid_edges();
 
         // The desired medians for each node in the graph.
-        let medians: Vec<f64> = self.get_pred_medians(valid_edges);
+        let medians: Vec<f64> = self.get_pred_medians(&valid_edges);
 
         for i in 0..self.vg.dag.num_levels() - 1 {
             // The row above.
@@ -427,6 +427,10 @@ impl<'a> BK<'a> {
 
                 // Scan the predecessors:
                 for pred in self.vg.preds(node) {
+                    // Don't block the edges that must be straight.
+                    if !valid_edges.contains(&(*pred, node)) {
+                        continue;
+                    }
                     let idx;
                     // Search for the index of the predecessor in the row.
                     if let Some(idx_in_row) = Self::index_of(*pred, &r0) {
-- 
2.43.0


From d89a69808cf17b173b5d9454e3f637a02da5a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:38 +0000
Subject: [PATCH 38/39] fix: move all the bends of a rank that run through
 their neighbours, not just the first one

---
 layout/src/topo/placer/edge_fixer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index cedd4a1..682177f 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -229,7 +229,7 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
         Point::new(0., -90.),
     ];
 
-    'out: for row_idx in 0..len {
+    for row_idx in 0..len {
         let row = vg.dag.row(row_idx);
 
         // Construct a list of all of the boxes in the rows above and below.
@@ -245,7 +245,7 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
             }
         }
 
-        for i in 0..row.len() {
+        'out: for i in 0..row.len() {
             let curr = row[i];
             if !vg.is_connector(curr) {
                 continue;
-- 
2.43.0


From 485005f907d9a59acfdbcda9856bed3352407aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:51 +0000
Subject: [PATCH 39/39] fix: count the crossings of all the edges between two
 nodes

---
 layout/src/topo/optimizer.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/layout/src/topo/optimizer.rs b/layout/src/topo/optimizer.rs
index 56078f5..8078cfa 100644
--- a/layout/src/topo/optimizer.rs
+++ b/layout/src/topo/optimizer.rs
@@ -41,16 +41,12 @@ impl<'a> EdgeCrossOptimizer<'a> {
         let b_edges2 = self.dag.predecessors(b);
 
         for node in row {
-            let is_a1 = a_edges1.iter().any(|x| x == node);
-            let is_a2 = a_edges2.iter().any(|x| x == node);
-            let is_b1 = b_edges1.iter().any(|x| x == node);
-            let is_b2 = b_edges2.iter().any(|x| x == node);
-            if is_a1 || is_a2 {
-                sum += num_b;
-            }
-            if is_b1 || is_b2 {
-                num_b += 1;
-            }
+            // Notice that there may be several edges between two nodes.
+            let count = |edges: &[NodeHandle]| {
+                edges.iter().filter(|x| *x == node).count()
+            };
+            sum += num_b * (count(a_edges1) + count(a_edges2));
+            num_b += count(b_edges1) + count(b_edges2);
         }
         sum
     }
-- 
2.43.0

