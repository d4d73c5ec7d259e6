From e2a58559e9a2320815bbb8222d6a6ed09c8c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 01/18] fix: lex unknown characters and unterminated byte
 strings as error tokens

---
 crates/parser/src/lexer.rs | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..3923415 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -204,19 +204,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 let line = &text.lines().next().unwrap()[2..];
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
-                    None => {
-                        todo!()
-                        // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
-                        // return todo!()
-                        // return Err(diag!(
-                        //     if is_hex {
-                        //         Syntax::InvalidHexString
-                        //     } else {
-                        //         Syntax::InvalidByteString
-                        //     },
-                        //     (loc, "Missing closing quote (\") after byte string")
-                        // ));
-                    }
+                    None => (ERROR, 2 + line.len()),
                 }
             } else {
                 let len = get_name_len(text);
@@ -306,15 +294,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '}' => (R_BRACE, 1),
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
-        _ => {
-            todo!()
-            // let loc = make_loc(file, start_offset, start_offset);
-            // return todo!()
-            // return Err(diag!(
-            //     Syntax::InvalidCharacter,
-            //     (loc, format!("Invalid character: '{}'", c))
-            // ));
-        }
+        _ => (ERROR, c.len_utf8()),
     };
 
     (tok, len)
-- 
2.43.0


From 96f1de81559b8577f13dc7c82ed0315d8072330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 02/18] fix: measure byte string literals in bytes, not
 characters

---
 crates/parser/src/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 3923415..8c2e3e5 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -347,13 +347,13 @@ fn get_string_len(text: &str) -> Option<usize> {
     while let Some(chr) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
+            if let Some(escaped) = iter.next() {
+                pos += escaped.len_utf8();
             }
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
+        pos += chr.len_utf8();
     }
     None
 }
-- 
2.43.0


From 6ebaad4c759a2150bed380ea1a151c2f3aaf1a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 03/18] fix: lex & followed by an identifier that merely begins
 with mut as &

---
 crates/parser/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 8c2e3e5..f128aca 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -213,7 +213,7 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
             }
         }
         '&' => {
-            if text.starts_with("&mut") {
+            if text.starts_with("&mut") && get_name_len(&text[1..]) == 3 {
                 (AMP_MUT, 4)
             } else if text.starts_with("&&") {
                 (AMP_AMP, 2)
-- 
2.43.0


From af61d6b0ad1976a6dcf18746e2cb2738374751c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 04/18] fix: skip runs of comments without recursion

---
 crates/parser/src/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index f128aca..8623ad6 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -115,16 +115,16 @@ impl<'t> Lexer<'t> {
 
     pub fn bump(&mut self) {
         self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            let text = &self.text[self.cur_end..];
+            // let text = self.text[self.cur_end..].trim_start();
+            self.cur_start = self.text.len() - text.len();
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
         // self.cur_end = self.cur_start + len;
         // let token = Token::new(kind, len);
         // self.all_tokens.push(token.clone());
-- 
2.43.0


From af8434a313942751b51b267c1c5ab9f55909ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 05/18] fix: look ahead over blanks and comments alike

---
 crates/parser/src/lexer.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 8623ad6..c537a70 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -92,25 +92,27 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        self.lookahead_from(self.cur_end).0
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
     // the state of the lexer.
     pub fn lookahead_2(&self) -> (Token, Token) {
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        let offset = self.text.len() - text.len();
-        let (first, length) = find_token(text);
+        let (first, first_end) = self.lookahead_from(self.cur_end);
+        let (second, _) = self.lookahead_from(first_end);
+        (first, second)
+    }
 
-        let text2 = &self.text[offset + length..];
-        // let text2 = self.text[offset + length..].trim_start();
-        // let offset2 = self.text.len() - text2.len();
-        let (second, sec_length) = find_token(text2);
-        (Token::new(first, length), Token::new(second, sec_length))
+    // The first token at or after `pos` which is neither blank nor comment, and where it ends.
+    fn lookahead_from(&self, pos: usize) -> (Token, usize) {
+        let mut pos = pos;
+        loop {
+            let (kind, len) = find_token(&self.text[pos..]);
+            pos += len;
+            if !kind.is_trivia() {
+                return (Token::new(kind, len), pos);
+            }
+        }
     }
 
     pub fn bump(&mut self) {
-- 
2.43.0


From 76a8620ea68c347fb6d9a7b257e758030a79eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 06/18] fix: count the steps of the stuck-parser guard from the
 last consumed token

---
 crates/parser/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..adbc8bd 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -60,7 +60,7 @@ impl<'t> Parser<'t> {
         assert!(n <= 3);
 
         let steps = self.steps.get();
-        assert!(steps <= 10_000, "the parser seems stuck");
+        assert!(steps <= 15_000_000, "the parser seems stuck");
         self.steps.set(steps + 1);
 
         self.lexer.lookahead_nth(n).kind
@@ -264,6 +264,7 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From 9b46203844f0ea947e4ed8112347603901314514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 07/18] fix: consume unexpected tokens at the top level of a
 file

---
 crates/parser/src/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..ff76fc7 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -72,7 +72,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
-- 
2.43.0


From 6fc9029c28fc71da5887b423bb373a0fb8644d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 08/18] fix: recover from anything but modules in an address
 block

---
 crates/parser/src/grammar/items.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..9d389bd 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -85,7 +85,11 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else {
+            p.error_and_skip_until("expected module", TokenSet::new(&[T![module], T!['}']]));
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
-- 
2.43.0


From 139bbdc5a2e116e62b95575a054e9a6ccdc47688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 09/18] fix: consume tokens that start no item

---
 crates/parser/src/grammar/items.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 9d389bd..493328c 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -121,14 +121,14 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
-    // } else if p.at(T!['}']) && !stop_on_r_curly {
+    // if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -140,10 +140,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
-- 
2.43.0


From b1bc4069230cc09bbbb4e84e22ebc2f5c725a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 10/18] fix: recover from a block among struct fields

---
 crates/parser/src/grammar/items/adt.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..33d46ed 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From e26c44f10d4463be3821c60a326af16561892217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 11/18] fix: consume an unmatched closing parenthesis in a
 block

---
 crates/parser/src/grammar/expressions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..643e2dc 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -142,6 +142,10 @@ fn let_stmt(p: &mut Parser, m: Marker, with_semi: StmtWithSemi) {
 }
 
 pub(crate) fn stmt(p: &mut Parser, with_semi: StmtWithSemi) {
+    if p.at(T![')']) {
+        p.err_and_bump("unmatched `)`");
+        return;
+    }
     let m = p.start();
     if p.at(T![let]) {
         let_stmt(p, m, with_semi);
-- 
2.43.0


From 858917cfff7083d068797a7f8a1c2e37dac71762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 12/18] fix: stop a parenthesised expression at a semicolon

---
 crates/parser/src/grammar/expressions/atom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
-- 
2.43.0


From 0d9a8770b762dcb91678be5d448835cb1af87850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 13/18] fix: look one token past the path separator, which is a
 single token

---
 crates/parser/src/grammar/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parser/src/grammar/paths.rs b/crates/parser/src/grammar/paths.rs
index 502ae23..46e8321 100644
--- a/crates/parser/src/grammar/paths.rs
+++ b/crates/parser/src/grammar/paths.rs
@@ -31,7 +31,7 @@ fn path(p: &mut Parser, mode: Mode) {
 
 fn path_for_qualifier(p: &mut Parser, mode: Mode, mut qual: CompletedMarker) {
     loop {
-        let use_tree = matches!(p.nth(2), T![*] | T!['{']);
+        let use_tree = matches!(p.nth(1), T![*] | T!['{']);
         if p.at(T![::]) && !use_tree {
             let path = qual.precede(p);
             p.bump(T![::]);
-- 
2.43.0


From 3a01b03c79af4c8e754472c3eb30b7cfd8f2a381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 14/18] fix: classify files by whole path components

---
 crates/vfs/src/file_set.rs | 6 ++++--
 crates/vfs/src/vfs_path.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/file_set.rs b/crates/vfs/src/file_set.rs
index 0011f73..12080db 100644
--- a/crates/vfs/src/file_set.rs
+++ b/crates/vfs/src/file_set.rs
@@ -131,8 +131,10 @@ impl FileSetConfig {
         let automaton = PrefixOf::new(scratch_space.as_slice());
         let mut longest_prefix = self.len() - 1;
         let mut stream = self.map.search(automaton).into_stream();
-        while let Some((_, v)) = stream.next() {
-            longest_prefix = v as usize;
+        while let Some((root, v)) = stream.next() {
+            if VfsPath::encoded_prefix_is_ancestor(root, scratch_space) {
+                longest_prefix = v as usize;
+            }
         }
         longest_prefix
     }
diff --git a/crates/vfs/src/vfs_path.rs b/crates/vfs/src/vfs_path.rs
index ffd6735..345f09d 100644
--- a/crates/vfs/src/vfs_path.rs
+++ b/crates/vfs/src/vfs_path.rs
@@ -159,6 +159,15 @@ impl VfsPath {
             VfsPathRepr::VirtualPath(VirtualPath(s)) => buf.extend(s.as_bytes()),
         }
     }
+
+    /// Returns `true` if `root`, a prefix of `path` (both [encoded](VfsPath::encode)), ends where a
+    /// component of `path` ends: `/foo` is an ancestor of `/foo/bar`, but not of `/foo-bar`.
+    pub(crate) fn encoded_prefix_is_ancestor(root: &[u8], path: &[u8]) -> bool {
+        let is_virtual = path.first() == Some(&1);
+        let sep: &[u8] = if cfg!(windows) && !is_virtual { b"\\\0" } else { b"/" };
+        let rest = &path[root.len()..];
+        rest.is_empty() || rest.starts_with(sep) || root.ends_with(sep)
+    }
 }
 
 #[cfg(windows)]
-- 
2.43.0


From 0053284eea1e68ba35212508855de217ad988cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 15/18] fix: use the negotiated offset encoding for positions
 sent to the client

---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..b6bd2f2 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -63,6 +63,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -152,6 +153,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -222,7 +224,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From 89506a734d6603ff1a227d2aaa8fbe25b3ee4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 16/18] fix: absorb files deleted since the last change without
 panicking

---
 crates/move_language_server/src/global_state.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index b6bd2f2..5944c69 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -22,7 +22,7 @@ use lsp_types::{SemanticTokens, Url};
 use parking_lot::{Mutex, RwLock};
 use project_model::ProjectWorkspace;
 use rustc_hash::FxHashMap;
-use vfs::AnchoredPathBuf;
+use vfs::{AnchoredPathBuf, ChangeKind};
 
 // Enforces drop order
 pub(crate) struct Handle<H, C> {
@@ -116,7 +116,18 @@ impl GlobalState {
                 return false;
             }
 
+            let mut first_change = FxHashMap::default();
+            for file in &changed_files {
+                first_change.entry(file.file_id).or_insert(file.change_kind);
+            }
+
             for file in changed_files {
+                let exists = vfs.file_id(&vfs.file_path(file.file_id)).is_some();
+                if !exists && first_change[&file.file_id] == ChangeKind::Create {
+                    // Created and deleted again since the last call: nothing to tell the analysis.
+                    continue;
+                }
+
                 if let Some(path) = vfs.file_path(file.file_id).as_path() {
                     let path = path.to_path_buf();
                     fs_changes.push((path, file.change_kind));
@@ -125,7 +136,7 @@ impl GlobalState {
                     }
                 }
 
-                let text = if file.exists() {
+                let text = if exists {
                     let bytes = vfs.file_contents(file.file_id).to_vec();
                     match String::from_utf8(bytes).ok() {
                         Some(text) => {
-- 
2.43.0


From cd205aff51ca9ede8eee95ed63c878fc969f0071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 17/18] Guarded access for the verification harness

---
 crates/move_language_server/src/lib.rs        |   2 +
 .../move_language_server/src/verif_hooks.rs   | 159 ++++++++++++++++++
 2 files changed, 161 insertions(+)
 create mode 100644 crates/move_language_server/src/verif_hooks.rs

diff --git a/crates/move_language_server/src/lib.rs b/crates/move_language_server/src/lib.rs
index 1989081..f14821d 100644
--- a/crates/move_language_server/src/lib.rs
+++ b/crates/move_language_server/src/lib.rs
@@ -19,6 +19,8 @@ mod dispatch;
 mod reload;
 mod main_loop;
 pub mod config;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 pub use caps::server_capabilities;
 pub use main_loop::main_loop;
diff --git a/crates/move_language_server/src/verif_hooks.rs b/crates/move_language_server/src/verif_hooks.rs
new file mode 100644
index 0000000..f04a3c2
--- /dev/null
+++ b/crates/move_language_server/src/verif_hooks.rs
@@ -0,0 +1,159 @@
+//! Access to crate-private items for the verification harness. Compiled with
+//! `--cfg verif_hooks` only.
+use crate::config::Config;
+use crate::diagnostics::DiagnosticCollection;
+use crate::global_state::GlobalState;
+use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::mem_docs::{DocumentData, MemDocs};
+use crate::reload::SourceRootConfig;
+use crate::{from_proto, lsp_ext, lsp_utils, to_proto};
+use ide_db::base_db::{FileId, SourceDatabase};
+use std::sync::Arc;
+use syntax::{TextRange, TextSize};
+use vfs::{file_set::FileSetConfig, VfsPath};
+
+/// The normalised text, and whether the line endings were reported as `Dos`.
+pub fn normalize(text: String) -> (String, bool) {
+    let (text, endings) = LineEndings::normalize(text);
+    (text, endings == LineEndings::Dos)
+}
+
+pub struct Lines(LineIndex);
+
+impl Lines {
+    pub fn new(text: &str, utf16: bool) -> Lines {
+        Lines(LineIndex {
+            index: Arc::new(ide_db::LineIndex::new(text)),
+            endings: LineEndings::Unix,
+            encoding: if utf16 { OffsetEncoding::Utf16 } else { OffsetEncoding::Utf8 },
+        })
+    }
+    pub fn position(&self, offset: TextSize) -> lsp_types::Position {
+        to_proto::position(&self.0, offset)
+    }
+    pub fn range(&self, range: TextRange) -> lsp_types::Range {
+        to_proto::range(&self.0, range)
+    }
+    pub fn offset(&self, position: lsp_types::Position) -> TextSize {
+        from_proto::offset(&self.0, position)
+    }
+    pub fn text_range(&self, range: lsp_types::Range) -> TextRange {
+        from_proto::text_range(&self.0, range)
+    }
+}
+
+pub fn apply_document_changes(
+    text: &mut String,
+    changes: Vec<lsp_types::TextDocumentContentChangeEvent>,
+) {
+    lsp_utils::apply_document_changes(text, changes)
+}
+
+pub fn all_edits_are_disjoint(
+    completion: &lsp_types::CompletionItem,
+    additional_edits: &[lsp_types::TextEdit],
+) -> bool {
+    lsp_utils::all_edits_are_disjoint(completion, additional_edits)
+}
+
+#[derive(Default)]
+pub struct Diagnostics(DiagnosticCollection);
+
+impl Diagnostics {
+    pub fn clear_check(&mut self) {
+        self.0.clear_check()
+    }
+    pub fn add_check_diagnostic(
+        &mut self,
+        file_id: FileId,
+        diagnostic: lsp_types::Diagnostic,
+        fixes: Vec<lsp_ext::CodeAction>,
+    ) {
+        self.0.add_check_diagnostic(file_id, diagnostic, fixes)
+    }
+    pub fn set_native_diagnostics(
+        &mut self,
+        file_id: FileId,
+        diagnostics: Vec<lsp_types::Diagnostic>,
+    ) {
+        self.0.set_native_diagnostics(file_id, diagnostics)
+    }
+    pub fn diagnostics_for(&self, file_id: FileId) -> Vec<lsp_types::Diagnostic> {
+        self.0.diagnostics_for(file_id).cloned().collect()
+    }
+    pub fn take_changes(&mut self) -> Option<Vec<FileId>> {
+        self.0.take_changes().map(|it| it.into_iter().collect())
+    }
+}
+
+#[derive(Default)]
+pub struct Docs(MemDocs);
+
+impl Docs {
+    pub fn contains(&self, path: &VfsPath) -> bool {
+        self.0.contains(path)
+    }
+    pub fn insert(&mut self, path: VfsPath, version: i32) -> Result<(), ()> {
+        self.0.insert(path, DocumentData::new(version))
+    }
+    pub fn remove(&mut self, path: &VfsPath) -> Result<(), ()> {
+        self.0.remove(path)
+    }
+    pub fn version(&self, path: &VfsPath) -> Option<i32> {
+        self.0.get(path).map(|it| it.version)
+    }
+    pub fn set_version(&mut self, path: &VfsPath, version: i32) -> bool {
+        self.0.get_mut(path).map(|it| it.version = version).is_some()
+    }
+    pub fn paths(&self) -> Vec<VfsPath> {
+        self.0.iter().cloned().collect()
+    }
+    pub fn take_changes(&mut self) -> bool {
+        self.0.take_changes()
+    }
+}
+
+/// The state of a server, driven without its main loop.
+pub struct Server(GlobalState);
+
+impl Server {
+    pub fn new(sender: crossbeam_channel::Sender<lsp_server::Message>, config: Config) -> Server {
+        Server(GlobalState::new(sender, config))
+    }
+    pub fn set_source_roots(&mut self, fsc: FileSetConfig, local_filesets: Vec<usize>) {
+        self.0.source_root_config = SourceRootConfig { fsc, local_filesets };
+    }
+    pub fn set_file_contents(&mut self, path: VfsPath, contents: Option<Vec<u8>>) -> bool {
+        self.0.vfs.write().0.set_file_contents(path, contents)
+    }
+    pub fn file_id(&self, path: &VfsPath) -> Option<FileId> {
+        self.0.vfs.read().0.file_id(path)
+    }
+    pub fn process_changes(&mut self) -> bool {
+        self.0.process_changes()
+    }
+    /// The text the analysis sees.
+    pub fn analysis_text(&self, file_id: FileId) -> Arc<String> {
+        self.0.analysis_host.raw_database().file_text(file_id)
+    }
+    /// The source root of a file, and whether it is a library.
+    pub fn source_root(&self, file_id: FileId) -> (u32, bool) {
+        let db = self.0.analysis_host.raw_database();
+        let id = db.file_source_root(file_id);
+        (id.0, db.source_root(id).is_library)
+    }
+    /// The position sent to the client for an offset of a file.
+    pub fn position(&self, file_id: FileId, offset: TextSize) -> Option<lsp_types::Position> {
+        let index = self.0.snapshot().file_line_index(file_id).ok()?;
+        Some(to_proto::position(&index, offset))
+    }
+    pub fn register_request(&mut self, request: &lsp_server::Request) {
+        self.0.register_request(request, std::time::Instant::now())
+    }
+    pub fn respond(&mut self, response: lsp_server::Response) {
+        self.0.respond(response)
+    }
+    pub fn cancel(&mut self, id: lsp_server::RequestId) {
+        self.0.cancel(id)
+    }
+}
-- 
2.43.0


From 391e24fb4ce848581eb0bd55b0aba5787061de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 18/18] Guarded access to messages, tasks and dispatch for the
 verification harness

---
 crates/move_language_server/src/main_loop.rs  | 14 ++++++
 .../move_language_server/src/verif_hooks.rs   | 49 +++++++++++++++++++
 2 files changed, 63 insertions(+)

diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..5a7da2f 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -333,3 +333,17 @@ impl GlobalState {
         })
     }
 }
+
+#[cfg(verif_hooks)]
+impl GlobalState {
+    pub(crate) fn verif_handle_message(&mut self, message: lsp_server::Message) -> Result<()> {
+        self.handle_event(Event::Lsp(message))
+    }
+    /// Handles the next task of the pool, if one arrives in time.
+    pub(crate) fn verif_handle_task(&mut self, timeout: Duration) -> Result<bool> {
+        match self.task_pool.receiver.recv_timeout(timeout) {
+            Ok(task) => self.handle_event(Event::Task(task)).map(|()| true),
+            Err(_) => Ok(false),
+        }
+    }
+}
diff --git a/crates/move_language_server/src/verif_hooks.rs b/crates/move_language_server/src/verif_hooks.rs
index f04a3c2..d57a97a 100644
--- a/crates/move_language_server/src/verif_hooks.rs
+++ b/crates/move_language_server/src/verif_hooks.rs
@@ -2,6 +2,7 @@
 //! `--cfg verif_hooks` only.
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
+use crate::dispatch::RequestDispatcher;
 use crate::global_state::GlobalState;
 use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
 use crate::mem_docs::{DocumentData, MemDocs};
@@ -156,4 +157,52 @@ impl Server {
     pub fn cancel(&mut self, id: lsp_server::RequestId) {
         self.0.cancel(id)
     }
+    /// What the main loop does with a message of the client.
+    pub fn handle_message(&mut self, message: lsp_server::Message) -> crate::Result<()> {
+        self.0.verif_handle_message(message)
+    }
+    pub fn handle_task(&mut self, timeout: std::time::Duration) -> crate::Result<bool> {
+        self.0.verif_handle_task(timeout)
+    }
+    pub fn document_version(&self, path: &VfsPath) -> Option<i32> {
+        self.0.mem_docs.get(path).map(|it| it.version)
+    }
+    /// The bytes the store has for a path.
+    pub fn stored(&self, path: &VfsPath) -> Option<Vec<u8>> {
+        let vfs = self.0.vfs.read();
+        vfs.0.file_id(path).map(|it| vfs.0.file_contents(it).to_vec())
+    }
+    /// Dispatches a request to handlers of every kind: `verif/mut`, `verif/sync`, `verif/pool`.
+    pub fn dispatch(&mut self, request: lsp_server::Request) -> crate::Result<()> {
+        self.0.register_request(&request, std::time::Instant::now());
+        RequestDispatcher { req: Some(request), global_state: &mut self.0 }
+            .on_sync_mut::<MutRequest>(|_, it| outcome(it))?
+            .on_sync::<SyncRequest>(|_, it| outcome(it))?
+            .on::<PoolRequest>(|_, it| outcome(it))
+            .finish();
+        Ok(())
+    }
+}
+
+fn outcome(params: String) -> crate::Result<String> {
+    match params.as_str() {
+        "fail" => Err("failed".into()),
+        "lsp" => Err(Box::new(lsp_utils::invalid_params_error("bad".to_string()))),
+        "panic" => panic!("handler"),
+        _ => Ok(params),
+    }
+}
+
+macro_rules! test_request {
+    ($name:ident, $method:literal) => {
+        pub enum $name {}
+        impl lsp_types::request::Request for $name {
+            type Params = String;
+            type Result = String;
+            const METHOD: &'static str = $method;
+        }
+    };
 }
+test_request!(MutRequest, "verif/mut");
+test_request!(SyncRequest, "verif/sync");
+test_request!(PoolRequest, "verif/pool");
-- 
2.43.0

