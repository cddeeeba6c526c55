From e7c721f8e245da29045fb0f6d5724130be4ad768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:10 +0000
Subject: [PATCH 01/22] fix: don't panic when the input ends inside a tag name

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..4e9f476 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2016,6 +2016,10 @@ impl Doc {
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
 		let cur_depth = self.chain_nodes.len();
+		// the input ends in a tag's name, the tag's meta is not setted yet
+		if matches!(self.code_in, CodeTypeIn::Tag) && self.current_node.borrow().meta.is_none() {
+			self.set_tag_meta();
+		}
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
 			if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0


From e6892b899457be6cd3c930f7cc7c31c7a360fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 02/22] fix: keep the last attribute and add no void end tag
 when closing a tag cut by the end of input

---
 src/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 4e9f476..e2ac6dd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1923,6 +1923,10 @@ impl Doc {
 			if let Some(meta) = &tag_node.borrow_mut().meta {
 				// set it's meta as auto fix
 				meta.borrow_mut().auto_fix = true;
+				// void element doesn't have an end tag
+				if meta.borrow().is_void {
+					continue;
+				}
 				// make end tag
 				let tag_name = &meta.borrow().name;
 				let mut end = Node::new(NodeType::TagEnd, self.position);
@@ -2020,6 +2024,15 @@ impl Doc {
 		if matches!(self.code_in, CodeTypeIn::Tag) && self.current_node.borrow().meta.is_none() {
 			self.set_tag_meta();
 		}
+		// the input ends in a tag's attribute, keep the attribute
+		if matches!(self.code_in, CodeTypeIn::Tag) {
+			if self.is_tag_code_in(&TagCodeIn::Key) {
+				self.set_tag_attr_key();
+			} else if self.is_tag_code_in(&TagCodeIn::Value) {
+				let quote = Some(self.mark_char).filter(|&ch| ch != WS_CHAR);
+				self.set_tag_attr_value(quote);
+			}
+		}
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
 			if !self.parse_options.auto_fix_unclosed_tag {
-- 
2.43.0


From aa96ae43b0ea5d2a3c7e51968d597c77c460eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:11 +0000
Subject: [PATCH 03/22] fix: '<!DOCTYPE html/>' should not close the tag it's
 in

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e2ac6dd..3cf57f5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// doctype is not in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From a50ca1432a938b27570dfc7b7983c821941b91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 04/22] fix: put the text of a repaired '<' into the opened
 tag, and link it to its parent

---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3cf57f5..b3c13d5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1945,8 +1945,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1966,47 +1964,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// new text node in the current opened tag
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From 23b18b9a4535b039a828bcda42d831bf1ae54c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 05/22] fix: a tag's only spaces text should not become spaces
 between tags because of a following tag

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b3c13d5..af35476 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1358,6 +1358,9 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					// keep as text, don't check it again at the next tag
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From fb8d4fa36d79fe0f7ec56c13c0f14a6bd2cdc4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:12 +0000
Subject: [PATCH 06/22] fix: recognize the end of an empty comment and an empty
 cdata

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index af35476..b9946ed 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1504,7 +1504,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total >= 2 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From f35023fc90fca579cc7586ee767f1fc25eb02beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 07/22] fix: keep the leading slash of an unquoted attribute
 value

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b9946ed..22e8c54 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1181,7 +1181,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
-		END_SLASH_CHAR => {
+		END_SLASH_CHAR if !doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
 		}
-- 
2.43.0


From 835368f342d68dcabee88f22cc7c9f96b0324ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:13 +0000
Subject: [PATCH 08/22] fix: 'remove_attr_quote' should keep the quotes that
 the value needs

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 22e8c54..c9d92a1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -401,6 +401,9 @@ impl TagMeta {
 			.attrs
 			.last_mut()
 			.expect("Attrs must not be empty when call set_attr_key");
+		// the quote can't be removed if the value will be changed without it
+		attr.need_quote = quote.is_some()
+			&& (attr.key.is_none() || value.is_empty() || value.iter().any(Attr::need_quoted_char));
 		attr.value = Some(AttrData { content: value });
 		attr.quote = quote;
 		attr
-- 
2.43.0


From 55f0676ad05a378891855d9f2effc5342c0498a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 09/22] fix: minify spaces around entities correctly when
 'decode_entity' is set

---
 src/parser.rs | 64 ++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 49 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c9d92a1..2a47cdc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -599,58 +599,24 @@ impl Node {
 					.expect("Text node's content must not empty");
 				// check if need decode
 				if !is_in_pre && options.minify_spaces {
-					// just keep one space
+					// just keep one space when meet repeated whitespaces
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
+					let mut minified: Vec<char> = Vec::with_capacity(content.len());
+					for &c in content {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						minified.push(c);
+					}
+					if options.decode_entity {
+						decode_chars_to(&minified, result);
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
-							}
-							result.push(c);
-						}
+						result.append(&mut minified);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From aec09f48ddae6d22d1aca5fe8e47d7a801bc44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 10/22] fix: a nested or self-closed pre tag should not change
 the minify of its siblings

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2a47cdc..83ce47f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -761,6 +761,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -781,6 +782,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// restore for the next sibling nodes
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From 473726de5479ce6f3448964e39f3b1338e8b0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:15 +0000
Subject: [PATCH 11/22] fix: leave svg/mathml exactly when the outermost
 svg/math tag is closed

---
 src/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 83ce47f..c54e305 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1339,10 +1339,11 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				// set code in
 				doc.set_code_in(Unkown);
 				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
-					doc.in_special = None;
+				if let Some((_, _, depth)) = doc.in_special {
+					// the outermost special tag is popped
+					if doc.chain_nodes.len() < depth {
+						doc.in_special = None;
+					}
 				}
 				// set end tag more info
 				let content = doc.clean_chars_to_vec();
@@ -1621,7 +1622,7 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 			}
 			LEFT_BRACKET_CHAR => {
 				// CDATA
-				let special_tag_name = doc.in_special.as_ref().map(|(_, name)| name);
+				let special_tag_name = doc.in_special.as_ref().map(|(_, name, _)| name);
 				if let Some(tag_name) = special_tag_name {
 					if is_equal_chars(
 						tag_name,
@@ -1683,7 +1684,7 @@ pub struct Doc {
 	mark_char: char,
 	chain_nodes: Vec<RefNode>,
 	current_node: RefNode,
-	in_special: Option<(SpecialTag, Vec<char>)>,
+	in_special: Option<(SpecialTag, Vec<char>, usize)>,
 	repeat_whitespace: bool,
 	check_textnode: Option<RefNode>,
 	handle: NextHandle,
@@ -2184,6 +2185,7 @@ impl Doc {
 							.borrow()
 							.name
 							.clone(),
+						self.chain_nodes.len(),
 					))
 				} else {
 					None
-- 
2.43.0


From 5dda0c034d635e5fb1dea0062e08624316b5c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:15 +0000
Subject: [PATCH 12/22] fix: parse_file should parse the exact content and
 return io errors instead of panic

---
 src/parser.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c54e305..5474935 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,9 +11,7 @@ use std::rc::{Rc, Weak};
 use std::{
 	cell::{Ref, RefCell},
 	env,
-	fs::File,
-	io::prelude::*,
-	io::BufReader,
+	fs,
 	path::Path,
 };
 
@@ -1766,23 +1764,10 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
-		let file = File::open(file_path)?;
-		let file = BufReader::new(file);
-		let mut doc = Doc::new();
-		let mut content = String::with_capacity(500);
-		doc.parse_options = options;
-		for line in file.lines() {
-			let line_content = line.unwrap();
-			content.push_str(&line_content);
-			for c in line_content.chars() {
-				doc.next(c, &content)?;
-			}
-			doc.next('\n', &content)?;
-		}
-		doc.eof(&content)?;
-		Ok(doc.into_root())
+		let content = fs::read_to_string(file_path)?;
+		Doc::parse(&content, options)
 	}
 
 	// chars to string
-- 
2.43.0


From 0b10342d639738198f6e516e4cd68bf755b4876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 13/22] fix: 'always_close_void' should close the void elements

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5474935..ca58934 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -652,7 +652,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From 1314525ad64333bfc9c3d90ff094f0d559aa8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 14/22] fix: allow_insert should ignore the case of title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ca58934..d98bb07 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -134,7 +134,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From cd402878f116724e6b34be11636fbbd6e9e4c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 15/22] fix: clone_node should not overflow when a child is
 positioned before the node

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d98bb07..34ea9e3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -508,8 +508,8 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
-- 
2.43.0


From 0691778719f456fa0045da09ab0166985c3d662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 16/22] fix: set the correct begin position of a content tag's
 end tag

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 34ea9e3..e1b676e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1444,9 +1444,12 @@ fn parse_content_tag(doc: &mut Doc, c: char, _: &str) -> HResult {
 			// set code in unkown
 			doc.set_code_in(Unkown);
 			// first remove end tag from prev_chars, and then remove '</' from end tag to get the name
-			let end_tag_name = doc.prev_chars.split_off(prev_len).split_off(2);
+			let mut end_tag_name = doc.prev_chars.split_off(prev_len);
+			let begin_at = doc.position - end_tag_name.len();
+			let end_tag_name = end_tag_name.split_off(2);
 			// add an end tag
-			let mut end = Node::new(NodeType::TagEnd, doc.position + 1);
+			let mut end = Node::new(NodeType::TagEnd, begin_at);
+			end.end_at = doc.position + 1;
 			end.content = Some(end_tag_name);
 			end.parent = Some(Rc::downgrade(&doc.current_node));
 			// set tag node's content, end_tag
-- 
2.43.0


From d25edc791ade0dff35e0b22de600e4cb4a06409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:17 +0000
Subject: [PATCH 17/22] fix: render a doctype without attributes in the form
 that the parser accepts

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e1b676e..53534c6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -723,6 +723,9 @@ impl Node {
 				result.extend_from_slice(&meta.name);
 				if !meta.attrs.is_empty() {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				} else {
+					// the doctype name must be followed by a whitespace
+					result.push(WS_CHAR);
 				}
 				result.push('>');
 			}
-- 
2.43.0


From 07771ec989590dddfaa0d389f203e58f58195db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:18 +0000
Subject: [PATCH 18/22] fix: link the end tag of a cloned node to the cloned
 node

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 53534c6..b3b7c0c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -532,6 +532,9 @@ impl Node {
 	// clone node with reduced code at
 	fn clone_node_with(&self, reduce_code_at: usize) -> RefNode {
 		let parent_node = self.clone_node_without_childs(reduce_code_at);
+		if let Some(end_tag) = &parent_node.borrow().end_tag {
+			end_tag.borrow_mut().parent = Some(Rc::downgrade(&parent_node));
+		}
 		let mut cur_childs: Vec<RefNode> = vec![];
 		if let Some(childs) = &self.childs {
 			for node in childs {
-- 
2.43.0


From f54fa206f653cfafb6a88fbbc6007394c098f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:17 +0000
Subject: [PATCH 19/22] fix: report the position of the '<' when the input ends
 before its tag is known

---
 src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b3b7c0c..9cbda67 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2015,6 +2015,14 @@ impl Doc {
 					);
 				}
 			}
+			UnkownTag | ExclamationBegin => {
+				// no node is created yet, the position is the '<'
+				return create_parse_error(
+					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
+					self.mem_position,
+					context,
+				);
+			}
 			_ => {
 				return create_parse_error(
 					ErrorKind::UnclosedTag(format!("{:?}", self.code_in)),
-- 
2.43.0


From 1e459183273ff2d71b01a48a772d3f0c820927ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:53 +0000
Subject: [PATCH 20/22] fix: linear time for text with many unescaped '<' when
 auto_fix_unescaped_lt is on

The whole text so far was copied for every repaired '<'.
---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9cbda67..1a4d1e3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -986,7 +986,8 @@ fn parse_text(doc: &mut Doc, c: char, _: &str) -> HResult {
 	match c {
 		// match the tag start '<'
 		TAG_BEGIN_CHAR => {
-			let content = doc.clean_chars_to_vec();
+			// move the content, the text may go on after an unescaped '<'
+			let content = std::mem::take(&mut doc.prev_chars);
 			doc.current_node.borrow_mut().content = Some(content);
 			doc.check_textnode = if doc.repeat_whitespace {
 				Some(Rc::clone(&doc.current_node))
@@ -1924,10 +1925,9 @@ impl Doc {
 			NodeType::Text | NodeType::SpacesBetweenTag => {
 				// text node or spaces between
 				if let Some(content) = &mut self.current_node.borrow_mut().content {
-					let mut prev_chars: Vec<char> = Vec::with_capacity(content.len() + chars.len());
-					prev_chars.append(content);
-					prev_chars.append(&mut chars);
-					self.prev_chars = prev_chars;
+					// don't copy, otherwise it takes quadratic time for many '<'
+					self.prev_chars = std::mem::take(content);
+					self.prev_chars.append(&mut chars);
 				}
 				// change node type if spaces between
 				if matches!(node_type, NodeType::SpacesBetweenTag) {
-- 
2.43.0


From f3c3433a5f1b9a373057c9888b04dea9aec9bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:51 +0000
Subject: [PATCH 21/22] fix: linear time for text with many dropped end tags

With auto_fix_unexpected_endtag and auto_fix_unclosed_tag the whole text so far
was copied after every dropped end tag.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1a4d1e3..c40e57e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -956,7 +956,8 @@ fn parse_wait(doc: &mut Doc, c: char, _: &str) -> HResult {
 				let mut current_node = doc.current_node.borrow_mut();
 				// remove content to prev chars
 				if let Some(content) = &mut current_node.content {
-					doc.prev_chars.append(content);
+					// don't copy, otherwise it takes quadratic time for many end tags
+					std::mem::swap(&mut doc.prev_chars, content);
 				}
 				if matches!(current_node.node_type, NodeType::Text) {
 					doc.repeat_whitespace = false;
-- 
2.43.0


From e0ea81a741b2896fa3c948ce60ac6fb399a54f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:22 +0000
Subject: [PATCH 22/22] fix: decide by depth, not by spelling, whether CDATA is
 directly in the outermost svg/math

---
 src/parser.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c40e57e..c69c109 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1631,22 +1631,9 @@ fn parse_exclamation_begin(doc: &mut Doc, c: char, context: &str) -> HResult {
 			}
 			LEFT_BRACKET_CHAR => {
 				// CDATA
-				let special_tag_name = doc.in_special.as_ref().map(|(_, name, _)| name);
-				if let Some(tag_name) = special_tag_name {
-					if is_equal_chars(
-						tag_name,
-						&doc
-							.chain_nodes
-							.last()
-							.unwrap()
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("Chain nodes must all be tag nodes")
-							.borrow()
-							.name,
-						&None,
-					) {
+				if let Some((_, _, depth)) = doc.in_special {
+					// directly in the outermost special tag
+					if doc.chain_nodes.len() == depth {
 						return create_parse_error(
 							ErrorKind::CommonError("<![CDATA tag can in sub node".into()),
 							doc.position,
-- 
2.43.0

