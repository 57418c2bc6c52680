From 4f5465d5c08d9b489ee60289b71086ddc56c3dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 01/49] fix: key the parser cache by input and position and
 release it while the parser runs

---
 .../parsers_impl/cache_parsers_impl.rs        | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/parser/src/internal/parsers_impl/cache_parsers_impl.rs b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
index 57a64ee..85feb2c 100644
--- a/parser/src/internal/parsers_impl/cache_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/cache_parsers_impl.rs
@@ -6,7 +6,6 @@ use std::cell::RefCell;
 use crate::core::ParseResult;
 use fnv::FnvHashMap;
 use std::fmt::Debug;
-use std::ptr;
 
 impl CacheParsers for ParsersImpl {
   #[inline]
@@ -20,19 +19,21 @@ impl CacheParsers for ParsersImpl {
     Parser::new(move |parser_state| {
       // キーをタプルとして生成（文字列変換なし）
       let key = (
-        parser_state as *const _ as usize,
-        parser_state.last_offset().unwrap_or(0),
-        ptr::addr_of!(method) as usize,
+        parser_state.input().as_ptr() as usize,
+        parser_state.input().len(),
+        parser_state.current_offset(),
       );
 
-      // キャッシュから結果を取得または計算
-      let parse_result = caches
-        .borrow_mut()
-        .entry(key)
-        .or_insert_with(|| method(parser_state))
-        .clone();
-
-      parse_result
+      // キャッシュから結果を取得または計算(再入に備え、パーサの実行中は借用を保持しない)
+      let cached = caches.borrow().get(&key).cloned();
+      match cached {
+        Some(parse_result) => parse_result,
+        None => {
+          let parse_result = method(parser_state);
+          caches.borrow_mut().insert(key, parse_result.clone());
+          parse_result
+        }
+      }
     })
   }
 }
-- 
2.43.0


From 32e4013b8febd4da3c3956e0b45c54a4423b0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 02/49] fix: repeat_sep does not run the parser when the range
 allows no item

---
 .../src/internal/parsers_impl/repeat_parsers_impl.rs   | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
index ca1b723..1e8fb6a 100644
--- a/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/repeat_parsers_impl.rs
@@ -74,7 +74,15 @@ impl RepeatParsers for ParsersImpl {
       let mut all_length = 0;
       let mut items = vec![];
 
-      if let ParseResult::Success { value, length } = (method)(parse_state) {
+      // An upper bound of zero leaves no room for even the first item.
+      let empty_range = match range.end() {
+        Bound::Included(&max_count) => max_count == 0,
+        Bound::Excluded(&max_count) => max_count <= 1,
+        Bound::Unbounded => false,
+      };
+      let first = if empty_range { None } else { Some((method)(parse_state)) };
+
+      if let Some(ParseResult::Success { value, length }) = first {
         let mut current_parse_state = parse_state.advance_by(length);
         items.push(value);
         all_length += length;
-- 
2.43.0


From b1867c55074ef63a8fbbe82f7914ad1dbb82fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 03/49] fix: take_while parsers stop at the end of the first
 run of matching elements

---
 parser/src/internal/parsers_impl/taken_parsers_impl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/internal/parsers_impl/taken_parsers_impl.rs b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
index 2dcd97c..15f3c60 100644
--- a/parser/src/internal/parsers_impl/taken_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/taken_parsers_impl.rs
@@ -33,6 +33,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -59,6 +61,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
@@ -85,6 +89,8 @@ impl TakenParsers for ParsersImpl {
             start = Some(index);
           }
           len += 1;
+        } else if start.is_some() {
+          break;
         }
         index += 1;
       }
-- 
2.43.0


From ac17cca988334928cae9479c3883dacd5abf199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 04/49] fix: chain_right and rest_right fold to the right over
 the whole chain

---
 parser/src/internal/parsers_impl/operator_parsers_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/operator_parsers_impl.rs b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
index efa7b35..61900b3 100644
--- a/parser/src/internal/parsers_impl/operator_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/operator_parsers_impl.rs
@@ -87,7 +87,7 @@ impl OperatorParsers for ParsersImpl {
   where
     BOP: Fn(A, A) -> A + 'a,
     A: Clone + Debug + 'a, {
-    Self::flat_map(p.clone(), move |x| Self::rest_left1(p.clone(), op.clone(), x.clone()))
+    Self::flat_map(p.clone(), move |x| Self::rest_right1(p.clone(), op.clone(), x.clone()))
   }
 
   #[inline]
@@ -107,7 +107,11 @@ impl OperatorParsers for ParsersImpl {
     Self::or(
       Self::flat_map(op.clone(), move |f| {
         let default_value = x.clone();
-        Self::map(p.clone(), move |y| f(default_value.clone(), y.clone()))
+        let (p2, op2) = (p.clone(), op.clone());
+        Self::map(
+          Self::flat_map(p.clone(), move |y| Self::rest_right1(p2.clone(), op2.clone(), y)),
+          move |z| f(default_value.clone(), z),
+        )
       }),
       Self::successful(default_value.clone()),
     )
-- 
2.43.0


From f26314520ae98725b43a75fd21b215245b655989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 05/49] fix: regex matches only at the current position and
 reports its length in characters

---
 parser/src/internal/parsers_impl/elements_parsers_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/internal/parsers_impl/elements_parsers_impl.rs b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
index a733b84..68a160b 100644
--- a/parser/src/internal/parsers_impl/elements_parsers_impl.rs
+++ b/parser/src/internal/parsers_impl/elements_parsers_impl.rs
@@ -91,10 +91,14 @@ impl ElementsParsers for ParsersImpl {
       let input: &[char] = parse_state.input();
       log::debug!("regex: input = {:?}", input);
       let str = String::from_iter(input);
-      if let Some(captures) = regex.captures(&str).as_ref() {
+      if let Some(captures) = regex
+        .captures(&str)
+        .filter(|captures| captures.get(0).map_or(false, |m| m.start() == 0))
+        .as_ref()
+      {
         if let Some(m) = captures.get(0) {
           let str = m.as_str();
-          ParseResult::successful(str.to_string(), str.len())
+          ParseResult::successful(str.to_string(), str.chars().count())
         } else {
           let msg = format!("regex {:?} found: {:?}", regex, str);
           let pe = ParseError::of_mismatch(input, parse_state.current_offset(), str.len(), msg);
-- 
2.43.0


From c9b22d595e3a74914afa29de7634fb5ba202c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 06/49] fix: inspecting a parse error never slices outside its
 input

---
 parser/src/core/parse_error.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/parse_error.rs b/parser/src/core/parse_error.rs
index 9db82af..22c94d8 100644
--- a/parser/src/core/parse_error.rs
+++ b/parser/src/core/parse_error.rs
@@ -91,10 +91,10 @@ impl<'a, I> ParseError<'a, I> {
       ParseError::Incomplete => None,
       ParseError::Mismatch {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::slice_of(input, *offset, *length)),
       ParseError::Conversion {
         input, offset, length, ..
-      } => Some(&input[*offset..(*offset + length)]),
+      } => Some(Self::slice_of(input, *offset, *length)),
       ParseError::Expect { ref inner, .. } => inner.input(),
       ParseError::Custom {
         inner: Some(ref inner), ..
@@ -103,6 +103,13 @@ impl<'a, I> ParseError<'a, I> {
     }
   }
 
+  /// The part of `input` addressed by `offset` and `length`, as far as it exists.
+  fn slice_of(input: &'a [I], offset: usize, length: usize) -> &'a [I] {
+    let start = offset.min(input.len());
+    let end = offset.saturating_add(length).min(input.len());
+    &input[start..end]
+  }
+
   pub fn is_expect(&self) -> bool {
     match self {
       ParseError::Expect { .. } => true,
-- 
2.43.0


From 29ed27060210665540731a6bd7b59ceb3ecd5d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 07/49] fix: is_ascii_digit_non_zero is false for characters
 that are not digits

---
 parser/src/core/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/core/element.rs b/parser/src/core/element.rs
index dfe138d..fdc547f 100644
--- a/parser/src/core/element.rs
+++ b/parser/src/core/element.rs
@@ -85,7 +85,7 @@ impl Element for u8 {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
@@ -155,7 +155,7 @@ impl Element for char {
   }
 
   fn is_ascii_digit_non_zero(&self) -> bool {
-    !self.is_ascii_digit_zero()
+    self.is_ascii_digit() && !self.is_ascii_digit_zero()
   }
 
   fn is_ascii_alpha_digit(&self) -> bool {
-- 
2.43.0


From f85df70d7a2057590f5a6604ae60bf54e974850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/49] fix: an IPv6 address may have seven groups before a
 trailing double colon

---
 uri/src/parsers/ip_v6_address_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/ip_v6_address_parsers.rs b/uri/src/parsers/ip_v6_address_parsers.rs
index 3863da6..9249596 100644
--- a/uri/src/parsers/ip_v6_address_parsers.rs
+++ b/uri/src/parsers/ip_v6_address_parsers.rs
@@ -130,7 +130,7 @@ fn ip_v6_address8<'a>() -> Parser<'a, u8, Ipv6Addr> {
 
 //                / [ *6( h16 ":" ) h16 ] "::"
 fn ip_v6_address9<'a>() -> Parser<'a, u8, Ipv6Addr> {
-  (ip_v6_address_p1(5) + seq(b"::"))
+  (ip_v6_address_p1(6) + seq(b"::"))
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From eeb307a94ca8a5f873ff57e9a3dac11157bc5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 09/49] fix: the version letter of an IPvFuture address is
 case-insensitive

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index f54984f..2fcdf1f 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -20,7 +20,7 @@ pub fn ip_literal<'a>() -> Parser<'a, u8, IpLiteral> {
 
 // "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
 pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
-  (elm_ref(b'v')
+  (elm_ref_of(b"vV")
     + elm_hex_digit().of_many1()
     + elm(b'.')
     + (unreserved() | sub_delims() | elm_ref(b':').collect()).of_many1())
-- 
2.43.0


From 3e1b8b8fc1a425a99d98b79b0b3a24e9a4c973a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 10/49] fix: a registered name may be empty

---
 uri/src/parsers/host_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 2fcdf1f..95ed7f2 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -33,7 +33,7 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
   (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
-    .of_many1()
+    .of_many0()
     .collect()
     .map(|e| e.to_vec())
     .map_res(String::from_utf8)
-- 
2.43.0


From eb6793c7ea61b26a2e9d0929cdf61f98bea75866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 11/49] fix: a password may be empty or contain colons

---
 uri/src/parsers/user_info_parsers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/user_info_parsers.rs b/uri/src/parsers/user_info_parsers.rs
index f28bd89..eeb740d 100644
--- a/uri/src/parsers/user_info_parsers.rs
+++ b/uri/src/parsers/user_info_parsers.rs
@@ -6,7 +6,13 @@ use oni_comb_parser_rs::prelude::*;
 pub fn user_info<'a>() -> Parser<'a, u8, UserInfo> {
   let p = || (unreserved().attempt() | pct_encoded().attempt() | sub_delims());
   (p().of_many0().collect().map(|e| e.to_vec()).map_res(String::from_utf8)
-    + (elm(b':') * p().of_many1().collect().map(|e| e.to_vec()).map_res(String::from_utf8)).opt())
+    + (elm(b':')
+      * (p() | elm_ref(b':').collect())
+        .of_many0()
+        .collect()
+        .map(|e| e.to_vec())
+        .map_res(String::from_utf8))
+    .opt())
   .map(|(user_name, password)| UserInfo::new(user_name, password))
   .name("user_info")
 }
-- 
2.43.0


From 9d889d76fbb7c97d3fc5c53b8783229cd63325f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 12/49] fix: Uri::parse rejects text after the URI

---
 uri/src/models/uri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uri/src/models/uri.rs b/uri/src/models/uri.rs
index 6c82be6..a2ad508 100644
--- a/uri/src/models/uri.rs
+++ b/uri/src/models/uri.rs
@@ -6,7 +6,7 @@ use crate::models::query::Query;
 use crate::models::scheme::Scheme;
 use crate::models::user_info::UserInfo;
 use crate::parsers::uri_parsers;
-use oni_comb_parser_rs::prelude::{ParseError, ParserRunner};
+use oni_comb_parser_rs::prelude::{end, ParseError, ParserRunner};
 use std::fmt::Formatter;
 
 pub type Fragment = String;
@@ -66,7 +66,7 @@ impl std::fmt::Display for Uri {
 
 impl Uri {
   pub fn parse(text: &str) -> Result<Uri, ParseError<u8>> {
-    uri_parsers::uri().parse(text.as_bytes()).to_result()
+    (uri_parsers::uri() - end()).parse(text.as_bytes()).to_result()
   }
 
   pub fn new(
-- 
2.43.0


From 719abe1b5626f3c905b7a240841a51cbeb179b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 13/49] fix: a path without authority does not begin with two
 slashes

---
 uri/src/parsers/hier_part_parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uri/src/parsers/hier_part_parsers.rs b/uri/src/parsers/hier_part_parsers.rs
index 95d6854..bb8b69a 100644
--- a/uri/src/parsers/hier_part_parsers.rs
+++ b/uri/src/parsers/hier_part_parsers.rs
@@ -9,7 +9,7 @@ use oni_comb_parser_rs::prelude::*;
 //                / path-empty
 pub fn hier_part<'a>() -> Parser<'a, u8, Option<HierPart>> {
   let p1 = (seq(b"//") * authority() + path_abempty(false)).map(|(a, b)| HierPart::new(Some(a), b));
-  let p2 = (path_abempty(true).attempt() | path_rootless()).map(|e| HierPart::of_path(e));
+  let p2 = ((seq(b"//").not() * path_abempty(true)).attempt() | path_rootless()).map(|e| HierPart::of_path(e));
   (p1.attempt() | p2).opt()
 }
 
-- 
2.43.0


From 5117831c499c4eef058ada13d8cc9927f5c8d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 14/49] fix: a registered name may begin with an IPv4 address

---
 uri/src/parsers/host_parsers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uri/src/parsers/host_parsers.rs b/uri/src/parsers/host_parsers.rs
index 95ed7f2..696257d 100644
--- a/uri/src/parsers/host_parsers.rs
+++ b/uri/src/parsers/host_parsers.rs
@@ -7,7 +7,8 @@ use crate::parsers::ip_v6_address_parsers::ip_v6_address;
 
 // host          = IP-literal / IPv4address / reg-name
 pub fn host<'a>() -> Parser<'a, u8, HostName> {
-  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address().map(HostName::Ipv4Address).attempt() | reg_name())
+  let ip_v4_address = ip_v4_address() - reg_name_char().not();
+  (ip_literal().map(HostName::IpLiteral).attempt() | ip_v4_address.map(HostName::Ipv4Address).attempt() | reg_name())
     .name("host")
 }
 
@@ -30,9 +31,13 @@ pub fn ip_v_future<'a>() -> Parser<'a, u8, String> {
   .name("ipv-future")
 }
 
+fn reg_name_char<'a>() -> Parser<'a, u8, &'a [u8]> {
+  unreserved().attempt() | pct_encoded().attempt() | sub_delims()
+}
+
 //  reg-name      = *( unreserved / pct-encoded / sub-delims )
 pub fn reg_name<'a>() -> Parser<'a, u8, HostName> {
-  (unreserved().attempt() | pct_encoded().attempt() | sub_delims())
+  reg_name_char()
     .of_many0()
     .collect()
     .map(|e| e.to_vec())
-- 
2.43.0


From 7e42400d1bca44275d3791518e65b0c050650160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 15/49] fix: a query value may contain equals signs

---
 uri/src/parsers/query_parsers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uri/src/parsers/query_parsers.rs b/uri/src/parsers/query_parsers.rs
index 0dc80fd..6a93a56 100644
--- a/uri/src/parsers/query_parsers.rs
+++ b/uri/src/parsers/query_parsers.rs
@@ -11,7 +11,14 @@ pub fn query<'a>() -> Parser<'a, u8, Query> {
       .map(|e| e.to_vec())
       .map_res(String::from_utf8)
   };
-  let key_values = || (code_point() + (elm(b'=') * code_point()).opt());
+  let value = || {
+    (pchar_without_eq_amp() | elm_of(b"/?=").collect())
+      .of_many0()
+      .collect()
+      .map(|e| e.to_vec())
+      .map_res(String::from_utf8)
+  };
+  let key_values = || (code_point() + (elm(b'=') * value()).opt());
   (key_values() + (elm(b'&') * key_values()).of_many0()).map(|(a, b)| {
     let mut m = vec![a];
     m.extend(b);
-- 
2.43.0


From ac0ff27c5185875d74c9d5c881b159584ba39412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/49] fix: a cron list does not end with a comma

---
 crond/src/cron_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crond/src/cron_parser.rs b/crond/src/cron_parser.rs
index a024b7e..59cfbe3 100644
--- a/crond/src/cron_parser.rs
+++ b/crond/src/cron_parser.rs
@@ -86,10 +86,10 @@ fn range_per(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
 }
 
 fn list(p: Parser<char, CronExpr>) -> Parser<char, CronExpr> {
-  p.of_many1_sep(elm(','))
-    .map(|e| match e {
-      e if e.len() == 1 => e.get(0).unwrap().clone(),
-      e => ListExpr(e),
+  (p.clone() + (elm(',') * p).of_many0())
+    .map(|(head, tail)| match tail {
+      tail if tail.is_empty() => head,
+      tail => ListExpr(std::iter::once(head).chain(tail).collect()),
     })
     .attempt()
 }
-- 
2.43.0


From 2e278dda00d4f39244ef1a5ad9ed54017b2da567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 17/49] fix: the weekday field is matched against the weekday

---
 crond/src/cron_evaluator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 1262254..0e21f45 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -30,7 +30,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         );
         let fmonths = self.visit(&CronEnvironment::new(self.instant.date().month() as u8, 12), months);
         let fday_of_weeks = self.visit(
-          &CronEnvironment::new(self.instant.time().minute() as u8, 7),
+          &CronEnvironment::new(self.instant.weekday().number_from_sunday() as u8, 7),
           day_of_weeks,
         );
         fmins && fhours && fdays && fmonths && fday_of_weeks
-- 
2.43.0


From e74d7ce1730e05c77adf6a73b877c80ed0c012c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 18/49] fix: evaluating a step of zero does not panic

---
 crond/src/cron_evaluator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crond/src/cron_evaluator.rs b/crond/src/cron_evaluator.rs
index 0e21f45..e39a811 100644
--- a/crond/src/cron_evaluator.rs
+++ b/crond/src/cron_evaluator.rs
@@ -51,7 +51,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
         per_option,
       } => match per_option {
         box CronExpr::NoOp if *start <= env.now && env.now <= *end => true,
-        box CronExpr::ValueExpr(per) => (*start as usize..=*end as usize)
+        box CronExpr::ValueExpr(per) if *per > 0 => (*start as usize..=*end as usize)
           .step_by(*per as usize)
           .into_iter()
           .any(|e| e == env.now as usize),
@@ -60,7 +60,7 @@ impl<'a, Tz: TimeZone> CronEvaluator<'a, Tz> {
       CronExpr::PerExpr {
         digit: box CronExpr::AnyValueExpr,
         option: box CronExpr::ValueExpr(per),
-      } => (0usize..=(env.max as usize))
+      } if *per > 0 => (0usize..=(env.max as usize))
         .step_by(*per as usize)
         .into_iter()
         .any(|e| e == env.now as usize),
-- 
2.43.0


From 93ab833070aa09c0e7955a034c150d64537f8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 19/49] fix: the length of December does not depend on the next
 year being representable

---
 crond/src/lib.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/crond/src/lib.rs b/crond/src/lib.rs
index fd7e651..644a7e2 100644
--- a/crond/src/lib.rs
+++ b/crond/src/lib.rs
@@ -21,17 +21,10 @@ mod cron_schedule;
 mod cron_specification;
 
 fn get_days_from_month(year: i32, month: u32) -> i64 {
-  NaiveDate::from_ymd(
-    match month {
-      12 => year + 1,
-      _ => year,
-    },
-    match month {
-      12 => 1,
-      _ => month + 1,
-    },
-    1,
-  )
-  .signed_duration_since(NaiveDate::from_ymd(year, month, 1))
-  .num_days()
+  if month == 12 {
+    return 31;
+  }
+  NaiveDate::from_ymd(year, month + 1, 1)
+    .signed_duration_since(NaiveDate::from_ymd(year, month, 1))
+    .num_days()
 }
-- 
2.43.0


From d07a2b9ceba4382d477c307eb4b181ad9a2de0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 20/49] fix: a cron iterator stops at the end of its interval

---
 crond/src/cron_interval_iterator.rs | 32 +++++++++--------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/crond/src/cron_interval_iterator.rs b/crond/src/cron_interval_iterator.rs
index 36fe241..a1903c0 100644
--- a/crond/src/cron_interval_iterator.rs
+++ b/crond/src/cron_interval_iterator.rs
@@ -32,23 +32,18 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> Iterator for CronIntervalIter
   type Item = DateTime<Tz>;
 
   fn next(&mut self) -> Option<Self::Item> {
-    self.curr = self.next.clone();
-    self.next = self.next.clone() + Duration::minutes(1);
-    match self.end_value() {
-      None => {
-        self.proceed_next();
-        let curr: DateTime<Tz> = self.curr.clone();
-        Some(curr)
-      }
-      Some(end) => {
-        if end >= self.curr {
-          self.proceed_next();
-          let curr: DateTime<Tz> = self.curr.clone();
-          Some(curr)
-        } else {
-          None
+    let end = self.end_value();
+    loop {
+      self.curr = self.next.clone();
+      if let Some(end) = &end {
+        if self.curr > *end {
+          return None;
         }
       }
+      self.next = self.curr.clone().checked_add_signed(Duration::minutes(1))?;
+      if self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
+        return Some(self.curr.clone());
+      }
     }
   }
 }
@@ -75,13 +70,6 @@ impl<Tz: TimeZone, S: Specification<DateTime<Tz>>> CronIntervalIterator<Tz, S> {
       None
     }
   }
-
-  fn proceed_next(&mut self) {
-    while !self.cron_interval.cron_specification.is_satisfied_by(&self.curr) {
-      self.curr = self.next.clone();
-      self.next = self.next.clone() + Duration::minutes(1);
-    }
-  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 512da222920d71758138735cf1bbcf23df9745ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 21/49] fix: resolving a configuration does not write to
 standard output

---
 hocon/src/model/config_value.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 8a49771..a7ff616 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -169,12 +169,9 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            println!("cv = {:?}", cv);
             cv.resolve(source);
-            println!("cv = {:?}", cv);
             match cv {
               ConfigValue::String(s) => {
-                println!("s = {}", s);
                 result.push_str(s);
               }
               _ => {}
@@ -336,7 +333,6 @@ impl ConfigValue {
   }
 
   pub fn prev_latest(&self) -> &Self {
-    println!("self = {:?}", self);
     match self {
       ConfigValue::Link(cv) => match &*(cv.prev) {
         ConfigValue::Link(prev_cv) => {
-- 
2.43.0


From 43bd93f0d3e82411108471d016607923110c7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 22/49] fix: a configuration file that cannot be read is an
 error

---
 hocon/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index fdb6063..238cf08 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -70,7 +70,7 @@ impl ConfigFactory {
 
   pub fn load_from_file(&mut self, filename: &str) -> Result<Config, ConfigError> {
     let mut text = String::new();
-    let _ = self.file_reader.read_to_string(filename, &mut text);
+    self.file_reader.read_to_string(filename, &mut text)?;
     self.parse_from_string(&text)
   }
 
-- 
2.43.0


From 7acc2506afe2bf94bba05ad5f2a55534880eff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 23/49] fix: an empty configuration text does not panic

---
 hocon/src/model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index 238cf08..d27aea6 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 use std::fs::File;
 use std::io::Read;
@@ -95,9 +96,13 @@ impl ConfigFactory {
   }
 
   fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
-    let mut cur = config_values[0].clone();
+    let mut values = config_values.iter();
+    let mut cur = match values.next() {
+      Some(cv) => cv.clone(),
+      None => return ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+    };
     cur.resolve(None);
-    for cv in &config_values[1..] {
+    for cv in values {
       let mut t = cv.clone();
       t.resolve(None);
       cur.merge_with(t);
-- 
2.43.0


From e7359174b7c5ef6f49b3729ea69d2ddc68a945ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 24/49] fix: an included file is read under its own name,
 without the quotes

---
 hocon/src/model/config_include_value.rs | 2 +-
 hocon/src/parsers.rs                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hocon/src/model/config_include_value.rs b/hocon/src/model/config_include_value.rs
index f3414b4..ecf093e 100644
--- a/hocon/src/model/config_include_value.rs
+++ b/hocon/src/model/config_include_value.rs
@@ -8,7 +8,7 @@ pub struct ConfigIncludeValue {
 
 impl Display for ConfigIncludeValue {
   fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-    write!(f, "include {}({})", self.method, self.file_name)
+    write!(f, "include {}(\"{}\")", self.method, self.file_name)
   }
 }
 
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index df148e5..245eb00 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -27,7 +27,7 @@ fn include_method<'a>() -> Parser<'a, u8, String> {
 
 fn include_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
   (seq(b"include") * elm(b' ') * include_method() + path().surround(seq(b"(\""), seq(b"\")")))
-    .map(|(method, path)| ConfigValue::Include(ConfigIncludeValue::new(method, format!("\"{}\"", path))))
+    .map(|(method, path)| ConfigValue::Include(ConfigIncludeValue::new(method, path)))
 }
 
 fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Option<String>)> {
-- 
2.43.0


From 0ffbd6006706e34e4443a8aafabd2f6e6d227811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 25/49] fix: an unresolvable reference or an unreadable include
 is an error, not a panic

---
 hocon/src/model.rs              | 25 +++++++++++++------------
 hocon/src/model/config_value.rs | 28 +++++++++++++++-------------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/hocon/src/model.rs b/hocon/src/model.rs
index d27aea6..1930d27 100644
--- a/hocon/src/model.rs
+++ b/hocon/src/model.rs
@@ -30,6 +30,7 @@ pub enum ConfigError {
   FileNotFoundError,
   FileReadError,
   ParseError(String),
+  ReferenceError(String),
 }
 
 pub trait Monoid {
@@ -41,7 +42,7 @@ pub trait ConfigMergeable {
 }
 
 pub trait ConfigResolver {
-  fn resolve(&mut self, source: Option<&Self>);
+  fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError>;
 }
 
 pub trait FileReader {
@@ -79,35 +80,35 @@ impl ConfigFactory {
     hocon()
       .parse(text.as_bytes())
       .to_result()
-      .map(|config_values| Self::resolve_stage0(&config_values))
-      .map(|config_value| Self::resolve_stage1(&config_value))
-      .map(|config_value| Config::new(config_value))
       .map_err(|pe| {
         let msg = pe.to_string();
         let input_string = pe.input_string();
         ConfigError::ParseError(format!("{}: {:?}", msg, input_string))
       })
+      .and_then(|config_values| Self::resolve_stage0(&config_values))
+      .and_then(|config_value| Self::resolve_stage1(&config_value))
+      .map(|config_value| Config::new(config_value))
   }
 
-  fn resolve_stage1(config_value: &ConfigValue) -> ConfigValue {
+  fn resolve_stage1(config_value: &ConfigValue) -> Result<ConfigValue, ConfigError> {
     let mut c = config_value.clone();
-    c.resolve(Some(&config_value));
-    c
+    c.resolve(Some(&config_value))?;
+    Ok(c)
   }
 
-  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> ConfigValue {
+  fn resolve_stage0(config_values: &Vec<ConfigValue>) -> Result<ConfigValue, ConfigError> {
     let mut values = config_values.iter();
     let mut cur = match values.next() {
       Some(cv) => cv.clone(),
-      None => return ConfigValue::Object(ConfigObjectValue::new(HashMap::new())),
+      None => return Ok(ConfigValue::Object(ConfigObjectValue::new(HashMap::new()))),
     };
-    cur.resolve(None);
+    cur.resolve(None)?;
     for cv in values {
       let mut t = cv.clone();
-      t.resolve(None);
+      t.resolve(None)?;
       cur.merge_with(t);
     }
-    cur
+    Ok(cur)
   }
 }
 
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index a7ff616..5498936 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -12,7 +12,7 @@ use crate::model::config_include_value::ConfigIncludeValue;
 use crate::model::config_number_value::ConfigNumberValue;
 use crate::model::config_object_value::ConfigObjectValue;
 use crate::model::config_value_link::ConfigValueLink;
-use crate::model::{ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
+use crate::model::{ConfigError, ConfigFactory, ConfigMergeable, ConfigResolver, Monoid};
 use crate::parsers::key;
 
 #[derive(Clone, Debug, PartialEq)]
@@ -90,23 +90,21 @@ impl ConfigMergeable for ConfigValue {
 }
 
 impl ConfigResolver for ConfigValue {
-  fn resolve(&mut self, source: Option<&Self>) {
+  fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError> {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
         let mut config_factory = ConfigFactory::new();
-        let c = config_factory
-          .load_from_file(&cvi.get_include_value().unwrap().file_name)
-          .unwrap();
+        let c = config_factory.load_from_file(&cvi.get_include_value().unwrap().file_name)?;
         *cvi = c.to_config_value().clone();
       }
       (cvl @ ConfigValue::Link(..), Some(..)) => {
         let cvs = cvl.to_vec();
         if !cvs.is_empty() {
           let mut head = cvs[0].clone();
-          head.resolve(source);
+          head.resolve(source)?;
           for e in &cvs[1..] {
             let mut ee = e.clone();
-            ee.resolve(source);
+            ee.resolve(source)?;
             head.push(ee.clone());
           }
           *cvl = head;
@@ -116,7 +114,7 @@ impl ConfigResolver for ConfigValue {
         let av = cva.get_array_value().unwrap();
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source);
+          cv.resolve(source)?;
           m.push(cv);
         }
         if !av.0.is_empty() {
@@ -131,7 +129,7 @@ impl ConfigResolver for ConfigValue {
             keys.reverse();
             let mut leaf_map = HashMap::new();
             let mut mcv = cv.clone();
-            mcv.resolve(None);
+            mcv.resolve(None)?;
             leaf_map.insert(keys[0].to_string(), mcv);
             let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
             for key in &keys[1..(keys.len() - 1)] {
@@ -158,7 +156,7 @@ impl ConfigResolver for ConfigValue {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source);
+          cv.resolve(source)?;
           key_values.insert(key, cv);
         }
         if !key_values.is_empty() {
@@ -169,7 +167,7 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            cv.resolve(source);
+            cv.resolve(source)?;
             match cv {
               ConfigValue::String(s) => {
                 result.push_str(s);
@@ -192,7 +190,7 @@ impl ConfigResolver for ConfigValue {
           .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
         match ref_value.as_mut() {
           Some(ref_value_mut) => {
-            ref_value_mut.resolve(source);
+            ref_value_mut.resolve(source)?;
           }
           _ => {}
         }
@@ -204,13 +202,17 @@ impl ConfigResolver for ConfigValue {
           }
         } else {
           if ref_value.is_none() {
-            panic!("Cannot resolve the reference: {}", cvr.ref_name().unwrap())
+            return Err(ConfigError::ReferenceError(format!(
+              "Cannot resolve the reference: {}",
+              cvr.ref_name().unwrap()
+            )));
           }
           *cvr = ref_value.unwrap();
         }
       }
       _ => {}
     }
+    Ok(())
   }
 }
 
-- 
2.43.0


From c9a155033b74c8d12ed8faf3bfe2079b4ab76a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 26/49] fix: a reference to itself has no value instead of
 recursing without end

---
 hocon/src/model/config_value.rs | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 5498936..ef3a351 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -91,6 +91,13 @@ impl ConfigMergeable for ConfigValue {
 
 impl ConfigResolver for ConfigValue {
   fn resolve(&mut self, source: Option<&Self>) -> Result<(), ConfigError> {
+    self.resolve_in(source, &mut vec![])
+  }
+}
+
+impl ConfigValue {
+  /// `resolving` holds the names of the references that are being resolved.
+  fn resolve_in(&mut self, source: Option<&Self>, resolving: &mut Vec<String>) -> Result<(), ConfigError> {
     match (self, source) {
       (cvi @ ConfigValue::Include(..), ..) => {
         let mut config_factory = ConfigFactory::new();
@@ -101,10 +108,10 @@ impl ConfigResolver for ConfigValue {
         let cvs = cvl.to_vec();
         if !cvs.is_empty() {
           let mut head = cvs[0].clone();
-          head.resolve(source)?;
+          head.resolve_in(source, resolving)?;
           for e in &cvs[1..] {
             let mut ee = e.clone();
-            ee.resolve(source)?;
+            ee.resolve_in(source, resolving)?;
             head.push(ee.clone());
           }
           *cvl = head;
@@ -114,7 +121,7 @@ impl ConfigResolver for ConfigValue {
         let av = cva.get_array_value().unwrap();
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
-          cv.resolve(source)?;
+          cv.resolve_in(source, resolving)?;
           m.push(cv);
         }
         if !av.0.is_empty() {
@@ -129,7 +136,7 @@ impl ConfigResolver for ConfigValue {
             keys.reverse();
             let mut leaf_map = HashMap::new();
             let mut mcv = cv.clone();
-            mcv.resolve(None)?;
+            mcv.resolve_in(None, resolving)?;
             leaf_map.insert(keys[0].to_string(), mcv);
             let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
             for key in &keys[1..(keys.len() - 1)] {
@@ -156,7 +163,7 @@ impl ConfigResolver for ConfigValue {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
-          cv.resolve(source)?;
+          cv.resolve_in(source, resolving)?;
           key_values.insert(key, cv);
         }
         if !key_values.is_empty() {
@@ -167,7 +174,7 @@ impl ConfigResolver for ConfigValue {
         ConfigValue::Enumeration { prev, values, .. } => {
           let mut result = String::new();
           for cv in &mut values.0 {
-            cv.resolve(source)?;
+            cv.resolve_in(source, resolving)?;
             match cv {
               ConfigValue::String(s) => {
                 result.push_str(s);
@@ -184,13 +191,20 @@ impl ConfigResolver for ConfigValue {
         _ => {}
       },
       (cvr @ ConfigValue::Reference { .. }, Some(src)) => {
-        let mut ref_value = src
-          .get_value(cvr.ref_name().unwrap())
-          .cloned()
-          .or_else(|| env::var(cvr.ref_name().unwrap()).ok().map(|s| ConfigValue::String(s)));
+        let name = cvr.ref_name().unwrap().clone();
+        let mut ref_value = if resolving.contains(&name) {
+          None
+        } else {
+          src
+            .get_value(&name)
+            .cloned()
+            .or_else(|| env::var(&name).ok().map(|s| ConfigValue::String(s)))
+        };
         match ref_value.as_mut() {
           Some(ref_value_mut) => {
-            ref_value_mut.resolve(source)?;
+            resolving.push(name);
+            ref_value_mut.resolve_in(source, resolving)?;
+            resolving.pop();
           }
           _ => {}
         }
-- 
2.43.0


From e34d85e5e8778f74cf6d3ba1c666669b53776d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 27/49] fix: an optional reference without a value leaves the
 previous value, or no value if there is none

---
 hocon/src/model/config_value.rs | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index ef3a351..6e6bf98 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -112,7 +112,9 @@ impl ConfigValue {
           for e in &cvs[1..] {
             let mut ee = e.clone();
             ee.resolve_in(source, resolving)?;
-            head.push(ee.clone());
+            if !ee.is_undefined() {
+              head.push(ee.clone());
+            }
           }
           *cvl = head;
         }
@@ -122,11 +124,11 @@ impl ConfigValue {
         let mut m = vec![];
         for mut cv in av.0.clone().into_iter() {
           cv.resolve_in(source, resolving)?;
-          m.push(cv);
-        }
-        if !av.0.is_empty() {
-          *cva = ConfigValue::Array(ConfigArrayValue::new(m));
+          if !cv.is_undefined() {
+            m.push(cv);
+          }
         }
+        *cva = ConfigValue::Array(ConfigArrayValue::new(m));
       }
       (ConfigValue::Object(cov), None) => {
         let mut new_key_values = HashMap::new();
@@ -164,11 +166,11 @@ impl ConfigValue {
         let mut key_values = HashMap::new();
         for (key, mut cv) in ov.0.clone() {
           cv.resolve_in(source, resolving)?;
-          key_values.insert(key, cv);
-        }
-        if !key_values.is_empty() {
-          *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
+          if !cv.is_undefined() {
+            key_values.insert(key, cv);
+          }
         }
+        *cvo = ConfigValue::Object(ConfigObjectValue::new(key_values));
       }
       (cvr @ ConfigValue::Enumeration { .. }, Some(_)) => match cvr {
         ConfigValue::Enumeration { prev, values, .. } => {
@@ -183,7 +185,7 @@ impl ConfigValue {
             }
           }
           if result.is_empty() {
-            *cvr = prev.clone().unwrap().prev_latest().clone();
+            *cvr = prev.clone().map_or(ConfigValue::Null, |prev| prev.latest().clone());
           } else {
             *cvr = ConfigValue::String(result);
           }
@@ -212,7 +214,14 @@ impl ConfigValue {
           if ref_value.is_some() {
             *cvr = ref_value.unwrap();
           } else {
-            *cvr = cvr.ref_prev().clone().unwrap().prev_latest().clone();
+            match cvr.ref_prev().clone() {
+              Some(prev) => {
+                let mut prev_value = prev.latest().clone();
+                prev_value.resolve_in(source, resolving)?;
+                *cvr = prev_value;
+              }
+              None => {}
+            }
           }
         } else {
           if ref_value.is_none() {
@@ -399,6 +408,11 @@ impl ConfigValue {
     *self = ConfigValue::Link(Rc::new(cvl))
   }
 
+  /// An optional reference that was not resolved.
+  fn is_undefined(&self) -> bool {
+    self.ref_missing().unwrap_or(false)
+  }
+
   fn ref_prev(&self) -> &Option<Rc<ConfigValue>> {
     match self {
       ConfigValue::Reference { prev, .. } => prev,
-- 
2.43.0


From 931b7de79176a78e3d76e2ef615dc4ba63411f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 28/49] fix: a later value replaces an earlier one and objects
 under one key are merged wherever they are written

---
 hocon/src/model/config_value.rs | 26 +++++++++++---------------
 hocon/src/parsers.rs            |  2 +-
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 6e6bf98..39be560 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -75,16 +75,18 @@ impl ConfigMergeable for ConfigValue {
       (ConfigValue::Object(l), ConfigValue::Object(r)) => {
         l.merge_with(r);
       }
-      (ConfigValue::Array(l), ConfigValue::Array(r)) => {
-        l.merge_with(r);
-      }
-      (ConfigValue::Link(..), ConfigValue::Link(..)) => {}
-      (l @ ConfigValue::Link(..), r) => {
-        let mut cv = l.get_value_link().unwrap().value.clone();
-        cv.merge_with(r);
-        l.push(cv);
+      (l, r @ ConfigValue::Link(..)) => {
+        for cv in r.to_vec() {
+          l.merge_with(cv);
+        }
       }
-      (..) => {}
+      (l, r) => match (l.latest().clone(), r) {
+        (ConfigValue::Object(mut lo), ConfigValue::Object(ro)) => {
+          lo.merge_with(ro);
+          l.push(ConfigValue::Object(lo));
+        }
+        (_, r) => l.push(r),
+      },
     }
   }
 }
@@ -455,12 +457,6 @@ impl ConfigValue {
     }
   }
 
-  fn get_value_link(&self) -> Option<&ConfigValueLink> {
-    match self {
-      ConfigValue::Link(cvl) => Some(&*cvl),
-      _ => None,
-    }
-  }
 }
 
 #[cfg(test)]
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 245eb00..3e39a9c 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -216,7 +216,7 @@ fn object<'a>() -> Parser<'a, u8, HashMap<String, ConfigValue>> {
     let m: HashMap<String, ConfigValue> = HashMap::new();
     properties.into_iter().fold(m, |mut r, e| {
       match r.get_mut(&e.0) {
-        Some(v) => v.push(e.1),
+        Some(v) => v.merge_with(e.1),
         None => {
           r.insert(e.0, e.1);
         }
-- 
2.43.0


From 5128209cf1a90a48ad0408646b000ffeb70e512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 29/49] fix: a dotted key is expanded in place, beside the
 other keys of its object

---
 hocon/src/model/config_value.rs | 31 -------------------------------
 hocon/src/parsers.rs            | 13 ++++++++++++-
 2 files changed, 12 insertions(+), 32 deletions(-)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index 39be560..e7a2fbd 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -132,37 +132,6 @@ impl ConfigValue {
         }
         *cva = ConfigValue::Array(ConfigArrayValue::new(m));
       }
-      (ConfigValue::Object(cov), None) => {
-        let mut new_key_values = HashMap::new();
-        for (key, cv) in &cov.0 {
-          if key.contains(".") {
-            let mut keys = key.split(".").collect::<Vec<_>>();
-            keys.reverse();
-            let mut leaf_map = HashMap::new();
-            let mut mcv = cv.clone();
-            mcv.resolve_in(None, resolving)?;
-            leaf_map.insert(keys[0].to_string(), mcv);
-            let mut new_object = ConfigValue::Object(ConfigObjectValue::new(leaf_map));
-            for key in &keys[1..(keys.len() - 1)] {
-              let mut node_map = HashMap::new();
-              node_map.insert(key.to_string(), new_object.clone());
-              new_object = ConfigValue::Object(ConfigObjectValue::new(node_map));
-            }
-            let last_key = keys.last().unwrap().to_string();
-            match new_key_values.get_mut(&last_key) {
-              None => {
-                new_key_values.insert(last_key, new_object);
-              }
-              Some(entry) => {
-                entry.merge_with(new_object);
-              }
-            }
-          }
-        }
-        if !new_key_values.is_empty() {
-          *cov = ConfigObjectValue::new(new_key_values);
-        }
-      }
       (cvo @ ConfigValue::Object(..), Some(..)) => {
         let ov = cvo.get_object_value().unwrap();
         let mut key_values = HashMap::new();
diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 3e39a9c..53fcdf6 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -189,7 +189,18 @@ pub fn key<'a>() -> Parser<'a, u8, String> {
 }
 
 fn property<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-  key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value())
+  (key() + ((kv() * lazy(config_value)).attempt() | object_config_value().attempt() | array_config_value()))
+    .map(|(key, value)| expand_key(key, value))
+}
+
+fn expand_key(key: String, value: ConfigValue) -> (String, ConfigValue) {
+  match key.split_once('.') {
+    Some((head, tail)) => {
+      let property = expand_key(tail.to_string(), value);
+      (head.to_string(), ConfigValue::Object(ConfigObjectValue::from(property)))
+    }
+    None => (key, value),
+  }
 }
 
 fn property_config_value<'a>() -> Parser<'a, u8, (String, ConfigValue)> {
-- 
2.43.0


From 2585acd6855afa24ce47237185938b7e040ac5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 30/49] fix: a reference to a value that is undefined has no
 value

---
 hocon/src/model/config_value.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index e7a2fbd..a763b72 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -181,6 +181,7 @@ impl ConfigValue {
           }
           _ => {}
         }
+        let ref_value = ref_value.filter(|cv| !cv.is_undefined());
         if cvr.ref_missing().unwrap() {
           if ref_value.is_some() {
             *cvr = ref_value.unwrap();
-- 
2.43.0


From 462496ca87b97346d338a83954cce21544f220c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 31/49] fix: the sign and the exponent of a number are part of
 its value

---
 hocon/src/parsers.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 53fcdf6..7899adb 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -3,6 +3,7 @@ use std::char::{decode_utf16, REPLACEMENT_CHARACTER};
 use std::collections::HashMap;
 
 use oni_comb_parser_rs::prelude::*;
+use rust_decimal::Decimal;
 
 fn comment<'a>() -> Parser<'a, u8, &'a [u8]> {
   let head = seq(b"//").collect().attempt() | elm_ref(b'#').collect();
@@ -75,21 +76,18 @@ fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
-  number().map(|(s, i, f, e)| match (s, i, f, e) {
-    (None, i, None, None) => ConfigNumberValue::from(i),
-    (Some(_), i, None, None) => ConfigNumberValue::from(i),
-    (_, i, Some(f), None) => {
-      let mut s = i;
-      s.push_str(&f);
-      ConfigNumberValue::from(s)
+  number().map_res(|(sign, i, f, e)| {
+    let mut s = i;
+    if sign.is_some() {
+      s.insert(0, '-');
     }
-    (_, i, Some(f), Some(e)) => {
-      let mut s = i;
+    if let Some(f) = f {
       s.push_str(&f);
-      s.push_str(&e);
-      ConfigNumberValue::from(s)
     }
-    _ => panic!("no match !!!"),
+    match e {
+      Some(e) => Decimal::from_scientific(&format!("{}{}", s, e)).map(ConfigNumberValue::new),
+      None => Decimal::from_str_radix(&s, 10).map(ConfigNumberValue::new),
+    }
   })
 }
 
-- 
2.43.0


From 30467ed58c3287b1f0164d78374ff7642cadf93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 32/49] fix: long names of duration units are recognised in
 full

---
 hocon/src/parsers.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 7899adb..4b453f3 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -45,28 +45,28 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
-  let ns = (seq(b"ns").attempt()
-    | seq(b"nano").attempt()
-    | seq(b"nanos").attempt()
+  let ns = (seq(b"nanoseconds").attempt()
     | seq(b"nanosecond").attempt()
-    | seq(b"nanoseconds"))
+    | seq(b"nanos").attempt()
+    | seq(b"nano").attempt()
+    | seq(b"ns"))
   .map(|_| TimeUnit::Nanoseconds);
-  let us = (seq(b"us").attempt()
-    | seq(b"micro").attempt()
-    | seq(b"micros").attempt()
+  let us = (seq(b"microseconds").attempt()
     | seq(b"microsecond").attempt()
-    | seq(b"microseconds"))
+    | seq(b"micros").attempt()
+    | seq(b"micro").attempt()
+    | seq(b"us"))
   .map(|_| TimeUnit::Microseconds);
-  let ms = (seq(b"ms").attempt()
-    | seq(b"milli").attempt()
-    | seq(b"millis").attempt()
+  let ms = (seq(b"milliseconds").attempt()
     | seq(b"millisecond").attempt()
-    | seq(b"milliseconds"))
+    | seq(b"millis").attempt()
+    | seq(b"milli").attempt()
+    | seq(b"ms"))
   .map(|_| TimeUnit::Milliseconds);
-  let s = (seq(b"s").attempt() | seq(b"second").attempt() | seq(b"seconds")).map(|_| TimeUnit::Seconds);
-  let m = (seq(b"m").attempt() | seq(b"minute").attempt() | seq(b"minutes")).map(|_| TimeUnit::Minutes);
-  let h = (seq(b"h").attempt() | seq(b"hour").attempt() | seq(b"hours")).map(|_| TimeUnit::Hours);
-  let d = (seq(b"d").attempt() | seq(b"day").attempt() | seq(b"days")).map(|_| TimeUnit::Days);
+  let s = (seq(b"seconds").attempt() | seq(b"second").attempt() | seq(b"s")).map(|_| TimeUnit::Seconds);
+  let m = (seq(b"minutes").attempt() | seq(b"minute").attempt() | seq(b"m")).map(|_| TimeUnit::Minutes);
+  let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
+  let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
   number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
-- 
2.43.0


From 00096c1ca98c639b1ba34371ecb80b05e5ebf40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:27 +0000
Subject: [PATCH 33/49] fix: converting a duration keeps its fraction and does
 not overflow

---
 hocon/src/model/config_duration_value.rs | 50 +++++++++++++-----------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index f1f9d87..8139128 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -1,10 +1,14 @@
 use crate::model::config_number_value::ConfigNumberValue;
 use crate::model::time_unit::TimeUnit;
+use rust_decimal::prelude::ToPrimitive;
+use rust_decimal::Decimal;
 use std::fmt::{Display, Formatter};
 use std::time::Duration;
 
 use anyhow::{bail, Result};
 
+const NANOS_PER_SECOND: i128 = 1_000_000_000;
+
 #[derive(Clone, Debug, PartialEq)]
 pub struct ConfigDurationValue {
   value: ConfigNumberValue,
@@ -37,34 +41,34 @@ impl ConfigDurationValue {
   }
 
   pub fn to_std_duration(&self) -> Result<Duration> {
-    let value = match self.clone().value.to_u64() {
-      Some(v) => v,
-      None => bail!("Occurred convert error: {:?}", self.value),
-    };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(Duration::from_nanos(value)),
-      TimeUnit::Microseconds => Ok(Duration::from_micros(value)),
-      TimeUnit::Milliseconds => Ok(Duration::from_millis(value)),
-      TimeUnit::Seconds => Ok(Duration::from_secs(value)),
-      TimeUnit::Minutes => Ok(Duration::from_secs(value * 60)),
-      TimeUnit::Hours => Ok(Duration::from_secs(value * 60 * 60)),
-      TimeUnit::Days => Ok(Duration::from_secs(value * 60 * 60 * 24)),
-    }
+    let nanos = self.to_nanos()?;
+    let secs = u64::try_from(nanos.div_euclid(NANOS_PER_SECOND))?;
+    Ok(Duration::new(secs, nanos.rem_euclid(NANOS_PER_SECOND) as u32))
   }
 
   pub fn to_duration(&self) -> Result<chrono::Duration> {
-    let value = match self.clone().value.to_i64() {
-      Some(v) => v,
+    let nanos = self.to_nanos()?;
+    let secs = i64::try_from(nanos.div_euclid(NANOS_PER_SECOND))?;
+    match chrono::Duration::new(secs, nanos.rem_euclid(NANOS_PER_SECOND) as u32) {
+      Some(v) => Ok(v),
       None => bail!("Occurred convert error: {:?}", self.value),
+    }
+  }
+
+  fn to_nanos(&self) -> Result<i128> {
+    let unit: i64 = match self.unit {
+      TimeUnit::Nanoseconds => 1,
+      TimeUnit::Microseconds => 1_000,
+      TimeUnit::Milliseconds => 1_000_000,
+      TimeUnit::Seconds => 1_000_000_000,
+      TimeUnit::Minutes => 60 * 1_000_000_000,
+      TimeUnit::Hours => 60 * 60 * 1_000_000_000,
+      TimeUnit::Days => 24 * 60 * 60 * 1_000_000_000,
     };
-    match self.unit {
-      TimeUnit::Nanoseconds => Ok(chrono::Duration::nanoseconds(value)),
-      TimeUnit::Microseconds => Ok(chrono::Duration::microseconds(value)),
-      TimeUnit::Milliseconds => Ok(chrono::Duration::milliseconds(value)),
-      TimeUnit::Seconds => Ok(chrono::Duration::seconds(value)),
-      TimeUnit::Minutes => Ok(chrono::Duration::minutes(value)),
-      TimeUnit::Hours => Ok(chrono::Duration::hours(value)),
-      TimeUnit::Days => Ok(chrono::Duration::days(value)),
+    let nanos = self.value.as_decimal().checked_mul(Decimal::from(unit));
+    match nanos.and_then(|v| v.to_i128()) {
+      Some(v) => Ok(v),
+      None => bail!("Occurred convert error: {:?}", self.value),
     }
   }
 }
-- 
2.43.0


From 5f70cc20c662f933ec830de13eecdb640267cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 34/49] fix: durations out of the range of a time span do not
 panic

---
 hocon/src/model/config_duration_value.rs | 3 ++-
 hocon/src/model/config_value.rs          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hocon/src/model/config_duration_value.rs b/hocon/src/model/config_duration_value.rs
index 8139128..2ae06ad 100644
--- a/hocon/src/model/config_duration_value.rs
+++ b/hocon/src/model/config_duration_value.rs
@@ -30,7 +30,8 @@ impl From<Duration> for ConfigDurationValue {
 
 impl From<chrono::Duration> for ConfigDurationValue {
   fn from(value: chrono::Duration) -> Self {
-    let config_number_value = ConfigNumberValue::from(value.num_nanoseconds().unwrap());
+    let nanos = i128::from(value.num_seconds()) * NANOS_PER_SECOND + i128::from(value.subsec_nanos());
+    let config_number_value = ConfigNumberValue::from(nanos);
     Self::new(config_number_value, TimeUnit::Nanoseconds)
   }
 }
diff --git a/hocon/src/model/config_value.rs b/hocon/src/model/config_value.rs
index a763b72..6c5d48a 100644
--- a/hocon/src/model/config_value.rs
+++ b/hocon/src/model/config_value.rs
@@ -256,11 +256,11 @@ impl ConfigValue {
   }
 
   pub fn as_duration(&self) -> Option<Duration> {
-    self.as_config_duration_value().map(|e| e.to_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_duration().ok())
   }
 
   pub fn as_std_duration(&self) -> Option<std::time::Duration> {
-    self.as_config_duration_value().map(|e| e.to_std_duration().unwrap())
+    self.as_config_duration_value().and_then(|e| e.to_std_duration().ok())
   }
 
   pub fn as_config_array_value(&self) -> Option<&ConfigArrayValue> {
-- 
2.43.0


From 1dbeb7e248fc8d189b23afd92c2649290e87636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 35/49] fix: a quoted string is the text between its quotes,
 also when it is empty or begins with a space

---
 hocon/src/parsers.rs | 61 ++++++++++----------------------------------
 1 file changed, 14 insertions(+), 47 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 4b453f3..906f7a4 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -91,14 +91,6 @@ fn number_value<'a>() -> Parser<'a, u8, ConfigNumberValue> {
   })
 }
 
-fn string_double_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'"').surround(space_or_comment(), space_or_comment())
-}
-
-fn string_single_quote_bracket<'a>() -> Parser<'a, u8, &'a u8> {
-  elm_ref(b'\'').surround(space_or_comment(), space_or_comment())
-}
-
 fn string<'a>() -> Parser<'a, u8, String> {
   let special_char = elm_ref(b'\\')
     | elm_ref(b'/')
@@ -109,42 +101,12 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
-  let utf16_char = seq(b"\\u")
-    * elm_hex_digit()
-      .of_count(4)
+  let char_string = |excluded: &'static [u8]| {
+    (none_ref_of(excluded) | escape_sequence.clone())
+      .map(Clone::clone)
+      .of_many1()
       .map_res(String::from_utf8)
-      .map_res(|digits| u16::from_str_radix(&digits, 16));
-  let utf16_string = utf16_char.of_many1().map(|chars| {
-    decode_utf16(chars)
-      .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
-      .collect::<String>()
-  });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many1();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
-}
-
-fn string_zero<'a>() -> Parser<'a, u8, String> {
-  let special_char = elm_ref(b'\\')
-    | elm_ref(b'/')
-    | elm_ref(b'"')
-    | elm_ref(b'b').map(|_| &b'\x08')
-    | elm_ref(b'f').map(|_| &b'\x0C')
-    | elm_ref(b'n').map(|_| &b'\n')
-    | elm_ref(b'r').map(|_| &b'\r')
-    | elm_ref(b't').map(|_| &b'\t');
-  let escape_sequence = elm_ref(b'\\') * special_char;
-  // let char_string = (none_ref_of(b"\r\n\\\"'") | escape_sequence)
-  let char_string = (none_ref_of(b"[]\r\n\\\"'") | escape_sequence)
-    .map(Clone::clone)
-    .of_many1()
-    .map_res(String::from_utf8);
+  };
   let utf16_char = seq(b"\\u")
     * elm_hex_digit()
       .of_count(4)
@@ -155,10 +117,15 @@ fn string_zero<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let string_surround = || (char_string.clone().attempt() | utf16_string.clone()).of_many0();
-  let string_surround1 = string_surround().surround(string_double_quote_bracket(), string_double_quote_bracket());
-  let string_surround2 = string_surround().surround(string_single_quote_bracket(), string_single_quote_bracket());
-  (string_surround1.attempt() | string_surround2.attempt() | string_surround()).map(|strings| strings.concat())
+  let chunk = |excluded: &'static [u8]| char_string(excluded).attempt() | utf16_string.clone();
+  let double_quoted = chunk(b"\r\n\\\"")
+    .of_many0()
+    .surround(space_or_comment() * elm_ref(b'"'), elm_ref(b'"') - space_or_comment());
+  let single_quoted = chunk(b"\r\n\\'")
+    .of_many0()
+    .surround(space_or_comment() * elm_ref(b'\''), elm_ref(b'\'') - space_or_comment());
+  let unquoted = chunk(b"[]\r\n\\\"'").of_many1();
+  (double_quoted.attempt() | single_quoted.attempt() | unquoted).map(|strings| strings.concat())
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 9579366525aba9bfc59589191cc32009734b6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 36/49] fix: an unquoted string ends at a reserved character
 and without trailing blanks

---
 hocon/src/parsers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 906f7a4..f3e9ecc 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -124,8 +124,9 @@ fn string<'a>() -> Parser<'a, u8, String> {
   let single_quoted = chunk(b"\r\n\\'")
     .of_many0()
     .surround(space_or_comment() * elm_ref(b'\''), elm_ref(b'\'') - space_or_comment());
-  let unquoted = chunk(b"[]\r\n\\\"'").of_many1();
-  (double_quoted.attempt() | single_quoted.attempt() | unquoted).map(|strings| strings.concat())
+  let unquoted = chunk(b"[]{},#\r\n\\\"'").of_many1();
+  (double_quoted.attempt() | single_quoted.attempt()).map(|strings| strings.concat())
+    | unquoted.map(|strings| strings.concat().trim_end().to_string())
 }
 
 fn string_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 7f52170511b441ada8bdbc4abda236ecef84a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 37/49] fix: includes may be surrounded by blanks and comments

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index f3e9ecc..5ca8aa2 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -295,7 +295,7 @@ fn config<'a>() -> Parser<'a, u8, Vec<ConfigValue>> {
       vec![ConfigValue::Object(ConfigObjectValue::new(map))]
     })
     .attempt()
-    | include_config_value().of_many1().attempt()
+    | (include_config_value() - space_or_comment()).of_many1().attempt()
     | (object_config_value().attempt() | array_config_value()).of_many0()
 }
 
-- 
2.43.0


From 8dcd8a9748c2f2bfbe4849d9f8b03e01be983845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 38/49] fix: a path ends with a name, not with a dot

---
 hocon/src/parsers.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 5ca8aa2..fae5268 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -208,8 +208,7 @@ fn path_element<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn path<'a>() -> Parser<'a, u8, String> {
-  path_element()
-    .of_many1_sep(elm(b'.'))
+  (path_element() + (elm(b'.') + path_element()).of_many0())
     .collect()
     .map_res(std::str::from_utf8)
     .map(String::from)
@@ -224,13 +223,7 @@ fn reference_right_bracket<'a>() -> Parser<'a, u8, Vec<u8>> {
 }
 
 fn reference<'a>() -> Parser<'a, u8, (bool, String)> {
-  (elm_ref(b'?').opt().map(|v| v.is_some())
-    + path_element()
-      .of_many1_sep(elm(b'.'))
-      .collect()
-      .map_res(std::str::from_utf8)
-      .map(String::from))
-  .surround(reference_left_bracket(), reference_right_bracket())
+  (elm_ref(b'?').opt().map(|v| v.is_some()) + path()).surround(reference_left_bracket(), reference_right_bracket())
 }
 
 fn object_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-- 
2.43.0


From 2650a0c3c0196e2d4b1343f9e23b5355e021299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 39/49] fix: global variables and the arguments of a call are
 bound in the environment in force

---
 toys/src/interpreter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 6b0621f..06067f0 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -33,8 +33,8 @@ impl Interpreter {
         for top_level in definitions {
           match &**top_level {
             Expr::GlobalVariableDefinition(name, expr) => {
-              let mut bindings = self.variable_environment.as_bindings().clone();
-              bindings.insert(name.clone(), self.interpret(expr.clone()));
+              let value = self.interpret(expr.clone());
+              self.variable_environment.as_bindings_mut().insert(name.clone(), value);
             }
             Expr::FunctionDefinition(name, ..) => {
               self.function_environment.insert(name.clone(), top_level.clone());
@@ -146,8 +146,10 @@ impl Interpreter {
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           let mut i = 0;
           for formal_param_name in formal_params {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(formal_param_name.clone(), values[i].clone());
+            self
+              .variable_environment
+              .as_bindings_mut()
+              .insert(formal_param_name.clone(), values[i].clone());
             i += 1;
           }
           let result = self.interpret(body.clone());
@@ -171,8 +173,7 @@ impl Interpreter {
           let backup = self.variable_environment.clone();
           self.variable_environment = Environment::new(HashMap::new(), Some(Rc::new(backup.clone())));
           for (param_name, param_value) in name_with_values {
-            let mut bindings = self.variable_environment.as_bindings().clone();
-            bindings.insert(param_name, param_value);
+            self.variable_environment.as_bindings_mut().insert(param_name, param_value);
           }
           let result = self.interpret(body.clone());
           self.variable_environment = backup.clone();
-- 
2.43.0


From e37b00f96294a92fb00de2b20f18013a50b7271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 40/49] fix: assigning a variable of an outer scope does not
 panic

---
 toys/src/interpreter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 06067f0..72426d2 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -89,8 +89,7 @@ impl Interpreter {
         if bindings_opt.is_some() {
           let value = self.interpret(expr.clone());
           let mut bindings = self.variable_environment.as_bindings().clone();
-          let r = bindings.get_mut(name).unwrap();
-          *r = value.clone();
+          bindings.insert(name.clone(), value.clone());
           self.variable_environment = Environment::new(bindings, self.variable_environment.next.clone());
           value
         } else {
-- 
2.43.0


From ecf02dfe0e59ee46cde85608ef59cf98ceae710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 41/49] fix: an empty block has a value

---
 toys/src/interpreter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 72426d2..87ead85 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -101,11 +101,11 @@ impl Interpreter {
         }
       }
       Expr::Block(exprs) => {
-        let mut value = None;
+        let mut value = Value::Bool(true);
         for expr in exprs {
-          value = Some(self.interpret(expr.clone()));
+          value = self.interpret(expr.clone());
         }
-        value.unwrap()
+        value
       }
       Expr::Println(args) => {
         let value = self.interpret(args.clone());
-- 
2.43.0


From f79d2799eb61a80d041a91a95ed33fd28021b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 42/49] fix: boolean and array literals are evaluated

---
 toys/src/interpreter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toys/src/interpreter.rs b/toys/src/interpreter.rs
index 87ead85..e9cd7a3 100644
--- a/toys/src/interpreter.rs
+++ b/toys/src/interpreter.rs
@@ -78,6 +78,8 @@ impl Interpreter {
       }
       Expr::StringLiteral(value) => Value::String(value.clone()),
       Expr::IntegerLiteral(value) => Value::Int(*value),
+      Expr::BoolLiteral(value) => Value::Bool(*value),
+      Expr::ArrayLiteral(values) => Value::Array(values.iter().map(|value| self.interpret(value.clone())).collect()),
       Expr::Parenthesized(expr) => self.interpret(expr.clone()),
       Expr::Symbol(name) => {
         let bindings_opt = self.variable_environment.find_binding(name);
-- 
2.43.0


From 3bcd38350b728ee1254399284399219a3d2f73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 43/49] fix: an identifier may begin like a boolean literal

---
 toys/src/parsers.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index fb4d158..03510c1 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -262,12 +262,13 @@ fn array_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn bool_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let p = (tag("true").attempt() | tag("false")).map(|e| match e.as_str() {
+  let word_end = elm_pred(|c: &char| c.is_ascii_alphanumeric() || *c == '_').not();
+  let p = ((tag("true").attempt() | tag("false")) - word_end).map(|e| match e.as_str() {
     "true" => Expr::of_bool_literal(true),
     "false" => Expr::of_bool_literal(false),
     _ => panic!("unexpected token"),
   });
-  (space() * p - space()).name("bool_literal").cache()
+  (space() * p - space()).attempt().name("bool_literal").cache()
 }
 
 fn string_literal<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From 61d0b9bc0060a65b690fc0c18abf1a6d5d9672dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 44/49] fix: a program is parsed to its end

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index 03510c1..b15cc25 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -66,7 +66,7 @@ fn space<'a>() -> Parser<'a, char, ()> {
 }
 
 pub fn program<'a>() -> Parser<'a, char, Rc<Expr>> {
-  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new)
+  space() * top_level_definition().of_many0().map(Expr::Program).map(Rc::new) - end()
 }
 
 fn top_level_definition<'a>() -> Parser<'a, char, Rc<Expr>> {
-- 
2.43.0


From b08a1c370c7e0d88a25fc2c81e102898a1f08564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:23 +0000
Subject: [PATCH 45/49] fix: allow blanks before the value of a labelled
 argument

---
 toys/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toys/src/parsers.rs b/toys/src/parsers.rs
index b15cc25..7170acc 100644
--- a/toys/src/parsers.rs
+++ b/toys/src/parsers.rs
@@ -247,7 +247,7 @@ fn function_call<'a>() -> Parser<'a, char, Rc<Expr>> {
 }
 
 fn labelled_call<'a>() -> Parser<'a, char, Rc<Expr>> {
-  let param = (ident() - elm_ref('=') + lazy(expression)).map(|(label, param)| LabelledParameter::new(label, param));
+  let param = (ident() - elm_ref('=') - space() + lazy(expression)).map(|(label, param)| LabelledParameter::new(label, param));
   let p = (ident() + param.of_many1_sep(comma()).surround(lbracket(), rbracket()))
     .map(|(name, params)| Expr::of_labelled_call(name.to_string(), params));
   (space() * p - space()).attempt().name("labelled_call").cache()
-- 
2.43.0


From 88771f1844f4771c520066cd77facc1d5917d1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 46/49] fix: accept any number of comments between
 configuration tokens

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index fae5268..2bd1f87 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -16,7 +16,7 @@ fn space<'a>() -> Parser<'a, u8, &'a [u8]> {
 }
 
 fn space_or_comment<'a>() -> Parser<'a, u8, ()> {
-  (comment().attempt() | space()).discard()
+  (comment().attempt().of_many0() * space()).discard()
 }
 
 fn include_method<'a>() -> Parser<'a, u8, String> {
-- 
2.43.0


From 68a899aadb77e840f1ebae939b4f9f3cf5253ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 47/49] fix: a duration's unit stands on the line of its number

---
 hocon/src/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 2bd1f87..1540077 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -40,7 +40,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
   number
-    .surround(space_or_comment(), space_or_comment())
+    .surround(space_or_comment(), elm_ref_of(b" \t").of_many0())
     .map(|(((s, i), f), e)| (s, i, f, e))
 }
 
-- 
2.43.0


From e710ed1dd7bd1bbc2678eff6c4500aa7cb167345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:18 +0000
Subject: [PATCH 48/49] fix: an unquoted string may begin like a literal

---
 hocon/src/parsers.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 1540077..64db0b5 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -39,9 +39,7 @@ fn number<'a>() -> Parser<'a, u8, (Option<&'a u8>, String, Option<String>, Optio
     + integer.map_res(std::str::from_utf8).map(String::from)
     + frac.collect().map_res(std::str::from_utf8).map(String::from).opt()
     + exp.collect().map_res(std::str::from_utf8).map(String::from).opt();
-  number
-    .surround(space_or_comment(), elm_ref_of(b" \t").of_many0())
-    .map(|(((s, i), f), e)| (s, i, f, e))
+  (space_or_comment() * number).map(|(((s, i), f), e)| (s, i, f, e))
 }
 
 fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
@@ -68,7 +66,7 @@ fn duration<'a>() -> Parser<'a, u8, (ConfigNumberValue, TimeUnit)> {
   let h = (seq(b"hours").attempt() | seq(b"hour").attempt() | seq(b"h")).map(|_| TimeUnit::Hours);
   let d = (seq(b"days").attempt() | seq(b"day").attempt() | seq(b"d")).map(|_| TimeUnit::Days);
 
-  number_value() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
+  number_value() - elm_ref_of(b" \t").of_many0() + (ns.attempt() | us.attempt() | ms.attempt() | s.attempt() | m.attempt() | h.attempt() | d)
 }
 
 fn duration_value<'a>() -> Parser<'a, u8, ConfigValue> {
@@ -252,12 +250,13 @@ fn enumeration_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
 }
 
 fn simple_config_value<'a>() -> Parser<'a, u8, ConfigValue> {
-  (seq(b"null").map(|_| ConfigValue::Null).attempt()
+  let word_end = elm_pred(|c: &u8| c.is_ascii_alphanumeric() || !c.is_ascii() || matches!(*c, b'_' | b'-' | b'.')).not();
+  let literal = seq(b"null").map(|_| ConfigValue::Null).attempt()
     | seq(b"true").map(|_| ConfigValue::Bool(true)).attempt()
     | seq(b"false").map(|_| ConfigValue::Bool(false)).attempt()
-    | duration_value().attempt()
-    | number_value().map(ConfigValue::Number).attempt()
-    | string_config_value())
+    | (duration_value() - word_end.clone()).attempt()
+    | number_value().map(ConfigValue::Number).attempt();
+  ((literal - word_end).attempt() | string_config_value())
   .surround(space_or_comment(), space_or_comment())
 }
 
-- 
2.43.0


From cfb4d1b47e85dc427366ed05f40d5bb53f25b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:56 +0000
Subject: [PATCH 49/49] fix: a // comment ends an unquoted string

---
 hocon/src/parsers.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hocon/src/parsers.rs b/hocon/src/parsers.rs
index 64db0b5..7855530 100644
--- a/hocon/src/parsers.rs
+++ b/hocon/src/parsers.rs
@@ -99,8 +99,8 @@ fn string<'a>() -> Parser<'a, u8, String> {
     | elm_ref(b'r').map(|_| &b'\r')
     | elm_ref(b't').map(|_| &b'\t');
   let escape_sequence = elm_ref(b'\\') * special_char;
-  let char_string = |excluded: &'static [u8]| {
-    (none_ref_of(excluded) | escape_sequence.clone())
+  let char_string = |chars: Parser<'a, u8, &'a u8>| {
+    (chars | escape_sequence.clone())
       .map(Clone::clone)
       .of_many1()
       .map_res(String::from_utf8)
@@ -115,14 +115,15 @@ fn string<'a>() -> Parser<'a, u8, String> {
       .map(|r| r.unwrap_or(REPLACEMENT_CHARACTER))
       .collect::<String>()
   });
-  let chunk = |excluded: &'static [u8]| char_string(excluded).attempt() | utf16_string.clone();
-  let double_quoted = chunk(b"\r\n\\\"")
+  let chunk = |chars: Parser<'a, u8, &'a u8>| char_string(chars).attempt() | utf16_string.clone();
+  let double_quoted = chunk(none_ref_of(b"\r\n\\\""))
     .of_many0()
     .surround(space_or_comment() * elm_ref(b'"'), elm_ref(b'"') - space_or_comment());
-  let single_quoted = chunk(b"\r\n\\'")
+  let single_quoted = chunk(none_ref_of(b"\r\n\\'"))
     .of_many0()
     .surround(space_or_comment() * elm_ref(b'\''), elm_ref(b'\'') - space_or_comment());
-  let unquoted = chunk(b"[]{},#\r\n\\\"'").of_many1();
+  let comment_head = elm_ref_of(b" \t") + seq(b"//");
+  let unquoted = chunk(comment_head.not() * none_ref_of(b"[]{},#\r\n\\\"'")).of_many1();
   (double_quoted.attempt() | single_quoted.attempt()).map(|strings| strings.concat())
     | unquoted.map(|strings| strings.concat().trim_end().to_string())
 }
-- 
2.43.0

