From a52a2694eb5b50d946d0f8d2e43f341f077bc212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 01/19] fix: accept all characters up to U+10FFFD in text and
 byte string literals

The upper bound of SCHAR and BCHAR was mistyped as 0x10FFD, so literals
containing characters above U+10FFD (e.g. emoji) failed to parse.
---
 src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e52fe05..4d9b6d1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -387,7 +387,7 @@ fn is_unescaped_bchar(c: char) -> bool {
         (0x20 ..= 0x26),
         (0x28 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
@@ -489,7 +489,7 @@ fn is_unescaped_schar(c: char) -> bool {
         (0x20 ..= 0x21),
         (0x23 ..= 0x5B),
         (0x5D ..= 0x7E),
-        (0x80 ..= 0x10FFD),
+        (0x80 ..= 0x10FFFD),
     ];
     let cv = c as u32;
 
-- 
2.43.0


From 4c6618280cd38f6e8a1b0739e2774b44d1b76d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 02/19] fix: accept -9223372036854775808 as an integer literal

---
 src/parser/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4d9b6d1..ebe2293 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -316,10 +316,12 @@ fn parse_int(raw: RawInt) -> Result<Value, CowParseError> {
         .map_err(|_| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
 
     if raw.neg {
-        // i64 has a larger positive range than negative range, so if we
-        // survive the conversion to i64 then unary `-` must succeed.
-        let negint: i64 = try_into_int(posint, raw.slice)?;
-        Ok(Value::Nint(-negint))
+        // i64 has a larger negative range than positive range, so we can't
+        // convert to i64 before negating: that would reject i64::MIN.
+        let negint = 0i64
+            .checked_sub_unsigned(posint)
+            .ok_or_else(|| parse_error(ErrorKind::MalformedInteger, raw.slice))?;
+        Ok(Value::Nint(negint))
     } else {
         Ok(Value::Uint(posint))
     }
-- 
2.43.0


From 83186f164300e3bbab0a2a6318485a0fca157af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 03/19] fix: accept float literals with a large integer part
 inside groups

The optional occurrence is parsed first, and converted the digits to u64
before checking that a "*" follows, so [18446744073709551616.0] failed
to parse although the same literal is accepted outside of a group.
---
 src/parser/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ebe2293..d568e00 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -34,7 +34,7 @@ use nom::{
     character::complete::{
         anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
     },
-    combinator::{all_consuming, map, map_res, opt, recognize, value as valuex},
+    combinator::{all_consuming, map, map_res, opt, peek, recognize, value as valuex},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, separated_pair, terminated, tuple},
 };
@@ -743,11 +743,17 @@ where
 //       / "?"
 #[rustfmt::skip]
 fn occur_star(input: &str) -> JResult<&str, Occur> {
-    let f = tuple((
-        opt(uint_u64),
-        tag("*"),
-        opt(uint_u64),
-    ));
+    // Peek ahead for the "*" before converting any integers: until then we
+    // can't tell an occurrence from some other number, and a number that
+    // doesn't fit an integer (e.g. a large float) isn't an error yet.
+    let f = preceded(
+        peek(pair(opt(uint), tag("*"))),
+        tuple((
+            opt(uint_u64),
+            tag("*"),
+            opt(uint_u64),
+        ))
+    );
     // FIXME: it's really not the parser's business to be inventing an upper
     // limit here.  Plus, the use of usize::MAX is kind of gross.
     // The parser should leave these as Option and leave it to others to
-- 
2.43.0


From e134fd72a280c6250651d4cfef3dc0f3b6a99bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 04/19] fix: propagate fatal errors from map key types

A missing rule (or other schema error) in a map key type was treated as
a key that does not match, so an optional member concealed it.
---
 src/validate.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 564e539..b80c30d 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -422,9 +422,11 @@ fn map_search<'a>(
     ctx: &Context,
 ) -> TempResult<(Value, &'a Value)> {
     for (key, value) in &working_map.map {
-        let attempt = validate(key, node, ctx);
-        if attempt.is_ok() {
-            return Ok((key.clone(), value));
+        match validate(key, node, ctx) {
+            Ok(()) => return Ok((key.clone(), value)),
+            // A fatal error must not be concealed by trying another key.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => {}
         }
     }
     // We searched all the keys without finding a match.  Validation fails.
-- 
2.43.0


From 887d0a195d86c5375649f8248879e17a8751176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 05/19] fix: look for another map entry when the value of a
 non-cut member mismatches

A member such as "* tstr => int" only considered the first entry with a
matching key, so {* tstr => int, * tstr => tstr} accepted or rejected a
map depending on the order of its keys.
---
 src/validate.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index b80c30d..83ff4ae 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -433,6 +433,27 @@ fn map_search<'a>(
     Err(mismatch(format!("map{{{}}}", node)))
 }
 
+// Iterate over each entry in the working map, looking for one whose key and
+// value both match.  If we find a match, return a copy of the key.
+fn map_search_pair(
+    key_node: &Node,
+    val_node: &Node,
+    working_map: &WorkingMap,
+    ctx: &Context,
+) -> TempResult<Value> {
+    for (key, value) in &working_map.map {
+        let attempt = validate(key, key_node, ctx).and_then(|_| validate(value, val_node, ctx));
+        match attempt {
+            Ok(()) => return Ok(key.clone()),
+            // A fatal error must not be concealed by trying another entry.
+            Err(e) if e.is_fatal() => return Err(e),
+            Err(_) => {}
+        }
+    }
+    // We searched all the entries without finding a match.  Validation fails.
+    Err(mismatch(format!("map{{{}}}", key_node)))
+}
+
 // Note `ty` is passed by value because clippy says it's only 1 byte.
 fn validate_prelude_type(ty: PreludeType, value: &Value) -> ValidateResult {
     match (ty, value) {
@@ -937,6 +958,14 @@ fn validate_map_keyvalue(
     let val_node = &kv.value;
     let cut = kv.cut;
 
+    // Without "cut" semantics, an entry with a matching key but a mismatched
+    // value must not keep us from finding some other matching entry.
+    if !cut && !matches!(**key_node, Node::Literal(_)) {
+        let working_key = map_search_pair(key_node, val_node, working_map, ctx)?;
+        working_map.remove(&working_key);
+        return Ok(());
+    }
+
     // If we fail to validate a key, exit now with an error.
     let (working_key, working_val) = validate_map_key(working_map, key_node, ctx)?;
 
-- 
2.43.0


From 8e7e4d4618c6421436453fddd19b63f1600937c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 06/19] fix: restore values matched by a nested group when the
 outer group fails

Committing a nested snapshot discarded its values, so rewinding the
outer snapshot could not put them back for the next choice to match.
---
 src/validate.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 83ff4ae..cda5aae 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -207,9 +207,13 @@ impl WorkingMap {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        // The values in the list that was popped were successfully matched.
+        // If there is an outer snapshot it takes over the list, because it
+        // needs to restore those values if it is rewound.
+        let top_snap = self.snaps.pop_back().unwrap();
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.extend(top_snap);
+        }
     }
 
     // Peek at the value correspending to a given key (if any)
@@ -283,9 +287,13 @@ impl WorkingArray {
     fn commit(&mut self) {
         // If validate code is implemented correctly, then unwrap() should
         // never panic.
-        // This throws away the list that was popped; those values were
-        // successfully matched and are no longer needed.
-        self.snaps.pop_back().unwrap();
+        // The values in the list that was popped were successfully matched.
+        // If there is an outer snapshot it takes over the list, because it
+        // needs to restore those values if it is rewound.
+        let top_snap = self.snaps.pop_back().unwrap();
+        if let Some(outer_snap) = self.snaps.back_mut() {
+            outer_snap.extend(top_snap);
+        }
     }
 
     // Peek at the front of the working array.
-- 
2.43.0


From e565992a193a342b30058984d00c3d7d78f4b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 07/19] fix: put back consumed values when an unwrapped array
 or map fails to match

[? ~h, int] with h = [int, tstr] accepted [1, 2], because the value
consumed by the failed unwrap was not restored.
---
 src/validate.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index cda5aae..aa4d8c9 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -621,11 +621,18 @@ fn validate_array_unwrap(
     // Array node too.
     match node {
         Node::Array(a) => {
+            // Like a Group, we may fail after consuming some of the values.
+            working_array.snapshot();
+
             // Recurse into each member of the unwrapped array.
             for member in &a.members {
-                validate_array_member(member, working_array, ctx)?;
+                if let Err(e) = validate_array_member(member, working_array, ctx) {
+                    working_array.rewind();
+                    return Err(e);
+                }
             }
             // All array members validated Ok.
+            working_array.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap array")),
@@ -896,11 +903,18 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
     // Map node too.
     match node {
         Node::Map(m) => {
-            // Recurse into each member of the unwrapped array.
+            // Like a Group, we may fail after consuming some of the values.
+            working_map.snapshot();
+
+            // Recurse into each member of the unwrapped map.
             for member in &m.members {
-                validate_map_member(member, working_map, ctx)?;
+                if let Err(e) = validate_map_member(member, working_map, ctx) {
+                    working_map.rewind();
+                    return Err(e);
+                }
             }
-            // All array members validated Ok.
+            // All map members validated Ok.
+            working_map.commit();
             Ok(())
         }
         _ => Err(mismatch("unwrap map")),
-- 
2.43.0


From ff9488648f354c859d652a8263b1c88bf766e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 08/19] fix: unwrap through a rule that names another rule

[~h] with h = k, k = [int] was always a mismatch.
---
 src/validate.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index aa4d8c9..47d2ce5 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -635,6 +635,11 @@ fn validate_array_unwrap(
             working_array.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The unwrapped rule is an alias of some other rule.
+            let answer = ctx.lookup_rule(r)?;
+            validate_array_unwrap(answer.node, working_array, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap array")),
     }
 }
@@ -917,6 +922,11 @@ fn validate_map_unwrap(node: &Node, working_map: &mut WorkingMap, ctx: &Context)
             working_map.commit();
             Ok(())
         }
+        Node::Rule(r) => {
+            // The unwrapped rule is an alias of some other rule.
+            let answer = ctx.lookup_rule(r)?;
+            validate_map_unwrap(answer.node, working_map, &answer.ctx)
+        }
         _ => Err(mismatch("unwrap map")),
     }
 }
-- 
2.43.0


From d265c7ab34b5fb18ab917a61a3278e4cac9624a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 09/19] fix: respect an occurrence with an upper limit of zero

The limit was only checked after the first match, so [0*0 int] accepted
an array with one element.
---
 src/validate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/validate.rs b/src/validate.rs
index 47d2ce5..6ddee6a 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -654,7 +654,8 @@ fn validate_array_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching once we've consumed the maximum number of this key.
+    while count < upper_limit {
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -669,10 +670,6 @@ fn validate_array_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -940,7 +937,8 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
-    loop {
+    // Stop matching once we've consumed the maximum number of this key.
+    while count < upper_limit {
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -955,10 +953,6 @@ fn validate_map_occur(
             }
         }
         count += 1;
-        if count >= upper_limit {
-            // Stop matching; we've consumed the maximum number of this key.
-            break;
-        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From 9203316ec8029b4ef134ef4f8558e8947f097a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 10/19] fix: stop repeating an occurrence that matches without
 consuming anything

[* (? int)] and {* ()} looped forever.
---
 src/validate.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 6ddee6a..7090e6f 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -656,6 +656,7 @@ fn validate_array_occur(
 
     // Stop matching once we've consumed the maximum number of this key.
     while count < upper_limit {
+        let remaining = working_array.array.len();
         match validate_array_member(&occur.node, working_array, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -670,6 +671,12 @@ fn validate_array_occur(
             }
         }
         count += 1;
+        if working_array.array.len() == remaining {
+            // The occurrence matched without consuming anything, so it would
+            // match as many times as it's allowed to.
+            count = upper_limit;
+            break;
+        }
     }
     if count < lower_limit {
         return Err(mismatch(format!("more array element [{}]", occur)));
@@ -939,6 +946,7 @@ fn validate_map_occur(
 
     // Stop matching once we've consumed the maximum number of this key.
     while count < upper_limit {
+        let remaining = working_map.map.len();
         match validate_map_member(&occur.node, working_map, ctx) {
             Ok(_) => (),
             Err(e) => {
@@ -953,6 +961,12 @@ fn validate_map_occur(
             }
         }
         count += 1;
+        if working_map.map.len() == remaining {
+            // The occurrence matched without consuming anything, so it would
+            // match as many times as it's allowed to.
+            count = upper_limit;
+            break;
+        }
     }
     if count < lower_limit {
         // Read this format string as "{{" then "{}" then "}}"
-- 
2.43.0


From aead5b6ee284ed5b5ec9eb8184f0d528029a94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 11/19] fix: treat bytes that are not well-formed CBOR as a
 mismatch for .cbor

It was a fatal error, so (bytes .cbor uint) / bytes rejected byte strings
that match the second choice.
---
 src/validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/validate.rs b/src/validate.rs
index 7090e6f..f981a9d 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1141,8 +1141,11 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
 
     match value {
         Value::Bytes(bytes) => {
+            // The bytes are part of the data being validated.  If they aren't
+            // well-formed CBOR then they don't match this type, but they may
+            // still match some other one.
             let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+                .map_err(|e| mismatch(format!("well-formed CBOR: {}", e)))?;
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From bd5d016e7701adfd4f1ebf6e2f5ea9fb8b6c8710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 12/19] fix: reject trailing bytes after the CBOR data item

validate_cbor_bytes and the .cbor control operator only looked at the
first data item, and ignored whatever followed it.
---
 src/cbor.rs     | 13 +++++++++++--
 src/validate.rs |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cbor.rs b/src/cbor.rs
index 2ed61e1..9c14a94 100644
--- a/src/cbor.rs
+++ b/src/cbor.rs
@@ -130,6 +130,16 @@ pub fn validate_cbor(
     do_validate(&value, rule_def, ctx)
 }
 
+// Decode exactly one CBOR data item; leftover bytes are an error.
+pub(crate) fn decode_cbor(mut bytes: &[u8]) -> Result<CBOR_Value, String> {
+    let cbor_value = ciborium::from_reader(&mut bytes).map_err(|e| format!("{}", e))?;
+    if bytes.is_empty() {
+        Ok(cbor_value)
+    } else {
+        Err("trailing bytes after the CBOR data item".into())
+    }
+}
+
 /// Validate CBOR-encoded data against a specified rule in a UTF-8 CDDL schema.
 pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResult {
     // Parse the CDDL text and flatten it into IVT form.
@@ -143,8 +153,7 @@ pub fn validate_cbor_bytes(name: &str, cddl: &str, cbor: &[u8]) -> ValidateResul
         .ok_or_else(|| ValidateError::MissingRule(name.into()))?;
 
     // Deserialize the CBOR bytes
-    let cbor_value: CBOR_Value =
-        ciborium::from_reader(cbor).map_err(|e| ValidateError::ValueError(format!("{}", e)))?;
+    let cbor_value = decode_cbor(cbor).map_err(ValidateError::ValueError)?;
 
     // Convert the CBOR tree into a Value tree for validation
     let value = Value::try_from(cbor_value)?;
diff --git a/src/validate.rs b/src/validate.rs
index f981a9d..cf87af9 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -1136,7 +1136,7 @@ fn validate_control_cbor(_ctl_cbor: &CtlOpCbor, _value: &Value, _ctx: &Context)
 
 #[cfg(feature = "ciborium")]
 fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) -> ValidateResult {
-    use ciborium::Value as CBOR_Value;
+    use crate::cbor::decode_cbor;
     use std::convert::TryFrom;
 
     match value {
@@ -1144,8 +1144,8 @@ fn validate_control_cbor(ctl_cbor: &CtlOpCbor, value: &Value, ctx: &Context) ->
             // The bytes are part of the data being validated.  If they aren't
             // well-formed CBOR then they don't match this type, but they may
             // still match some other one.
-            let cbor_value: CBOR_Value = ciborium::from_reader(bytes.as_slice())
-                .map_err(|e| mismatch(format!("well-formed CBOR: {}", e)))?;
+            let cbor_value =
+                decode_cbor(bytes).map_err(|e| mismatch(format!("well-formed CBOR: {}", e)))?;
 
             let nested_value = Value::try_from(cbor_value)?;
 
-- 
2.43.0


From 84ef8f68f54f5608ebfe798f9ad477fc7888a6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:39 +0000
Subject: [PATCH 13/19] fix: accept upper-case E, 0X, 0B, H and B64 in literals
 (ABNF strings ignore case)

---
 src/parser/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d568e00..7076119 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -30,7 +30,7 @@
 use escape8259::unescape;
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_while1},
+    bytes::complete::{tag, tag_no_case, take_while1},
     character::complete::{
         anychar, char as charx, digit0, digit1, hex_digit1, multispace1, not_line_ending, one_of,
     },
@@ -181,7 +181,7 @@ fn ident(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn uint_hex(input: &str) -> JResult<&str, &str> {
     preceded(
-        tag("0x"),
+        tag_no_case("0x"),
         hex_digit1
     )
     (input)
@@ -190,7 +190,7 @@ fn uint_hex(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn uint_binary(input: &str) -> JResult<&str, &str> {
     preceded(
-        tag("0b"),
+        tag_no_case("0b"),
         recognize(many1(one_of("01")))
     )
     (input)
@@ -289,7 +289,7 @@ fn dot_fraction(input: &str) -> JResult<&str, &str> {
 fn e_exponent(input: &str) -> JResult<&str, &str> {
     recognize(
         tuple((
-            charx('e'),
+            one_of("eE"),
             opt(one_of("+-")),
             digit1
         ))
@@ -439,7 +439,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
 #[rustfmt::skip]
 fn bytestring_hex(input: &str) -> JResult<&str, &str> {
     delimited(
-        tag("h'"),
+        tag_no_case("h'"),
         bchar,
         tag("\'")
     )(input)
@@ -450,7 +450,7 @@ fn bytestring_hex(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn bytestring_base64(input: &str) -> JResult<&str, &str> {
     delimited(
-        tag("b64'"),
+        tag_no_case("b64'"),
         bchar,
         charx('\'')
     )(input)
-- 
2.43.0


From d7e0138d84538ce3b6fb60853601861e8b6cabce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 14/19] fix: reject hexadecimal floats instead of reading them
 as an integer and a name

---
 src/parser/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7076119..db2dd02 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -372,6 +372,26 @@ fn float_or_int(input: &str) -> JResult<&str, Value> {
     })(input)
 }
 
+// hexfloat = ["-"] "0x" 1*HEXDIG ["." 1*HEXDIG] "p" exponent
+//
+// Hex floats are not supported.  They need to be recognized anyway, or else
+// they would be mistaken for an integer followed by something else.
+#[rustfmt::skip]
+fn hexfloat(input: &str) -> JResult<&str, Value> {
+    let f = recognize(tuple((
+        opt(charx('-')),
+        uint_hex,
+        opt(pair(charx('.'), hex_digit1)),
+        one_of("pP"),
+        opt(one_of("+-")),
+        digit1,
+    )));
+    map_res_fail(f, |s| {
+        Err(parse_error(ErrorKind::MalformedFloat, s))
+    })
+    (input)
+}
+
 // bytes = [bsqual] %x27 *BCHAR %x27
 // BCHAR = %x20-26 / %x28-5B / %x5D-10FFFD / SESC / CRLF
 // bsqual = "h" / "b64"
@@ -546,6 +566,7 @@ fn text_literal(input: &str) -> JResult<&str, String> {
 #[rustfmt::skip]
 fn value(input: &str) -> JResult<&str, Value> {
     alt((
+        hexfloat,
         float_or_int,
         map(text_literal, Value::Text),
         map(bytestring, Value::Bytes),
-- 
2.43.0


From 635068672237b18e4fa893a58c588ecf1dd1fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 15/19] fix: reject float literals that are too large for an
 f64

---
 src/parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index db2dd02..92c8f98 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -302,8 +302,9 @@ fn e_exponent(input: &str) -> JResult<&str, &str> {
 #[rustfmt::skip]
 fn parse_float(s: &str) -> Result<Value, CowParseError> {
     match s.parse::<f64>() {
-        Ok(fl) => Ok(Value::Float(fl)),
-        Err(_) => Err(parse_error(ErrorKind::MalformedFloat, s)),
+        // A literal that is too large would parse as infinity.
+        Ok(fl) if fl.is_finite() => Ok(Value::Float(fl)),
+        _ => Err(parse_error(ErrorKind::MalformedFloat, s)),
     }
 }
 
-- 
2.43.0


From 2497f342574573f98f4046d98f7a692370e61269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 16/19] fix: allow double quotes and escaped single quotes in
 byte string literals

---
 src/parser/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 92c8f98..2c9c131 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -439,6 +439,26 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// `unescape` follows the JSON rules, where the quotes around a string are
+// double quotes. In a byte string it's the other way round: a double quote
+// may appear as it is, and a single quote needs to be escaped.
+fn swap_quote_escapes(s: &str) -> String {
+    let mut out = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => match chars.next() {
+                Some('\'') => out.push('\''),
+                Some(escaped) => out.extend([c, escaped]),
+                None => out.push(c),
+            },
+            _ => out.push(c),
+        }
+    }
+    out
+}
+
 // This is basically identical to `text_literal` except that
 // it uses single-quotes.
 #[rustfmt::skip]
@@ -450,7 +470,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape(swap_quote_escapes(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
-- 
2.43.0


From b058ad442a6c2f96c5453b3a1fda8d9eca1f2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 17/19] fix: reject a plus sign among the digits of a \u escape

---
 src/parser/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2c9c131..9645bfb 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -439,6 +439,19 @@ fn bchar(input: &str) -> JResult<&str, &str> {
     (input)
 }
 
+// Undo the escapes in a text literal.
+//
+// `unescape` would accept a sign in place of the first hex digit after "\u".
+fn unescape_text(s: &str) -> Result<String, CowParseError> {
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c == '\\' && chars.next() == Some('u') && chars.as_str().starts_with('+') {
+            return Err(parse_error(ErrorKind::MalformedText, s));
+        }
+    }
+    unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s))
+}
+
 // `unescape` follows the JSON rules, where the quotes around a string are
 // double quotes. In a byte string it's the other way round: a double quote
 // may appear as it is, and a single quote needs to be escaped.
@@ -470,7 +483,7 @@ fn bytestring_utf8(input: &str) -> JResult<&str, String> {
     );
 
     map_res_fail(f, |s| {
-        unescape(swap_quote_escapes(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
+        unescape_text(&swap_quote_escapes(s)).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
     })
     (input)
 }
@@ -576,9 +589,7 @@ fn text_literal(input: &str) -> JResult<&str, String> {
         charx('"')
     );
 
-    map_res_fail(f, |s| {
-        unescape(s).map_err(|_| parse_error(ErrorKind::MalformedText, s) )
-    })
+    map_res_fail(f, unescape_text)
     (input)
 }
 
-- 
2.43.0


From ebf7ffaf629cf6bfd6e7cd89895adfd7fd1ad64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 18/19] fix: put back what an occurrence in a map matched when
 it falls short of its lower limit

---
 src/validate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index cf87af9..6e87060 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -944,6 +944,9 @@ fn validate_map_occur(
     let (lower_limit, upper_limit) = occur.limits();
     let mut count: usize = 0;
 
+    // If we don't reach the lower limit, put back whatever we matched.
+    working_map.snapshot();
+
     // Stop matching once we've consumed the maximum number of this key.
     while count < upper_limit {
         let remaining = working_map.map.len();
@@ -957,6 +960,7 @@ fn validate_map_occur(
                 // Either we got a MapCut error, or it's something even more
                 // serious (e.g. MissingRule or Unsupported).  We should fail
                 // now and propagate that error upward.
+                working_map.rewind();
                 return Err(e);
             }
         }
@@ -969,11 +973,13 @@ fn validate_map_occur(
         }
     }
     if count < lower_limit {
+        working_map.rewind();
         // Read this format string as "{{" then "{}" then "}}"
         // The first and last print a single brace; the value is in the
         // middle, e.g "{foo}".
         return Err(mismatch(format!("map{{{}}}]", occur)));
     }
+    working_map.commit();
     Ok(())
 }
 
-- 
2.43.0


From 0af3cba3ccfaf213cf0addfe49d1503ea3820628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 19/19] fix: report a malformed literal after a key as what it
 is

---
 src/parser/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 9645bfb..5c85d08 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -703,7 +703,7 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
         Type1::Simple(Type2::Value(_)) |
         Type1::Simple(Type2::Typename(_)) => {
             // Next, try to match ":" ws ty
-            if let Ok((input, tail_type)) = grpent_memberkey_tail(input) {
+            if let (input, Some(tail_type)) = opt(grpent_memberkey_tail)(input)? {
                 let member = assemble_basic_member(first_type1, tail_type);
                 match member {
                     Ok(member) => return Ok((input, member)),
@@ -720,12 +720,12 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
     // should return a Member, with key: Some(MemberKey{val, cut})
     // and value: Type
 
-    if let Ok((input, matched_tuple)) = tuple((
+    if let (input, Some(matched_tuple)) = opt(tuple((
         opt(terminated(tag("^"), ws)),
         tag("=>"),
         ws,
         ty,
-    ))(input) {
+    )))(input)? {
         let (cut, _, _, val) = matched_tuple;
         let member = Member {
             key: Some(MemberKey {
@@ -741,12 +741,12 @@ fn grpent_member(input: &str) -> JResult<&str, Member> {
     // should return a Member, with key: None and value: Type containing Vec<Type1>
     // This is a lot like the fn `ty` but we will concatenate this with first_type1
 
-    if let Ok((input, mut ty1s)) = many0(
+    if let (input, Some(mut ty1s)) = opt(many0(
         preceded(
             delimited(ws, tag("/"), ws),
             type1
         )
-    )(input) {
+    ))(input)? {
         // insert the first type1 (from the top of this function)
         ty1s.insert(0, first_type1);
         let member = Member {
-- 
2.43.0

