From c43c0fc927cc3f76da01e96ecf6027d177b1b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 01/44] fix: zero-pad percent-encoded bytes in $ref names

---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From 8ffd326e361244322004956019839f4f196edeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 02/44] fix: do not decode '%+X' as a percent-encoded byte

---
 schemars/src/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..9347dc9 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,8 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                // `from_str_radix` also accepts a leading `+`
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From c0f08ca3605f6c8643d2485dc591a76b99416fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 03/44] fix: place definitions at the root when
 definitions_path is the root pointer

---
 schemars/src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..b276f14 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,10 +629,10 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
+    let pointer = pointer.strip_prefix('/')?;
 
     for mut segment in pointer.split('/') {
         let replaced: String;
-- 
2.43.0


From ab2587f012f0b17fb3e83b84e51f8c10ed46d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 04/44] fix: percent-encode definitions_path in $ref values

---
 schemars/src/encoding.rs               | 47 +++++++++++++++++++-------
 schemars/src/generate.rs               | 12 +++++--
 schemars/src/json_schema_impls/maps.rs |  2 +-
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 9347dc9..542900f 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -2,22 +2,45 @@ use crate::_alloc_prelude::*;
 use alloc::borrow::Cow;
 use core::fmt::Write as _;
 
-/// Encodes a string for insertion into a JSON Pointer in URI fragment representation.
+fn needs_encoding(byte: u8) -> bool {
+    match byte {
+        // `~` and `/` need encoding for JSON Pointer
+        // See https://datatracker.ietf.org/doc/html/rfc6901#section-3
+        b'~' | b'/' => true,
+        // These chars (and `~`) are valid in URL fragment
+        // See https://datatracker.ietf.org/doc/html/rfc3986/#section-3.5
+        b'!' | b'$' | b'&'..=b';' | b'=' | b'?'..=b'Z' | b'_' | b'a'..=b'z' => false,
+        // Everything else needs percent-encoding
+        _ => true,
+    }
+}
+
+/// Percent-encodes a (plain) JSON Pointer for use in URI fragment representation.
 #[must_use]
-pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
-    fn needs_encoding(byte: u8) -> bool {
-        match byte {
-            // `~` and `/` need encoding for JSON Pointer
-            // See https://datatracker.ietf.org/doc/html/rfc6901#section-3
-            b'~' | b'/' => true,
-            // These chars (and `~`) are valid in URL fragment
-            // See https://datatracker.ietf.org/doc/html/rfc3986/#section-3.5
-            b'!' | b'$' | b'&'..=b';' | b'=' | b'?'..=b'Z' | b'_' | b'a'..=b'z' => false,
-            // Everything else needs percent-encoding
-            _ => true,
+pub fn encode_json_pointer(pointer: &str) -> Cow<'_, str> {
+    // `~` and `/` are already valid (and significant) within the pointer
+    let needs_encoding = |byte| needs_encoding(byte) && byte != b'~' && byte != b'/';
+
+    if pointer.bytes().any(needs_encoding) {
+        let mut buf = String::new();
+
+        for byte in pointer.bytes() {
+            if needs_encoding(byte) {
+                write!(buf, "%{byte:02X}").unwrap();
+            } else {
+                buf.push(byte as char);
+            }
         }
+
+        Cow::Owned(buf)
+    } else {
+        Cow::Borrowed(pointer)
     }
+}
 
+/// Encodes a string for insertion into a JSON Pointer in URI fragment representation.
+#[must_use]
+pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
     if name.bytes().any(needs_encoding) {
         let mut buf = String::new();
 
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index b276f14..8bba730 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -354,8 +354,8 @@ impl SchemaGenerator {
             });
 
             let reference = format!(
-                "#{}/{}",
-                this.definitions_path_stripped(),
+                "{}{}",
+                this.definitions_ref_prefix(),
                 crate::encoding::encode_ref_name(&name)
             );
 
@@ -611,12 +611,18 @@ impl SchemaGenerator {
 
     /// Returns `self.settings.definitions_path` as a plain JSON pointer to the definitions object,
     /// i.e. without a leading '#' or trailing '/'
-    pub(crate) fn definitions_path_stripped(&self) -> &str {
+    fn definitions_path_stripped(&self) -> &str {
         let path = &self.settings.definitions_path;
         let path = path.strip_prefix('#').unwrap_or(path);
         path.strip_suffix('/').unwrap_or(path)
     }
 
+    /// Returns the part of a `$ref` to a definition that precedes the (encoded) definition name
+    pub(crate) fn definitions_ref_prefix(&self) -> String {
+        let path = crate::encoding::encode_json_pointer(self.definitions_path_stripped());
+        format!("#{path}/")
+    }
+
     fn schema_uid<T: ?Sized + JsonSchema>(&self) -> SchemaUid {
         SchemaUid(T::schema_id(), self.settings.contract.clone())
     }
diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..f06221c 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -55,7 +55,7 @@ where
         };
 
         // Handle refs
-        let prefix = format!("#{}/", generator.definitions_path_stripped());
+        let prefix = generator.definitions_ref_prefix();
         for option in &mut options {
             if let Some(d) = option
                 .get("$ref")
-- 
2.43.0


From 523f1bd8676661551d31d056f4f4993706702861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 05/44] fix: apply transforms to subschemas of all
 schema-valued keywords

---
 schemars/src/transform.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..e07e4c8 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -155,8 +155,11 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "else"
             | "contains"
             | "additionalProperties"
+            | "unevaluatedProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedItems"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,8 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            "properties" | "patternProperties" | "dependentSchemas" | "dependencies" | "$defs"
+            | "definitions" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From 33538c7db7efabf20e50743cc6e84c2d6817f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 06/44] fix: apply transforms to OpenAPI 3 definitions

---
 schemars/src/transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index e07e4c8..b0adbac 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -196,6 +196,16 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     }
                 }
             }
+            // The location of definitions in OpenAPI 3 schemas
+            "components" => {
+                if let Some(obj) = value.get_mut("schemas").and_then(Value::as_object_mut) {
+                    for value in obj.values_mut() {
+                        if let Ok(subschema) = value.try_into() {
+                            t.transform(subschema);
+                        }
+                    }
+                }
+            }
             _ => {}
         }
     }
-- 
2.43.0


From c04d47d8774b27c2b2507c92bde5bbf76f339e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 07/44] fix: preserve definition names when cloning a
 SchemaGenerator

---
 schemars/src/generate.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 8bba730..10ca8d0 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,9 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            // These must be consistent with the names of the cloned `definitions`
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From afcbfc6cbc87c756ba9b38b232fefdb335d452a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 08/44] fix: do not infer an empty prefixItems from an empty
 tuple value

---
 schemars/src/ser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..fbc7124 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -346,11 +346,15 @@ impl serde::ser::SerializeTuple for SerializeTuple<'_> {
         let len = self.items.len();
         let mut schema = json_schema!({
             "type": "array",
-            "prefixItems": self.items,
             "maxItems": len,
-            "minItems": len,
         });
 
+        // `prefixItems` must not be empty
+        if len > 0 {
+            schema.insert("prefixItems".into(), self.items.into());
+            schema.insert("minItems".into(), len.into());
+        }
+
         if !self.title.is_empty() {
             schema
                 .ensure_object()
-- 
2.43.0


From 8731fd6456e673f2d538d245ceebe88d5443d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 09/44] fix: unescape map keys when inferring a schema from a
 value

---
 schemars/src/ser.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index fbc7124..17e6acd 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -392,11 +392,8 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // FIXME this is too lenient - we should return an error if serde_json
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
-        self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
-        );
+        // The key may itself contain quotes and escape sequences, so unescape it properly
+        self.current_key = Some(serde_json::from_str(&json).unwrap_or(json));
 
         Ok(())
     }
-- 
2.43.0


From 2aff6b3d63d168aec41df225d2e4f6df15b64567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 10/44] fix: do not re-use definitions referring to a previous
 root schema

---
 schemars/src/generate.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 10ca8d0..65a4af4 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -450,6 +450,7 @@ impl SchemaGenerator {
     /// path](SchemaSettings::definitions_path) (by default `"$defs"`).
     pub fn root_schema_for<T: ?Sized + JsonSchema>(&mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
+        let previous_definitions = self.definitions.clone();
         self.root_schema_id_stack.push(schema_uid.clone());
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
@@ -469,6 +470,12 @@ impl SchemaGenerator {
 
         self.root_schema_id_stack.pop();
 
+        // Any newly added definitions that refer to the root schema (`"$ref": "#"`) are only
+        // meaningful as part of this root schema, so must not be re-used by later ones.
+        if self.definitions.values().any(contains_root_ref) {
+            self.definitions = previous_definitions;
+        }
+
         schema
     }
 
@@ -629,6 +636,17 @@ impl SchemaGenerator {
     }
 }
 
+fn contains_root_ref(value: &Value) -> bool {
+    match value {
+        Value::Object(obj) => {
+            obj.get("$ref").and_then(Value::as_str) == Some("#")
+                || obj.values().any(contains_root_ref)
+        }
+        Value::Array(array) => array.iter().any(contains_root_ref),
+        _ => false,
+    }
+}
+
 fn json_pointer_mut<'a>(
     mut object: &'a mut JsonMap<String, Value>,
     pointer: &str,
-- 
2.43.0


From 41209f68cddc081a69f913cab4cffb5308568966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 11/44] fix: allow any value in schema inferred from a RawValue

---
 schemars/src/ser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 17e6acd..68a8778 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -4,6 +4,9 @@ use crate::{json_schema, Schema, SchemaGenerator};
 use core::fmt::Display;
 use serde_json::{Error, Map, Value};
 
+// The name of the struct (and its only field) that `serde_json::value::RawValue` serializes as
+const RAW_VALUE_TOKEN: &str = "$serde_json::private::RawValue";
+
 pub(crate) struct Serializer<'a> {
     pub(crate) generator: &'a mut SchemaGenerator,
     pub(crate) include_title: bool,
@@ -446,6 +449,11 @@ impl serde::ser::SerializeStruct for SerializeMap<'_> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        if self.properties.contains_key(RAW_VALUE_TOKEN) {
+            // This is a `serde_json::value::RawValue`, which could be any JSON value
+            return Ok(true.into());
+        }
+
         serde::ser::SerializeMap::end(self)
     }
 }
-- 
2.43.0


From 706155edaa332ce95b2119db9e0d554e271a56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 12/44] fix: replace bool schemas nested in
 additionalProperties

---
 schemars/src/transform.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index b0adbac..4e3b278 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -304,7 +304,13 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            // Only boolean `additionalProperties` are skipped, since any other schema may itself
+            // have boolean subschemas
+            if self.skip_additional_properties
+                && obj
+                    .get("additionalProperties")
+                    .is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From 6f6cad6c083e5313aeb7a40f75dd27fae70aad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 13/44] fix: never disallow evaluated properties in
 ReplaceUnevaluatedProperties

---
 schemars/src/transform.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 4e3b278..2cf26cf 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -504,11 +504,22 @@ impl Transform for ReplaceUnevaluatedProperties {
             return;
         };
 
-        schema.insert("additionalProperties".to_owned(), up);
+        if schema.get("additionalProperties").is_some() {
+            // Every property is already evaluated, so `unevaluatedProperties` has no effect
+            return;
+        }
 
         let mut gather_property_names = GatherPropertyNames::default();
         gather_property_names.transform(schema);
-        let property_names = gather_property_names.0;
+        if gather_property_names.is_incomplete {
+            // Unnamed properties may be evaluated by subschemas, so adding `additionalProperties`
+            // could disallow valid properties
+            return;
+        }
+
+        schema.insert("additionalProperties".to_owned(), up);
+
+        let property_names = gather_property_names.names;
 
         if property_names.is_empty() {
             return;
@@ -529,11 +540,16 @@ impl Transform for ReplaceUnevaluatedProperties {
 
 // Helper for getting property names for all *immediate* subschemas
 #[derive(Default)]
-struct GatherPropertyNames(BTreeSet<String>);
+struct GatherPropertyNames {
+    names: BTreeSet<String>,
+    // Whether properties other than `names` may be evaluated by subschemas
+    is_incomplete: bool,
+    in_subschema: bool,
+}
 
 impl Transform for GatherPropertyNames {
     fn transform(&mut self, schema: &mut Schema) {
-        self.0.extend(
+        self.names.extend(
             schema
                 .as_object()
                 .iter()
@@ -543,7 +559,17 @@ impl Transform for GatherPropertyNames {
                 .cloned(),
         );
 
+        self.is_incomplete |= schema.get("$ref").is_some()
+            || schema.get("dependentSchemas").is_some()
+            || (self.in_subschema
+                && (schema.get("patternProperties").is_some()
+                    || schema
+                        .get("additionalProperties")
+                        .is_some_and(|ap| ap.as_bool() != Some(false))));
+
+        let in_subschema = core::mem::replace(&mut self.in_subschema, true);
         transform_immediate_subschemas(self, schema);
+        self.in_subschema = in_subschema;
     }
 }
 
-- 
2.43.0


From 1ea460ea5c0e6afe147631792322e5e0480b5f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:00 +0000
Subject: [PATCH 14/44] fix: keep formats in RestrictFormats when the
 meta-schema is missing

---
 schemars/src/transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 2cf26cf..c47eed1 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -734,8 +734,12 @@ impl Transform for RestrictFormatsImpl<'_> {
             };
         }
 
+        // If the meta-schema can't be determined, then no `format` values are removed
+        let can_remove = !self.infer_from_meta_schema || self.inferred_formats.is_some();
+
         if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
+            if can_remove
+                && !self.allowed_formats.contains(format)
                 && !self
                     .inferred_formats
                     .is_some_and(|formats| formats.contains(&format))
-- 
2.43.0


From 3365a7197b36c0c5b7c351f6f4663aad3bd6cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 15/44] fix: keep const null when allowing null

---
 schemars/src/_private/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..3bee36b 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -490,8 +490,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 }
             }
 
-            if let Some(c) = obj.remove("const") {
+            if let Some(c) = obj.get("const") {
+                // `"const": null` already allows only null, so must be kept
                 if !c.is_null() {
+                    let c = obj.remove("const").unwrap_or_default();
                     obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
                 }
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
-- 
2.43.0


From d85954423a12ed14b6e1ee41bca0629f52d0dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:45 +0000
Subject: [PATCH 16/44] fix: allow outer properties beside flattened variants
 and newtype variants holding maps

---
 schemars/src/_private/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 3bee36b..f3a9b16 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -23,20 +23,23 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     // - The generator settings specify that all schemas should be inlined
     // - The inner type is a unit struct, which would cause an unsatisfiable schema due to mismatched `type`.
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
-    // - The inner schema specified `"additionalProperties": false` or `"unevaluatedProperties": false`,
-    //    since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
+    // - The inner schema restricts `additionalProperties` or `unevaluatedProperties` (e.g. to `false`, or to
+    //    the value type of a flattened map), since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
     //    nested e.g. in an `allOf`, then it must be removed, which is why we run `AllowUnknownProperties`
     //    but only on immediate subschemas.
 
-    let mut transform = AllowUnknownProperties::default();
+    let mut transform = AllowUnknownProperties {
+        in_subschema: true,
+        ..Default::default()
+    };
     transform_immediate_subschemas(&mut transform, &mut schema);
 
     if T::inline_schema()
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
-        || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
-        || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
+        || schema.get("additionalProperties").is_some_and(|v| v != true)
+        || schema.get("unevaluatedProperties").is_some_and(|v| v != true)
         || transform.did_modify
     {
         return schema;
@@ -148,6 +151,7 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
 #[derive(Default)]
 struct AllowUnknownProperties {
     did_modify: bool,
+    in_subschema: bool,
 }
 
 impl Transform for AllowUnknownProperties {
@@ -161,7 +165,20 @@ impl Transform for AllowUnknownProperties {
             self.did_modify = true;
         }
 
+        // Within a nested subschema (e.g. an enum variant in a `oneOf`), these keywords cannot
+        // "see" properties of the outer schema, so must not restrict them.
+        if self.in_subschema {
+            for key in ["additionalProperties", "unevaluatedProperties"] {
+                if schema.get(key).is_some_and(Value::is_object) {
+                    schema.insert(key.to_owned(), true.into());
+                    self.did_modify = true;
+                }
+            }
+        }
+
+        let outer = core::mem::replace(&mut self.in_subschema, true);
         transform_immediate_subschemas(self, schema);
+        self.in_subschema = outer;
     }
 }
 
-- 
2.43.0


From 8c9e8da15f247848812d486b9d2ea1665a11372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:57 +0000
Subject: [PATCH 17/44] fix: terminate for recursive newtype variants of
 internally tagged enums

---
 schemars/src/_private/mod.rs | 5 ++++-
 schemars/src/generate.rs     | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index f3a9b16..b31d56c 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -16,7 +16,10 @@ pub use rustdoc::get_title_and_description;
 pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSchema>(
     generator: &mut SchemaGenerator,
 ) -> Schema {
-    let mut schema = T::json_schema(generator);
+    let Some(mut schema) = generator.json_schema_unless_pending::<T>() else {
+        // The newtype's inner schema contains this variant, so it can only be referred to
+        return generator.subschema_for::<T>();
+    };
 
     // Inline the newtype's inner schema if any of:
     // - The type specifies that its schema should always be inlined
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 65a4af4..2718739 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -594,6 +594,13 @@ impl SchemaGenerator {
         schema
     }
 
+    /// Generates a schema for `T` that is neither a `$ref` nor added to the definitions, unless
+    /// that schema is already being generated.
+    pub(crate) fn json_schema_unless_pending<T: ?Sized + JsonSchema>(&mut self) -> Option<Schema> {
+        let uid = self.schema_uid::<T>();
+        (!self.pending_schema_ids.contains(&uid)).then(|| self.json_schema_internal::<T>(&uid))
+    }
+
     fn add_definitions(
         &mut self,
         schema_object: &mut JsonMap<String, Value>,
-- 
2.43.0


From b0852b7092e03c5f7d29d85359e855ccca380f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:21 +0000
Subject: [PATCH 18/44] fix: do not require the content of an adjacently tagged
 Option variant when deserializing

---
 schemars/src/_private/mod.rs        | 11 ++++++++++
 schemars_derive/src/schema_exprs.rs | 34 ++++++++++++++++++++++++-----
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index b31d56c..b6b3556 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -341,6 +341,17 @@ pub fn insert_object_property(
     }
 }
 
+pub fn require_property(schema: &mut Schema, key: &str) {
+    if let Some(req) = schema
+        .ensure_object()
+        .entry("required")
+        .or_insert(Value::Array(Vec::new()))
+        .as_array_mut()
+    {
+        req.push(key.into());
+    }
+}
+
 pub fn insert_metadata_property_if_nonempty(
     schema: &mut Schema,
     key: &str,
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..deeaac1 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -413,14 +413,35 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 ))
             };
 
-            let (add_content_to_props, add_content_to_required) = content_schema
-                .map(|content_schema| {
-                    (
+            // Like a missing struct field, missing content deserializes as `None`
+            let optional_content_type = match &variant.fields[..] {
+                [field] if matches!(variant.style, Style::Newtype) && variant.attrs.with.is_none() => {
+                    Some(type_for_field_schema(cont, field))
+                }
+                _ => None,
+            };
+
+            let (add_content_to_props, add_content_to_required, make_content_optional) =
+                match (content_schema, optional_content_type) {
+                    (None, _) => Default::default(),
+                    (Some(content_schema), None) => (
                         quote!(#content_name: (#content_schema),),
                         quote!(#content_name,),
-                    )
-                })
-                .unwrap_or_default();
+                        None,
+                    ),
+                    (Some(content_schema), Some((ty, type_def))) => (
+                        quote!(#content_name: (#content_schema),),
+                        TokenStream::new(),
+                        Some(quote!({
+                            #type_def
+                            if !#GENERATOR.contract().is_deserialize()
+                                || !<#ty as schemars::JsonSchema>::_schemars_private_is_option()
+                            {
+                                schemars::_private::require_property(&mut #SCHEMA, #content_name);
+                            }
+                        })),
+                    ),
+                };
 
             let name = variant.name();
             let tag_schema = quote! {
@@ -453,6 +474,7 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 #set_additional_properties
             })));
 
+            outer_schema.mutators.extend(make_content_optional);
             variant.add_mutators(&mut outer_schema.mutators);
 
             (Some(variant), outer_schema)
-- 
2.43.0


From 8b6f010f0e7e1f161fce6fc9eec320f4fce3f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:57 +0000
Subject: [PATCH 19/44] fix: treat unit variants as properties within
 internally tagged newtype variants, and when documented

---
 schemars/src/_private/mod.rs | 131 ++++++++++++++++++++++-------------
 1 file changed, 81 insertions(+), 50 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index b6b3556..487f42d 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -26,6 +26,7 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     // - The generator settings specify that all schemas should be inlined
     // - The inner type is a unit struct, which would cause an unsatisfiable schema due to mismatched `type`.
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
+    // - The inner type is an externally-tagged enum with unit variants, which are serialized differently here
     // - The inner schema restricts `additionalProperties` or `unevaluatedProperties` (e.g. to `false`, or to
     //    the value type of a flattened map), since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
@@ -38,7 +39,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     };
     transform_immediate_subschemas(&mut transform, &mut schema);
 
-    if T::inline_schema()
+    if allow_unit_variants_as_properties(&mut schema)
+        || T::inline_schema()
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
         || schema.get("additionalProperties").is_some_and(|v| v != true)
@@ -59,33 +61,7 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
 ) -> Schema {
     /// Non-generic inner function to reduce monomorphization overhead
     fn inner(mut schema: Schema, is_optional: bool) -> Schema {
-        // Special handling for externally-tagged enums with unit variants.
-        // Unit variants are normally serialized as strings, but when flattened, are serialized
-        // as objects like `{ "VariantName": null }`
-        if let Some(unit_variants) = remove_unit_variants(&mut schema) {
-            if let Value::Array(one_of) = schema
-                .ensure_object()
-                .entry("oneOf")
-                .or_insert(Value::Array(Vec::new()))
-            {
-                one_of.extend(
-                    unit_variants
-                        .iter()
-                        .filter_map(Value::as_str)
-                        .map(|variant| {
-                            json!({
-                                "type": "object",
-                                "properties": {
-                                    variant: {
-                                        "type": "null"
-                                    }
-                                },
-                                "required": [variant],
-                            })
-                        }),
-                );
-            }
-        }
+        allow_unit_variants_as_properties(&mut schema);
 
         if is_optional {
             schema.remove("required");
@@ -121,34 +97,89 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         schema
     }
 
-    fn remove_unit_variants(schema: &mut Schema) -> Option<Vec<Value>> {
-        // For enums that only have unit variants, all variants are in `enum`
-        if schema.get("type").and_then(Value::as_str) == Some("string") {
-            // Remove both `"enum": [...]`...
-            if let Some(Value::Array(a)) = schema.remove("enum") {
-                // ...and `"type": "string"`, since the variants are not serialized as strings
-                schema.remove("type");
-                return Some(a);
-            }
+    inner(
+        T::_schemars_private_non_optional_json_schema(generator),
+        T::_schemars_private_is_option() && !required,
+    )
+}
+
+// Special handling for externally-tagged enums with unit variants.
+// Unit variants are normally serialized as strings, but when flattened (or within a newtype variant
+// of an internally-tagged enum), are serialized as objects like `{ "VariantName": null }`
+//
+// Returns `true` if the schema was modified
+fn allow_unit_variants_as_properties(schema: &mut Schema) -> bool {
+    fn unit_variant_schemas(variant_schema: &mut Schema) -> Option<Vec<Value>> {
+        if variant_schema.get("type").and_then(Value::as_str) != Some("string") {
+            return None;
         }
 
-        // For enums that have unit and other variants, unit variants are in the first `oneOf` item
-        let one_of = schema.get_mut("oneOf")?.as_array_mut()?;
-        let first = <&mut Schema>::try_from(one_of.get_mut(0)?).ok()?;
-        if first.get("type").and_then(Value::as_str) == Some("string") {
-            if let Some(Value::Array(a)) = first.remove("enum") {
-                one_of.remove(0);
-                return Some(a);
-            }
+        let variants = if let Some(Value::Array(variants)) = variant_schema.remove("enum") {
+            variants
+        } else {
+            vec![variant_schema.remove("const")?]
+        };
+
+        // The variants are not serialized as strings
+        variant_schema.remove("type");
+
+        Some(
+            variants
+                .iter()
+                .filter_map(Value::as_str)
+                .map(|variant| {
+                    json!({
+                        "type": "object",
+                        "properties": {
+                            variant: {
+                                "type": "null"
+                            }
+                        },
+                        "required": [variant],
+                    })
+                })
+                .collect(),
+        )
+    }
+
+    // For enums that only have (undocumented) unit variants, all variants are in `enum`
+    if let Some(variants) = unit_variant_schemas(schema) {
+        schema.insert("oneOf".to_owned(), variants.into());
+        return true;
+    }
+
+    // For enums that have unit and other variants, or documented unit variants, they are in `oneOf`
+    let Some(Value::Array(one_of)) = schema.get_mut("oneOf") else {
+        return false;
+    };
+
+    let mut unit_variants = Vec::new();
+
+    one_of.retain_mut(|variant| {
+        let Ok(variant) = <&mut Schema>::try_from(variant) else {
+            return true;
+        };
+        let Some(mut variants) = unit_variant_schemas(variant) else {
+            return true;
+        };
+
+        // Keep metadata, e.g. the variant's description
+        if let (Some(metadata), [Value::Object(variant)]) =
+            (variant.as_object_mut(), variants.as_mut_slice())
+        {
+            variant.append(metadata);
         }
 
-        None
+        unit_variants.append(&mut variants);
+        false
+    });
+
+    if unit_variants.is_empty() {
+        return false;
     }
 
-    inner(
-        T::_schemars_private_non_optional_json_schema(generator),
-        T::_schemars_private_is_option() && !required,
-    )
+    one_of.append(&mut unit_variants);
+    true
 }
 
 #[derive(Default)]
-- 
2.43.0


From 997dfaea103660b995fef2920d01bb7956aa468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 20/44] fix: treat unit variants as properties when flattening
 enums that also have untagged variants

---
 schemars/src/_private/mod.rs | 51 +++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 487f42d..60f3dcc 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -149,37 +149,40 @@ fn allow_unit_variants_as_properties(schema: &mut Schema) -> bool {
     }
 
     // For enums that have unit and other variants, or documented unit variants, they are in `oneOf`
-    let Some(Value::Array(one_of)) = schema.get_mut("oneOf") else {
-        return false;
-    };
-
-    let mut unit_variants = Vec::new();
+    // (or in `anyOf` if the enum also has untagged variants)
+    let mut modified = false;
 
-    one_of.retain_mut(|variant| {
-        let Ok(variant) = <&mut Schema>::try_from(variant) else {
-            return true;
-        };
-        let Some(mut variants) = unit_variant_schemas(variant) else {
-            return true;
+    for key in ["oneOf", "anyOf"] {
+        let Some(Value::Array(variant_schemas)) = schema.get_mut(key) else {
+            continue;
         };
 
-        // Keep metadata, e.g. the variant's description
-        if let (Some(metadata), [Value::Object(variant)]) =
-            (variant.as_object_mut(), variants.as_mut_slice())
-        {
-            variant.append(metadata);
-        }
+        let mut unit_variants = Vec::new();
+
+        variant_schemas.retain_mut(|variant| {
+            let Ok(variant) = <&mut Schema>::try_from(variant) else {
+                return true;
+            };
+            let Some(mut variants) = unit_variant_schemas(variant) else {
+                return true;
+            };
+
+            // Keep metadata, e.g. the variant's description
+            if let (Some(metadata), [Value::Object(variant)]) =
+                (variant.as_object_mut(), variants.as_mut_slice())
+            {
+                variant.append(metadata);
+            }
 
-        unit_variants.append(&mut variants);
-        false
-    });
+            unit_variants.append(&mut variants);
+            false
+        });
 
-    if unit_variants.is_empty() {
-        return false;
+        modified |= !unit_variants.is_empty();
+        variant_schemas.append(&mut unit_variants);
     }
 
-    one_of.append(&mut unit_variants);
-    true
+    modified
 }
 
 #[derive(Default)]
-- 
2.43.0


From bdc535b73c16095dd06853c3343475fd3e16b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 21/44] fix: allow null in the schema of Weak pointers

---
 schemars/src/json_schema_impls/wrapper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/wrapper.rs b/schemars/src/json_schema_impls/wrapper.rs
index ea09504..1f89b5f 100644
--- a/schemars/src/json_schema_impls/wrapper.rs
+++ b/schemars/src/json_schema_impls/wrapper.rs
@@ -11,9 +11,7 @@ wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a T);
 wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a mut T);
 wrapper_impl!(<T: ?Sized> JsonSchema for Box<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Rc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Weak<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Arc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Weak<T>);
 #[cfg(feature = "std")]
 wrapper_impl!(<T: ?Sized> JsonSchema for std::sync::Mutex<T>);
 #[cfg(feature = "std")]
@@ -23,3 +21,7 @@ wrapper_impl!(<T: ?Sized> JsonSchema for core::cell::RefCell<T>);
 wrapper_impl!(<'a, T: ?Sized + ToOwned> JsonSchema for alloc::borrow::Cow<'a, T>);
 wrapper_impl!(<T> JsonSchema for core::num::Wrapping<T>);
 wrapper_impl!(<T> JsonSchema for core::cmp::Reverse<T>);
+
+// `Weak` pointers are serialized as `null` when they can't be upgraded, and can be deserialized from `null`.
+forward_impl!((<T: ?Sized + JsonSchema> JsonSchema for alloc::rc::Weak<T>) => Option<Box<T>>);
+forward_impl!((<T: ?Sized + JsonSchema> JsonSchema for alloc::sync::Weak<T>) => Option<Box<T>>);
-- 
2.43.0


From 18943bb6e5c7d64394d762c2763f1e0bbc3f654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 22/44] fix: find the definitions of map keys whatever their
 name and however deeply they are referenced

---
 schemars/src/json_schema_impls/maps.rs | 63 ++++++++++++++++++--------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index f06221c..e473d64 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -1,4 +1,5 @@
 use crate::_alloc_prelude::*;
+use crate::encoding::encode_ref_name;
 use crate::{json_schema, JsonSchema, Schema, SchemaGenerator};
 use alloc::borrow::Cow;
 use alloc::collections::{BTreeMap, BTreeSet};
@@ -11,6 +12,46 @@ enum IntegerSupport {
     Signed,
 }
 
+/// Collects the alternatives allowed by a key schema, following any `$ref`s to definitions.
+///
+/// Returns `false` if any of the alternatives is a boolean schema.
+fn collect_key_options<'a>(
+    generator: &'a SchemaGenerator,
+    schema: &'a Value,
+    depth: usize,
+    options: &mut Vec<&'a Map<String, Value>>,
+) -> bool {
+    let Some(object) = schema.as_object() else {
+        return false;
+    };
+
+    let definition = object
+        .get("$ref")
+        .and_then(Value::as_str)
+        .and_then(|r| r.strip_prefix(&generator.definitions_ref_prefix()))
+        .and_then(|r| {
+            let mut definitions = generator.definitions().iter();
+            definitions.find(|(name, _)| encode_ref_name(name) == r)
+        });
+
+    // A chain of references longer than the number of definitions never ends
+    if let Some((_, definition)) = definition {
+        if depth <= generator.definitions().len() && definition.is_object() {
+            return collect_key_options(generator, definition, depth + 1, options);
+        }
+    }
+
+    match object.get("anyOf").and_then(Value::as_array) {
+        Some(any_of) => any_of
+            .iter()
+            .all(|s| collect_key_options(generator, s, depth, options)),
+        None => {
+            options.push(object);
+            true
+        }
+    }
+}
+
 impl<K, V> JsonSchema for BTreeMap<K, V>
 where
     K: JsonSchema,
@@ -42,30 +83,12 @@ where
             "type": "object",
         });
 
-        let Some(mut options) = key_schema
-            .get("anyOf")
-            .and_then(Value::as_array)
-            .and_then(|a| a.iter().map(Value::as_object).collect::<Option<Vec<_>>>())
-            .or_else(|| Some(vec![key_schema.as_object()?]))
-        else {
+        let mut options = Vec::new();
+        if !collect_key_options(generator, key_schema.as_value(), 0, &mut options) {
             return json_schema!({
                 "additionalProperties": value_schema,
                 "type": "object",
             });
-        };
-
-        // Handle refs
-        let prefix = generator.definitions_ref_prefix();
-        for option in &mut options {
-            if let Some(d) = option
-                .get("$ref")
-                .and_then(Value::as_str)
-                .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
-                .and_then(Value::as_object)
-            {
-                *option = d;
-            }
         }
 
         let mut additional_properties = false;
-- 
2.43.0


From 4de55c9487a872fa1a5448731c647e25c3fcc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:08 +0000
Subject: [PATCH 23/44] fix: emit a valid schema for enums whose variants are
 all skipped by the contract

---
 schemars_derive/src/schema_exprs.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index deeaac1..59f2f11 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -513,16 +513,19 @@ fn variant_subschemas(
         }
     });
     quote!({
-        let mut map = schemars::_private::serde_json::Map::new();
-        map.insert(
-            #keyword.into(),
-            schemars::_private::serde_json::Value::Array({
-                let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(#add_schemas)*
-                enum_values
-            }),
-        );
-        schemars::Schema::from(map)
+        let mut enum_values = schemars::_private::alloc::vec::Vec::new();
+        #(#add_schemas)*
+        if enum_values.is_empty() {
+            // All variants are skipped by the current contract - `oneOf`/`anyOf` can't be empty
+            schemars::Schema::from(false)
+        } else {
+            let mut map = schemars::_private::serde_json::Map::new();
+            map.insert(
+                #keyword.into(),
+                schemars::_private::serde_json::Value::Array(enum_values),
+            );
+            schemars::Schema::from(map)
+        }
     })
     .into()
 }
-- 
2.43.0


From 30328136f982742a4931845bdf57e6dc7795f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:20 +0000
Subject: [PATCH 24/44] fix: allow unsetting serde's rename on containers, with
 and serialize_with

---
 schemars_derive/src/attr/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index d570de1..3d08759 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -496,7 +496,10 @@ impl<'a> AttrCtxt<'a> {
         self.metas = metas
             .into_iter()
             .filter_map(|meta| match meta.path().get_ident().map(Ident::to_string) {
-                Some(ident) => handle(meta, &ident, self).err(),
+                // "Unset" attributes are processed in schemars_to_serde
+                Some(ident) if !matches!(meta, CustomMeta::Not(..)) => {
+                    handle(meta, &ident, self).err()
+                }
                 _ => Some(meta),
             })
             .collect();
@@ -553,7 +556,11 @@ impl Drop for AttrCtxt<'_> {
 }
 
 fn is_schemars_serde_keyword(meta: &CustomMeta) -> bool {
-    let known_keywords = schemars_to_serde::SCHEMARS_KEYWORDS_PARSED_BY_SERDE;
+    let known_keywords = match meta {
+        // All serde keywords respected by schemars can be "unset"
+        CustomMeta::Not(..) => schemars_to_serde::SERDE_KEYWORDS,
+        _ => schemars_to_serde::SCHEMARS_KEYWORDS_PARSED_BY_SERDE,
+    };
     meta.path()
         .get_ident()
         .is_some_and(|i| known_keywords.contains(&i.to_string().as_str()))
-- 
2.43.0


From 34f5cf7d2941ac7eb5a86c3eccf598085e1c5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 25/44] fix: give integer literals in validation attributes a
 type that they fit in

---
 schemars_derive/src/attr/validation.rs | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index d836e00..a09df00 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use syn::Expr;
+use syn::{Expr, ExprLit, Lit, LitInt};
 
 use crate::idents::SCHEMA;
 
@@ -120,6 +120,7 @@ impl ValidationAttrs {
     ) {
         if let Some(min) = value.min.as_ref().or(value.equal.as_ref()) {
             let key = format!("min{key_suffix}");
+            let min = with_int_suffix(min.clone());
             mutators.push(quote!{
                 schemars::_private::insert_validation_property(#mut_ref_schema, #required_format, #key, #min);
             });
@@ -127,6 +128,7 @@ impl ValidationAttrs {
 
         if let Some(max) = value.max.as_ref().or(value.equal.as_ref()) {
             let key = format!("max{key_suffix}");
+            let max = with_int_suffix(max.clone());
             mutators.push(quote!{
                 schemars::_private::insert_validation_property(#mut_ref_schema, #required_format, #key, #max);
             });
@@ -252,3 +254,27 @@ impl ValidationAttrs {
         )
     }
 }
+
+/// Adds a type suffix to an unsuffixed integer literal (possibly negated) that does not fit in an
+/// `i32`, which would otherwise be inferred as its type.
+fn with_int_suffix(mut expr: Expr) -> Expr {
+    let (lit, max_signed) = match &mut expr {
+        Expr::Unary(unary) => (&mut *unary.expr, u64::MAX),
+        expr => (expr, i64::MAX as u64),
+    };
+
+    if let Expr::Lit(ExprLit {
+        lit: Lit::Int(int), ..
+    }) = lit
+    {
+        if int.suffix().is_empty() && int.base10_parse::<i32>().is_err() {
+            let suffix = match int.base10_parse::<u64>() {
+                Ok(i) if i > max_signed => "u64",
+                _ => "i64",
+            };
+            *int = LitInt::new(&format!("{}{suffix}", int.base10_digits()), int.span());
+        }
+    }
+
+    expr
+}
-- 
2.43.0


From e40a60b133ffb74e15aa0d363c8e4702b8aeba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:55 +0000
Subject: [PATCH 26/44] fix: only escape characters in contains() that regular
 expressions treat specially

---
 schemars/src/_private/regex_syntax.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/regex_syntax.rs b/schemars/src/_private/regex_syntax.rs
index 23b67ca..9d8f1e3 100644
--- a/schemars/src/_private/regex_syntax.rs
+++ b/schemars/src/_private/regex_syntax.rs
@@ -47,8 +47,9 @@ fn escape_into(text: &str, buf: &mut String) {
 
 fn is_meta_character(c: char) -> bool {
     match c {
-        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$'
-        | '#' | '&' | '-' | '~' => true,
+        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => true,
+        // `regex_syntax` also escapes `#`, `&`, `-` and `~`, but those have no special meaning here,
+        // and their escapes are not valid in ECMA-262 (unicode) regular expressions
         _ => false,
     }
 }
-- 
2.43.0


From 991f208c848f9821b0ea79cae2c3fe0a62a34b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 27/44] fix: validation attributes do not loosen the
 constraints of the field's type, nor set null bounds

---
 schemars/src/_private/mod.rs | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 60f3dcc..0809863 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -404,7 +404,47 @@ pub fn insert_validation_property(
     value: impl Into<Value>,
 ) {
     if schema.has_type(required_type) || (required_type == "number" && schema.has_type("integer")) {
-        schema.insert(key.to_owned(), value.into());
+        insert_constraint(schema, key, value.into());
+    }
+}
+
+/// Insert a validation keyword in addition to any constraint that is already in the schema, i.e.
+/// without allowing any value that the schema currently disallows.
+fn insert_constraint(schema: &mut Schema, key: &str, value: Value) {
+    // An infinite (or NaN) bound is no constraint
+    if value.is_null() {
+        return;
+    }
+
+    match schema.get(key) {
+        Some(current) if key.starts_with("min") && is_less_or_equal(&value, current) => {}
+        Some(current) if key.starts_with("max") && is_less_or_equal(current, &value) => {}
+        Some(current) if key == "pattern" && current != &value => {
+            if let Value::Array(all_of) = schema
+                .ensure_object()
+                .entry("allOf")
+                .or_insert(Value::Array(Vec::new()))
+            {
+                all_of.push(json!({ key: value }));
+            }
+        }
+        _ => {
+            schema.insert(key.to_owned(), value);
+        }
+    }
+}
+
+fn is_less_or_equal(a: &Value, b: &Value) -> bool {
+    fn as_i128(value: &Value) -> Option<i128> {
+        value
+            .as_i64()
+            .map(i128::from)
+            .or_else(|| value.as_u64().map(i128::from))
+    }
+
+    match (as_i128(a), as_i128(b)) {
+        (Some(a), Some(b)) => a <= b,
+        _ => a.as_f64().zip(b.as_f64()).is_some_and(|(a, b)| a <= b),
     }
 }
 
-- 
2.43.0


From d0a7b2121a8196cd624467f57e432442cccf0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 28/44] fix: apply a field's extensions and transforms after
 its validation, default and readOnly/writeOnly keywords

---
 schemars_derive/src/ast/mod.rs      |  8 ++++++--
 schemars_derive/src/attr/mod.rs     |  8 ++++++++
 schemars_derive/src/schema_exprs.rs | 29 ++++++++++++++++-------------
 3 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index bf41572..646e9f5 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -107,8 +107,8 @@ impl Field<'_> {
         Name(self.serde_attrs.name())
     }
 
-    pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
-        self.attrs.common.add_mutators(mutators);
+    pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>, default: Option<TokenStream>) {
+        self.attrs.common.add_metadata_mutators(mutators);
         self.attrs.validation.add_mutators(mutators);
 
         if self.serde_attrs.skip_deserializing() {
@@ -121,6 +121,10 @@ impl Field<'_> {
                 #SCHEMA.insert("writeOnly".into(), true.into());
             });
         }
+
+        mutators.extend(default);
+
+        self.attrs.common.add_extension_mutators(mutators);
     }
 
     pub fn with_contract_check(&self, action: TokenStream) -> TokenStream {
diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 3d08759..5e6c1a4 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -180,6 +180,11 @@ impl CommonAttrs {
     }
 
     pub fn add_mutators(&self, mutators: &mut Vec<TokenStream>) {
+        self.add_metadata_mutators(mutators);
+        self.add_extension_mutators(mutators);
+    }
+
+    pub fn add_metadata_mutators(&self, mutators: &mut Vec<TokenStream>) {
         let mut title = self.title.as_ref().map(ToTokens::to_token_stream);
         let mut description = self.description.as_ref().map(ToTokens::to_token_stream);
         if let Some(doc) = &self.doc {
@@ -223,7 +228,10 @@ impl CommonAttrs {
                 #SCHEMA.insert("examples".into(), schemars::_private::serde_json::Value::Array([#(#examples),*].into_iter().flatten().collect()));
             });
         }
+    }
 
+    /// These may replace or use any other keyword, so must be added after all other mutators.
+    pub fn add_extension_mutators(&self, mutators: &mut Vec<TokenStream>) {
         for (k, v) in &self.extensions {
             mutators.push(quote! {
                 #SCHEMA.insert(#k.into(), schemars::_private::serde_json::json!(#v));
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 59f2f11..48eed61 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -173,6 +173,7 @@ fn expr_for_field(
     cont: &Container,
     field: &Field,
     is_internal_tagged_enum_newtype: bool,
+    default: Option<TokenStream>,
 ) -> SchemaExpr {
     let (ty, type_def) = type_for_field_schema(cont, field);
     let span = field.original.span();
@@ -193,7 +194,15 @@ fn expr_for_field(
     let mut schema_expr = SchemaExpr::from(schema_expr);
 
     schema_expr.definitions.extend(type_def);
-    field.add_mutators(&mut schema_expr.mutators);
+    field.add_mutators(
+        &mut schema_expr.mutators,
+        default.map(|default| {
+            quote! {
+                #default.and_then(|d| schemars::_schemars_maybe_to_value!(d))
+                    .map(|d| #SCHEMA.insert("default".into(), d));
+            }
+        }),
+    );
 
     schema_expr
 }
@@ -596,7 +605,7 @@ fn expr_for_untagged_enum_variant(
     } else {
         match variant.style {
             Style::Unit => expr_for_unit_struct(),
-            Style::Newtype => expr_for_field(cont, &variant.fields[0], false),
+            Style::Newtype => expr_for_field(cont, &variant.fields[0], false, None),
             Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
             Style::Struct => expr_for_struct(
                 cont,
@@ -641,7 +650,7 @@ fn expr_for_internal_tagged_enum_variant(
 
     match variant.style {
         Style::Unit => expr_for_unit_struct(),
-        Style::Newtype => expr_for_field(cont, &variant.fields[0], true),
+        Style::Newtype => expr_for_field(cont, &variant.fields[0], true, None),
         Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
         Style::Struct => expr_for_struct(
             cont,
@@ -660,14 +669,14 @@ fn expr_for_unit_struct() -> SchemaExpr {
 }
 
 fn expr_for_newtype_struct(cont: &Container, field: &Field) -> SchemaExpr {
-    expr_for_field(cont, field, false)
+    expr_for_field(cont, field, false, None)
 }
 
 fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
     let fields: Vec<_> = fields
         .iter()
         .map(|f| {
-            let field_expr = expr_for_field(cont, f, false);
+            let field_expr = expr_for_field(cont, f, false, None);
             f.with_contract_check(quote! {
                 prefix_items.push((#field_expr).to_value());
             })
@@ -727,14 +736,8 @@ fn expr_for_struct(
                     schemars::_private::flatten(&mut #SCHEMA, #schema_expr);
                 })
             } else {
-                let mut schema_expr = expr_for_field(cont, field, false);
-
-                if let Some(default) = field_default_expr(field, set_container_default.is_some()) {
-                    schema_expr.mutators.push(quote! {
-                        #default.and_then(|d| schemars::_schemars_maybe_to_value!(d))
-                            .map(|d| #SCHEMA.insert("default".into(), d));
-                    });
-                }
+                let default = field_default_expr(field, set_container_default.is_some());
+                let mut schema_expr = expr_for_field(cont, field, false, default);
 
                 let name = field.name();
                 let (ty, type_def) = type_for_field_schema(cont, field);
-- 
2.43.0


From 28a7335739376f5a7f125957ec6805c17ada4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:55 +0000
Subject: [PATCH 29/44] fix: do not panic when an attribute's expression
 contains a tuple or index within another expression

---
 schemars_derive/src/attr/custom_meta.rs | 53 +++++++++++++++++++++++--
 schemars_derive/src/attr/parse_meta.rs  | 12 +++---
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/schemars_derive/src/attr/custom_meta.rs b/schemars_derive/src/attr/custom_meta.rs
index 53f2738..7e7775b 100644
--- a/schemars_derive/src/attr/custom_meta.rs
+++ b/schemars_derive/src/attr/custom_meta.rs
@@ -1,5 +1,10 @@
+use proc_macro2::{TokenStream, TokenTree};
 use quote::ToTokens;
-use syn::{parse::Parse, Meta, MetaList, MetaNameValue, Path};
+use syn::{
+    buffer::Cursor,
+    parse::{Parse, ParseStream},
+    Expr, Meta, MetaList, MetaNameValue, Path,
+};
 
 // An extended copy of `syn::Meta` with an additional `Not` variant
 #[derive(Clone)]
@@ -11,7 +16,7 @@ pub enum CustomMeta {
 }
 
 impl ToTokens for CustomMeta {
-    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
+    fn to_tokens(&self, tokens: &mut TokenStream) {
         match self {
             CustomMeta::Not(not, path) => {
                 not.to_tokens(tokens);
@@ -35,15 +40,55 @@ impl From<Meta> for CustomMeta {
 }
 
 impl Parse for CustomMeta {
-    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
+    fn parse(input: ParseStream) -> syn::Result<Self> {
         Ok(if input.peek(Token![!]) {
             Self::Not(input.parse()?, input.parse()?)
         } else {
-            Meta::parse(input)?.into()
+            let start = input.cursor();
+            let mut meta = Meta::parse(input)?;
+
+            if let Meta::NameValue(MetaNameValue { value, .. }) = &mut meta {
+                let mut tokens = tokens_between(start, input.cursor()).into_iter();
+                tokens.find(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == '='));
+                keep_tokens(value, tokens.collect());
+            }
+
+            meta.into()
         })
     }
 }
 
+/// Parses an expression, to be used where it would otherwise be parsed as an `Expr`.
+pub fn parse_expr(input: ParseStream) -> syn::Result<Expr> {
+    let start = input.cursor();
+    let mut expr = input.parse()?;
+    keep_tokens(&mut expr, tokens_between(start, input.cursor()));
+    Ok(expr)
+}
+
+/// Replaces an expression (other than a literal) with the tokens that it was parsed from, because
+/// `syn` (without its `full` feature) panics when printing some of the expressions that it can parse,
+/// e.g. `&(1, 2)`.
+fn keep_tokens(expr: &mut Expr, tokens: TokenStream) {
+    let inner = match &*expr {
+        Expr::Unary(unary) => &*unary.expr,
+        expr => expr,
+    };
+
+    if !matches!(inner, Expr::Lit(_)) {
+        *expr = Expr::Verbatim(tokens);
+    }
+}
+
+fn tokens_between(mut start: Cursor, end: Cursor) -> TokenStream {
+    core::iter::from_fn(|| {
+        let (token, next) = start.token_tree().filter(|_| start != end)?;
+        start = next;
+        Some(token)
+    })
+    .collect()
+}
+
 impl CustomMeta {
     pub fn path(&self) -> &Path {
         match self {
diff --git a/schemars_derive/src/attr/parse_meta.rs b/schemars_derive/src/attr/parse_meta.rs
index 4c473d1..a9938a7 100644
--- a/schemars_derive/src/attr/parse_meta.rs
+++ b/schemars_derive/src/attr/parse_meta.rs
@@ -5,7 +5,7 @@ use syn::{
     Expr, ExprLit, Lit, LitStr, MetaNameValue,
 };
 
-use super::{path_str, AttrCtxt, CustomMeta};
+use super::{parse_expr, path_str, AttrCtxt, CustomMeta};
 
 pub fn require_path_only(meta: &CustomMeta, cx: &AttrCtxt) -> Result<(), ()> {
     let error_args = || {
@@ -144,7 +144,7 @@ pub fn parse_length_or_range(outer_meta: &CustomMeta, cx: &AttrCtxt) -> Result<L
 }
 
 pub fn parse_pattern(meta: &CustomMeta, cx: &AttrCtxt) -> Result<Expr, ()> {
-    parse_meta_list_with(meta, cx, Expr::parse)
+    parse_meta_list_with(meta, cx, parse_expr)
 }
 
 pub fn parse_schemars_regex(outer_meta: &CustomMeta, cx: &AttrCtxt) -> Result<Expr, ()> {
@@ -220,7 +220,7 @@ pub fn parse_contains(outer_meta: CustomMeta, cx: &AttrCtxt) -> Result<Expr, ()>
             if input.peek2(Token![,]) || input.peek2(Token![=]) {
                 Punctuated::parse_terminated(input).map(Self::Metas)
             } else {
-                input.parse().map(Self::Expr)
+                parse_expr(input).map(Self::Expr)
             }
         }
     }
@@ -228,7 +228,7 @@ pub fn parse_contains(outer_meta: CustomMeta, cx: &AttrCtxt) -> Result<Expr, ()>
     let nested_meta_or_expr = match cx.attr_type {
         "validate" => parse_meta_list_with(&outer_meta, cx, Punctuated::parse_terminated)
             .map(ContainsFormat::Metas),
-        "garde" => parse_meta_list_with(&outer_meta, cx, Expr::parse).map(ContainsFormat::Expr),
+        "garde" => parse_meta_list_with(&outer_meta, cx, parse_expr).map(ContainsFormat::Expr),
         "schemars" => parse_meta_list_with(&outer_meta, cx, ContainsFormat::parse),
         wat => {
             unreachable!("Unexpected attr type `{wat}` for `contains` item. This is a bug in schemars, please raise an issue!")
@@ -306,7 +306,9 @@ pub fn parse_name_value_expr_handle_lit_str(meta: CustomMeta, cx: &AttrCtxt) ->
         ..
     }) = &expr
     {
-        parse_lit_str(lit_str, cx)
+        // Report any error as usual, then parse again to keep the tokens
+        parse_lit_str::<Expr>(lit_str, cx)
+            .map(|expr| lit_str.parse_with(parse_expr).unwrap_or(expr))
     } else {
         Ok(expr)
     }
-- 
2.43.0


From a921d170eea790e8a318ad2c2ecb61825c504864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 30/44] fix: give default values their types, and allow
 serialize_with on defaulted fields of types with parameters

---
 schemars/src/_private/mod.rs        |  1 +
 schemars_derive/src/ast/mod.rs      |  9 +++++++
 schemars_derive/src/schema_exprs.rs | 41 +++++++++++++++++++----------
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 0809863..282a823 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -9,6 +9,7 @@ mod regex_syntax;
 mod rustdoc;
 
 pub extern crate alloc;
+pub extern crate serde;
 pub extern crate serde_json;
 
 pub use rustdoc::get_title_and_description;
diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index 646e9f5..1740a06 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -69,6 +69,15 @@ impl<'a> Container<'a> {
         self.attrs.common.add_mutators(mutators);
     }
 
+    /// The type that serde deserializes, which `#[serde(remote)]` makes another type than the one
+    /// that has the attribute.
+    pub fn deserialized_type(&self) -> TokenStream {
+        match self.serde_attrs.remote() {
+            Some(remote) => quote!(#remote),
+            None => quote!(Self),
+        }
+    }
+
     pub fn name(&'a self) -> std::borrow::Cow<'a, str> {
         if self.attrs.rename_format_string.is_none() {
             if let Some(remote_name) = self.serde_attrs.remote().and_then(|r| r.segments.last()) {
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 48eed61..c04e02c 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -713,8 +713,14 @@ fn expr_for_struct(
 ) -> SchemaExpr {
     let set_container_default = match default {
         SerdeDefault::None => None,
-        SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = Self::default();)),
-        SerdeDefault::Path(path) => Some(quote!(let #STRUCT_DEFAULT = #path();)),
+        SerdeDefault::Default => {
+            let ty = cont.deserialized_type();
+            Some(quote!(let #STRUCT_DEFAULT: #ty = ::core::default::Default::default();))
+        }
+        SerdeDefault::Path(path) => {
+            let ty = cont.deserialized_type();
+            Some(quote!(let #STRUCT_DEFAULT: #ty = #path();))
+        }
     };
 
     // a vec of mutators
@@ -736,7 +742,7 @@ fn expr_for_struct(
                     schemars::_private::flatten(&mut #SCHEMA, #schema_expr);
                 })
             } else {
-                let default = field_default_expr(field, set_container_default.is_some());
+                let default = field_default_expr(cont, field, set_container_default.is_some());
                 let mut schema_expr = expr_for_field(cont, field, false, default);
 
                 let name = field.name();
@@ -791,7 +797,11 @@ fn expr_for_struct(
     }
 }
 
-fn field_default_expr(field: &Field, container_has_default: bool) -> Option<TokenStream> {
+fn field_default_expr(
+    cont: &Container,
+    field: &Field,
+    container_has_default: bool,
+) -> Option<TokenStream> {
     let field_default = field.serde_attrs.default();
     if field.serde_attrs.skip_serializing() || (field_default.is_none() && !container_has_default) {
         return None;
@@ -803,41 +813,44 @@ fn field_default_expr(field: &Field, container_has_default: bool) -> Option<Toke
             let member = &field.member;
             quote!(#STRUCT_DEFAULT.#member)
         }
-        SerdeDefault::Default => quote!(<#ty>::default()),
+        SerdeDefault::Default => quote!(<#ty as ::core::default::Default>::default()),
         SerdeDefault::Path(path) => quote!(#path()),
     };
 
     let default_expr = if let Some(skip_if) = field.serde_attrs.skip_serializing_if() {
         quote! {
             {
-                let default = #default_expr;
+                let default: #ty = #default_expr;
                 if #skip_if(&default) {
-                    None
+                    ::core::option::Option::None
                 } else {
-                    Some(default)
+                    ::core::option::Option::Some(default)
                 }
             }
         }
     } else {
-        quote!(Some(#default_expr))
+        quote!(::core::option::Option::Some::<#ty>(#default_expr))
     };
 
     Some(if let Some(ser_with) = field.serde_attrs.serialize_with() {
+        let cont_name = &cont.ident;
+        let (impl_generics, ty_generics, where_clause) = cont.generics.split_for_impl();
+
         quote! {
             {
-                struct _SchemarsDefaultSerialize<T>(T);
+                struct _SchemarsDefaultSerialize<_T, _C: ?::core::marker::Sized>(_T, ::core::marker::PhantomData<_C>);
 
-                impl serde::Serialize for _SchemarsDefaultSerialize<#ty>
+                impl #impl_generics schemars::_private::serde::Serialize for _SchemarsDefaultSerialize<#ty, #cont_name #ty_generics> #where_clause
                 {
-                    fn serialize<S>(&self, serializer: S) -> ::core::result::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> ::core::result::Result<__S::Ok, __S::Error>
                     where
-                        S: serde::Serializer
+                        __S: schemars::_private::serde::Serializer
                     {
                         #ser_with(&self.0, serializer)
                     }
                 }
 
-                #default_expr.map(|d| _SchemarsDefaultSerialize(d))
+                #default_expr.map(|d| _SchemarsDefaultSerialize::<#ty, #cont_name #ty_generics>(d, ::core::marker::PhantomData))
             }
         }
     } else {
-- 
2.43.0


From df64315f7f22374a35765517c698fed938d73096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 31/44] fix: bound type parameters that with, from, into and
 default attributes need, and not those they make irrelevant

---
 schemars_derive/src/ast/mod.rs |  24 ++++-
 schemars_derive/src/bound.rs   | 154 +++++++++++++++++++++++++--------
 2 files changed, 139 insertions(+), 39 deletions(-)

diff --git a/schemars_derive/src/ast/mod.rs b/schemars_derive/src/ast/mod.rs
index 1740a06..598db1f 100644
--- a/schemars_derive/src/ast/mod.rs
+++ b/schemars_derive/src/ast/mod.rs
@@ -74,7 +74,11 @@ impl<'a> Container<'a> {
     pub fn deserialized_type(&self) -> TokenStream {
         match self.serde_attrs.remote() {
             Some(remote) => quote!(#remote),
-            None => quote!(Self),
+            None => {
+                let ident = &self.ident;
+                let (_, ty_generics, _) = self.generics.split_for_impl();
+                quote!(#ident #ty_generics)
+            }
         }
     }
 
@@ -89,6 +93,24 @@ impl<'a> Container<'a> {
     }
 }
 
+impl<'a> Data<'a> {
+    /// All fields, with the variants that they belong to
+    pub fn fields_with_variants(
+        &self,
+    ) -> impl Iterator<Item = (&Field<'a>, Option<&Variant<'a>>)> {
+        let (variants, fields) = match self {
+            Data::Enum(variants) => (variants.as_slice(), &[][..]),
+            Data::Struct(_, fields) => (&[][..], fields.as_slice()),
+        };
+
+        let variant_fields = variants
+            .iter()
+            .flat_map(|v| v.fields.iter().map(move |f| (f, Some(v))));
+
+        variant_fields.chain(fields.iter().map(|f| (f, None)))
+    }
+}
+
 impl Variant<'_> {
     pub fn name(&self) -> Name<'_> {
         Name(self.serde_attrs.name())
diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..920db73 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -2,6 +2,10 @@ use crate::{
     ast::{Container, Data, Field, Variant},
     attr::WithAttr,
 };
+use proc_macro2::TokenStream;
+use quote::ToTokens;
+use serde_derive_internals::ast::Style;
+use serde_derive_internals::attr::Default as SerdeDefault;
 use std::collections::BTreeSet;
 use syn::{punctuated::Punctuated, Ident};
 
@@ -28,36 +32,35 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
 
     let mut field_explicit_bounds = Vec::new();
 
-    if visitor.all_type_params.len() > visitor.relevant_type_params.len() {
-        match &cont.data {
-            Data::Enum(variants) => {
-                for variant in variants {
-                    let relevant_fields = variant
-                        .fields
-                        .iter()
-                        .filter(|field| needs_jsonschema_bound(field, Some(variant)));
-
-                    for field in relevant_fields {
-                        field_explicit_bounds.extend(field.serde_attrs.de_bound());
-                        visitor.visit_field(field);
-                    }
-                }
-            }
-            Data::Struct(_, fields) => {
-                let relevant_fields = fields
-                    .iter()
-                    .filter(|field| needs_jsonschema_bound(field, None));
-
-                for field in relevant_fields {
-                    field_explicit_bounds.extend(field.serde_attrs.de_bound());
-                    visitor.visit_field(field);
-                }
+    for (field, variant) in cont.data.fields_with_variants() {
+        if needs_jsonschema_bound(field, variant) {
+            field_explicit_bounds.extend(field.serde_attrs.de_bound());
+        }
+    }
+
+    if let Some(with) = &cont.attrs.with {
+        visitor.visit_with(None, with);
+    } else {
+        let from = cont.serde_attrs.type_from();
+        let from = from.or(cont.serde_attrs.type_try_from());
+        let into = cont.serde_attrs.type_into();
+        let transparent = cont.serde_attrs.transparent();
+
+        if !transparent {
+            for ty in from.into_iter().chain(into) {
+                visitor.visit_type(None, ty);
             }
         }
+
+        if transparent || from.is_none() || into.is_none() {
+            visitor.visit_data(&cont.data);
+        }
     }
 
     cont.relevant_type_params = visitor.relevant_type_params;
 
+    let default_types = default_types(cont, &visitor.all_type_params);
+
     let where_clause = cont.generics.make_where_clause();
 
     if let Some(bounds) = cont.serde_attrs.de_bound() {
@@ -87,6 +90,12 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
                     })]),
                 })
             }));
+
+        where_clause
+            .predicates
+            .extend(default_types.iter().map(|ty| -> syn::WherePredicate {
+                parse_quote!(#ty: ::core::default::Default)
+            }));
     }
 
     where_clause
@@ -94,6 +103,47 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         .extend(field_explicit_bounds.into_iter().flatten().cloned());
 }
 
+/// Types that use type params, and of which the impl constructs default values.
+fn default_types(cont: &Container, all_type_params: &BTreeSet<&Ident>) -> Vec<TokenStream> {
+    let mut types = Vec::new();
+
+    if all_type_params.is_empty() || cont.attrs.with.is_some() || cont.serde_attrs.transparent() {
+        return types;
+    }
+
+    if let (SerdeDefault::Default, Data::Struct(Style::Struct, _)) =
+        (cont.serde_attrs.default(), &cont.data)
+    {
+        types.push(cont.deserialized_type());
+    }
+
+    for (field, variant) in cont.data.fields_with_variants() {
+        if matches!(field.serde_attrs.default(), SerdeDefault::Default)
+            && matches!(field.member, syn::Member::Named(_))
+            && !field.serde_attrs.flatten()
+            && !field.serde_attrs.skip_serializing()
+            && field.serde_attrs.de_bound().is_none()
+            && variant.map_or(true, |v| {
+                v.attrs.with.is_none()
+                    && !(v.serde_attrs.skip_serializing() && v.serde_attrs.skip_deserializing())
+            })
+        {
+            let mut visitor = FindTyParams {
+                all_type_params: all_type_params.clone(),
+                relevant_type_params: BTreeSet::new(),
+                type_params_for_bound: BTreeSet::new(),
+            };
+            visitor.visit_type(None, field.ty);
+
+            if !visitor.relevant_type_params.is_empty() {
+                types.push(field.ty.to_token_stream());
+            }
+        }
+    }
+
+    types
+}
+
 fn needs_jsonschema_bound(field: &Field, variant: Option<&Variant>) -> bool {
     if let Some(variant) = variant {
         if variant.serde_attrs.skip_deserializing() && variant.serde_attrs.skip_serializing() {
@@ -116,17 +166,45 @@ struct FindTyParams<'ast> {
 
 #[allow(clippy::single_match)]
 impl FindTyParams<'_> {
-    fn visit_field(&mut self, field: &Field) {
-        match &field.attrs.with {
-            Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
-            Some(WithAttr::Function(_)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`
+    fn visit_data(&mut self, data: &Data) {
+        match data {
+            Data::Enum(variants) => {
+                for variant in variants {
+                    match &variant.attrs.with {
+                        Some(with) => self.visit_with(None, with),
+                        None => self.visit_fields(&variant.fields, Some(variant)),
+                    }
+                }
+            }
+            Data::Struct(_, fields) => self.visit_fields(fields, None),
+        }
+    }
+
+    fn visit_fields(&mut self, fields: &[Field], variant: Option<&Variant>) {
+        for field in fields {
+            if needs_jsonschema_bound(field, variant) {
+                match &field.attrs.with {
+                    Some(with) => self.visit_with(Some(field), with),
+                    None => self.visit_type(Some(field), field.ty),
+                }
+            }
+        }
+    }
+
+    fn visit_with(&mut self, field: Option<&Field>, with: &WithAttr) {
+        match with {
+            WithAttr::Type(ty) => self.visit_type(field, ty),
+            WithAttr::Function(path) => {
+                // `schema_with` function type params may or may not implement `JsonSchema`, but the
+                // function's result may depend on them
+                let type_params_for_bound = self.type_params_for_bound.clone();
+                self.visit_path(field, path);
+                self.type_params_for_bound = type_params_for_bound;
             }
-            None => self.visit_type(field, &field.original.ty),
         }
     }
 
-    fn visit_path(&mut self, field: &Field, path: &syn::Path) {
+    fn visit_path(&mut self, field: Option<&Field>, path: &syn::Path) {
         if let Some(seg) = path.segments.last() {
             if seg.ident == "PhantomData" {
                 // Hardcoded exception, because PhantomData<T> implements
@@ -140,7 +218,7 @@ impl FindTyParams<'_> {
                 let id = &first_segment.ident;
                 if let Some(id) = self.all_type_params.get(id) {
                     self.relevant_type_params.insert(id);
-                    if field.serde_attrs.de_bound().is_none() {
+                    if field.map_or(true, |f| f.serde_attrs.de_bound().is_none()) {
                         self.type_params_for_bound.insert(id);
                     }
                 }
@@ -152,7 +230,7 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_type(&mut self, field: &Field, ty: &syn::Type) {
+    fn visit_type(&mut self, field: Option<&Field>, ty: &syn::Type) {
         match ty {
             syn::Type::Array(ty) => self.visit_type(field, &ty.elem),
             syn::Type::BareFn(ty) => {
@@ -194,11 +272,11 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_path_segment(&mut self, field: &Field, segment: &syn::PathSegment) {
+    fn visit_path_segment(&mut self, field: Option<&Field>, segment: &syn::PathSegment) {
         self.visit_path_arguments(field, &segment.arguments);
     }
 
-    fn visit_path_arguments(&mut self, field: &Field, arguments: &syn::PathArguments) {
+    fn visit_path_arguments(&mut self, field: Option<&Field>, arguments: &syn::PathArguments) {
         match arguments {
             syn::PathArguments::None => {}
             syn::PathArguments::AngleBracketed(arguments) => {
@@ -219,14 +297,14 @@ impl FindTyParams<'_> {
         }
     }
 
-    fn visit_return_type(&mut self, field: &Field, return_type: &syn::ReturnType) {
+    fn visit_return_type(&mut self, field: Option<&Field>, return_type: &syn::ReturnType) {
         match return_type {
             syn::ReturnType::Default => {}
             syn::ReturnType::Type(_, output) => self.visit_type(field, output),
         }
     }
 
-    fn visit_type_param_bound(&mut self, field: &Field, bound: &syn::TypeParamBound) {
+    fn visit_type_param_bound(&mut self, field: Option<&Field>, bound: &syn::TypeParamBound) {
         match bound {
             syn::TypeParamBound::Trait(bound) => self.visit_path(field, &bound.path),
             _ => {}
@@ -240,7 +318,7 @@ impl FindTyParams<'_> {
     //         marker: PhantomData<T>,
     //     }
     #[allow(clippy::unused_self)]
-    fn visit_macro(&mut self, _field: &Field, _mac: &syn::Macro) {}
+    fn visit_macro(&mut self, _field: Option<&Field>, _mac: &syn::Macro) {}
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8b004b9d12a4979489beafb12161cf4d6247240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 32/44] fix: separate parameters in schema ids, so that those
 which run together are told apart

---
 schemars_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..edce0d9 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -124,7 +124,9 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        let param_count = const_params.len() + relevant_type_params.len();
+        // Separated, so that e.g. `<1, 12>` and `<11, 2>` are told apart
+        let format_string_braces = vec!["{}"; param_count].join(", ");
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
@@ -132,7 +134,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                     ::core::concat!(
                         ::core::module_path!(),
                         "::{}<",
-                        #(#format_string_braces,)*
+                        #format_string_braces,
                         ">"
                     ),
                     #name,
-- 
2.43.0


From 6138c653f794ad2e1eba354f4d6131de7662e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:06 +0000
Subject: [PATCH 33/44] fix: allow raw identifiers in rename format strings

---
 schemars_derive/src/name.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schemars_derive/src/name.rs b/schemars_derive/src/name.rs
index ecc4635..d31bfba 100644
--- a/schemars_derive/src/name.rs
+++ b/schemars_derive/src/name.rs
@@ -1,6 +1,6 @@
 use serde_derive_internals::Ctxt;
 use std::collections::{BTreeMap, BTreeSet};
-use syn::Ident;
+use syn::{ext::IdentExt, Ident};
 
 pub fn get_rename_format_type_params<'a>(
     errors: &Ctxt,
@@ -23,11 +23,11 @@ pub fn get_rename_format_type_params<'a>(
     }
 
     let all_const_params =
-        BTreeSet::from_iter(generics.const_params().map(|c| c.ident.to_string()));
+        BTreeSet::from_iter(generics.const_params().map(|c| c.ident.unraw().to_string()));
     let all_type_params = BTreeMap::from_iter(
         generics
             .type_params()
-            .map(|c| (c.ident.to_string(), &c.ident)),
+            .map(|c| (c.ident.unraw().to_string(), &c.ident)),
     );
 
     let mut segments = str_value.split('{');
-- 
2.43.0


From bb42a25c3998cbe071bda16c9e7159a11ea72314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:56 +0000
Subject: [PATCH 34/44] fix: reject any string literal as a transform, not only
 one containing an expression

---
 schemars_derive/src/attr/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 5e6c1a4..2cda3a0 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -143,15 +143,21 @@ impl CommonAttrs {
                         ..
                     }) = &expr
                     {
-                        if lit_str.parse::<Expr>().is_ok() {
-                            cx.error_spanned_by(
-                                &expr,
-                                format_args!(
-                                    "Expected a `fn(&mut Schema)` or other value implementing `schemars::transform::Transform`, found `&str`.\nDid you mean `#[schemars(transform = {})]`?",
-                                    lit_str.value()
-                                ),
-                            );
-                        }
+                        let hint = if lit_str.parse::<Expr>().is_ok() {
+                            format!(
+                                "\nDid you mean `#[schemars(transform = {})]`?",
+                                lit_str.value()
+                            )
+                        } else {
+                            String::new()
+                        };
+
+                        cx.error_spanned_by(
+                            &expr,
+                            format_args!(
+                                "Expected a `fn(&mut Schema)` or other value implementing `schemars::transform::Transform`, found `&str`.{hint}",
+                            ),
+                        );
                     } else {
                         self.transforms.push(expr);
                     }
-- 
2.43.0


From 7415ffc3cd041f744216b45270d0e188b5bff5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 35/44] fix: allow validate(required(...)) to have arguments,
 as validator does

---
 schemars_derive/src/attr/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index a09df00..cd9eb2c 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -174,7 +174,8 @@ impl ValidationAttrs {
             "required" => {
                 if self.required {
                     cx.duplicate_error(&meta);
-                } else if require_path_only(&meta, cx).is_ok() {
+                } else if cx.attr_type == "validate" || require_path_only(&meta, cx).is_ok() {
+                    // As for formats, validator allows e.g. `required(message = "...")`
                     self.required = true;
                 }
             }
-- 
2.43.0


From efbec8bf067c7cdb196f76c6bc4345a15424b1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 36/44] fix: reject items within schemars(inner(...)) that only
 have a meaning outside of it

---
 schemars_derive/src/attr/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 2cda3a0..d2b9f6a 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -487,6 +487,7 @@ pub struct AttrCtxt<'a> {
     inner: &'a Ctxt,
     attr_type: &'static str,
     metas: Vec<CustomMeta>,
+    nested: bool,
 }
 
 impl<'a> AttrCtxt<'a> {
@@ -495,11 +496,16 @@ impl<'a> AttrCtxt<'a> {
             inner,
             attr_type,
             metas: get_meta_items(attrs, attr_type, inner),
+            nested: false,
         }
     }
 
     pub fn new_nested_meta(&self, metas: Vec<CustomMeta>) -> Self {
-        Self { metas, ..*self }
+        Self {
+            metas,
+            nested: true,
+            ..*self
+        }
     }
 
     pub fn parse_meta(
@@ -556,7 +562,12 @@ impl<'a> AttrCtxt<'a> {
 impl Drop for AttrCtxt<'_> {
     fn drop(&mut self) {
         if self.attr_type == "schemars" {
-            for unhandled_meta in self.metas.iter().filter(|m| !is_schemars_serde_keyword(m)) {
+            // serde_derive_internals only sees items that are not nested within another
+            for unhandled_meta in self
+                .metas
+                .iter()
+                .filter(|m| self.nested || !is_schemars_serde_keyword(m))
+            {
                 self.error_spanned_by(
                     unhandled_meta.path(),
                     format_args!(
-- 
2.43.0


From 2b2d66e35a494d0f0c3c25bde80ae891111a4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:31 +0000
Subject: [PATCH 37/44] fix: locate errors about serde-style attribute items
 that lack a value at the item

---
 schemars_derive/src/attr/schemars_to_serde.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/schemars_derive/src/attr/schemars_to_serde.rs b/schemars_derive/src/attr/schemars_to_serde.rs
index 631c462..9228f9d 100644
--- a/schemars_derive/src/attr/schemars_to_serde.rs
+++ b/schemars_derive/src/attr/schemars_to_serde.rs
@@ -3,6 +3,8 @@ use serde_derive_internals::Ctxt;
 use std::collections::btree_map::Entry;
 use std::collections::{BTreeMap, BTreeSet};
 use syn::parse::Parser;
+use syn::punctuated::Punctuated;
+use syn::spanned::Spanned;
 use syn::{Attribute, Data, Field, Variant};
 
 use super::{get_meta_items, CustomMeta};
@@ -149,9 +151,18 @@ fn process_attrs(ctxt: &Ctxt, attrs: &mut Vec<Attribute>) {
         }
     }
 
-    if !effective_serde_meta.is_empty() {
-        let new_serde_attr = quote! {
-            #[serde(#(#effective_serde_meta),*)]
+    if let Some(last) = effective_serde_meta.last() {
+        // An error about an item that ends too early is located at what comes after it, which is
+        // not in the source, so give that the item's span.
+        let mut items = Punctuated::<_, Token![,]>::new();
+        for meta in &effective_serde_meta {
+            if let Some(previous) = items.last().map(Spanned::span) {
+                items.push_punct(Token![,](previous));
+            }
+            items.push_value(meta);
+        }
+        let new_serde_attr = quote_spanned! {last.span()=>
+            #[serde(#items)]
         };
 
         let parser = Attribute::parse_outer;
-- 
2.43.0


From 4b9199a15be5e80118d9c8714be2c9bb75676888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:39 +0000
Subject: [PATCH 38/44] fix: terminate for required fields that optionally
 contain their own type

---
 schemars/src/json_schema_impls/core.rs | 4 ++++
 schemars/src/json_schema_impls/mod.rs  | 5 +++++
 schemars/src/lib.rs                    | 9 +++++++++
 schemars_derive/src/lib.rs             | 4 ++++
 schemars_derive/src/schema_exprs.rs    | 2 +-
 5 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/schemars/src/json_schema_impls/core.rs b/schemars/src/json_schema_impls/core.rs
index 936e740..958b82b 100644
--- a/schemars/src/json_schema_impls/core.rs
+++ b/schemars/src/json_schema_impls/core.rs
@@ -28,6 +28,10 @@ impl<T: JsonSchema> JsonSchema for Option<T> {
         T::_schemars_private_non_optional_json_schema(generator)
     }
 
+    fn _schemars_private_non_optional_subschema(generator: &mut SchemaGenerator) -> Schema {
+        T::_schemars_private_non_optional_subschema(generator)
+    }
+
     fn _schemars_private_is_option() -> bool {
         true
     }
diff --git a/schemars/src/json_schema_impls/mod.rs b/schemars/src/json_schema_impls/mod.rs
index 4b8c542..3fbe77b 100644
--- a/schemars/src/json_schema_impls/mod.rs
+++ b/schemars/src/json_schema_impls/mod.rs
@@ -30,6 +30,11 @@ macro_rules! forward_impl {
                 <$target as $crate::JsonSchema>::_schemars_private_non_optional_json_schema(generator)
             }
 
+            fn _schemars_private_non_optional_subschema(generator: &mut $crate::SchemaGenerator) -> $crate::Schema {
+                #[allow(clippy::used_underscore_items)]
+                <$target as $crate::JsonSchema>::_schemars_private_non_optional_subschema(generator)
+            }
+
             fn _schemars_private_is_option() -> bool {
                 #[allow(clippy::used_underscore_items)]
                 <$target as $crate::JsonSchema>::_schemars_private_is_option()
diff --git a/schemars/src/lib.rs b/schemars/src/lib.rs
index bbacfea..6407ca1 100644
--- a/schemars/src/lib.rs
+++ b/schemars/src/lib.rs
@@ -181,6 +181,15 @@ pub trait JsonSchema {
         Self::json_schema(generator)
     }
 
+    // TODO document and bring into public API?
+    #[doc(hidden)]
+    fn _schemars_private_non_optional_subschema(generator: &mut SchemaGenerator) -> Schema {
+        // If the schema is already being generated, then it can only be referred to
+        generator
+            .json_schema_unless_pending::<Self>()
+            .unwrap_or_else(|| generator.subschema_for::<Self>())
+    }
+
     // TODO document and bring into public API?
     #[doc(hidden)]
     #[must_use]
diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index edce0d9..2a32250 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -86,6 +86,10 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                         <#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
                     }
 
+                    fn _schemars_private_non_optional_subschema(#GENERATOR: &mut schemars::SchemaGenerator) -> schemars::Schema {
+                        <#ty as schemars::JsonSchema>::_schemars_private_non_optional_subschema(#GENERATOR)
+                    }
+
                     fn _schemars_private_is_option() -> bool {
                         <#ty as schemars::JsonSchema>::_schemars_private_is_option()
                     }
diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index c04e02c..f708176 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -180,7 +180,7 @@ fn expr_for_field(
 
     let schema_expr = if field.attrs.validation.required {
         quote_spanned! {span=>
-            <#ty as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(#GENERATOR)
+            <#ty as schemars::JsonSchema>::_schemars_private_non_optional_subschema(#GENERATOR)
         }
     } else if is_internal_tagged_enum_newtype {
         quote_spanned! {span=>
-- 
2.43.0


From b5d54e191abc4985dfc68e240506151c4405b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 39/44] fix: terminate for types that are flattened into
 themselves

---
 schemars/src/_private/mod.rs | 10 ++++++----
 schemars/src/generate.rs     | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 282a823..d0b713c 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -98,10 +98,12 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         schema
     }
 
-    inner(
-        T::_schemars_private_non_optional_json_schema(generator),
-        T::_schemars_private_is_option() && !required,
-    )
+    let Some(schema) = generator.json_schema_unless_flattening::<T>() else {
+        // `T` is (indirectly) flattened into itself, so its properties are already included
+        return Schema::default();
+    };
+
+    inner(schema, T::_schemars_private_is_option() && !required)
 }
 
 // Special handling for externally-tagged enums with unit variants.
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 2718739..b6807e3 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -240,6 +240,8 @@ pub struct SchemaGenerator {
     // It's unlikely that `root_schema_id_stack` will ever contain more than one item, but it is
     // possible, e.g. if a `json_schema()` implementation calls `generator.root_schema_for<...>()`
     root_schema_id_stack: Vec<SchemaUid>,
+    // The types being flattened (directly or indirectly) into the schema being generated
+    flattening_schema_ids: BTreeSet<SchemaUid>,
 }
 
 impl Default for SchemaGenerator {
@@ -258,6 +260,7 @@ impl Clone for SchemaGenerator {
             schema_id_to_name: self.schema_id_to_name.clone(),
             used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
+            flattening_schema_ids: BTreeSet::new(),
         }
     }
 }
@@ -279,6 +282,7 @@ impl SchemaGenerator {
             schema_id_to_name: BTreeMap::new(),
             used_schema_names: BTreeSet::new(),
             root_schema_id_stack: Vec::new(),
+            flattening_schema_ids: BTreeSet::new(),
         }
     }
 
@@ -584,9 +588,12 @@ impl SchemaGenerator {
 
     fn json_schema_internal<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
         let did_add = self.pending_schema_ids.insert(uid.clone());
+        let outer_flattening = core::mem::take(&mut self.flattening_schema_ids);
 
         let schema = T::json_schema(self);
 
+        self.flattening_schema_ids = outer_flattening;
+
         if did_add {
             self.pending_schema_ids.remove(uid);
         }
@@ -601,6 +608,25 @@ impl SchemaGenerator {
         (!self.pending_schema_ids.contains(&uid)).then(|| self.json_schema_internal::<T>(&uid))
     }
 
+    /// Generates a (non-optional) schema for `T` to be flattened into the schema that is being
+    /// generated, unless `T` is already being flattened into it.
+    pub(crate) fn json_schema_unless_flattening<T: ?Sized + JsonSchema>(
+        &mut self,
+    ) -> Option<Schema> {
+        let uid = self.schema_uid::<T>();
+
+        if !self.flattening_schema_ids.insert(uid.clone()) {
+            return None;
+        }
+
+        #[allow(clippy::used_underscore_items)]
+        let schema = T::_schemars_private_non_optional_json_schema(self);
+
+        self.flattening_schema_ids.remove(&uid);
+
+        Some(schema)
+    }
+
     fn add_definitions(
         &mut self,
         schema_object: &mut JsonMap<String, Value>,
-- 
2.43.0


From 09a72115cfc9e4b4ef16bb0e4dd5c36d723ab268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:25 +0000
Subject: [PATCH 40/44] fix: modify a copy of the definition when flattening or
 tagging a type whose schema is a reference

---
 schemars/src/_private/mod.rs           |  7 ++++-
 schemars/src/generate.rs               | 39 ++++++++++++++++++++++++++
 schemars/src/json_schema_impls/maps.rs |  9 ++----
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index d0b713c..21918bb 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -22,6 +22,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
         return generator.subschema_for::<T>();
     };
 
+    generator.inline_ref(&mut schema);
+
     // Inline the newtype's inner schema if any of:
     // - The type specifies that its schema should always be inlined
     // - The generator settings specify that all schemas should be inlined
@@ -98,11 +100,14 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         schema
     }
 
-    let Some(schema) = generator.json_schema_unless_flattening::<T>() else {
+    let Some(mut schema) = generator.json_schema_unless_flattening::<T>() else {
         // `T` is (indirectly) flattened into itself, so its properties are already included
         return Schema::default();
     };
 
+    // The schema is going to be modified, so must not be a `$ref`
+    generator.inline_ref(&mut schema);
+
     inner(schema, T::_schemars_private_is_option() && !required)
 }
 
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index b6807e3..fbca960 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -664,6 +664,45 @@ impl SchemaGenerator {
         format!("#{path}/")
     }
 
+    /// Finds the definition that the given `$ref` refers to
+    pub(crate) fn find_definition(&self, reference: &str) -> Option<&Value> {
+        let encoded_name = reference.strip_prefix(&self.definitions_ref_prefix())?;
+
+        self.definitions()
+            .iter()
+            .find(|(name, _)| crate::encoding::encode_ref_name(name) == encoded_name)
+            .map(|(_, definition)| definition)
+    }
+
+    /// Replaces a schema that is a `$ref` (e.g. that of a newtype struct) with a copy of the schema
+    /// that it refers to, if that has been generated already. Any metadata beside the `$ref` is kept.
+    pub(crate) fn inline_ref(&self, schema: &mut Schema) {
+        // A chain of references longer than the number of definitions never ends
+        for _ in 0..=self.definitions().len() {
+            let Some(obj) = schema.as_object_mut() else {
+                return;
+            };
+            let Some(Value::Object(definition)) = obj
+                .get("$ref")
+                .and_then(Value::as_str)
+                .and_then(|r| self.find_definition(r))
+            else {
+                return;
+            };
+
+            let is_metadata = |key: &str| matches!(key, "title" | "description" | "deprecated");
+            if obj
+                .keys()
+                .any(|k| k != "$ref" && definition.contains_key(k) && !is_metadata(k))
+            {
+                return;
+            }
+
+            let metadata = core::mem::replace(obj, definition.clone());
+            obj.extend(metadata.into_iter().filter(|(k, _)| k != "$ref"));
+        }
+    }
+
     fn schema_uid<T: ?Sized + JsonSchema>(&self) -> SchemaUid {
         SchemaUid(T::schema_id(), self.settings.contract.clone())
     }
diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index e473d64..2ecfad1 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -1,5 +1,4 @@
 use crate::_alloc_prelude::*;
-use crate::encoding::encode_ref_name;
 use crate::{json_schema, JsonSchema, Schema, SchemaGenerator};
 use alloc::borrow::Cow;
 use alloc::collections::{BTreeMap, BTreeSet};
@@ -28,14 +27,10 @@ fn collect_key_options<'a>(
     let definition = object
         .get("$ref")
         .and_then(Value::as_str)
-        .and_then(|r| r.strip_prefix(&generator.definitions_ref_prefix()))
-        .and_then(|r| {
-            let mut definitions = generator.definitions().iter();
-            definitions.find(|(name, _)| encode_ref_name(name) == r)
-        });
+        .and_then(|r| generator.find_definition(r));
 
     // A chain of references longer than the number of definitions never ends
-    if let Some((_, definition)) = definition {
+    if let Some(definition) = definition {
         if depth <= generator.definitions().len() && definition.is_object() {
             return collect_key_options(generator, definition, depth + 1, options);
         }
-- 
2.43.0


From 3226802c95dbbc0184a0405fa993442be2a893c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 41/44] fix: do not list a property twice in required when
 flattening or tagging

---
 schemars/src/_private/mod.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 21918bb..dfaaecc 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -349,7 +349,9 @@ pub fn apply_internal_enum_variant_tag(
         .or_insert(Value::Array(Vec::new()))
         .as_array_mut()
     {
-        required.insert(0, tag_name.into());
+        if !required.iter().any(|r| r == tag_name) {
+            required.insert(0, tag_name.into());
+        }
     }
 
     if deny_unknown_fields && is_unit {
@@ -378,7 +380,7 @@ pub fn insert_object_property(
             .or_insert(Value::Array(Vec::new()))
             .as_array_mut()
         {
-            req.push(key.into());
+            push_if_absent(req, key.into());
         }
     }
 }
@@ -390,7 +392,14 @@ pub fn require_property(schema: &mut Schema, key: &str) {
         .or_insert(Value::Array(Vec::new()))
         .as_array_mut()
     {
-        req.push(key.into());
+        push_if_absent(req, key.into());
+    }
+}
+
+// The items of `required` must be unique
+fn push_if_absent(array: &mut Vec<Value>, value: Value) {
+    if !array.contains(&value) {
+        array.push(value);
     }
 }
 
@@ -475,7 +484,16 @@ pub fn flatten(schema: &mut Schema, other: Schema) {
             }
             Entry::Occupied(occupied) => {
                 match occupied.key().as_str() {
-                    "required" | "allOf" => {
+                    "required" => {
+                        if let Value::Array(a1) = occupied.into_mut() {
+                            if let Value::Array(a2) = value2 {
+                                for item in a2 {
+                                    push_if_absent(a1, item);
+                                }
+                            }
+                        }
+                    }
+                    "allOf" => {
                         if let Value::Array(a1) = occupied.into_mut() {
                             if let Value::Array(a2) = value2 {
                                 a1.extend(a2);
-- 
2.43.0


From 174c698b412971c6404a2cbd89bbd518972a43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:35 +0000
Subject: [PATCH 42/44] fix: inline the content of tagged and required fields
 wherever their types are being generated

---
 schemars/src/_private/mod.rs |  2 +-
 schemars/src/generate.rs     | 30 +++++++++++++++++++++++++++---
 schemars/src/lib.rs          |  4 ++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index dfaaecc..1b66a2e 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -17,7 +17,7 @@ pub use rustdoc::get_title_and_description;
 pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSchema>(
     generator: &mut SchemaGenerator,
 ) -> Schema {
-    let Some(mut schema) = generator.json_schema_unless_pending::<T>() else {
+    let Some(mut schema) = generator.json_schema_unless_inlining::<T>() else {
         // The newtype's inner schema contains this variant, so it can only be referred to
         return generator.subschema_for::<T>();
     };
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index fbca960..ae9161a 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -242,6 +242,9 @@ pub struct SchemaGenerator {
     root_schema_id_stack: Vec<SchemaUid>,
     // The types being flattened (directly or indirectly) into the schema being generated
     flattening_schema_ids: BTreeSet<SchemaUid>,
+    // The types being inlined (directly or indirectly) within the schema being generated, which
+    // would otherwise be referred to
+    inlining_schema_ids: BTreeSet<SchemaUid>,
 }
 
 impl Default for SchemaGenerator {
@@ -261,6 +264,7 @@ impl Clone for SchemaGenerator {
             used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
             flattening_schema_ids: BTreeSet::new(),
+            inlining_schema_ids: BTreeSet::new(),
         }
     }
 }
@@ -283,6 +287,7 @@ impl SchemaGenerator {
             used_schema_names: BTreeSet::new(),
             root_schema_id_stack: Vec::new(),
             flattening_schema_ids: BTreeSet::new(),
+            inlining_schema_ids: BTreeSet::new(),
         }
     }
 
@@ -587,6 +592,16 @@ impl SchemaGenerator {
     }
 
     fn json_schema_internal<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
+        let outer_inlining = core::mem::take(&mut self.inlining_schema_ids);
+
+        let schema = self.json_schema_pending::<T>(uid);
+
+        self.inlining_schema_ids = outer_inlining;
+
+        schema
+    }
+
+    fn json_schema_pending<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
         let did_add = self.pending_schema_ids.insert(uid.clone());
         let outer_flattening = core::mem::take(&mut self.flattening_schema_ids);
 
@@ -602,10 +617,19 @@ impl SchemaGenerator {
     }
 
     /// Generates a schema for `T` that is neither a `$ref` nor added to the definitions, unless
-    /// that schema is already being generated.
-    pub(crate) fn json_schema_unless_pending<T: ?Sized + JsonSchema>(&mut self) -> Option<Schema> {
+    /// that schema is already being generated in this way (within the same definition).
+    pub(crate) fn json_schema_unless_inlining<T: ?Sized + JsonSchema>(&mut self) -> Option<Schema> {
         let uid = self.schema_uid::<T>();
-        (!self.pending_schema_ids.contains(&uid)).then(|| self.json_schema_internal::<T>(&uid))
+
+        if !self.inlining_schema_ids.insert(uid.clone()) {
+            return None;
+        }
+
+        let schema = self.json_schema_pending::<T>(&uid);
+
+        self.inlining_schema_ids.remove(&uid);
+
+        Some(schema)
     }
 
     /// Generates a (non-optional) schema for `T` to be flattened into the schema that is being
diff --git a/schemars/src/lib.rs b/schemars/src/lib.rs
index 6407ca1..266825c 100644
--- a/schemars/src/lib.rs
+++ b/schemars/src/lib.rs
@@ -184,9 +184,9 @@ pub trait JsonSchema {
     // TODO document and bring into public API?
     #[doc(hidden)]
     fn _schemars_private_non_optional_subschema(generator: &mut SchemaGenerator) -> Schema {
-        // If the schema is already being generated, then it can only be referred to
+        // If the schema is already being generated here, then it can only be referred to
         generator
-            .json_schema_unless_pending::<Self>()
+            .json_schema_unless_inlining::<Self>()
             .unwrap_or_else(|| generator.subschema_for::<Self>())
     }
 
-- 
2.43.0


From 5095684b7af55c194b7dfb6da91dfb2595bfc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:33 +0000
Subject: [PATCH 43/44] fix: no Default bounds for the fields of a type whose
 schemas are those of from and into types

---
 schemars_derive/src/bound.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 920db73..d4b65fb 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -107,7 +107,15 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
 fn default_types(cont: &Container, all_type_params: &BTreeSet<&Ident>) -> Vec<TokenStream> {
     let mut types = Vec::new();
 
-    if all_type_params.is_empty() || cont.attrs.with.is_some() || cont.serde_attrs.transparent() {
+    let from = cont.serde_attrs.type_from();
+    let from = from.or(cont.serde_attrs.type_try_from());
+    let converted = from.is_some() && cont.serde_attrs.type_into().is_some();
+
+    if all_type_params.is_empty()
+        || cont.attrs.with.is_some()
+        || cont.serde_attrs.transparent()
+        || converted
+    {
         return types;
     }
 
-- 
2.43.0


From caec0d2ae50f85e2bdcfafc81e9217aabe8ec1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:47 +0000
Subject: [PATCH 44/44] fix: do not require the enums flattened into a type of
 which an Option is flattened

---
 schemars/src/_private/mod.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1b66a2e..49820cc 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -69,23 +69,19 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         if is_optional {
             schema.remove("required");
 
-            // Handle `Option<>` of externally/internally/adjacently-tagged enums
-            if let Some(one_of) = schema.remove("oneOf") {
+            if schema.get("oneOf").is_some() || schema.get("allOf").is_some() {
+                // Handle `Option<>` of externally/internally/adjacently-tagged enums, and of types
+                // that themselves flatten multiple enums.
                 // We can't just add `{}` to the existing `oneOf`, because its items must be
                 // mutually-exclusive, and `{}` matches everything.
-                flatten(
-                    &mut schema,
-                    json_schema!({
-                        "anyOf": [
-                            { "oneOf": one_of },
-                            {}
-                        ]
-                    }),
-                );
-            }
-
-            // Handle `Option<>` of untagged enums
-            if let Some(Value::Array(any_of)) = schema.get_mut("anyOf") {
+                let enums: Map<String, Value> = ["allOf", "anyOf", "oneOf"]
+                    .iter()
+                    .filter_map(|key| Some(((*key).to_owned(), schema.remove(*key)?)))
+                    .collect();
+
+                flatten(&mut schema, json_schema!({ "anyOf": [enums, {}] }));
+            } else if let Some(Value::Array(any_of)) = schema.get_mut("anyOf") {
+                // Handle `Option<>` of untagged enums
                 let empty_object = Value::Object(Map::new());
                 if !any_of.contains(&empty_object) {
                     any_of.push(empty_object);
-- 
2.43.0

