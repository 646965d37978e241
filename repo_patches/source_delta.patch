From 18c0571d2f107045d2c6cc8a02bf58354d6b5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 01/54] fix: optional enum field decoding used the bare enum
 name and ignored repetition

The Rust renderer emitted the enum's own name instead of the reference as
written, so an optional field of an enum declared in another group did not
compile, and an optional repeated enum field did not compile at all.
---
 cli/src/protocol/render/rust/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 54554e5..12ad94e 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -97,7 +97,7 @@ impl RustRender {
         for field in &strct.fields {
             if field.optional {
                 if let Some(id) = field.ref_type_id {
-                    if let Some(enums) = store.get_enum(id) {
+                    if store.get_enum(id).is_some() {
                         body = format!(
                             "{}{}if let Some(buf) = storage.get({}) {{\n",
                             body,
@@ -112,7 +112,11 @@ impl RustRender {
                             field.name
                         );
                         body = format!("{}{}}} else {{\n", body, self.spaces(level + 3));
-                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, enums.name, field.id);
+                        let mut type_ref = self.get_type_ref(field);
+                        if field.repeated {
+                            type_ref = format!("Vec::<{}>", type_ref);
+                        }
+                        body = format!("{}{}self.{} = match {}::get_from_storage(Source::Storage(&mut storage), Some({})) {{\n", body, self.spaces(level + 4), field.name, type_ref, field.id);
                         body = format!("{}{}Ok(val) => Some(val),\n", body, self.spaces(level + 5));
                         body = format!(
                             "{}{}Err(e) => {{ return Err(e) }},\n",
-- 
2.43.0


From e0b4b11946e5f6cd1f4a0bc7619f4f7e2028a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 02/54] fix: TypeScript output referred to types of other
 groups by their bare name

References to enums (interfaces and classes), to repeated structs and to
structs inside enums were rendered without their group path, so the output
did not resolve when the type is declared in another group.
---
 cli/src/protocol/render/typescript/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index e052e23..b108f89 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -423,7 +423,7 @@ impl TypescriptRender {
                         body,
                         self.spaces(level + 1),
                         field.name,
-                        enums.name,
+                        store.get_enum_path(enums.id).join("."),
                     );
                     body = format!(
                         "{}\n{}{}this._{}.set(this.{});",
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, strct.name, if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
@@ -1159,7 +1159,7 @@ impl TypescriptRender {
                         store.get_struct_path(strct.id).join("."),
                         store.get_struct_path(strct.id).join(".")
                     );
-                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, strct.name, field.id, field.name, field.name);
+                    body = format!("{}\n{}const arr{}: Array<any> | Error = this.getValue<{}[]>(storage, {}, arr{}Inst.decodeSelfArray.bind(arr{}Inst));", body, self.spaces(level), field.name, store.get_struct_path(strct.id).join("."), field.id, field.name, field.name);
                     body = format!(
                         "{}\n{}if (arr{} instanceof Error) {{",
                         body,
@@ -1187,7 +1187,7 @@ impl TypescriptRender {
                         "{}const {}: {} = {};",
                         self.spaces(level),
                         field.name,
-                        field.get_full_name().join("."),
+                        store.get_struct_path(strct.id).join("."),
                         self.entity_default(entity_id, &mut store.clone(), level)
                     );
                     body = format!(
@@ -1216,7 +1216,7 @@ impl TypescriptRender {
                         body,
                         self.spaces(level),
                         field.name,
-                        field.get_full_name().join("."),
+                        store.get_struct_path(strct.id).join("."),
                         field.name,
                         field.name
                     );
@@ -1344,7 +1344,8 @@ impl TypescriptRender {
             };
             if let Some(strct) = store.get_struct(entity_id) {
                 if field.repeated {
-                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, strct.name, strct.name, strct.name, field.id, field.name);
+                    let path = store.get_struct_path(strct.id).join(".");
+                    body = format!("() => {{{} const self: {} = {}.defaults(); return this.getBufferFromBuf<{}[]>({}, Protocol.ESize.u64, self.encodeSelfArray.bind(self), this.{}); }}", optional, path, path, path, field.id, field.name);
                 } else {
                     body = format!("() => {{{} const buffer = this.{}.encode(); return this.getBuffer({}, Protocol.ESize.u64, BigInt(buffer.byteLength), buffer); }}", optional, field.name, field.id);
                 }
@@ -1431,7 +1432,10 @@ impl TypescriptRender {
                     if store.get_struct(ref_type_id).is_some() {
                         store.get_struct_path(ref_type_id).join(".")
                     } else if let Some(enums) = store.get_enum(ref_type_id) {
-                        format!("I{}", enums.name)
+                        let mut path = store.get_enum_path(ref_type_id);
+                        path.pop();
+                        path.push(format!("I{}", enums.name));
+                        path.join(".")
                     } else {
                         stop!(
                             "Fail to find a struct/enum id: {} for field {}",
-- 
2.43.0


From 50d8001a16eb9c759f72609bc70b4db64dd7d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 03/54] fix: TypeScript output failed to load when a struct
 refers to a later rendered group

The static validation scheme called getValidator() of the referenced class
while the module was loading; root structs are rendered before groups and
group structs before nested groups, so the referenced namespace did not
exist yet. The validator is now looked up when a value is validated.
---
 cli/src/protocol/render/typescript/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index b108f89..94685d8 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1056,7 +1056,7 @@ impl TypescriptRender {
         if let Some(entity_id) = field.ref_type_id {
             if let Some(strct) = store.get_struct(entity_id) {
                 body = format!(
-                    "{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: {} }},",
+                    "{}\n{}{{ prop: '{}', types: {{ validate(value: any): Error | undefined {{ return {}.getValidator({}).validate(value); }} }}, optional: {} }},",
                     body,
                     self.spaces(level),
                     field.name,
@@ -1075,7 +1075,7 @@ impl TypescriptRender {
                 for variant in &enums.variants {
                     if let Some(struct_id) = variant.ref_type_id {
                         if let Some(strct) = store.get_struct(struct_id) {
-                            body = format!("{}\n{}{{ prop: '{}', types: {}.getValidator({}), optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
+                            body = format!("{}\n{}{{ prop: '{}', types: {{ validate(value: any): Error | undefined {{ return {}.getValidator({}).validate(value); }} }}, optional: false }},", body, self.spaces(level + 1), variant.name, store.get_struct_path(strct.id).join("."), if variant.repeated { "true" } else { "false" });
                         } else {
                             stop!("Nested enums aren't supported.");
                         }
-- 
2.43.0


From a0abf6ceef076fd735e7404d80dbf42721d1cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 04/54] fix: Rust reader panicked or allocated without bound on
 truncated message bodies

The field table was read without checking how many bytes are left: a body cut
inside a field header panicked, and a field length larger than the body was
allocated before the slice was taken.
---
 .../render/rust/static/protocol.storage.rs       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 20fb0fe..69f9fc8 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -49,6 +49,9 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U16_LEN {
+            return Err("Not enough bytes to read id of property".to_string());
+        }
         let id = cursor.get_u16_le();
         Ok((id, pos + sizes::U16_LEN))
     }
@@ -60,7 +63,13 @@ impl Storage {
         } else {
             return Err("Fail to set cursor position".to_string());
         }
+        if cursor.remaining() < sizes::U8_LEN {
+            return Err("Not enough bytes to read rank of property".to_string());
+        }
         let prop_body_len_rank = cursor.get_u8();
+        if cursor.remaining() < usize::from(prop_body_len_rank) / 8 {
+            return Err("Not enough bytes to read length of property".to_string());
+        }
         let prop_body_len_usize: usize;
         let prop_rank_len: usize = 1;
         let prop_size_len: usize;
@@ -101,6 +110,13 @@ impl Storage {
                 return Err(format!("Unknown rank has been gotten: {}", v));
             }
         };
+        if cursor.remaining() < prop_body_len_usize {
+            return Err(format!(
+                "Not enough bytes to read property: expecting {} bytes, but only {} left",
+                prop_body_len_usize,
+                cursor.remaining()
+            ));
+        }
         let mut prop_body_buf = vec![0; prop_body_len_usize];
         prop_body_buf.copy_from_slice(
             &buf[(pos + prop_rank_len + prop_size_len)
-- 
2.43.0


From a1553619d7b745ffcf4eb7dd78698ed0a4ab03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 05/54] fix: Rust reader overflowed on huge length fields

A declared length close to the maximum overflowed the size computation for
the message body and for items of struct and enum arrays: a panic with
overflow checks, an out of range slice without.
---
 cli/src/protocol/render/rust/static/protocol.decode.rs  | 4 ++--
 cli/src/protocol/render/rust/static/protocol.packing.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 3d2ad78..0306a0c 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -92,7 +92,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
@@ -606,7 +606,7 @@ where
                     return Err(format!("To extract length of string (u64) value from array buffer should have length at least {} bytes, but length is {}", sizes::U64_LEN, buf.len()));
                 }
                 let item_len: u64 = cursor.get_u64_le();
-                if buffer.len() < sizes::U64_LEN + item_len as usize {
+                if ((buffer.len() - sizes::U64_LEN) as u64) < item_len {
                     return Err(format!("Cannot extract string, because expecting {} bytes, but length of buffer is {}", item_len, (buffer.len() - sizes::U64_LEN)));
                 }
                 let mut item_buf = vec![0; item_len as usize];
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index f29a44e..1688ea4 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -98,7 +98,7 @@ pub fn get_header_from_buffer(buf: &[u8]) -> Result<PackageHeader, String> {
 }
 
 pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
-    buf.len() >= header.len_usize + MSG_HEADER_LEN
+    has_buffer_header(buf) && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
 pub fn get_body_from_buffer(
@@ -106,8 +106,8 @@ pub fn get_body_from_buffer(
     header: &PackageHeader,
     uuid: Option<String>,
 ) -> Result<(Vec<u8>, Vec<u8>), String> {
-    if buf.len() < header.len_usize + MSG_HEADER_LEN {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len() - MSG_HEADER_LEN));
+    if !has_buffer_body(buf, header) {
+        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len().saturating_sub(MSG_HEADER_LEN)));
     }
     // Get body
     let mut body = vec![0; header.len_usize];
-- 
2.43.0


From ee3e5f6f50bce867f040acccf90583cb3e873788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 06/54] fix: Rust reader refused enum options with an empty
 payload

An option holding an empty string, array or struct is encoded as its index
alone; the reader demanded at least one byte more, so a value packed by the
same code could not be read back.
---
 cli/src/protocol/render/rust/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 12ad94e..67f46fc 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -308,7 +308,7 @@ impl RustRender {
             enums.name
         );
         body = format!(
-            "{}{}if buf.len() <= sizes::U16_LEN {{\n",
+            "{}{}if buf.len() < sizes::U16_LEN {{\n",
             body,
             self.spaces(level + 2)
         );
-- 
2.43.0


From 39ec2c59c21a5780f1bbae4c5e83c4e297f126b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/54] fix: Rust reader decoded optional empty values as None

An optional field holding an empty string, list or struct came back as None:
the reader took any empty body for a missing value. The writer does tell
these apart (None has the 8 bits rank), so the storage now keeps that.
---
 cli/src/protocol/render/rust/mod.rs           |  9 ++++++--
 .../render/rust/static/protocol.decode.rs     |  7 +++++-
 .../render/rust/static/protocol.storage.rs    | 23 ++++++++++++++++---
 .../render/rust/static/protocol.uses.rs       |  2 +-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/cli/src/protocol/render/rust/mod.rs b/cli/src/protocol/render/rust/mod.rs
index 67f46fc..907d5f0 100644
--- a/cli/src/protocol/render/rust/mod.rs
+++ b/cli/src/protocol/render/rust/mod.rs
@@ -99,12 +99,17 @@ impl RustRender {
                 if let Some(id) = field.ref_type_id {
                     if store.get_enum(id).is_some() {
                         body = format!(
-                            "{}{}if let Some(buf) = storage.get({}) {{\n",
+                            "{}{}if storage.get({}).is_some() {{\n",
                             body,
                             self.spaces(level + 2),
                             field.id
                         );
-                        body = format!("{}{}if buf.is_empty() {{\n", body, self.spaces(level + 3));
+                        body = format!(
+                            "{}{}if storage.is_none({}) {{\n",
+                            body,
+                            self.spaces(level + 3),
+                            field.id
+                        );
                         body = format!(
                             "{}{}self.{} = None;\n",
                             body,
diff --git a/cli/src/protocol/render/rust/static/protocol.decode.rs b/cli/src/protocol/render/rust/static/protocol.decode.rs
index 0306a0c..8adcb15 100644
--- a/cli/src/protocol/render/rust/static/protocol.decode.rs
+++ b/cli/src/protocol/render/rust/static/protocol.decode.rs
@@ -642,8 +642,13 @@ where
     T: Decode<T>,
 {
     fn get_from_storage(source: Source, id: Option<u16>) -> Result<Option<T>, String> {
+        let none = match (&source, id) {
+            (Source::Storage(storage), Some(id)) => storage.is_none(id),
+            (Source::Storage(_), None) => false,
+            (Source::Buffer(buf), _) => buf.is_empty(),
+        };
         if let Ok(buf) = Self::get_buf_from_source(source, id) {
-            if buf.is_empty() {
+            if none {
                 Ok(None)
             } else {
                 match T::get_from_storage(Source::Buffer(buf), id) {
diff --git a/cli/src/protocol/render/rust/static/protocol.storage.rs b/cli/src/protocol/render/rust/static/protocol.storage.rs
index 69f9fc8..b9dcc2a 100644
--- a/cli/src/protocol/render/rust/static/protocol.storage.rs
+++ b/cli/src/protocol/render/rust/static/protocol.storage.rs
@@ -1,6 +1,6 @@
 use super::sizes;
 use bytes::Buf;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
 use std::io::Cursor;
 
@@ -8,12 +8,18 @@ use std::io::Cursor;
 #[derive(Debug, Clone)]
 pub struct Storage {
     map: HashMap<u16, Vec<u8>>,
+    none: HashSet<u16>,
 }
 
 #[allow(dead_code)]
 impl Storage {
     pub fn from(map: HashMap<u16, Vec<u8>>) -> Self {
-        Storage { map }
+        let none = map
+            .iter()
+            .filter(|(_, body)| body.is_empty())
+            .map(|(id, _)| *id)
+            .collect();
+        Storage { map, none }
     }
 
     pub fn new(buf: Vec<u8>) -> Result<Self, String> {
@@ -23,10 +29,18 @@ impl Storage {
         */
         let mut position: usize = 0;
         let mut map: HashMap<u16, Vec<u8>> = HashMap::new();
+        let mut none: HashSet<u16> = HashSet::new();
         if !buf.is_empty() {
             loop {
                 match Storage::next(&buf, position) {
                     Ok((id, body, pos)) => {
+                        // No value is an empty body with the smallest rank; an empty value (string,
+                        // list or struct) has an empty body too, but always the rank of 64 bits
+                        if body.is_empty() && buf[position + sizes::U16_LEN] == 8 {
+                            none.insert(id);
+                        } else {
+                            none.remove(&id);
+                        }
                         position = pos;
                         map.insert(id, body);
                         if pos == buf.len() {
@@ -39,7 +53,7 @@ impl Storage {
                 }
             }
         }
-        Ok(Storage { map })
+        Ok(Storage { map, none })
     }
 
     fn id(buf: &[u8], pos: usize) -> Result<(u16, usize), String> {
@@ -141,4 +155,7 @@ impl Storage {
     pub fn get(&mut self, id: u16) -> Option<&Vec<u8>> {
         self.map.get(&id)
     }
+    pub fn is_none(&self, id: u16) -> bool {
+        self.none.contains(&id)
+    }
 }
diff --git a/cli/src/protocol/render/rust/static/protocol.uses.rs b/cli/src/protocol/render/rust/static/protocol.uses.rs
index 074d2d2..93ca29a 100644
--- a/cli/src/protocol/render/rust/static/protocol.uses.rs
+++ b/cli/src/protocol/render/rust/static/protocol.uses.rs
@@ -5,6 +5,6 @@
 #![allow(dead_code)]
 use std::convert::TryFrom;
 use std::io::Cursor;
-use std::collections::{ HashMap };
+use std::collections::{ HashMap, HashSet };
 use bytes::{ Buf };
 use std::time::{ SystemTime, UNIX_EPOCH };
-- 
2.43.0


From aec51e03c42a8dc154b727f06a88181edd4e6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 08/54] fix: Rust reader kept or delayed messages following a
 refused one

A message the middleware refused stayed in front of the buffer forever, and
complete messages behind any refused message were only read with the next
chunk. Every complete message is now taken off the buffer; the first error
is reported. The recursion (one frame per message of a chunk) is gone.
---
 .../render/rust/static/protocol.buffer.rs     | 64 ++++++++++---------
 .../render/rust/static/protocol.packing.rs    | 20 ++----
 2 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/cli/src/protocol/render/rust/static/protocol.buffer.rs b/cli/src/protocol/render/rust/static/protocol.buffer.rs
index 8e81a28..6a98478 100644
--- a/cli/src/protocol/render/rust/static/protocol.buffer.rs
+++ b/cli/src/protocol/render/rust/static/protocol.buffer.rs
@@ -1,6 +1,9 @@
 use super::packing;
 use packing::PackageHeader;
-use packing::{get_body_from_buffer, get_header_from_buffer, has_buffer_body, has_buffer_header};
+use packing::{
+    get_body_from_buffer, get_header_from_buffer, has_buffer_header, PackingMiddleware,
+    PackingMiddlewareInterface,
+};
 
 // injectable
 #[derive(Debug)]
@@ -60,37 +63,38 @@ where
     #[allow(clippy::ptr_arg)]
     pub fn chunk(&mut self, buf: &Vec<u8>, uuid: Option<String>) -> Result<(), ReadError> {
         // Add data into buffer
-        self.buffer.append(&mut buf.clone());
-        if !has_buffer_header(&self.buffer) {
-            return Ok(());
-        }
-        // Get header
-        let header: PackageHeader = match get_header_from_buffer(&self.buffer) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Header(e));
-            }
-        };
-        if !has_buffer_body(&self.buffer, &header) {
-            return Ok(());
-        }
-        let (body, rest) = match get_body_from_buffer(&self.buffer, &header, uuid.clone()) {
-            Ok(v) => v,
-            Err(e) => {
-                return Err(ReadError::Parsing(e));
-            }
-        };
-        self.buffer = rest;
-        match Self::get_message(self, &header, &body) {
-            Ok(msg) => {
-                self.queue.push(IncomeMessage { header, msg });
-                if !self.buffer.is_empty() {
-                    self.chunk(&vec![], uuid)
-                } else {
-                    Ok(())
+        self.buffer.extend_from_slice(buf);
+        // A bad message is dropped; messages after it are still read
+        let mut error: Option<ReadError> = None;
+        let mut position: usize = 0;
+        while has_buffer_header(&self.buffer[position..]) {
+            // Get header
+            let header: PackageHeader = match get_header_from_buffer(&self.buffer[position..]) {
+                Ok(v) => v,
+                Err(e) => {
+                    error = error.or(Some(ReadError::Header(e)));
+                    break;
                 }
+            };
+            let (body, len) = match get_body_from_buffer(&self.buffer[position..], &header) {
+                Some(v) => v,
+                None => break,
+            };
+            position += len;
+            let msg =
+                match PackingMiddleware::decode(body, header.id, header.sequence, uuid.clone()) {
+                    Ok(body) => self.get_message(&header, &body),
+                    Err(e) => Err(ReadError::Parsing(e)),
+                };
+            match msg {
+                Ok(msg) => self.queue.push(IncomeMessage { header, msg }),
+                Err(e) => error = error.or(Some(e)),
             }
-            Err(e) => Err(e),
+        }
+        self.buffer.drain(..position);
+        match error {
+            Some(e) => Err(e),
+            None => Ok(()),
         }
     }
 
diff --git a/cli/src/protocol/render/rust/static/protocol.packing.rs b/cli/src/protocol/render/rust/static/protocol.packing.rs
index 1688ea4..0e13393 100644
--- a/cli/src/protocol/render/rust/static/protocol.packing.rs
+++ b/cli/src/protocol/render/rust/static/protocol.packing.rs
@@ -101,23 +101,13 @@ pub fn has_buffer_body(buf: &[u8], header: &PackageHeader) -> bool {
     has_buffer_header(buf) && buf.len() - MSG_HEADER_LEN >= header.len_usize
 }
 
-pub fn get_body_from_buffer(
-    buf: &[u8],
-    header: &PackageHeader,
-    uuid: Option<String>,
-) -> Result<(Vec<u8>, Vec<u8>), String> {
+/// Body of the package at the beginning of the buffer and the length of the whole package
+pub fn get_body_from_buffer(buf: &[u8], header: &PackageHeader) -> Option<(Vec<u8>, usize)> {
     if !has_buffer_body(buf, header) {
-        return Err(format!("Cannot extract body of package because size in header {} bytes, but size of buffer {} bytes.", header.len, buf.len().saturating_sub(MSG_HEADER_LEN)));
-    }
-    // Get body
-    let mut body = vec![0; header.len_usize];
-    body.copy_from_slice(&buf[MSG_HEADER_LEN..(MSG_HEADER_LEN + header.len_usize)]);
-    let mut rest = vec![0; buf.len() - MSG_HEADER_LEN - header.len_usize];
-    rest.copy_from_slice(&buf[(MSG_HEADER_LEN + header.len_usize)..]);
-    match PackingMiddleware::decode(body, header.id, header.sequence, uuid) {
-        Ok(buffer) => Ok((buffer, rest)),
-        Err(e) => Err(e),
+        return None;
     }
+    let len = MSG_HEADER_LEN + header.len_usize;
+    Some((buf[MSG_HEADER_LEN..len].to_vec(), len))
 }
 
 pub fn pack<T>(mut msg: T, sequence: u32, uuid: Option<String>) -> Result<Vec<u8>, String>
-- 
2.43.0


From ac21c1e3e88501f00d2a27f31dec4a0ec74ea8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 09/54] fix: TypeScript reader hung or threw on messages it
 cannot read

A message with another signature was never taken off the buffer, so chunk()
did not return. An unknown message id, an unknown enum option or a throwing
middleware escaped chunk() as an exception and left the message in front of
the buffer. Such messages are now dropped and reported as errors.
---
 .../render/typescript/static/packing.ts       | 87 ++++++++++---------
 1 file changed, 44 insertions(+), 43 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/packing.ts b/cli/src/protocol/render/typescript/static/packing.ts
index a15edf5..aa97516 100644
--- a/cli/src/protocol/render/typescript/static/packing.ts
+++ b/cli/src/protocol/render/typescript/static/packing.ts
@@ -43,50 +43,17 @@ export abstract class BufferReader<T> {
 			if (this._buffer.byteLength < header.len + MessageHeader.SIZE) {
 				break;
 			}
-			if (header.signature !== this.signature()) {
-				errors.push(
-					new Error(
-						`Dismatch of signature for message id="${
-							header.id
-						}". Expected signature: ${this.signature()}; gotten: ${
-							header.signature
-						}`
-					)
-				);
+			const body: Buffer = this._buffer.slice(
+				MessageHeader.SIZE,
+				MessageHeader.SIZE + header.len
+			);
+			// Complete message leaves the buffer, even it cannot be read
+			this._buffer = this._buffer.slice(MessageHeader.SIZE + header.len);
+			const msg: T | Error = this._read(header, body, uuid);
+			if (msg instanceof Error) {
+				errors.push(msg);
 			} else {
-				const body: ArrayBufferLike | Error = (() => {
-					const middleware: PackingMiddleware | undefined =
-						getPackingMiddleware();
-					if (middleware instanceof PackingMiddleware) {
-						return middleware.decode(
-							this._buffer.slice(
-								MessageHeader.SIZE,
-								MessageHeader.SIZE + header.len
-							),
-							header.id,
-							header.sequence,
-							uuid
-						);
-					} else {
-						return this._buffer.slice(
-							MessageHeader.SIZE,
-							MessageHeader.SIZE + header.len
-						);
-					}
-				})();
-				if (body instanceof Error) {
-					errors.push(body);
-				} else {
-					const msg = this.getMessage(header, body);
-					if (msg instanceof Error) {
-						errors.push(msg);
-					} else {
-						this._queue.push(msg);
-					}
-				}
-				this._buffer = this._buffer.slice(
-					MessageHeader.SIZE + header.len
-				);
+				this._queue.push(msg);
 			}
 		} while (true);
 		return errors.length > 0 ? errors : undefined;
@@ -111,4 +78,38 @@ export abstract class BufferReader<T> {
 			? undefined
 			: this._queue.splice(0, 1)[0];
 	}
+
+	private _read(
+		header: MessageHeader,
+		buffer: Buffer,
+		uuid?: string
+	): T | Error {
+		if (header.signature !== this.signature()) {
+			return new Error(
+				`Dismatch of signature for message id="${
+					header.id
+				}". Expected signature: ${this.signature()}; gotten: ${
+					header.signature
+				}`
+			);
+		}
+		try {
+			const middleware: PackingMiddleware | undefined =
+				getPackingMiddleware();
+			const body: ArrayBufferLike | Error =
+				middleware instanceof PackingMiddleware
+					? middleware.decode(
+							buffer,
+							header.id,
+							header.sequence,
+							uuid
+					  )
+					: buffer;
+			return body instanceof Error ? body : this.getMessage(header, body);
+		} catch (err) {
+			return err instanceof Error
+				? err
+				: new Error(`Unknown error: ${err}`);
+		}
+	}
 }
-- 
2.43.0


From dd2cc62a4b7ddd8466a4920a6bc6200d30d32eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/54] fix: TypeScript reader accepted truncated bodies as
 shorter values

Lengths pointing behind the end of the buffer were silently cut to what is
there, for fields and for items of string and struct arrays; short enum
bodies and unknown options threw instead of returning an error.
---
 .../static/protocol.convertor.storage.ts         |  7 +++++++
 .../typescript/static/protocol.convertor.ts      |  7 ++++++-
 .../protocol.primitives.array.string.utf8.ts     |  7 ++++++-
 .../static/protocol.primitives.enum.ts           | 16 ++++++++--------
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index cc74a1e..87b122d 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -105,6 +105,13 @@ export class Storage {
 					position += Primitives.u64.getSize();
 					break;
 			}
+			if (Number(length) > buffer.byteLength - position) {
+				return new Error(
+					`Not enough bytes to read property: expecting ${length} bytes, but only ${
+						buffer.byteLength - position
+					} left`
+				);
+			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
 			return { id, body, position };
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
index a20a8d7..96a64b2 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.ts
@@ -177,8 +177,13 @@ export abstract class Convertor<T> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u64.getSize()) {
+				return new Error(
+					`Not enough bytes to read length of ${this.getSignature()}/${this.getId()} in an array`
+				);
+			}
 			const len = buffer.readBigUInt64LE(offset);
-			if (isNaN(Number(len)) || !isFinite(Number(len))) {
+			if (Number(len) > buffer.byteLength - offset - u64.getSize()) {
 				return new Error(
 					`Invalid length of ${this.getSignature()}/${this.getId()} in an array`
 				);
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
index 497bcc3..48fcdc4 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.array.string.utf8.ts
@@ -61,8 +61,13 @@ export class ArrayStrUTF8 extends Primitive<string[]> {
 		}
 		let offset: number = 0;
 		do {
+			if (buffer.byteLength - offset < u32.getSize()) {
+				return new Error(
+					`Not enough bytes to read length of string in an array`
+				);
+			}
 			const len = buffer.readUInt32LE(offset);
-			if (isNaN(len) || !isFinite(len)) {
+			if (len > buffer.byteLength - offset - u32.getSize()) {
 				return new Error(`Invalid length of string in an array`);
 			}
 			offset += u32.getSize();
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
index 7ab80e9..4455600 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.enum.ts
@@ -88,15 +88,15 @@ export abstract class Enum<T> {
 
 	public decode(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
-		const id: number = buffer.readUInt16LE();
-		const target: ISigned<any> = this.getOptionValue(id);
-		const error: Error | undefined = target.decode(
-			bytes.slice(u16.getSize(), buffer.byteLength)
-		);
-		if (error instanceof Error) {
-			return error;
-		}
 		try {
+			const id: number = buffer.readUInt16LE();
+			const target: ISigned<any> = this.getOptionValue(id);
+			const error: Error | undefined = target.decode(
+				bytes.slice(u16.getSize(), buffer.byteLength)
+			);
+			if (error instanceof Error) {
+				return error;
+			}
 			this._value = new Option<any>(id, target);
 		} catch (e) {
 			return new Error(`Fail to decode due error: ${e}`);
-- 
2.43.0


From b94f40a31baf811aada821dde8e17e0e2c982105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/54] fix: TypeScript reader used only the low byte of field
 ids

Fields with ids above 255 could not be read (or were taken for others).
---
 .../render/typescript/static/protocol.convertor.storage.ts      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 87b122d..0f90c36 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -37,7 +37,7 @@ export class Storage {
 
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
-			return buffer.readUInt8(position);
+			return buffer.readUInt16LE(position);
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From e10791d4db6cb20a64a27fe7688d21b7f30da823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 12/54] fix: TypeScript reader dropped a leading U+FEFF of
 strings

---
 .../render/typescript/static/protocol.primitives.string.utf8.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
index f4f167d..07a992b 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.string.utf8.ts
@@ -17,7 +17,7 @@ export class StrUTF8 extends Primitive<string> {
     }
 
     public static decode(bytes: ArrayBufferLike): string | Error {
-        const decoder = new TextDecoder();
+        const decoder = new TextDecoder('utf-8', { ignoreBOM: true });
         return decoder.decode(bytes);
     }
 
-- 
2.43.0


From 55c14d9090c31112dc6e5c395bfc1a1954368d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 13/54] fix: TypeScript refused 64 bits integers above
 MAX_SAFE_INTEGER

The values are bigint, so the whole range can be written and read.
---
 .../render/typescript/static/protocol.primitives.i64.ts       | 4 ++--
 .../render/typescript/static/protocol.primitives.u64.ts       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
index 3c1935f..7f4ced3 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.i64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class i64 extends Primitive<bigint> {
-	public static MIN: number = -Number.MAX_SAFE_INTEGER;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt("-9223372036854775808");
+	public static MAX: bigint = BigInt("9223372036854775807");
 
 	public static getSignature(): string {
 		return "i64";
diff --git a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
index ce763e0..2065b5a 100644
--- a/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.primitives.u64.ts
@@ -5,8 +5,8 @@ import { CBits } from "./protocol.sizes";
 
 // injectable
 export class u64 extends Primitive<bigint> {
-	public static MIN: number = 0;
-	public static MAX: number = Number.MAX_SAFE_INTEGER;
+	public static MIN: bigint = BigInt(0);
+	public static MAX: bigint = BigInt("18446744073709551615");
 
 	public static getSignature(): string {
 		return "u64";
-- 
2.43.0


From f6e124eaeb77a70c41970a4894fbaa49330d9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 14/54] fix: TypeScript reader decoded optional empty values as
 undefined

An optional field holding an empty string, list or struct came back as
undefined: the reader took any empty body for a missing value. The writer
does tell these apart (no value has the 8 bits rank).
---
 cli/src/protocol/render/typescript/mod.rs        |  4 ++--
 .../static/protocol.convertor.storage.ts         | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/render/typescript/mod.rs b/cli/src/protocol/render/typescript/mod.rs
index 94685d8..a82fcc7 100644
--- a/cli/src/protocol/render/typescript/mod.rs
+++ b/cli/src/protocol/render/typescript/mod.rs
@@ -1123,10 +1123,10 @@ impl TypescriptRender {
             );
             body = format!("{}\n{}}}", body, self.spaces(level));
             body = format!(
-                "{}\n{}if ({}Buf.byteLength === 0) {{",
+                "{}\n{}if (storage.isNone({})) {{",
                 body,
                 self.spaces(level),
-                field.name
+                field.id
             );
             body = format!(
                 "{}\n{}this.{} = undefined;",
diff --git a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
index 0f90c36..5a0f8f2 100644
--- a/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
+++ b/cli/src/protocol/render/typescript/static/protocol.convertor.storage.ts
@@ -6,11 +6,13 @@ import { ESize } from "./protocol.sizes";
 interface INext {
 	id: number;
 	body: ArrayBufferLike;
+	none: boolean;
 	position: number;
 }
 
 export class Storage {
 	private _fields: Map<number, ArrayBufferLike> = new Map();
+	private _none: Set<number> = new Set();
 
 	public read(bytes: ArrayBufferLike): Error | undefined {
 		const buffer = Buffer.from(bytes);
@@ -28,6 +30,11 @@ export class Storage {
 			}
 			position = field.position;
 			this._fields.set(field.id, field.body);
+			if (field.none) {
+				this._none.add(field.id);
+			} else {
+				this._none.delete(field.id);
+			}
 		} while (true);
 	}
 
@@ -35,6 +42,10 @@ export class Storage {
 		return this._fields.get(id);
 	}
 
+	public isNone(id: number): boolean {
+		return this._none.has(id);
+	}
+
 	private _getId(buffer: Buffer, position: number): number | Error {
 		try {
 			return buffer.readUInt16LE(position);
@@ -114,7 +125,10 @@ export class Storage {
 			}
 			const body = buffer.slice(position, position + Number(length));
 			position += Number(length);
-			return { id, body, position };
+			// No value is an empty body with the smallest rank; an empty value (string,
+			// list or struct) has an empty body too, but always the rank of 64 bits
+			const none: boolean = rank === ESize.u8 && body.byteLength === 0;
+			return { id, body, none, position };
 		} catch (err) {
 			return err instanceof Error
 				? err
-- 
2.43.0


From c289036e1810eab236f116fef98d9509b3babd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 15/54] fix: Rust response stub did not compile if conclusions
 share a broadcast

---
 .../producer/rust/render_request_response.rs  | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index 2239344..fcef96a 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -102,7 +102,11 @@ impl Render {
                     brodcast_output = format!(
                         "{}{},{}",
                         brodcast_output,
-                        self.get_broadcast_type_name(broadcast),
+                        if broadcast.optional {
+                            format!("Option<{}>", self.get_broadcast_type_name(broadcast))
+                        } else {
+                            self.get_broadcast_type_name(broadcast)
+                        },
                         if pos == action.broadcast.len() - 1 {
                             ""
                         } else {
@@ -132,20 +136,14 @@ impl Render {
         for action in request.actions.iter() {
             if !action.broadcast.is_empty() {
                 for broadcast in action.broadcast.iter() {
-                    if broadcast.optional {
-                        output = format!(
-                            "{}type {} = Option<(Vec<Uuid>, protocol::{})>;\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
-                    } else {
-                        output = format!(
-                            "{}type {} = (Vec<Uuid>, protocol::{});\n",
-                            output,
-                            self.get_broadcast_type_name(broadcast),
-                            tools::into_rust_path(&broadcast.reference),
-                        );
+                    let declaration = format!(
+                        "type {} = (Vec<Uuid>, protocol::{});\n",
+                        self.get_broadcast_type_name(broadcast),
+                        tools::into_rust_path(&broadcast.reference),
+                    );
+                    // Several conclusions of a request can have same broadcast
+                    if !output.contains(&declaration) {
+                        output = format!("{}{}", output, declaration);
                     }
                 }
             }
-- 
2.43.0


From 9b75240feea7b6f999cf8dc7599be01d9df27a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 16/54] fix: broadcasts of a single response with conclusion
 were dropped by producers

---
 .../workflow/render/producer/rust/render_request_handler.rs | 2 +-
 .../render/producer/rust/render_request_response.rs         | 2 +-
 .../render/producer/typescript/render_request_handler.rs    | 2 +-
 cli/src/workflow/request.rs                                 | 6 ++++++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_request_handler.rs b/cli/src/workflow/render/producer/rust/render_request_handler.rs
index 8ecde49..46ca9f3 100644
--- a/cli/src/workflow/render/producer/rust/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_handler.rs
@@ -100,7 +100,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.is_conclusion_required() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[response_mod]]", &self.get_response_mod_name(request)?);
             output = output.replace("[[conclusions]]", &self.get_conclusions(request)?);
diff --git a/cli/src/workflow/render/producer/rust/render_request_response.rs b/cli/src/workflow/render/producer/rust/render_request_response.rs
index fcef96a..3524777 100644
--- a/cli/src/workflow/render/producer/rust/render_request_response.rs
+++ b/cli/src/workflow/render/producer/rust/render_request_response.rs
@@ -58,7 +58,7 @@ impl Render {
             return Ok(());
         }
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.is_conclusion_required() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace("[[broadcast_types]]", &self.get_broadcast_types(request)?);
             output = output.replace(
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 7820748..14e2bae 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -175,7 +175,7 @@ impl Render {
     pub fn render(&self, base: &Path, request: &Request) -> Result<(), String> {
         let dest: PathBuf = self.get_dest_file(base, request)?;
         let request_ref = request.get_request()?;
-        let mut output: String = if request.actions.len() > 1 {
+        let mut output: String = if request.is_conclusion_required() {
             let mut output = templates::MODULE_WITH_CONCLUSION.to_owned();
             output = output.replace(
                 "[[required_broadcasts]]",
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index e3ab5c7..252007b 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -227,6 +227,12 @@ impl Request {
         }
     }
 
+    /// Handler has to tell which conclusion it came to as soon as there are several responses or broadcasts
+    /// bound with response
+    pub fn is_conclusion_required(&self) -> bool {
+        self.actions.len() > 1 || self.actions.iter().any(|a| !a.broadcast.is_empty())
+    }
+
     pub fn get_path(&self) -> Result<String, String> {
         if let Some(request) = self.request.as_ref() {
             let mut parts: Vec<&str> = request.split('.').collect();
-- 
2.43.0


From bcfbb94ede62ab3d5c536cce155ade6eccb4aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 17/54] fix: TypeScript response with a broadcast shared by
 conclusions did not compile

---
 .../typescript/render_request_handler.rs      | 69 ++++++++++++++-----
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 14e2bae..a3c07cc 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -77,11 +77,10 @@ export function handler(
 }"#;
     pub const BROADCAST_IMPL: &str = r#"[[name]](msg: Protocol.[[reference]]): Response {
     if (
-        self._response.getId() !==
-        Protocol.[[conclusion]].getId()
+[[conclusions]]
     ) {
         throw new Error(
-            `Message "Protocol.[[reference]]" can be used only with "Protocol.[[conclusion]]"`
+            `Message "Protocol.[[reference]]" can be used only with [[responses]]`
         );
     }
     if (
@@ -248,31 +247,63 @@ impl Render {
         Ok(output)
     }
 
-    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
-        let mut output = String::new();
+    /// Several conclusions of a request can have same broadcast. Returns list of broadcasts without
+    /// duplicates: (broadcast, responses of conclusions)
+    fn get_broadcasts(&self, request: &Request) -> Result<Vec<(String, Vec<String>)>, String> {
+        let mut broadcasts: Vec<(String, Vec<String>)> = vec![];
         for action in request.actions.iter() {
+            let response = action.get_response()?;
             for broadcast in action.broadcast.iter() {
-                output = format!(
-                    "{}\n{}(msg: Protocol.{}): Response;",
-                    output,
-                    broadcast.reference.replace(".", ""),
-                    broadcast.reference,
-                );
+                if let Some((_, responses)) = broadcasts
+                    .iter_mut()
+                    .find(|(reference, _)| reference == &broadcast.reference)
+                {
+                    responses.push(response.clone());
+                } else {
+                    broadcasts.push((broadcast.reference.clone(), vec![response.clone()]));
+                }
             }
         }
+        Ok(broadcasts)
+    }
+
+    fn get_methods_declarations(&self, request: &Request) -> Result<String, String> {
+        let mut output = String::new();
+        for (reference, _) in self.get_broadcasts(request)?.iter() {
+            output = format!(
+                "{}\n{}(msg: Protocol.{}): Response;",
+                output,
+                reference.replace(".", ""),
+                reference,
+            );
+        }
         Ok(tools::inject_tabs(2, output))
     }
 
     fn get_methods_implementations(&self, request: &Request) -> Result<String, String> {
         let mut output = String::new();
-        for action in request.actions.iter() {
-            for broadcast in action.broadcast.iter() {
-                let mut out = templates::BROADCAST_IMPL.to_owned();
-                out = out.replace("[[name]]", &broadcast.reference.replace(".", ""));
-                out = out.replace("[[reference]]", &broadcast.reference);
-                out = out.replace("[[conclusion]]", &action.get_response()?);
-                output = format!("{}\n{}", output, out,);
-            }
+        for (reference, responses) in self.get_broadcasts(request)?.iter() {
+            let conclusions = responses
+                .iter()
+                .map(|response| {
+                    format!(
+                        "        self._response.getId() !==\n        Protocol.{}.getId()",
+                        response
+                    )
+                })
+                .collect::<Vec<String>>()
+                .join(" &&\n");
+            let responses = responses
+                .iter()
+                .map(|response| format!("\"Protocol.{}\"", response))
+                .collect::<Vec<String>>()
+                .join(", ");
+            let mut out = templates::BROADCAST_IMPL.to_owned();
+            out = out.replace("[[name]]", &reference.replace(".", ""));
+            out = out.replace("[[reference]]", reference);
+            out = out.replace("[[conclusions]]", &conclusions);
+            out = out.replace("[[responses]]", &responses);
+            output = format!("{}\n{}", output, out,);
         }
         Ok(tools::inject_tabs(3, output))
     }
-- 
2.43.0


From 314e752f866c317bac42364f5957a1bacaeb764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 18/54] fix: TypeScript handlers with optional broadcasts only
 did not compile

---
 .../workflow/render/producer/typescript/render_event_emitter.rs | 2 +-
 .../render/producer/typescript/render_request_handler.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 46864be..14b638a 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): number }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index a3c07cc..61a3a1a 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -221,7 +221,7 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{} = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): number }}> = [{}
 ];"#,
                     output,
                     "\n",
-- 
2.43.0


From a750795fb0fa3a3d9ae93c751d072808dc2d864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 19/54] fix: diagram dropped broadcasts of a single response
 with conclusion

---
 cli/src/workflow/render/puml/render_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/puml/render_request.rs b/cli/src/workflow/render/puml/render_request.rs
index 1edf2b6..c09f0dc 100644
--- a/cli/src/workflow/render/puml/render_request.rs
+++ b/cli/src/workflow/render/puml/render_request.rs
@@ -34,7 +34,7 @@ impl RenderRequest {
 
     fn get_conclusions(&self, request: &Request) -> Result<String, String> {
         let mut output: String = String::new();
-        if request.actions.len() > 1 {
+        if request.is_conclusion_required() {
             for action in &request.actions {
                 let name = if let Some(name) = action.conclusion.as_ref() {
                     name
-- 
2.43.0


From 412595b71e20620f9cd36f3b5f057bcc11c6b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 20/54] fix: generator ended with status 0 on failure

---
 cli/src/ctrlargs.rs | 2 +-
 cli/src/main.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/src/ctrlargs.rs b/cli/src/ctrlargs.rs
index f61688a..d4551fe 100644
--- a/cli/src/ctrlargs.rs
+++ b/cli/src/ctrlargs.rs
@@ -66,7 +66,7 @@ impl CtrlArgs {
             Ok(pwd) => pwd,
             Err(e) => {
                 println!("Fail to detect pwd folder: {}", e);
-                std::process::exit(0);
+                std::process::exit(1);
             }
         };
         let mut args: Vec<String> = env::args().collect();
diff --git a/cli/src/main.rs b/cli/src/main.rs
index 312214c..af90535 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -21,6 +21,7 @@ fn main() {
         std::process::exit(1);
     }
     if let Err(errors) = ctrl.actions() {
-        println!("{}", errors.join("\n"))
+        println!("{}", errors.join("\n"));
+        std::process::exit(1);
     }
 }
-- 
2.43.0


From 1d798b0c4698c98186e768e130500fc09a46ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 21/54] fix: descriptions ending inside of an entity were
 accepted or hung the generator

---
 cli/src/protocol/parser.rs | 7 +++++++
 cli/src/protocol/store.rs  | 7 +++++++
 cli/src/workflow/parser.rs | 9 +++++++--
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 3aba545..5ee4b7d 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -282,6 +282,13 @@ impl Parser {
                             offset
                         }
                         ENext::End() => {
+                            if store.has_opened() || !is_in(&expectation, &EExpectation::StructDef)
+                            {
+                                errs.push(format!(
+                                    "Unexpected end of file. Expectation: {:?}",
+                                    expectation
+                                ));
+                            }
                             break;
                         }
                     };
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 1b1815e..cb035e9 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -404,6 +404,13 @@ impl Store {
         }
     }
 
+    pub fn has_opened(&self) -> bool {
+        self.c_group.is_some()
+            || self.c_struct.is_some()
+            || self.c_enum.is_some()
+            || self.c_field.is_some()
+    }
+
     pub fn order(&mut self) -> Result<(), String> {
         let mut parents: Vec<usize> = vec![];
         for strct in &self.structs {
diff --git a/cli/src/workflow/parser.rs b/cli/src/workflow/parser.rs
index f668bf4..fdef15a 100644
--- a/cli/src/workflow/parser.rs
+++ b/cli/src/workflow/parser.rs
@@ -109,6 +109,11 @@ impl Parser {
                             }
                         }
                         ENext::End() => {
+                            if opened.is_some() {
+                                return Err(
+                                    self.err("Unexpected end of file: last entity isn't closed")
+                                );
+                            }
                             break;
                         }
                         _ => 0,
@@ -209,7 +214,7 @@ impl Parser {
         let mut limited: bool = false;
         let mut comment: bool = false;
         for char in content.chars() {
-            pass += 1;
+            pass += char.len_utf8();
             if comment && char == chars::CARET {
                 comment = false;
             } else if comment {
@@ -281,7 +286,7 @@ impl Parser {
         if str.is_empty() {
             Ok(ENext::End())
         } else {
-            Ok(ENext::Word((str, pass - 1, None)))
+            Ok(ENext::Word((str, pass, None)))
         }
     }
 
-- 
2.43.0


From 00f0918a72b14717cd3d775d9619f4ed6e279c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 22/54] fix: duplicated names of structs, enums, groups and
 enum items were accepted

---
 cli/src/protocol/enums.rs |  7 +++++++
 cli/src/protocol/store.rs | 25 +++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/cli/src/protocol/enums.rs b/cli/src/protocol/enums.rs
index e756585..c16a43f 100644
--- a/cli/src/protocol/enums.rs
+++ b/cli/src/protocol/enums.rs
@@ -78,6 +78,13 @@ impl Enum {
 
     pub fn set_name(&mut self, name: String) {
         if let Some(mut current) = self.current.take() {
+            if self.variants.iter().any(|v| v.name == name) {
+                stop!(
+                    "Fail to add item \"{}\" into \"{}\" because item with same name already exist",
+                    name,
+                    self.name
+                );
+            }
             current.name = name;
             self.variants.push(current);
             self.current = None;
diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index cb035e9..4f97885 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -136,9 +136,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Struct cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(&name, parent);
         self.sequence += 1;
         self.bind_struct_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_struct = Some(Struct::new(
             self.sequence,
             parent,
@@ -154,9 +155,10 @@ impl Store {
         if self.c_enum.is_some() {
             stop!("Enum cannot be defined inside enum");
         }
+        let parent = self.get_group_id();
+        self.check_name(&name, parent);
         self.sequence += 1;
         self.bind_enum_with_group(self.sequence);
-        let parent = self.get_group_id();
         self.c_enum = Some(Enum::new(
             self.sequence,
             parent,
@@ -173,6 +175,7 @@ impl Store {
             stop!("Group cannot be defined inside enum");
         }
         let parent: usize = self.get_group_id();
+        self.check_name(&name, parent);
         self.sequence += 1;
         self.bind_group_with_group(self.sequence);
         self.c_group = Some(Group::new(self.sequence, parent, name));
@@ -473,6 +476,24 @@ impl Store {
         }
     }
 
+    fn check_name(&self, name: &str, parent: usize) {
+        if self
+            .structs
+            .iter()
+            .any(|i| i.name == name && i.parent == parent)
+            || self
+                .enums
+                .iter()
+                .any(|i| i.name == name && i.parent == parent)
+            || self
+                .groups
+                .iter()
+                .any(|i| i.name == name && i.parent == parent)
+        {
+            stop!("Name \"{}\" is already used in same group", name);
+        }
+    }
+
     fn get_group_id(&mut self) -> usize {
         if let Some(c_group) = self.c_group.clone() {
             c_group.id
-- 
2.43.0


From 6b09134e4e4b48efa3eb224af0e32000f80b43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 23/54] fix: types without implementation (char, isize, usize)
 were accepted

---
 cli/src/protocol/types.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cli/src/protocol/types.rs b/cli/src/protocol/types.rs
index 5af0d92..aea1bdb 100644
--- a/cli/src/protocol/types.rs
+++ b/cli/src/protocol/types.rs
@@ -46,17 +46,14 @@ pub mod PrimitiveTypes {
     pub fn get_entity(str: &str) -> Option<ETypes> {
         match str {
             ctypes::Tbool => Some(ETypes::Ebool),
-            ctypes::Tchar => Some(ETypes::Echar),
             ctypes::Ti8 => Some(ETypes::Ei8),
             ctypes::Ti16 => Some(ETypes::Ei16),
             ctypes::Ti32 => Some(ETypes::Ei32),
             ctypes::Ti64 => Some(ETypes::Ei64),
-            ctypes::Tisize => Some(ETypes::Eisize),
             ctypes::Tu8 => Some(ETypes::Eu8),
             ctypes::Tu16 => Some(ETypes::Eu16),
             ctypes::Tu32 => Some(ETypes::Eu32),
             ctypes::Tu64 => Some(ETypes::Eu64),
-            ctypes::Tusize => Some(ETypes::Eusize),
             ctypes::Tf32 => Some(ETypes::Ef32),
             ctypes::Tf64 => Some(ETypes::Ef64),
             ctypes::Tstr => Some(ETypes::Estr),
-- 
2.43.0


From d54b566beceb852da8a70cac42c592573b7b5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 24/54] fix: unpaired square brackets were accepted in protocol

---
 cli/src/protocol/parser.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 5ee4b7d..1e52e6f 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -320,6 +320,7 @@ impl Parser {
     fn next(&mut self, content: String) -> Result<ENext, ENextErr> {
         let mut str: String = String::new();
         let mut pass: usize = 0;
+        let mut bracket: bool = false;
         let break_chars: Vec<char> = vec![
             chars::SEMICOLON,
             chars::OPEN,
@@ -337,6 +338,14 @@ impl Parser {
                     char
                 )));
             }
+            if (bracket && !char.is_ascii_whitespace() && char != chars::CLOSE_SQ_BRACKET)
+                || (!bracket && char == chars::CLOSE_SQ_BRACKET)
+            {
+                return Err(ENextErr::NotSupported(format!(
+                    "found not supportable char: {}",
+                    char
+                )));
+            }
             if char.is_ascii_digit() && str.is_empty() {
                 return Err(ENextErr::NumericFirst());
             }
@@ -364,18 +373,11 @@ impl Parser {
                         if !str.is_empty() {
                             breakable = Some(char);
                         } else {
+                            bracket = true;
                             continue;
                         }
                     }
                     chars::CLOSE_SQ_BRACKET => {
-                        if let Some(c) = str.chars().next() {
-                            if c != '[' {
-                                return Err(ENextErr::NotSupported(format!(
-                                    "found not supportable char: {}",
-                                    char
-                                )));
-                            }
-                        }
                         return Ok(ENext::Repeated(pass));
                     }
                     _ => {}
-- 
2.43.0


From e6006350f70a67635716137134e6a252efb7a48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 25/54] fix: stray words in workflow and not finished
 configuration were accepted

---
 cli/src/workflow/beacon.rs  | 6 ++++++
 cli/src/workflow/config.rs  | 9 ++++++++-
 cli/src/workflow/event.rs   | 6 ++++++
 cli/src/workflow/request.rs | 6 ++++++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/beacon.rs b/cli/src/workflow/beacon.rs
index b16be9a..e0c863b 100644
--- a/cli/src/workflow/beacon.rs
+++ b/cli/src/workflow/beacon.rs
@@ -127,6 +127,12 @@ impl EntityParser for Beacons {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}.",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Broadcast(path_to_struct) => {
                         /* USECASES:
diff --git a/cli/src/workflow/config.rs b/cli/src/workflow/config.rs
index ef76d9c..5b54bb4 100644
--- a/cli/src/workflow/config.rs
+++ b/cli/src/workflow/config.rs
@@ -443,7 +443,14 @@ impl EntityParser for Config {
                 }
             }
             ENext::Close(offset) => {
-                if let Err(e) = self.close(protocol) {
+                if !is_in(&self.expectation, &EExpectation::Word)
+                    || !matches!(self.pending, Pending::Nothing)
+                {
+                    Err(format!(
+                        "Symbol CLOSE isn't expected. Expectation: {:?}",
+                        self.expectation
+                    ))
+                } else if let Err(e) = self.close(protocol) {
                     Err(e)
                 } else {
                     Ok(offset)
diff --git a/cli/src/workflow/event.rs b/cli/src/workflow/event.rs
index a9bd4be..c855502 100644
--- a/cli/src/workflow/event.rs
+++ b/cli/src/workflow/event.rs
@@ -148,6 +148,12 @@ impl EntityParser for Event {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}.",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Reference(path_to_struct) => {
                         /* USECASES:
diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 252007b..0810640 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -309,6 +309,12 @@ impl EntityParser for Request {
                 }
             }
             ENext::Word((word, offset, _next_char)) => {
+                if !is_in(&self.expectation, &EExpectation::Word) {
+                    return Err(format!(
+                        "Word {} isn't expected. Expectation: {:?}.",
+                        word, self.expectation
+                    ));
+                }
                 match self.pending.clone() {
                     Pending::Nothing => {}
                     Pending::Request(path_to_struct) => {
-- 
2.43.0


From 00e1a4136efa30379fde3e45566ad2f5c33a6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 26/54] fix: requests without response, invalid conclusions and
 missing configuration were refused too late or never

---
 cli/src/workflow/request.rs | 24 +++++++++++++++++++++++-
 cli/src/workflow/store.rs   |  1 +
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 0810640..54363a0 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -166,7 +166,29 @@ impl Request {
                 ));
             }
         }
-        for action in self.actions.iter() {
+        if self.actions.is_empty() {
+            return Err(String::from(
+                "For request at least response should be defined.",
+            ));
+        }
+        for (pos, action) in self.actions.iter().enumerate() {
+            if let Some(conclusion) = action.conclusion.as_ref() {
+                if !conclusion
+                    .chars()
+                    .all(|c| c.is_ascii_alphanumeric() || c == '_')
+                {
+                    return Err(format!("Conclusion {} should be a plain name", conclusion));
+                }
+                if self.actions[..pos]
+                    .iter()
+                    .any(|a| a.conclusion.as_ref() == Some(conclusion))
+                {
+                    return Err(format!(
+                        "Conclusion {} is defined multiple times",
+                        conclusion
+                    ));
+                }
+            }
             if action.conclusion.is_none() && self.actions.len() != 1 {
                 return Err(String::from("In case request has a multiple response, should be defined conclusion for each response"));
             }
diff --git a/cli/src/workflow/store.rs b/cli/src/workflow/store.rs
index fc43a94..bbf41df 100644
--- a/cli/src/workflow/store.rs
+++ b/cli/src/workflow/store.rs
@@ -110,6 +110,7 @@ impl Store {
     }
 
     pub fn validate(&self) -> Result<(), String> {
+        self.get_config()?;
         // Beacons and requests should not be in conflict
         for beacon in &self.beacons {
             if self.is_request_exist(beacon.reference.clone())? {
-- 
2.43.0


From df7722d04b5c86239f28be59041cb09b3efd2df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 27/54] fix: square bracket at the end of protocol was accepted

---
 cli/src/protocol/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 1e52e6f..9838dc2 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -395,7 +395,11 @@ impl Parser {
             }
             str.push(char);
         }
-        if str.is_empty() {
+        if bracket {
+            Err(ENextErr::NotSupported(String::from(
+                "found not closed square bracket",
+            )))
+        } else if str.is_empty() {
             Ok(ENext::End())
         } else {
             Ok(ENext::Word((str, pass - 1, None)))
-- 
2.43.0


From d93ef48ba5565aa02755400dfce43d426259dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 28/54] fix: TypeScript lists of required broadcasts declared a
 wrong type of signature

---
 .../workflow/render/producer/typescript/render_event_emitter.rs | 2 +-
 .../render/producer/typescript/render_request_handler.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
index 14b638a..f58327b 100644
--- a/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
+++ b/cli/src/workflow/render/producer/typescript/render_event_emitter.rs
@@ -175,7 +175,7 @@ impl Render {
         Ok(tools::inject_tabs(
             1,
             format!(
-                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): number }}> = [{}
+                r#"static REQUIRED: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                 tools::inject_tabs(1, broadcasts),
             ),
diff --git a/cli/src/workflow/render/producer/typescript/render_request_handler.rs b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
index 61a3a1a..950bebb 100644
--- a/cli/src/workflow/render/producer/typescript/render_request_handler.rs
+++ b/cli/src/workflow/render/producer/typescript/render_request_handler.rs
@@ -221,7 +221,7 @@ impl Render {
                     broadcasts = format!("{}\nProtocol.{},", broadcasts, broadcast.reference);
                 }
                 output = format!(
-                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): number }}> = [{}
+                    r#"{}{}static REQUIRED_{}: Array<{{ getId(): number; getSignature(): string }}> = [{}
 ];"#,
                     output,
                     "\n",
-- 
2.43.0


From 4e8106f6366e999ea56e0d885f46fc0307b019b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 29/54] fix: messages following a discrediting one in the same
 chunk were served

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index 44ba0c6..eb466ef 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -444,6 +444,10 @@ pub mod producer {
             } else {
                 return Ok(());
             };
+            if consumer.get_identification().is_discredited() {
+                // Consumer was discredited by one of previous messages
+                return Ok(());
+            }
             match message {
                 [[indentification_self_enum_ref]] if !consumer.is_hash_accepted() => {
                     trace!(
-- 
2.43.0


From e4bf75a26fe2c277836ee519c07f68552a207c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 30/54] fix: Rust producer ignored a key and an assignment made
 by the same chunk of data

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index eb466ef..f0b8dc7 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -388,7 +388,7 @@ pub mod producer {
             "new chunk of data from {} has been gotten",
             uuid,
         );
-        let (messages, assigned, has_key) = if let Some(consumer) = consumers.get_mut(&uuid) {
+        let messages = if let Some(consumer) = consumers.get_mut(&uuid) {
             if !consumer.is_confirmed() {
                 disconnect(uuid, consumer, control).await?;
                 emitters::error::emit::<E, C>(
@@ -417,11 +417,7 @@ pub mod producer {
                 .await?;
                 return Ok(());
             } else {
-                (
-                    consumer.get_messages(),
-                    consumer.get_identification().assigned(),
-                    consumer.get_identification().has_key(),
-                )
+                consumer.get_messages()
             }
         } else {
             responsing_err(
@@ -586,7 +582,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !has_key {
+                    } else if !consumer.get_identification().has_key() {
                         warn!(
                             target: logs::targets::PRODUCER,
                             "consumer {} tries to send data, but it doesn't have a key", uuid
@@ -601,7 +597,7 @@ pub mod producer {
                         )
                         .await
                         .map_err(ProducerError::EventEmitterError)?;
-                    } else if !assigned
+                    } else if !consumer.get_identification().assigned()
                         && options.producer_indentification_strategy
                             != ProducerIdentificationStrategy::Ignore
                     {
-- 
2.43.0


From 45e0c8891765b33dc7922014b7709b068c3cdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 31/54] fix: Rust producer delayed messages received together
 with a refused one

---
 cli/src/workflow/render/producer/rust/render_mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index f0b8dc7..f7a863c 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -405,7 +405,8 @@ pub mod producer {
             if consumer.get_identification().is_discredited() {
                 // Consumer is discredited do nothing with it
                 return Ok(());
-            } else if let Err(err) = consumer.chunk(&buffer) {
+            }
+            if let Err(err) = consumer.chunk(&buffer) {
                 responsing_err(
                     format!("fail to read chunk of data; error: {}", err),
                     uuid,
@@ -415,10 +416,8 @@ pub mod producer {
                     &mut Some(consumer),
                 )
                 .await?;
-                return Ok(());
-            } else {
-                consumer.get_messages()
             }
+            consumer.get_messages()
         } else {
             responsing_err(
                 String::from("fail to find consumer; message wouldn't be processed"),
-- 
2.43.0


From 1ed45976a010c6c04f0b99ab96159ce0f66bf568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 32/54] fix: Rust producer stopped if one consumer could not be
 reached or disconnected

---
 .../render/producer/rust/render_mod.rs        | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cli/src/workflow/render/producer/rust/render_mod.rs b/cli/src/workflow/render/producer/rust/render_mod.rs
index f7a863c..13c0816 100644
--- a/cli/src/workflow/render/producer/rust/render_mod.rs
+++ b/cli/src/workflow/render/producer/rust/render_mod.rs
@@ -324,7 +324,12 @@ pub mod producer {
             return Ok(());
         }
         consumer.get_mut_identification().discredited();
-        control.disconnect(uuid).await?;
+        if let Err(err) = control.disconnect(uuid).await {
+            warn!(
+                target: logs::targets::PRODUCER,
+                "{}:: fail to disconnect consumer: {}", uuid, err
+            );
+        }
         Ok(())
     }
 
@@ -805,14 +810,25 @@ pub mod producer {
                     MergedChannel::Confirmation(uuid) => {
                         if let Some(consumer) = consumers.get_mut(&uuid) {
                             consumer.confirm();
-                            control
+                            if let Err(err) = control
                                 .send(
                                     (protocol::InternalServiceGroup::ConnectConfirmationBeacon {})
                                         .pack(0, Some(uuid.to_string()))
                                         .map_err(|e| ProducerError::Protocol(uuid, e))?,
                                     Some(uuid),
                                 )
-                                .await?;
+                                .await
+                            {
+                                emitters::error::emit::<E, C>(
+                                    err,
+                                    Some(uuid),
+                                    &mut context,
+                                    Some(consumer.get_identification()),
+                                    &control,
+                                )
+                                .await
+                                .map_err(ProducerError::EventEmitterError)?;
+                            }
                         } else {
                             emitters::error::emit::<E, C>(
                                 ProducerError::ConsumerError(format!(
-- 
2.43.0


From e3a69a32fdf04c7e064fdad4c9f2c965c05b4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 33/54] fix: TypeScript producer takes an unassigned consumer
 for an assigned one

Identification.assigned() tested the method instead of the stored key,
so the identification strategy was never applied.
---
 .../render/producer/typescript/render_identification.rs         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_identification.rs b/cli/src/workflow/render/producer/typescript/render_identification.rs
index adb72fd..c62c6be 100644
--- a/cli/src/workflow/render/producer/typescript/render_identification.rs
+++ b/cli/src/workflow/render/producer/typescript/render_identification.rs
@@ -62,7 +62,7 @@ export class Identification {
     }
 
     public assigned(): boolean {
-        if (this.assign === undefined) {
+        if (this._assigned === undefined) {
             switch (this._strategy) {
                 case ProducerIdentificationStrategy.Ignore:
                     return true;
-- 
2.43.0


From d0989af0f3e128b3bc05d6edc5557d4e27b09171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 34/54] fix: TypeScript producer goes on serving a consumer it
 has decided to disconnect

The messages which followed in the same chunk, and the chunks which came
before the transport confirmed the disconnection, were still processed.
---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 1842f8d..7c16c13 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -243,6 +243,9 @@ export class Producer {
             return this._receivingErr(error, event.uuid, consumer);
         }
         do {
+            if (consumer.getIdentification().isDiscredited()) {
+                return;
+            }
             const message = consumer.message();
             if (message === undefined) {
                 return;
@@ -311,6 +314,7 @@ export class Producer {
                     );
                 });
                 if (hashErr !== undefined) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because hash; error: ${err.message}`
@@ -331,6 +335,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.isHashAccepted()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because not accepted hash; error: ${err.message}`
@@ -353,6 +358,7 @@ export class Producer {
                 continue;
             }
             if (!consumer.getIdentification().hasKey()) {
+                consumer.getIdentification().discredited();
                 this.disconnect(event.uuid).catch((err: Error) => {
                     this._logger.err(
                         `Fail to disconnect consumer ${event.uuid} because key isn't setup; error: ${err.message}`
@@ -393,6 +399,7 @@ export class Producer {
                     this._options.producerIndentificationStrategy ===
                         ProducerIdentificationStrategy.EmitErrorAndDisconnect
                 ) {
+                    consumer.getIdentification().discredited();
                     this.disconnect(event.uuid).catch((err: Error) => {
                         this._logger.err(
                             `Fail to disconnect consumer ${event.uuid} because assigned key isn't setup; error: ${err.message}`
@@ -463,6 +470,7 @@ export class Producer {
                 ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect
         ) {
             if (consumer !== undefined) {
+                consumer.getIdentification().discredited();
                 this.disconnect(uuid)
                     .then(() => {
                         this._logger.debug(
-- 
2.43.0


From e99cf55b7896bb0dc9804b6604ffd9ba0c3abb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 35/54] fix: TypeScript producer leaves messages unread after a
 broken one

The messages which were read from a chunk together with a broken one stayed
in the queue until the consumer sent something else.
---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 7c16c13..5574857 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -240,7 +240,7 @@ export class Producer {
         }
         const error = consumer.chunk(event.buffer);
         if (error instanceof Error) {
-            return this._receivingErr(error, event.uuid, consumer);
+            this._receivingErr(error, event.uuid, consumer);
         }
         do {
             if (consumer.getIdentification().isDiscredited()) {
-- 
2.43.0


From b9ca14c47913390444a9944c089dbc56a4412f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:58 +0000
Subject: [PATCH 36/54] fix: TypeScript producer leaves messages unread after
 an unknown one

The messages which followed an unknown one in a chunk stayed in the queue
until the consumer sent something else.
---
 cli/src/workflow/render/producer/typescript/render_mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index 5574857..f77635a 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -448,7 +448,7 @@ export class Producer {
 					)}`
 				);
 			} catch (_) {}
-            break;
+            continue;
         } while (true);
     }
 
-- 
2.43.0


From 5bf931e24503dad24d3706084e174b41ea3a3adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 37/54] fix: TypeScript consumer leaves messages unread after a
 broken one

The messages which were read from a chunk together with a broken one stayed
in the queue until the producer sent something else.
---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 0c42841..5063985 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -244,7 +244,6 @@ export class Consumer {
         const errors: Error[] | undefined = this._buffer.chunk(buffer);
         if (errors instanceof Array) {
             this._logger.err(`Fail to process chunk of data due error(s):\n\t${errors.map(e => e.message).join('\n\t')}`)
-            return;
         }
         do {
             const msg: Protocol.IAvailableMessage<Protocol.IAvailableMessages> | undefined =  this._buffer.next();
-- 
2.43.0


From 1bfc10c04d0b0426990a0db442306015e4652a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 38/54] fix: requests of TypeScript consumer never settle if
 the connection is lost

Requests and beacons waiting for their answers are rejected when the client
is disconnected or the consumer is destroyed.
---
 .../consumer/typescript/render_consumer.rs    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 5063985..63e1233 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -71,7 +71,10 @@ export class Consumer {
  
     private readonly _client: Client;
     private readonly _subscriptions: { [key: string]: Subscription } = {};
-    private readonly _pending: Map<number, (response: Protocol.IAvailableMessages) => void> = new Map();
+    private readonly _pending: Map<number, {
+        resolve: (response: Protocol.IAvailableMessages) => void;
+        reject: (error: Error) => void;
+    }> = new Map();
     private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
@@ -146,6 +149,7 @@ export class Consumer {
 			const global = globals();
 			global[Consumer.GUID] = undefined;
 		}
+		this._abandon(`Consumer is destroyed`);
 		return this._client.destroy();
 	}
 
@@ -160,8 +164,8 @@ export class Consumer {
         if (sequence === undefined) {
             return Promise.resolve({});
         }
-        return new Promise((resolve) => {
-            this._pending.set(sequence, resolve);
+        return new Promise((resolve, reject) => {
+            this._pending.set(sequence, { resolve, reject });
         });
     }
 
@@ -232,9 +236,16 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._abandon(`Connection is lost`);
         this.disconnected.emit();
     }
 
+    private _abandon(reason: string) {
+        const pending = Array.from(this._pending.values());
+        this._pending.clear();
+        pending.forEach((request) => request.reject(new Error(reason)));
+    }
+
     private _onClientError(error: Error) {
         this._logger.debug(`Client error: ${error.message}`);
         this.error.emit(new ExtError.ClientError(error.message));
@@ -253,7 +264,7 @@ export class Consumer {
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-                pending(msg.msg);
+                pending.resolve(msg.msg);
             }[[broadcasts_checking]]
             
         } while (true);
-- 
2.43.0


From 1e8ffde8b842b7c5fe95efc555420d71b87d956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 39/54] fix: TypeScript consumer continues the data of a lost
 connection after reconnection

The beginning of a message received before the connection was lost was put
before the data of the next connection, which could not be read any more.
---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 63e1233..8d4d778 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -75,7 +75,7 @@ export class Consumer {
         resolve: (response: Protocol.IAvailableMessages) => void;
         reject: (error: Error) => void;
     }> = new Map();
-    private readonly _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
+    private _buffer: Protocol.BufferReaderMessages = new Protocol.BufferReaderMessages();
     private readonly _logger: Logger;
     private readonly _options: Options;
     private _uuid: string | undefined;
@@ -236,6 +236,7 @@ export class Consumer {
     private _onClientDisconnected() {
         this._logger.debug(`Client is disconnected`);
         this.uuid = undefined;
+        this._buffer = new Protocol.BufferReaderMessages();
         this._abandon(`Connection is lost`);
         this.disconnected.emit();
     }
-- 
2.43.0


From ee1d10590a0719fe410980abaf2d1d12d4d46aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 40/54] fix: request and beacon of TypeScript consumer cannot
 be sent again after a failure

The state stayed pending if the transmission failed or the connection was
lost while waiting for the answer.
---
 cli/src/workflow/render/consumer/typescript/render_beacon.rs  | 3 +++
 cli/src/workflow/render/consumer/typescript/render_request.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cli/src/workflow/render/consumer/typescript/render_beacon.rs b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
index 9f476b9..6a82002 100644
--- a/cli/src/workflow/render/consumer/typescript/render_beacon.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_beacon.rs
@@ -104,6 +104,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                     }
                 })
                 .catch((err: Error) => {
+                    if (this._state === ERequestState.Pending) {
+                        this._state = ERequestState.Ready;
+                    }
                     reject(err);
                 });
         });
diff --git a/cli/src/workflow/render/consumer/typescript/render_request.rs b/cli/src/workflow/render/consumer/typescript/render_request.rs
index d25bf40..ff5242e 100644
--- a/cli/src/workflow/render/consumer/typescript/render_request.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_request.rs
@@ -54,6 +54,9 @@ export class [[reference]] extends Protocol.[[struct_ref]] {
                         return reject(new Error(`Unexpected state for request "[[reference]]".`));
                 }
             }).catch((err: Error) => {
+                if (this._state === ERequestState.Pending) {
+                    this._state = ERequestState.Ready;
+                }
                 reject(err);
             });
         });
-- 
2.43.0


From 985cc741b06f3a60670bdb3a6cb6b1111d5e18be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:54 +0000
Subject: [PATCH 41/54] fix: TypeScript consumer throws on a message which is
 an enum

---
 cli/src/workflow/render/consumer/typescript/render_consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 8d4d778..994fdd1 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -272,7 +272,7 @@ export class Consumer {
     }
 }"#;
     pub const BROADCAST_CHECKS: &str = r#" else {
-    const id: number = msg.getRef<any>().getId();
+    const id: number = msg.header.id;
     switch (id) {[[cases]]
         default:
             this._logger.warn(`Has been gotten unexpected message ID=${id};`)
-- 
2.43.0


From cccb1f258edb048aa96d927e5b9cde89c4a11d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 42/54] fix: Rust consumer stopped if an answer arrived after
 its request had timed out or had been dropped

---
 .../render/consumer/rust/render_consumer.rs         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 715f3bf..d133c08 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -444,12 +444,13 @@ where
             }
             Channel::AcceptIncome((sequence, msg, tx_response)) => {
                 let accepted = if let Some(response) = pending.remove(&sequence) {
-                    response.send(msg).map_err(|_| {
-                        ConsumerError::APIChannel(format!(
-                            "Fail to use pending channel; sequence: {}",
-                            sequence
-                        ))
-                    })?;
+                    if response.send(msg).is_err() {
+                        // the caller doesn't wait any more (for example because of timeout)
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "response is dropped, nobody waits for it; sequence: {}", sequence
+                        );
+                    }
                     true
                 } else {
                     false
-- 
2.43.0


From b7dfc7a1f6133ebfdb354fddaa63b987352261dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 43/54] fix: Rust consumer took a broadcast received during the
 handshake for the answer to its key

---
 .../render/consumer/rust/render_consumer.rs        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index d133c08..c4b2779 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -40,6 +40,12 @@ pub mod hash {
     pub const WORKFLOW: &str = "[[workflow_hash]]";
 }
 
+mod sequences {
+    // sequence 0 is used by producer for messages, which aren't responses (broadcasts)
+    pub const SELF_KEY: u32 = 1;
+    pub const HASH: u32 = 2;
+}
+
 #[derive(Debug)]
 pub enum Auth<E: client::Error> {
     SetUuid(Result<String, ConsumerError<E>>),
@@ -638,8 +644,8 @@ where
     let mut key = options.key.clone();
     let response = api
         .request(
-            0,
-            &key.pack(0, None)
+            sequences::SELF_KEY,
+            &key.pack(sequences::SELF_KEY, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
@@ -676,9 +682,9 @@ where
     };
     let response = api
         .request(
-            1,
+            sequences::HASH,
             &hash
-                .pack(1, None)
+                .pack(sequences::HASH, None)
                 .map_err(|e| ConsumerError::Protocol(format!("fail to pack key: {}", e)))?,
         )
         .await
-- 
2.43.0


From 0e8e3cd331f5bdc890f67524fc0054308a3f5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 44/54] fix: Rust consumer left messages received together with
 an unreadable one unread until more data arrived

---
 .../render/consumer/rust/render_consumer.rs   | 98 +++++++++----------
 1 file changed, 47 insertions(+), 51 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index c4b2779..5c79cbd 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -527,61 +527,57 @@ where
                                 "has been received {} bytes",
                                 income.len()
                             );
-                            match buffer.chunk(&income, None) {
-                                Ok(()) => {
-                                    while let Some(msg) = buffer.next() {
-                                        if let protocol::AvailableMessages::InternalServiceGroup(
-                                            protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
-                                        ) = msg.msg {
-                                            debug!(
+                            if let Err(err) = buffer.chunk(&income, None) {
+                                shortcuts::emit_error::<E>(
+                                    ConsumerError::BufferError(format!("{:?}", err)),
+                                    &tx_consumer_event,
+                                )
+                                .await;
+                            }
+                            while let Some(msg) = buffer.next() {
+                                if let protocol::AvailableMessages::InternalServiceGroup(
+                                    protocol::InternalServiceGroup::AvailableMessages::ConnectConfirmationBeacon(msg)
+                                ) = msg.msg {
+                                    debug!(
+                                        target: logs::targets::CONSUMER,
+                                        "producer has been confirmed connection"
+                                    );
+                                    let api_auth = api.clone();
+                                    let options_auth = options.clone();
+                                    let tx_auth_auth = tx_auth.clone();
+                                    spawn(async move {
+                                        if let Err(err) = tx_auth_auth
+                                            .send(Auth::SetUuid(auth(api_auth, options_auth).await))
+                                        {
+                                            error!(
                                                 target: logs::targets::CONSUMER,
-                                                "producer has been confirmed connection"
+                                                "fail to send response for consumer auth: {}", err
                                             );
-                                            let api_auth = api.clone();
-                                            let options_auth = options.clone();
-                                            let tx_auth_auth = tx_auth.clone();
-                                            spawn(async move {
-                                                if let Err(err) = tx_auth_auth
-                                                    .send(Auth::SetUuid(auth(api_auth, options_auth).await))
-                                                {
-                                                    error!(
-                                                        target: logs::targets::CONSUMER,
-                                                        "fail to send response for consumer auth: {}", err
-                                                    );
-                                                }
-                                            });
-                                            continue;
                                         }
-                                        match api.accept(msg.header.sequence, msg.msg.clone()).await
-                                        {
-                                            Ok(accepted) => {
-                                                if accepted {
-                                                    continue;
-                                                }
-                                            }
-                                            Err(err) => {
-                                                shortcuts::emit_error::<E>(
-                                                        ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
-                                                        &tx_consumer_event
-                                                    ).await;
-                                            }
-                                        };
-                                        match msg.msg {[[broadcast_handlers]]
-                                            _ => {
-                                                shortcuts::emit_error::<E>(
-                                                    ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
-                                                    &tx_consumer_event
-                                                ).await;
-                                            }
+                                    });
+                                    continue;
+                                }
+                                match api.accept(msg.header.sequence, msg.msg.clone()).await
+                                {
+                                    Ok(accepted) => {
+                                        if accepted {
+                                            continue;
                                         }
                                     }
-                                }
-                                Err(err) => {
-                                    shortcuts::emit_error::<E>(
-                                        ConsumerError::BufferError(format!("{:?}", err)),
-                                        &tx_consumer_event,
-                                    )
-                                    .await;
+                                    Err(err) => {
+                                        shortcuts::emit_error::<E>(
+                                                ConsumerError::Pending(format!("Fail to handle broadcast Events::Connect; error: {}", err)),
+                                                &tx_consumer_event
+                                            ).await;
+                                    }
+                                };
+                                match msg.msg {[[broadcast_handlers]]
+                                    _ => {
+                                        shortcuts::emit_error::<E>(
+                                            ConsumerError::UnknownMessage(format!("header: {:?}", msg.header)),
+                                            &tx_consumer_event
+                                        ).await;
+                                    }
                                 }
                             }
                         }
@@ -803,7 +799,7 @@ impl Render {
                 broadcast.reference.replace(".", ""),
             );
         }
-        Ok(tools::inject_tabs(13, output))
+        Ok(tools::inject_tabs(11, output))
     }
 
     fn get_dest_file(&self, base: &Path) -> Result<PathBuf, String> {
-- 
2.43.0


From 9c1091059a826ba818455be52e851c14b9cec5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 45/54] fix: Rust consumer stopped if a call was dropped before
 its request had been sent

---
 .../render/consumer/rust/render_consumer.rs   | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cli/src/workflow/render/consumer/rust/render_consumer.rs b/cli/src/workflow/render/consumer/rust/render_consumer.rs
index 5c79cbd..e278066 100644
--- a/cli/src/workflow/render/consumer/rust/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/rust/render_consumer.rs
@@ -479,11 +479,13 @@ where
                 if sequence >= u32::MAX - 1 {
                     sequence = 10;
                 }
-                tx_response.send(sequence).map_err(|_| {
-                    ConsumerError::APIChannel(String::from(
-                        "Fail to send response for for Channel::Sequence",
-                    ))
-                })?;
+                // nobody waits for it if the call has been dropped
+                if tx_response.send(sequence).is_err() {
+                    debug!(
+                        target: logs::targets::CONSUMER,
+                        "fail to send response for Channel::Sequence"
+                    );
+                }
             }
             Channel::Shutdown(tx_response) => {
                 tx_shutdown.send(tx_response).await.map_err(|_| {
@@ -619,9 +621,13 @@ where
                     }
                 },
                 Auth::GetUuid(tx_response) => {
-                    tx_response.send(uuid).map_err(|_| {
-                        ConsumerError::APIChannel(String::from("Fail to response on uuid request"))
-                    })?;
+                    // nobody waits for it if the call has been dropped
+                    if tx_response.send(uuid).is_err() {
+                        debug!(
+                            target: logs::targets::CONSUMER,
+                            "fail to response on uuid request"
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From f2fb90946a016f15bf7f92fae2d01919b35ccdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 46/54] fix: TypeScript producer did not confirm connections,
 Rust consumers never started the handshake with it

---
 .../render/producer/typescript/render_mod.rs        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/producer/typescript/render_mod.rs b/cli/src/workflow/render/producer/typescript/render_mod.rs
index f77635a..a57a2c7 100644
--- a/cli/src/workflow/render/producer/typescript/render_mod.rs
+++ b/cli/src/workflow/render/producer/typescript/render_mod.rs
@@ -180,7 +180,18 @@ export class Producer {
                 new Filter(this._consumers),
                 this._context,
                 this
-            )
+            ).finally(() => {
+                if (this._consumers.get(uuid) !== consumer) {
+                    return;
+                }
+                // Consumers wait for it before they present their key
+                return this.send(
+                    uuid,
+                    new Protocol.InternalServiceGroup.ConnectConfirmationBeacon(
+                        {}
+                    ).pack(0, uuid)
+                );
+            })
         );
     }
 
-- 
2.43.0


From 697bdcd2e0ff50faeb238201377b321d3bf2da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 47/54] fix: TypeScript consumer presented its key before the
 connection was confirmed, Rust producers disconnected it

---
 .../render/consumer/typescript/render_consumer.rs     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cli/src/workflow/render/consumer/typescript/render_consumer.rs b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
index 994fdd1..cd1209c 100644
--- a/cli/src/workflow/render/consumer/typescript/render_consumer.rs
+++ b/cli/src/workflow/render/consumer/typescript/render_consumer.rs
@@ -220,6 +220,11 @@ export class Consumer {
 
     private _onClientConnected() {
         this._logger.debug(`Client is connected`);
+        this.connected.emit();
+    }
+
+    private _onConnectionConfirmed() {
+        this._logger.debug(`Producer has confirmed connection`);
         this.assign(this._key).then((uuid: string) => {
             this._hash().then(() => {
                 this._logger.debug(`Protocol and workflow hashes has been accepted`);
@@ -230,7 +235,6 @@ export class Consumer {
         }).catch((err: Error) => {
             this._logger.err(`Default assign prodecure is failed: ${err.message}`);
         });
-        this.connected.emit();
     }
 
     private _onClientDisconnected() {
@@ -262,6 +266,11 @@ export class Consumer {
             if (msg === undefined) {
                 return;
             }
+            if (msg.msg.InternalServiceGroup !== undefined && msg.msg.InternalServiceGroup.ConnectConfirmationBeacon !== undefined) {
+                // Producer refuses everything what comes before
+                this._onConnectionConfirmed();
+                continue;
+            }
             const pending = this._pending.get(msg.header.sequence);
             if (pending !== undefined) {
                 this._pending.delete(msg.header.sequence);
-- 
2.43.0


From f100bf91b3cf3dd1b680f0b7353171212055ab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 48/54] fix: requests on messages whose root name has an
 underscore were refused

---
 cli/src/workflow/request.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/workflow/request.rs b/cli/src/workflow/request.rs
index 54363a0..4ea2d60 100644
--- a/cli/src/workflow/request.rs
+++ b/cli/src/workflow/request.rs
@@ -1,4 +1,4 @@
-use super::{Broadcast, ENext, EntityOut, EntityParser, Protocol};
+use super::{chars, Broadcast, ENext, EntityOut, EntityParser, Protocol};
 
 #[derive(Debug, PartialEq, Clone)]
 enum EExpectation {
@@ -272,7 +272,10 @@ impl Request {
 
 impl EntityParser for Request {
     fn open(word: String) -> Option<Self> {
-        if word.chars().all(char::is_alphanumeric) {
+        if word
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == chars::UNDERLINE)
+        {
             Some(Self::new(word))
         } else {
             None
-- 
2.43.0


From 3c0cd4462650dd7d6062d7316b7e542a8f3fce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 49/54] fix: whitespace before the semicolon of an enum item
 changed its meaning

---
 cli/src/protocol/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cli/src/protocol/parser.rs b/cli/src/protocol/parser.rs
index 9838dc2..deadd52 100644
--- a/cli/src/protocol/parser.rs
+++ b/cli/src/protocol/parser.rs
@@ -85,8 +85,9 @@ impl Parser {
                 Ok(enext) => {
                     self.prev = Some(enext.clone());
                     let offset: usize = match enext {
-                        ENext::Word((word, offset, next_char)) => {
-                            let next_char: char = if let Some(c) = next_char { c } else { '.' };
+                        ENext::Word((word, offset, _next_char)) => {
+                            // Whitespaces between word and next symbol do not matter
+                            let next_char = content[offset..].trim_start().chars().next();
                             if Entities::get_entity(&word).is_some()
                                 && (is_in(&expectation, &EExpectation::GroupDef)
                                     || is_in(&expectation, &EExpectation::StructDef)
@@ -156,7 +157,7 @@ impl Parser {
                                 }
                             } else if is_in(&expectation, &EExpectation::FieldType) {
                                 if store.is_enum_opened() {
-                                    if next_char == ';' {
+                                    if next_char == Some(chars::SEMICOLON) {
                                         store.set_simple_enum_item(&word);
                                         expectation = vec![EExpectation::Semicolon];
                                     } else {
-- 
2.43.0


From 12ed8b27b12e56ebeb5f79786588d0b3f8c9c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 50/54] fix: help named the key --workflow twice instead of -wf

---
 cli/src/arguments/args_option_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index 51bcb01..46c0cd8 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -382,7 +382,7 @@ impl CtrlArg for ArgsOptionFiles {
                 helpers::output::desk("[required] path to source file. Protocol file with description messages."),
             ),
             format!("{}{}",
-                helpers::output::keys(&format!("{} ({})", keys::WORKFLOW, keys::WORKFLOW)),
+                helpers::output::keys(&format!("{} ({})", keys::WORKFLOW, keys::WF)),
                 helpers::output::desk("path to workflow file. Description of communication between procuder & consumer."),
             ),
             format!("{}{}",
-- 
2.43.0


From be881a20be50965283cee99c30baed00abdd949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 51/54] fix: keys without value were ignored (status 0, nothing
 generated) or took the next key for the value, protocol outputs did not take
 the name of the source as help says

---
 cli/src/arguments/args_option_files.rs | 41 ++++++++++++++++++++------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/cli/src/arguments/args_option_files.rs b/cli/src/arguments/args_option_files.rs
index 46c0cd8..a6111c7 100644
--- a/cli/src/arguments/args_option_files.rs
+++ b/cli/src/arguments/args_option_files.rs
@@ -144,6 +144,10 @@ impl ArgsOptionFiles {
         }
     }
 
+    fn set_no_value(&mut self, key: &str) {
+        self.set_err(format!("Value of key {} isn't defined", key));
+    }
+
     fn set_err(&mut self, err: String) {
         self.errs.push(err);
     }
@@ -194,16 +198,20 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::SOURCE || arg == keys::SRC || arg == keys::S)
         {
-            if let Some(arg_str_src) = args.get(src_index + 1) {
-                options.set_src(Path::new(pwd).join(arg_str_src))
+            if let Some(arg_str_src) = get_value(&args, src_index) {
+                options.set_src(Path::new(pwd).join(arg_str_src));
+            } else {
+                options.set_no_value(keys::SOURCE);
             }
         }
         if let Some(wf_index) = args
             .iter()
             .position(|arg| arg == keys::WORKFLOW || arg == keys::WF)
         {
-            if let Some(arg_str_wf) = args.get(wf_index + 1) {
+            if let Some(arg_str_wf) = get_value(&args, wf_index) {
                 options.set_workflow(Path::new(pwd).join(arg_str_wf));
+            } else {
+                options.set_no_value(keys::WORKFLOW);
             }
         }
         let mut overwrite: bool = false;
@@ -216,40 +224,50 @@ impl CtrlArg for ArgsOptionFiles {
             .iter()
             .position(|arg| arg == keys::DESTINATION_RS || arg == keys::DEST_RS || arg == keys::RS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = get_value(&args, dest_index) {
                 options.set_dest_rs(Path::new(pwd).join(arg_str_dest), overwrite);
+            } else if let Some(src) = options.src.clone() {
+                options.set_dest_rs(src.with_extension("rs"), overwrite);
             }
         }
         if let Some(dest_index) = args
             .iter()
             .position(|arg| arg == keys::DESTINATION_TS || arg == keys::DEST_TS || arg == keys::TS)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = get_value(&args, dest_index) {
                 options.set_dest_ts(Path::new(pwd).join(arg_str_dest), overwrite);
+            } else if let Some(src) = options.src.clone() {
+                options.set_dest_ts(src.with_extension("ts"), overwrite);
             }
         }
         if let Some(dest_index) = args
             .iter()
             .position(|arg| arg == keys::CONSUMER_DEST || arg == keys::CD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = get_value(&args, dest_index) {
                 options.set_dest_consumer(Path::new(pwd).join(arg_str_dest));
+            } else {
+                options.set_no_value(keys::CONSUMER_DEST);
             }
         }
         if let Some(dest_index) = args
             .iter()
             .position(|arg| arg == keys::PRODUCER_DEST || arg == keys::PD)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = get_value(&args, dest_index) {
                 options.set_dest_producer(Path::new(pwd).join(arg_str_dest));
+            } else {
+                options.set_no_value(keys::PRODUCER_DEST);
             }
         }
         if let Some(dest_index) = args
             .iter()
             .position(|arg| arg == keys::PUML || arg == keys::D)
         {
-            if let Some(arg_str_dest) = args.get(dest_index + 1) {
+            if let Some(arg_str_dest) = get_value(&args, dest_index) {
                 options.set_dest_uml(Path::new(pwd).join(arg_str_dest), overwrite);
+            } else {
+                options.set_no_value(keys::PUML);
             }
         }
         options
@@ -409,6 +427,11 @@ impl CtrlArg for ArgsOptionFiles {
     }
 }
 
+// Returns the value of the key placed at index. The next key isn't a value
+fn get_value(args: &[String], index: usize) -> Option<&String> {
+    args.get(index + 1).filter(|arg| !arg.starts_with('-'))
+}
+
 pub fn get_cleaner() -> impl Fn(Vec<String>) -> Vec<String> {
     move |mut args: Vec<String>| {
         let keys: Vec<Vec<&str>> = vec![
@@ -425,7 +448,7 @@ pub fn get_cleaner() -> impl Fn(Vec<String>) -> Vec<String> {
                 .iter()
                 .position(|arg| sub_keys.iter().any(|k| k == arg))
             {
-                match args.get(index + 1) {
+                match get_value(&args, index) {
                     Some(_) => {
                         args.remove(index + 1);
                         args.remove(index);
-- 
2.43.0


From 7ede82ea00d03a5748fdcff76950f6c5067d8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 52/54] fix: full paths of types of the group still being
 described were refused inside of that group

---
 cli/src/protocol/store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 4f97885..d2a3c48 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -232,6 +232,7 @@ impl Store {
             } else if let Some(group_ref) = self
                 .groups
                 .iter()
+                .chain(self.c_group.iter())
                 .find(|i| i.name == *type_str && i.parent == parent)
             {
                 results.push((String::from(type_str), group_ref.id));
-- 
2.43.0


From 1bc7e26af60382a95f5314f37d940acbf5f5ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 53/54] fix: structs, enums and groups named as primitive types
 were accepted, members of such types became primitives

---
 cli/src/protocol/store.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index d2a3c48..0edc962 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -1,4 +1,4 @@
-use super::{stop, Enum, Field, Group, Struct};
+use super::{stop, Enum, Field, Group, PrimitiveTypes, Struct};
 
 pub const INTERNAL_SERVICE_GROUP: &str = "InternalServiceGroup";
 
@@ -478,6 +478,9 @@ impl Store {
     }
 
     fn check_name(&self, name: &str, parent: usize) {
+        if PrimitiveTypes::is_valid(name) {
+            stop!("Name \"{}\" is a name of primitive type", name);
+        }
         if self
             .structs
             .iter()
-- 
2.43.0


From b1b6bcb6aff78431213366faf6b9e357f0384dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 54/54] fix: names of service messages already used by a
 protocol were accepted, outputs with both did not compile

---
 cli/src/protocol/store.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/protocol/store.rs b/cli/src/protocol/store.rs
index 0edc962..d1e6935 100644
--- a/cli/src/protocol/store.rs
+++ b/cli/src/protocol/store.rs
@@ -43,6 +43,7 @@ impl Store {
             .iter()
             .any(|i| i.name == INTERNAL_SERVICE_GROUP && i.parent == 0)
         {
+            self.check_name(INTERNAL_SERVICE_GROUP, 0);
             self.sequence += 1;
             self.groups.push(Group::new(
                 self.sequence,
@@ -59,6 +60,9 @@ impl Store {
         } else {
             None
         };
+        if let Some(service_group_id) = service_group_id {
+            self.check_name(&name, service_group_id);
+        }
         let service_group_path = if let Some(service_group_id) = service_group_id {
             self.get_path_by_parent(service_group_id)
         } else {
-- 
2.43.0

