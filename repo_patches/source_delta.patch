From 3e1fd7b4d505fcd8841467d2a231590a0d2f6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 01/19] fix: decode signed 256-bit integers as I256, not U256

---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From df365665cdb7d66c9fbb5d11eb2210ba52ea8f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 02/19] fix: don't preallocate from an untrusted length prefix
 when decoding

---
 src/scale_impls/decode.rs                  | 4 +++-
 src/scale_impls/tracing_decoder/visitor.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..2ac67ce 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,9 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // The length comes from the input, so don't trust it to allocate more than there are bytes.
+        let mut vals =
+            Vec::with_capacity($value.remaining().min($value.bytes_from_undecoded().len()));
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..973e81b 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,9 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            // The length comes from the input, so don't trust it to allocate more than there are bytes.
+            let mut vals =
+                Vec::with_capacity($value.remaining().min($value.bytes_from_undecoded().len()));
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From d006ec80fe80f465cc7cbf21723f26839d352537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 03/19] fix: include variant names in the path of a tracing
 decode error

---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index 973e81b..2669558 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -285,7 +285,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From 97ff7ee941ff4645254519126d70c0439b1533e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 04/19] fix: render tracing decode errors which contain 256-bit
 integers

---
 src/scale_impls/tracing_decoder/error.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..9242b23 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,14 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        .add_custom_formatter(|value, writer| match &value.value {
+            // These have no string representation otherwise, so show the raw bytes.
+            ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) => {
+                Some(write!(writer, "0x").and_then(|()| {
+                    bytes.iter().try_for_each(|byte| write!(writer, "{byte:02x}"))
+                }))
+            }
+            _ => None,
+        })
         .write(value, f)
 }
-- 
2.43.0


From 220a1033f01433b07547d6702a08bdec07808321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 05/19] fix: tell variant names beginning with true or false
 from booleans

---
 src/string_impls/from_string.rs | 13 +++++++++----
 src/string_impls/to_string.rs   |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..6607948 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -384,12 +384,17 @@ fn parse_bit_sequence(t: &mut StrTokens) -> Result<BitSequence, Option<ParseErro
 
 // Parse a bool (`true` or `false`)
 fn parse_bool(t: &mut StrTokens) -> Option<bool> {
-    if t.tokens("true".chars()) {
-        Some(true)
+    let val = if t.tokens("true".chars()) {
+        true
     } else if t.tokens("false".chars()) {
-        Some(false)
+        false
     } else {
-        None
+        return None;
+    };
+    // If the word continues (eg `trueish { .. }`) then it's a variant name and not a bool:
+    match t.peek() {
+        Some(c) if c.is_alphanumeric() || c == '_' => None,
+        _ => Some(val),
     }
 }
 
diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..f64cce8 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,10 +431,10 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    if is_ident(&v.name) && v.name != "true" && v.name != "false" {
         f.write_str(&v.name)?;
     } else {
-        // If the variant name isn't a valid ident, we parse it into
+        // If the variant name isn't a valid ident (or is one that reads as a bool), we parse it into
         // a special "v" prefixed string to allow arbitrary content while
         // keeping it easy to parse variant names with minimal lookahead.
         // Most use cases should never see or care about this.
-- 
2.43.0


From 943bf89ab42f8e0587a009d89c3f997c9970a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 06/19] fix: continue exactly where a custom parser stopped, on
 multi-byte text too

---
 src/string_impls/from_string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 6607948..1d8cf90 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,16 +227,18 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // A fresh cursor for each parser, in case one moves it but then returns None.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
+                        // The lengths are in bytes, but each step here consumes one char.
+                        while t.remaining().len() > cursor.len() {
                             t.next();
                         }
                         return Ok(value);
-- 
2.43.0


From afcc7680499945bd87ff2ea52fd82679566f9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 07/19] fix: don't take the beginning of a longer variant name
 for an ss58 address

---
 src/string_impls/custom_parsers/ss58.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index b373604..67f2816 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -50,6 +50,12 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
         return None;
     }
 
+    // If the word goes on with a character that can be part of an ident but isn't ASCII alphanumeric,
+    // then we've only been given the beginning of some variant ident.
+    if rest.starts_with(|c: char| c.is_alphanumeric() || c == '_') {
+        return None;
+    }
+
     // If what we are parsing is a variant ident, a `{` or `(` will follow
     // (eg `Foo { hi: 1 }` or `Foo (1)`). In this case, don't try to parse
     // as an ss58 address, since it would definitely be wrong to do so.
-- 
2.43.0


From 00a3683ecc10fd5cc6c2c25c37b5179c72ebf20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 08/19] fix: skip newtype layers one at a time when encoding

A composite of one value was handed to scale_encode, which skips layers of the
value and of the type without regard to what they are. Values such as
((8,4,5,4,6)) for a newtype around a sequence of sequences encoded to bytes of
something else, values which fit were refused, and every further layer of a
single value doubled the work.
---
 src/scale_impls/encode.rs | 86 +++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..4320377 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -31,6 +31,13 @@ impl<T> EncodeAsType for Value<T> {
         types: &R,
         out: &mut Vec<u8>,
     ) -> Result<(), Error> {
+        // Anything but a composite can't match a newtype wrapper like thing itself, only what is
+        // in it. Composites might, so they decide on this for themselves.
+        let type_id = match &self.value {
+            ValueDef::Composite(_) => type_id,
+            _ => find_single_entry_with_same_repr::<R>(type_id, types).0,
+        };
+
         match &self.value {
             ValueDef::Composite(val) => encode_composite(val, type_id, types, out),
             ValueDef::Variant(val) => encode_variant(val, type_id, types, out),
@@ -81,12 +88,11 @@ impl<T> EncodeAsFields for Composite<T> {
 // sequences/arrays for instance.
 fn encode_composite<T, R: TypeResolver>(
     value: &Composite<T>,
-    mut type_id: R::TypeId,
+    type_id: R::TypeId,
     types: &R,
     out: &mut Vec<u8>,
 ) -> Result<(), Error> {
-    // Encode our composite Value as-is (pretty much; we will try to
-    // unwrap the Value only if we need primitives).
+    // Encode our composite Value as-is, without unwrapping it.
     fn do_encode_composite<T, R: TypeResolver>(
         value: &Composite<T>,
         type_id: R::TypeId,
@@ -96,21 +102,27 @@ fn encode_composite<T, R: TypeResolver>(
         // context to hand to visitor functions:
         let ctx = (type_id.clone(), out);
 
-        let visit_composite_or_tuple =
-            |(type_id, out): (R::TypeId, &mut Vec<u8>)| -> Result<(), Error> {
-                match value {
-                    Composite::Named(vals) => {
-                        let keyvals =
-                            vals.iter().map(|(key, val)| (Some(&**key), CompositeField::new(val)));
-                        EncodeComposite::new(keyvals)
-                            .encode_composite_as_type_to(type_id, types, out)
-                    }
-                    Composite::Unnamed(vals) => {
-                        let vals = vals.iter().map(|val| (None, CompositeField::new(val)));
-                        EncodeComposite::new(vals).encode_composite_as_type_to(type_id, types, out)
-                    }
+        let visit_composite_or_tuple = |(type_id, out): (R::TypeId, &mut Vec<u8>),
+                                        fields: &mut dyn FieldIter<'_, R::TypeId>|
+         -> Result<(), Error> {
+            // A single value may be a newtype wrapper, or a collection of one value. Match it with
+            // exactly one layer of the type here, and leave it to the steps below to skip layers;
+            // `scale_encode` would skip layers on both sides without knowing what they are.
+            if value.len() == 1 {
+                return value.encode_as_fields_to(fields, types, out);
+            }
+            match value {
+                Composite::Named(vals) => {
+                    let keyvals =
+                        vals.iter().map(|(key, val)| (Some(&**key), CompositeField::new(val)));
+                    EncodeComposite::new(keyvals).encode_composite_as_type_to(type_id, types, out)
+                }
+                Composite::Unnamed(vals) => {
+                    let vals = vals.iter().map(|val| (None, CompositeField::new(val)));
+                    EncodeComposite::new(vals).encode_composite_as_type_to(type_id, types, out)
                 }
-            };
+            }
+        };
 
         let visitor = scale_type_resolver::visitor::new::<
             '_,
@@ -118,20 +130,17 @@ fn encode_composite<T, R: TypeResolver>(
             R::TypeId,
             Result<(), Error>,
             _,
-        >(ctx, |(type_id, out), _| {
-            let mut values = value.values();
-            match (values.next(), values.next()) {
-                // Exactly one value:
-                (Some(value), None) => value.encode_as_type_to(type_id, types, out),
-                // Some other number of values:
-                _ => Err(Error::new(ErrorKind::WrongShape {
-                    actual: Kind::Tuple,
-                    expected_id: format!("{:?}", type_id),
-                })),
-            }
+        >(ctx, |(type_id, _), _| {
+            // Not something that a composite value can be encoded to as it is.
+            Err(Error::new(ErrorKind::WrongShape {
+                actual: Kind::Tuple,
+                expected_id: format!("{:?}", type_id),
+            }))
+        })
+        .visit_composite(|ctx, _, fields| visit_composite_or_tuple(ctx, fields))
+        .visit_tuple(|ctx, type_ids| {
+            visit_composite_or_tuple(ctx, &mut type_ids.map(scale_type_resolver::Field::unnamed))
         })
-        .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
-        .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
         .visit_sequence(|(_, out), _path, type_id| {
             // sequences start with compact encoded length:
             Compact(value.len() as u32).encode_to(out);
@@ -199,12 +208,10 @@ fn encode_composite<T, R: TypeResolver>(
             find_single_entry_with_same_repr::<R>(type_id.clone(), types);
         if inner_is_different {
             let mut temp_out = Vec::new();
-            if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out)
-            {
+            if let Ok(()) = do_encode_composite(value, inner_type_id, types, &mut temp_out) {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
             }
-            type_id = inner_type_id;
         }
     }
 
@@ -215,9 +222,16 @@ fn encode_composite<T, R: TypeResolver>(
     // fails.
     if let Some(value) = get_only_value_from_composite(value) {
         let mut temp_out = Vec::new();
-        if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
-            out.extend_from_slice(&temp_out);
-            return Ok(());
+        match value.encode_as_type_to(type_id, types, &mut temp_out) {
+            Ok(()) => {
+                out.extend_from_slice(&temp_out);
+                return Ok(());
+            }
+            // The type isn't one for composites, so the inner value's error says more.
+            Err(e) if matches!(original_error.kind(), ErrorKind::WrongShape { .. }) => {
+                return Err(e);
+            }
+            Err(_) => {}
         }
     }
 
-- 
2.43.0


From c6013872a51854f9758173acb4f72d6bbbc75763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 09/19] fix: encode characters and 256-bit integers to their
 own types

---
 src/scale_impls/encode.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 4320377..c8c5134 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,6 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
 };
+use scale_type_resolver::Primitive as ResolvedPrimitive;
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -363,14 +364,28 @@ fn encode_primitive<R: TypeResolver>(
     types: &R,
     bytes: &mut Vec<u8>,
 ) -> Result<(), Error> {
-    match value {
-        Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::String(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::U128(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::I128(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::U256(val) => val.encode_as_type_to(type_id, types, bytes),
-        Primitive::I256(val) => val.encode_as_type_to(type_id, types, bytes),
+    // `scale_encode` has no notion of these primitives, so encode to them here.
+    let visitor = scale_type_resolver::visitor::new((), |_, _| None)
+        .visit_primitive(|_, primitive| Some(primitive));
+    let target = types.resolve_type(type_id.clone(), visitor).ok().flatten();
+
+    match (value, target) {
+        (Primitive::Char(val), Some(ResolvedPrimitive::Char)) => {
+            u32::from(*val).encode_to(bytes);
+            Ok(())
+        }
+        (Primitive::U256(val), Some(ResolvedPrimitive::U256))
+        | (Primitive::I256(val), Some(ResolvedPrimitive::I256)) => {
+            val.encode_to(bytes);
+            Ok(())
+        }
+        (Primitive::Bool(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::Char(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::String(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::U128(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::I128(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::U256(val), _) => val.encode_as_type_to(type_id, types, bytes),
+        (Primitive::I256(val), _) => val.encode_as_type_to(type_id, types, bytes),
     }
 }
 
-- 
2.43.0


From a61c9a6707c4fa18770328e2978066bf7e582373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 10/19] fix: let newtype structs and variants survive
 conversion to a value and back

These serialize to a composite (or variant) holding the one inner value, but
deserializing handed that composite to the inner type instead of the value in
it, so that no newtype struct and no newtype variant could be read back.
---
 src/serde_impls/deserializer.rs | 98 ++++++++++++++++++++++++++++++++-
 1 file changed, 96 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index d25c600..6bf8345 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -513,7 +513,7 @@ impl<'de, T> Deserializer<'de> for Composite<T> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_seq(de::value::SeqDeserializer::new(Some(self).into_iter()))
+        visitor.visit_seq(de::value::SeqDeserializer::new(Some(NewtypeContent(self)).into_iter()))
     }
 
     fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -557,6 +557,100 @@ impl<'de, T> IntoDeserializer<'de, DeserializerError> for Composite<T> {
     }
 }
 
+/// The content of a newtype struct or newtype variant. We serialize these to a composite holding
+/// the one inner value, and so hand that value back when we are asked for the inner type. We also
+/// accept the composite itself being the inner value (ie the newtype wrapper being left out); this
+/// is assumed if it isn't of that shape, or if something that could be a collection of one value
+/// is asked for and the only value can't be a collection itself.
+struct NewtypeContent<T>(Composite<T>);
+
+impl<T> NewtypeContent<T> {
+    fn into_inner(self, as_collection: bool) -> Result<Value<T>, Composite<T>> {
+        match self.0 {
+            Composite::Unnamed(mut vals) if vals.len() == 1 => {
+                let val = vals.pop().expect("length checked");
+                if as_collection && matches!(val.value, ValueDef::Primitive(_)) {
+                    Err(Composite::Unnamed(vec![val]))
+                } else {
+                    Ok(val)
+                }
+            }
+            composite => Err(composite),
+        }
+    }
+}
+
+macro_rules! deserialize_newtype_content {
+    ($as_collection:literal, $( $name:ident($( $arg:ident: $ty:ty ),*) )+) => {
+        $(
+            fn $name<V>(self, $( $arg: $ty, )* visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: de::Visitor<'de>,
+            {
+                match self.into_inner($as_collection) {
+                    Ok(value) => value.$name($( $arg, )* visitor),
+                    Err(composite) => composite.$name($( $arg, )* visitor),
+                }
+            }
+        )+
+    };
+}
+
+impl<'de, T> Deserializer<'de> for NewtypeContent<T> {
+    type Error = DeserializerError;
+
+    // With no hint about what's wanted, the composite is all that we can hand back.
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.0.deserialize_any(visitor)
+    }
+
+    deserialize_newtype_content! { false,
+        deserialize_bool()
+        deserialize_i8()
+        deserialize_i16()
+        deserialize_i32()
+        deserialize_i64()
+        deserialize_i128()
+        deserialize_u8()
+        deserialize_u16()
+        deserialize_u32()
+        deserialize_u64()
+        deserialize_u128()
+        deserialize_f32()
+        deserialize_f64()
+        deserialize_char()
+        deserialize_str()
+        deserialize_string()
+        deserialize_option()
+        deserialize_unit()
+        deserialize_unit_struct(name: &'static str)
+        deserialize_newtype_struct(name: &'static str)
+        deserialize_enum(name: &'static str, variants: &'static [&'static str])
+    }
+
+    deserialize_newtype_content! { true,
+        deserialize_bytes()
+        deserialize_byte_buf()
+        deserialize_seq()
+        deserialize_tuple(len: usize)
+        deserialize_tuple_struct(name: &'static str, len: usize)
+        deserialize_map()
+        deserialize_struct(name: &'static str, fields: &'static [&'static str])
+    }
+
+    forward_to_deserialize_any! { identifier ignored_any }
+}
+
+impl<'de, T> IntoDeserializer<'de, DeserializerError> for NewtypeContent<T> {
+    type Deserializer = NewtypeContent<T>;
+    fn into_deserializer(self) -> Self::Deserializer {
+        self
+    }
+}
+
 // Because composite types are used to represent variant fields, we allow
 // variant accesses to be called on it, which just delegate to methods defined above.
 impl<'de, T> VariantAccess<'de> for Composite<T> {
@@ -570,7 +664,7 @@ impl<'de, T> VariantAccess<'de> for Composite<T> {
     where
         S: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self)
+        seed.deserialize(NewtypeContent(self))
     }
 
     fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 2937c997a799f2bf1c39ae275502a192cc0b37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 11/19] fix: read variants as structs through Value and
 ValueDef, as through Variant

---
 src/serde_impls/deserializer.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 6bf8345..42b7396 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -393,10 +393,27 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
         }
     }
 
+    fn deserialize_struct<V>(
+        self,
+        name: &'static str,
+        fields: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        delegate_except_bitseq! { deserialize_struct(self, name, fields, visitor),
+            seq => {
+                let map = bitvec_helpers::map_access(seq);
+                visitor.visit_map(map)
+            }
+        }
+    }
+
     // None of the sub types particularly care about these, so we just allow them to forward to
     // deserialize_any and go from there.
     forward_to_deserialize_any! {
-        struct identifier ignored_any
+        identifier ignored_any
     }
 }
 
-- 
2.43.0


From e4e53fbd441c635f4aaaad0ea940872eb717ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 12/19] fix: refuse unnamed values with more items than the
 struct they are read as

---
 src/serde_impls/deserializer.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 42b7396..6f181aa 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -424,6 +424,21 @@ impl<'de, T> IntoDeserializer<'de, DeserializerError> for Value<T> {
     }
 }
 
+/// Hand the values to the visitor as a sequence. It's an error if the visitor does not want all of
+/// them (for instance because it's after a struct with fewer fields), so that none is lost silently.
+fn visit_whole_seq<'de, T, V>(
+    values: impl Iterator<Item = Value<T>>,
+    visitor: V,
+) -> Result<V::Value, DeserializerError>
+where
+    V: de::Visitor<'de>,
+{
+    let mut seq = de::value::SeqDeserializer::new(values);
+    let out = visitor.visit_seq(&mut seq)?;
+    seq.end()?;
+    Ok(out)
+}
+
 impl<'de, T> Deserializer<'de> for Composite<T> {
     type Error = DeserializerError;
 
@@ -435,9 +450,7 @@ impl<'de, T> Deserializer<'de> for Composite<T> {
             Composite::Named(values) => {
                 visitor.visit_map(de::value::MapDeserializer::new(values.into_iter()))
             }
-            Composite::Unnamed(values) => {
-                visitor.visit_seq(de::value::SeqDeserializer::new(values.into_iter()))
-            }
+            Composite::Unnamed(values) => visit_whole_seq(values.into_iter(), visitor),
         }
     }
 
@@ -446,11 +459,10 @@ impl<'de, T> Deserializer<'de> for Composite<T> {
         V: de::Visitor<'de>,
     {
         match self {
-            Composite::Named(values) => visitor
-                .visit_seq(de::value::SeqDeserializer::new(values.into_iter().map(|(_, v)| v))),
-            Composite::Unnamed(values) => {
-                visitor.visit_seq(de::value::SeqDeserializer::new(values.into_iter()))
+            Composite::Named(values) => {
+                visit_whole_seq(values.into_iter().map(|(_, v)| v), visitor)
             }
+            Composite::Unnamed(values) => visit_whole_seq(values.into_iter(), visitor),
         }
     }
 
-- 
2.43.0


From 10a9b5b08a4d7d9b87f02ea1f1fd2c51cc01106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 13/19] fix: read Some and None variants as options without the
 surrounding value, too

---
 src/serde_impls/deserializer.rs | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index 6f181aa..fbc7b6f 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -376,20 +376,11 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
     where
         V: de::Visitor<'de>,
     {
-        // Special handling to turn a variant value of "Some" or "None" into an option.
-        if let ValueDef::Variant(Variant { name, values: Composite::Unnamed(mut vs) }) = self {
-            if name == "Some" && vs.len() == 1 {
-                visitor.visit_some(vs.pop().expect("length checked"))
-            } else if name == "None" && vs.is_empty() {
-                visitor.visit_none()
-            } else {
-                // Reconstruct the variant and try to deserialize without the option hint:
-                ValueDef::Variant(Variant { name, values: Composite::Unnamed(vs) })
-                    .deserialize_any(visitor)
+        delegate_except_bitseq! { deserialize_option(self, visitor),
+            seq => {
+                let map = bitvec_helpers::map_access(seq);
+                visitor.visit_map(map)
             }
-        } else {
-            // fall back to deserializing based on the value type if it doesn't look like an Option:
-            self.deserialize_any(visitor)
         }
     }
 
@@ -748,6 +739,21 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
         visitor.visit_seq(de::value::SeqDeserializer::new(Some(self).into_iter()))
     }
 
+    fn deserialize_option<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        // Special handling to turn a variant value of "Some" or "None" into an option.
+        match &mut self.values {
+            Composite::Unnamed(vs) if self.name == "Some" && vs.len() == 1 => {
+                visitor.visit_some(vs.pop().expect("length checked"))
+            }
+            Composite::Unnamed(vs) if self.name == "None" && vs.is_empty() => visitor.visit_none(),
+            // Otherwise, try to deserialize without the option hint:
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     // All of the below functions delegate to the Composite deserializing methods using the enum values.
 
     fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -815,7 +821,7 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From 2b6442e561d735aade7f88f5482719d6a2829a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 14/19] fix: don't preallocate from untrusted size hints when
 deserializing

---
 src/serde_impls/bitvec_helpers.rs |  4 ++--
 src/serde_impls/deserialize.rs    | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..71a4253 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -22,7 +22,7 @@
 //! it's up to the visitor to do its best to accept what it's handed, or reject it if it's simply
 //! not going to work out.
 
-use super::deserializer::DeserializerError;
+use super::{deserialize::cautious_capacity, deserializer::DeserializerError};
 use crate::prelude::*;
 use crate::{BitSequence, Composite, ValueDef};
 use serde::{
@@ -88,7 +88,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..3a72c05 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -83,6 +83,12 @@ impl<'de> Deserialize<'de> for Variant<()> {
     }
 }
 
+/// How much to preallocate given a size hint. The hint may come straight from some untrusted input,
+/// so only reserve so much before any items have been seen.
+pub(super) fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    size_hint.unwrap_or(0).min(64)
+}
+
 struct PrimitiveVisitor;
 
 macro_rules! visit_prim {
@@ -191,7 +197,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +208,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From e6dc3dfb1e6a8feaf52fd4eb37aa2b64a853a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 15/19] fix: make the value! macro independent of the names in
 scope where it is used

---
 src/lib.rs    | 11 +++++++++++
 src/macros.rs | 16 ++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 259c476..abe1808 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,17 @@ mod value_type;
 // Traits to allow indexing into values.
 pub use at::{At, Location};
 
+// What our macros expand to: these might not be in scope, or be something
+// else, where the macros are used.
+#[doc(hidden)]
+pub mod __private {
+    pub use alloc::{
+        string::{String, ToString},
+        vec,
+        vec::Vec,
+    };
+}
+
 // The value definition.
 pub use value_type::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};
 
diff --git a/src/macros.rs b/src/macros.rs
index a3113d8..830e6e3 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -251,19 +251,19 @@ macro_rules! value_internal {
 
     // empty composites:
     () => {
-        $crate::Value::unnamed_composite(Vec::<$crate::Value>::new())
+        $crate::Value::unnamed_composite($crate::__private::Vec::<$crate::Value>::new())
     };
     (()) => {
-        $crate::Value::unnamed_composite(Vec::<$crate::Value>::new())
+        $crate::Value::unnamed_composite($crate::__private::Vec::<$crate::Value>::new())
     };
     ({}) => {
-        $crate::Value::named_composite(Vec::<(String, $crate::Value)>::new())
+        $crate::Value::named_composite($crate::__private::Vec::<($crate::__private::String, $crate::Value)>::new())
     };
 
     // named composites e.g. { age: 1, nice: false }
     ({ $($tt:tt)* }) => {
         {
-            let fields: Vec::<(String, $crate::Value)> = value_internal!(@named [] () ($($tt)*));
+            let fields: $crate::__private::Vec<($crate::__private::String, $crate::Value)> = value_internal!(@named [] () ($($tt)*));
             $crate::Value::named_composite(fields)
         }
     };
@@ -272,7 +272,7 @@ macro_rules! value_internal {
     ($variant:ident { $($tt:tt)* }) => {
         {
             let variant_name = literal_aware_stringify!($variant);
-            let fields: Vec::<(String, $crate::Value)> = value_internal!(@named [] () ($($tt)*));
+            let fields: $crate::__private::Vec<($crate::__private::String, $crate::Value)> = value_internal!(@named [] () ($($tt)*));
             $crate::Value::named_variant(variant_name,fields)
         }
     };
@@ -306,7 +306,7 @@ macro_rules! value_internal {
 #[doc(hidden)]
 macro_rules! vec_wrapper {
     ($($content:tt)*) => {
-        vec![$($content)*]
+        $crate::__private::vec![$($content)*]
     };
 }
 
@@ -316,10 +316,10 @@ macro_rules! vec_wrapper {
 #[doc(hidden)]
 macro_rules! literal_aware_stringify {
     ($tt:literal) => {
-        $tt.to_string()
+        $crate::__private::ToString::to_string(&$tt)
     };
     ($($tt:tt)*) => {
-        stringify!($($tt)*).to_string()
+        $crate::__private::ToString::to_string(::core::stringify!($($tt)*))
     };
 }
 
-- 
2.43.0


From 309c36ed9eb11c8e0ef7002129106a994816fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 16/19] fix: make the ranges of parse errors cover the whole
 offending character

---
 src/string_impls/from_string.rs | 37 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 1d8cf90..d4d1cc6 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -112,6 +112,12 @@ macro_rules! at_between {
             pub fn at_one(self, loc: usize) -> ParseError {
                 ParseError::new_between(self, loc, loc + 1)
             }
+            /// Error at the current location for the next character, however many bytes it has.
+            #[allow(unused)]
+            fn at_next(self, t: &StrTokens) -> ParseError {
+                let len = t.remaining().chars().next().map_or(1, char::len_utf8);
+                ParseError::new_between(self, t.offset(), t.offset() + len)
+            }
             /// Error between two locations.
             pub fn between(self, start: usize, end: usize) -> ParseError {
                 ParseError::new_between(self, start, end)
@@ -308,7 +314,7 @@ fn parse_named_composite(
 
     skip_whitespace(t);
     if !t.token('}') {
-        return Err(Some(ParseComplexError::ExpectedCloserToMatch('}', start).at_one(t.offset())));
+        return Err(Some(ParseComplexError::ExpectedCloserToMatch('}', start).at_next(t)));
     }
     Ok(Composite::Named(vals))
 }
@@ -335,7 +341,7 @@ fn parse_unnamed_composite(
 
     skip_whitespace(t);
     if !t.token(')') {
-        return Err(Some(ParseComplexError::ExpectedCloserToMatch(')', start).at_one(t.offset())));
+        return Err(Some(ParseComplexError::ExpectedCloserToMatch(')', start).at_next(t)));
     }
     Ok(Composite::Unnamed(vals))
 }
@@ -377,8 +383,7 @@ fn parse_bit_sequence(t: &mut StrTokens) -> Result<BitSequence, Option<ParseErro
     }
     if !t.token('>') {
         return Err(Some(
-            ParseBitSequenceError::ExpectedClosingBracketToMatch(start)
-                .between(t.offset(), t.offset() + 1),
+            ParseBitSequenceError::ExpectedClosingBracketToMatch(start).at_next(t),
         ));
     }
     Ok(seq)
@@ -414,20 +419,20 @@ fn parse_char(t: &mut StrTokens) -> Result<char, Option<ParseError>> {
     // If char is a backslash, it's an escape code and we
     // need to unescape it to find our inner char:
     let char = if char == '\\' {
-        let escape_code = match t.next() {
-            None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_one(t.offset()))),
-            Some(c) => c,
-        };
-        match string_helpers::from_escape_code(escape_code) {
-            None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_one(t.offset()))),
-            Some(c) => c,
+        // Look at the escape code without consuming it, to point at it if it isn't a valid one.
+        match t.peek().and_then(string_helpers::from_escape_code) {
+            None => return Err(Some(ParseCharError::ExpectedValidEscapeCode.at_next(t))),
+            Some(c) => {
+                t.next();
+                c
+            }
         }
     } else {
         char
     };
 
     if !t.token('\'') {
-        return Err(Some(ParseCharError::ExpectedClosingQuoteToMatch(start).at_one(t.offset())));
+        return Err(Some(ParseCharError::ExpectedClosingQuoteToMatch(start).at_next(t)));
     }
     Ok(char)
 }
@@ -465,7 +470,7 @@ fn parse_number(t: &mut StrTokens) -> Result<Primitive, Option<ParseError>> {
 
     // No digits were parsed but a sign was; err.
     if !seen_n {
-        return Err(Some(ParseNumberError::ExpectedDigit.between(end_loc, end_loc + 1)));
+        return Err(Some(ParseNumberError::ExpectedDigit.at_next(t)));
     }
 
     // Parse into a number as best we can:
@@ -515,7 +520,7 @@ fn parse_string(t: &mut StrTokens) -> Result<String, Option<ParseError>> {
                 }
                 None => {
                     return Err(Some(
-                        ParseStringError::ExpectedValidEscapeCode.between(pos, pos + 1),
+                        ParseStringError::ExpectedValidEscapeCode.between(pos, t.offset()),
                     ))
                 }
             },
@@ -540,7 +545,7 @@ fn parse_field_name_and_value(
 ) -> Result<(String, Value<()>), ParseError> {
     let name = parse_field_name(t)?;
     if !skip_spaced_separator(t, ':') {
-        return Err(ParseComplexError::MissingFieldSeparator(':').at_one(t.offset()));
+        return Err(ParseComplexError::MissingFieldSeparator(':').at_next(t));
     }
     let value = parse_value(t, custom_parsers)?;
     Ok((name, value))
@@ -582,7 +587,7 @@ fn parse_optional_variant_ident(t: &mut StrTokens) -> Option<String> {
 fn parse_ident(t: &mut StrTokens) -> Result<String, ParseError> {
     let start = t.location();
     if t.skip_while(|c| c.is_alphabetic()) == 0 {
-        return Err(ParseComplexError::InvalidStartingCharacterInIdent.at_one(start.offset()));
+        return Err(ParseComplexError::InvalidStartingCharacterInIdent.at_next(t));
     }
     t.skip_while(|c| c.is_alphanumeric() || *c == '_');
     let end = t.location();
-- 
2.43.0


From b29b22328b42a4f63f1fdd2d79816cb2cae13dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 17/19] fix: don't drop the other entries of a map that starts
 with the bit sequence marker

---
 src/serde_impls/bitvec_helpers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index 71a4253..468cbfb 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -26,7 +26,7 @@ use super::{deserialize::cautious_capacity, deserializer::DeserializerError};
 use crate::prelude::*;
 use crate::{BitSequence, Composite, ValueDef};
 use serde::{
-    de::{value::MapDeserializer, MapAccess, Visitor},
+    de::{value::MapDeserializer, Error as _, IgnoredAny, MapAccess, Visitor},
     ser::SerializeMap,
     Serializer,
 };
@@ -84,6 +84,10 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
             for bit in bits {
                 bitvec.push(bit);
             }
+            // Nothing else belongs in such a map, and we'd lose it if it's there:
+            if map.next_key::<IgnoredAny>()?.is_some() {
+                return Err(A::Error::custom("unexpected entries after those of a bit sequence"));
+            }
             return Ok(ValueDef::BitSequence(bitvec));
         }
 
-- 
2.43.0


From 703e58cef6a1d705ee27636bfec5a97c4ac26ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:40 +0000
Subject: [PATCH 18/19] fix: leave no unused import behind

---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index d4d1cc6..5aedd57 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -115,8 +115,9 @@ macro_rules! at_between {
             /// Error at the current location for the next character, however many bytes it has.
             #[allow(unused)]
             fn at_next(self, t: &StrTokens) -> ParseError {
+                let start = t.location().offset();
                 let len = t.remaining().chars().next().map_or(1, char::len_utf8);
-                ParseError::new_between(self, t.offset(), t.offset() + len)
+                ParseError::new_between(self, start, start + len)
             }
             /// Error between two locations.
             pub fn between(self, start: usize, end: usize) -> ParseError {
-- 
2.43.0


From 90928e3f964b89bfef3b80acf1cc03eeb29e3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 19/19] fix: report the part that can't be encoded, not another
 part met when skipping a layer

---
 src/scale_impls/encode.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index c8c5134..3b6ef28 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -229,9 +229,7 @@ fn encode_composite<T, R: TypeResolver>(
                 return Ok(());
             }
             // The type isn't one for composites, so the inner value's error says more.
-            Err(e) if matches!(original_error.kind(), ErrorKind::WrongShape { .. }) => {
-                return Err(e);
-            }
+            Err(e) if is_wrong_shape_here(&original_error) => return Err(e),
             Err(_) => {}
         }
     }
@@ -240,6 +238,12 @@ fn encode_composite<T, R: TypeResolver>(
     Err(original_error)
 }
 
+// Was it the value as a whole, and not some part of it, that couldn't be encoded to the type it met?
+fn is_wrong_shape_here(err: &Error) -> bool {
+    let is_here = err.context().path().locations().next().is_none();
+    is_here && matches!(err.kind(), ErrorKind::WrongShape { .. })
+}
+
 /// Skip into the target type past any newtype wrapper like things.
 /// Also returns a bool indicating whether we skipped into something or not.
 /// This bool is true when the returned id is different from the id that was passed in.
-- 
2.43.0

