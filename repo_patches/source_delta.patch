From 6bb3322dbd52a57cf84650c05f02fc91ec9e390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:51 +0000
Subject: [PATCH 01/19] fix: decode any varint without panicking

Overlong varints overflowed the shift, and values that did not fit the target
integer type (including every large packed uint64 and uint32) hit an unwrap.
Overlong varints are now incomplete values, others are truncated as the
protobuf encoding specifies.
---
 src/decode.rs | 56 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 32632c4..5b12013 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -317,7 +317,7 @@ impl Value
                 read_packed! { SFixed64 @ b = try_read_8_bytes(&mut array) => i64::from_le_bytes(b) }
             }
             ValueType::Bool => {
-                read_packed! { Bool @ b = u8::from_unsigned_varint(&mut array) => b != 0 }
+                read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
             _ => panic!("Non-scalar type was handled as packed"),
         }
@@ -668,16 +668,51 @@ trait ToUnsignedVarint: Sized
     fn into_unsigned_varint(self) -> BytesMut;
 }
 
-impl<T: Default + TryFrom<u64>> FromUnsignedVarint for T
-where
-    T::Error: Debug,
+/// The longest varint encoding of a 64-bit value.
+const MAX_VARINT_LEN: usize = 10;
+
+/// Conversion from the raw bits of a varint.
+///
+/// As specified by the protobuf encoding, values that are too large for a narrower integer type
+/// are truncated.
+trait FromVarintBits
+{
+    fn from_varint_bits(bits: u64) -> Self;
+}
+
+macro_rules! impl_from_varint_bits {
+    ($($t:ty),*) => {
+        $(
+            impl FromVarintBits for $t
+            {
+                fn from_varint_bits(bits: u64) -> Self
+                {
+                    bits as $t
+                }
+            }
+        )*
+    };
+}
+
+impl_from_varint_bits!(u32, u64, u128, i32, i64);
+
+impl FromVarintBits for usize
+{
+    fn from_varint_bits(bits: u64) -> Self
+    {
+        // These are lengths. Truncating one would turn a too long value into a short one.
+        usize::try_from(bits).unwrap_or(usize::MAX)
+    }
+}
+
+impl<T: FromVarintBits> FromUnsignedVarint for T
 {
     fn from_unsigned_varint(data: &mut &[u8]) -> Option<Self>
     {
         let mut result = 0u64;
         let mut idx = 0;
         loop {
-            if idx >= data.len() {
+            if idx >= data.len() || idx >= MAX_VARINT_LEN {
                 return None;
             }
 
@@ -691,7 +726,7 @@ where
             }
         }
 
-        let result = T::try_from(result).expect("Out of range");
+        let result = T::from_varint_bits(result);
         *data = &data[idx..];
         Some(result)
     }
@@ -729,16 +764,11 @@ trait ToSignedVarint: Sized
     fn into_signed_varint(self) -> BytesMut;
 }
 
-impl<T: Default + TryFrom<i64>> FromSignedVarint for T
-where
-    T::Error: Debug,
+impl<T: FromVarintBits> FromSignedVarint for T
 {
     fn from_signed_varint(data: &mut &[u8]) -> Option<Self>
     {
-        u64::from_unsigned_varint(data).map(|u| {
-            let signed: i64 = unsafe { std::mem::transmute(u) };
-            signed.try_into().unwrap()
-        })
+        u64::from_unsigned_varint(data).map(T::from_varint_bits)
     }
 }
 
-- 
2.43.0


From b4ef4c2e5f1957b015473bfd5bd9ab1e9ab07969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:26 +0000
Subject: [PATCH 02/19] fix: zigzag coding of sint values near the ends of the
 range

Decoding sint minimum values and encoding anything beyond half of the range
overflowed.
---
 src/decode.rs | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 5b12013..ccfbfd5 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -183,14 +183,12 @@ impl Value
             ValueType::UInt32 => u32::from_unsigned_varint(data).map(Value::UInt32),
             ValueType::UInt64 => u64::from_unsigned_varint(data).map(Value::UInt64),
             ValueType::SInt32 => u32::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                let magnitude = (u / 2) as i32 + sign_bit;
-                Value::SInt32(sign * magnitude)
+                let magnitude = (u / 2) as i32;
+                Value::SInt32(if u % 2 == 0 { magnitude } else { -1 - magnitude })
             }),
             ValueType::SInt64 => u64::from_unsigned_varint(data).map(|u| {
-                let (sign, sign_bit) = if u % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                let magnitude = (u / 2) as i64 + sign_bit;
-                Value::SInt64(sign * magnitude)
+                let magnitude = (u / 2) as i64;
+                Value::SInt64(if u % 2 == 0 { magnitude } else { -1 - magnitude })
             }),
             ValueType::Fixed32 => {
                 try_read_4_bytes(data).map(|b| Value::Fixed32(u32::from_le_bytes(b)))
@@ -292,16 +290,14 @@ impl Value
             }
             ValueType::SInt32 => {
                 read_packed! { SInt32 @ b = u32::from_signed_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i32, 0) } else { (-1i32, 1) };
-                    let magnitude = (b / 2) as i32 + sign_bit;
-                    sign * magnitude
+                    let magnitude = (b / 2) as i32;
+                    if b % 2 == 0 { magnitude } else { -1 - magnitude }
                 } }
             }
             ValueType::SInt64 => {
                 read_packed! { SInt64 @ b = u64::from_signed_varint(&mut array) => {
-                    let (sign, sign_bit) = if b % 2 == 0 { (1i64, 0) } else { (-1i64, 1) };
-                    let magnitude = (b / 2) as i64 + sign_bit;
-                    sign * magnitude
+                    let magnitude = (b / 2) as i64;
+                    if b % 2 == 0 { magnitude } else { -1 - magnitude }
                 } }
             }
             ValueType::Fixed32 => {
@@ -365,14 +361,8 @@ impl Value
             Value::Int64(v) => BytesMut::from(v.into_signed_varint().as_ref()),
             Value::UInt32(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
             Value::UInt64(v) => BytesMut::from(v.into_unsigned_varint().as_ref()),
-            Value::SInt32(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
-            Value::SInt64(v) => {
-                let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                (v * 2 - sign_bit).into_unsigned_varint()
-            }
+            Value::SInt32(v) => (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint(),
+            Value::SInt64(v) => (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint(),
             Value::Fixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::Fixed64(v) => BytesMut::from(v.to_le_bytes().as_ref()),
             Value::SFixed32(v) => BytesMut::from(v.to_le_bytes().as_ref()),
@@ -466,16 +456,10 @@ impl PackedArray
                 write_packed!(v => |v| BytesMut::from(v.into_unsigned_varint().as_ref()))
             }
             PackedArray::SInt32(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 31)) as u32).into_unsigned_varint())
             }
             PackedArray::SInt64(v) => {
-                write_packed! { v => |v| {
-                    let (v, sign_bit) = if *v < 0 { (-v, 1) } else { (*v, 0) };
-                    (v * 2 - sign_bit).into_unsigned_varint()
-                } }
+                write_packed!(v => |v| (((v << 1) ^ (v >> 63)) as u64).into_unsigned_varint())
             }
             PackedArray::Fixed32(v) => {
                 write_packed!( v => |v| BytesMut::from(v.to_le_bytes().as_ref()) )
-- 
2.43.0


From 8582861a08d0b70b18700cb4fca274f8b15e84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:27 +0000
Subject: [PATCH 03/19] fix: stop decoding after an incomplete unknown value

The bytes stored in the incomplete value were decoded again as fields.
---
 src/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index ccfbfd5..249a39f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -349,7 +349,7 @@ impl Value
 
         value
             .map(Value::Unknown)
-            .unwrap_or_else(|| Value::Incomplete(vt, Bytes::copy_from_slice(data)))
+            .unwrap_or_else(|| return_incomplete(data, vt, original))
     }
 
     fn encode(&self, ctx: &Context) -> Option<(u8, BytesMut)>
-- 
2.43.0


From ecb34e0e63c20e0d8c7201a781a483786efec8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:28 +0000
Subject: [PATCH 04/19] fix: incomplete packed arrays only cover their own
 bytes

Decoding continued after the array, but the incomplete value also held
everything that followed.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 249a39f..c8d0c72 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -247,6 +247,7 @@ impl Value
 
         let mut array = &data[..length];
         *data = &data[length..];
+        let field = &original[..original.len() - data.len()];
 
         // Reading the packed arrays follows very similar format for each type.  The variances are
         // in how to read the data from the stream and what to do with the data to get the final
@@ -263,7 +264,7 @@ impl Value
 
                     match $try_read {
                         Some($val) => output.push($insert),
-                        None => return return_incomplete(&mut array, vt_raw, original),
+                        None => return return_incomplete(&mut array, vt_raw, field),
                     }
                 }
             };
-- 
2.43.0


From 879af21cbde71c73af1e922a5b482fa6d1ea079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 05/19] fix: do not panic on packed fields of non-scalar types

A context built by hand may declare such fields.
---
 src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index c8d0c72..76309f9 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -316,7 +316,11 @@ impl Value
             ValueType::Bool => {
                 read_packed! { Bool @ b = u64::from_unsigned_varint(&mut array) => b != 0 }
             }
-            _ => panic!("Non-scalar type was handled as packed"),
+            _ => {
+                // Only numeric types have a packed encoding.
+                *data = original;
+                Value::decode_unknown(data, vt_raw)
+            }
         }
     }
 
-- 
2.43.0


From 81118a9e5fa5291e0fc0cacc78ad00069aa6fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 06/19] fix: encode the trailing garbage of a decoded message

---
 src/decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 76309f9..ae38679 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -615,7 +615,8 @@ impl MessageValue
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
     pub fn encode(&self, ctx: &Context) -> bytes::BytesMut
     {
-        self.fields
+        let mut output: BytesMut = self
+            .fields
             .iter()
             .filter_map(|f| f.value.encode(ctx).map(|(w, b)| (f, w, b)))
             .flat_map(|(field, wire_type, bytes)| {
@@ -624,7 +625,11 @@ impl MessageValue
                 field_data.extend_from_slice(&bytes);
                 field_data
             })
-            .collect()
+            .collect();
+        if let Some(garbage) = &self.garbage {
+            output.extend_from_slice(garbage);
+        }
+        output
     }
 }
 
-- 
2.43.0


From 7e88891acf86029f3a3ba6ee83f1107b7c8a198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:31 +0000
Subject: [PATCH 07/19] fix: encode any message value without panicking

Unknown varints above 64 bits and the largest field numbers panicked.
---
 src/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index ae38679..61b343c 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -620,7 +620,7 @@ impl MessageValue
             .iter()
             .filter_map(|f| f.value.encode(ctx).map(|(w, b)| (f, w, b)))
             .flat_map(|(field, wire_type, bytes)| {
-                let tag = wire_type as u64 + (field.number << 3);
+                let tag = wire_type as u64 | (field.number << 3);
                 let mut field_data = tag.into_unsigned_varint();
                 field_data.extend_from_slice(&bytes);
                 field_data
@@ -726,13 +726,13 @@ impl<T: FromVarintBits> FromUnsignedVarint for T
     }
 }
 
-impl<T: Default + TryInto<u64>> ToUnsignedVarint for T
+impl<T: Default + TryInto<u128>> ToUnsignedVarint for T
 where
     T::Error: Debug,
 {
     fn into_unsigned_varint(self) -> BytesMut
     {
-        let mut value: u64 = self.try_into().unwrap();
+        let mut value: u128 = self.try_into().unwrap();
         let mut data: Vec<u8> = Vec::with_capacity(8);
         loop {
             let mut byte = (value & 0x7f) as u8;
-- 
2.43.0


From d1aa271de48e339ab06bd6532544d4a0725dae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:54 +0000
Subject: [PATCH 08/19] fix: limit the nesting depth of decoded messages

Deeply nested payloads overflowed the stack and aborted the process.
---
 src/decode.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 61b343c..fe6a066 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -168,9 +168,12 @@ pub struct FieldValue
     pub value: Value,
 }
 
+/// How deep messages may be nested. Same as the default limit in the official implementations.
+const MAX_DEPTH: usize = 100;
+
 impl Value
 {
-    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context) -> Self
+    fn decode(data: &mut &[u8], vt_raw: u8, vt: &ValueType, ctx: &Context, depth: usize) -> Self
     {
         let original = *data;
         let opt = match vt {
@@ -219,8 +222,16 @@ impl Value
                 let (consumed, remainder) = data.split_at(length);
                 *data = remainder;
 
+                if depth >= MAX_DEPTH {
+                    // Nested too deep to decode without risking the stack.
+                    return Some(Value::Unknown(UnknownValue::VariableLength(
+                        Bytes::copy_from_slice(consumed),
+                    )));
+                }
+
                 Some(Value::Message(Box::new(
-                    ctx.resolve_message(*mref).decode(consumed, ctx),
+                    ctx.resolve_message(*mref)
+                        .decode_nested(consumed, ctx, depth + 1),
                 )))
             }),
         };
@@ -558,7 +569,14 @@ impl MessageInfo
     /// Will **panic** if the message defined by the `MessageRef` does not exist in this context.
     /// Such panic means the `MessageRef` came from a different context. The panic is not
     /// guaranteed, as a message with an equal `MessageRef` may exist in multiple contexts.
-    pub fn decode(&self, mut data: &[u8], ctx: &Context) -> MessageValue
+    ///
+    /// Messages nested more than 100 levels deep are left as unknown values.
+    pub fn decode(&self, data: &[u8], ctx: &Context) -> MessageValue
+    {
+        self.decode_nested(data, ctx, 0)
+    }
+
+    fn decode_nested(&self, mut data: &[u8], ctx: &Context, depth: usize) -> MessageValue
     {
         let mut msg = MessageValue {
             msg_ref: self.self_ref,
@@ -591,7 +609,7 @@ impl MessageInfo
                             Value::decode_unknown(&mut data, wire_type)
                         }
                     } else if field.field_type.wire_type() == wire_type {
-                        Value::decode(&mut data, wire_type, &field.field_type, ctx)
+                        Value::decode(&mut data, wire_type, &field.field_type, ctx, depth)
                     } else {
                         Value::decode_unknown(&mut data, wire_type)
                     }
-- 
2.43.0


From 2c5d8c951693da43cf23905704666faa1ca7de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 09/19] fix: return an error for a field whose type is a
 service

---
 src/context/builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 80d8563..453e227 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -499,14 +499,21 @@ impl FieldTypeBuilder
                 let t = cache
                     .resolve_type(&s, &self_data.full_name)
                     .ok_or_else(|| ParseError::TypeNotFound {
-                        name: s,
+                        name: s.clone(),
                         context: self_data.full_name.to_string(),
                     })?;
 
                 match t.item_type {
                     ItemType::Message => ValueType::Message(MessageRef(InternalRef(t.final_idx))),
                     ItemType::Enum => ValueType::Enum(EnumRef(InternalRef(t.final_idx))),
-                    _ => unreachable!("Service as field type"),
+                    ItemType::Service => {
+                        return Err(ParseError::InvalidTypeKind {
+                            type_name: s,
+                            context: "field",
+                            expected: ItemType::Message,
+                            actual: t.item_type,
+                        })
+                    }
                 }
             }
         })
-- 
2.43.0


From ca4ec52fbc778fdcadb8aaa5b1a3032066147570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 10/19] fix: keep the options of services and rpcs

---
 src/context/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/context/builder.rs b/src/context/builder.rs
index 453e227..d16403b 100644
--- a/src/context/builder.rs
+++ b/src/context/builder.rs
@@ -671,7 +671,7 @@ impl ServiceBuilder
             full_name: self_data.full_name.clone(),
             rpcs,
             rpcs_by_name,
-            options: vec![],
+            options: self.options,
         })
     }
 }
@@ -684,7 +684,7 @@ impl RpcBuilder
             name: self.name,
             input: self.input.build(self_data, cache)?,
             output: self.output.build(self_data, cache)?,
-            options: vec![],
+            options: self.options,
         })
     }
 }
-- 
2.43.0


From d8a1b485fa59a6313adee72a2fd4d2664ba973b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:10 +0000
Subject: [PATCH 11/19] fix: accept empty statements at the top level of a file

---
 src/context/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 2291819..90cc0a5 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -52,6 +52,7 @@ impl PackageBuilder
                             Some(inner.into_inner().next().unwrap().as_str().to_string())
                     }
                     Rule::option => {}
+                    Rule::emptyStatement => {}
                     Rule::EOI => {}
                     r => unreachable!("{:?}: {:?}", r, inner),
                 }
-- 
2.43.0


From bfa2b50f67896a3af5f4e264ed4f84c784cfdcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 12/19] fix: do not panic on octal escapes above one byte

---
 src/context/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 90cc0a5..14fc381 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -443,8 +443,9 @@ fn parse_string_literal(s: Pair<Rule>) -> Bytes
                 );
             }
             Rule::octEscape => {
+                // Three octal digits may exceed a byte. The high bits are ignored.
                 output.put_u8(
-                    u8::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap(),
+                    u16::from_str_radix(c.into_inner().next().unwrap().as_str(), 8).unwrap() as u8,
                 );
             }
             Rule::charEscape => match c.into_inner().next().unwrap().as_str() {
-- 
2.43.0


From 78fa2d8f872c450c8feeca5b57c93661955d7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 13/19] fix: report invalid literals and map fields as errors

Integer literals that do not fit, zero and signed field numbers and map fields
panicked instead of failing the parse.
---
 src/context/parse.rs | 156 ++++++++++++++++++++++++-------------------
 1 file changed, 88 insertions(+), 68 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 14fc381..67a3f50 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -45,7 +45,7 @@ impl PackageBuilder
                     Rule::syntax => {}
                     Rule::topLevelDef => current_package
                         .types
-                        .push(ProtobufItemBuilder::parse(inner)),
+                        .push(ProtobufItemBuilder::parse(inner)?),
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
@@ -65,25 +65,25 @@ impl PackageBuilder
 
 impl ProtobufItemBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let pair = p.into_inner().next().unwrap();
-        match pair.as_rule() {
-            Rule::message => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(MessageBuilder::parse(pair)))
-            }
+        Ok(match pair.as_rule() {
+            Rule::message => ProtobufItemBuilder::Type(ProtobufTypeBuilder::Message(
+                MessageBuilder::parse(pair)?,
+            )),
             Rule::enum_ => {
-                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)))
+                ProtobufItemBuilder::Type(ProtobufTypeBuilder::Enum(EnumBuilder::parse(pair)?))
             }
-            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)),
+            Rule::service => ProtobufItemBuilder::Service(ServiceBuilder::parse(pair)?),
             r => unreachable!("{:?}: {:?}", r, pair),
-        }
+        })
     }
 }
 
 impl MessageBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -95,33 +95,37 @@ impl MessageBuilder
         let body = inner.next().unwrap();
         for p in body.into_inner() {
             match p.as_rule() {
-                Rule::field => fields.push(FieldBuilder::parse(p)),
-                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p))),
+                Rule::field => fields.push(FieldBuilder::parse(p)?),
+                Rule::enum_ => inner_types.push(InnerTypeBuilder::Enum(EnumBuilder::parse(p)?)),
                 Rule::message => {
-                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)))
+                    inner_types.push(InnerTypeBuilder::Message(MessageBuilder::parse(p)?))
+                }
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneof => oneofs.push(OneofBuilder::parse(p)?),
+                Rule::mapField => {
+                    return Err(ParseError::SyntaxError {
+                        source: "Maps are not supported".into(),
+                    })
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneof => oneofs.push(OneofBuilder::parse(p)),
-                Rule::mapField => unimplemented!("Maps are not supported"),
                 Rule::reserved => {} // We don't need to care about reserved field numbers.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        MessageBuilder {
+        Ok(MessageBuilder {
             name,
             fields,
             oneofs,
             inner_types,
             options,
-        }
+        })
     }
 }
 
 impl EnumBuilder
 {
-    fn parse(p: Pair<Rule>) -> EnumBuilder
+    fn parse(p: Pair<Rule>) -> Result<EnumBuilder, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -135,27 +139,27 @@ impl EnumBuilder
                     let mut inner = p.into_inner();
                     fields.push(EnumField {
                         name: inner.next().unwrap().as_str().to_string(),
-                        value: parse_int_literal(inner.next().unwrap()),
-                        options: ProtoOption::parse_options(inner),
+                        value: parse_int_literal(inner.next().unwrap())?,
+                        options: ProtoOption::parse_options(inner)?,
                     })
                 }
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        EnumBuilder {
+        Ok(EnumBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
 impl ServiceBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -163,24 +167,24 @@ impl ServiceBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::rpc => rpcs.push(RpcBuilder::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::rpc => rpcs.push(RpcBuilder::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        ServiceBuilder {
+        Ok(ServiceBuilder {
             name: name.as_str().to_string(),
             rpcs,
             options,
-        }
+        })
     }
 }
 
 impl FieldBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let multiplicity = match inner.next().unwrap().into_inner().next() {
@@ -196,47 +200,47 @@ impl FieldBuilder
         };
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 
-    pub fn parse_oneof(p: Pair<Rule>) -> Self
+    pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let field_type = parse_field_type(inner.next().unwrap().as_str());
         let name = inner.next().unwrap().as_str().to_string();
-        let number = parse_uint_literal(inner.next().unwrap());
+        let number = parse_uint_literal(inner.next().unwrap())?;
 
         let options = match inner.next() {
-            Some(p) => ProtoOption::parse_options(p.into_inner()),
+            Some(p) => ProtoOption::parse_options(p.into_inner())?,
             None => vec![],
         };
 
-        FieldBuilder {
+        Ok(FieldBuilder {
             multiplicity: Multiplicity::Single,
             field_type,
             name,
             number,
             options,
-        }
+        })
     }
 }
 
 impl OneofBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap().as_str().to_string();
@@ -244,17 +248,17 @@ impl OneofBuilder
         let mut fields = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
-                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::oneofField => fields.push(FieldBuilder::parse_oneof(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
-        OneofBuilder {
+        Ok(OneofBuilder {
             name,
             fields,
             options,
-        }
+        })
     }
 }
 
@@ -282,7 +286,7 @@ fn parse_field_type(t: &str) -> FieldTypeBuilder
 
 impl RpcBuilder
 {
-    pub fn parse(p: Pair<Rule>) -> Self
+    pub fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
         let name = inner.next().unwrap();
@@ -293,18 +297,18 @@ impl RpcBuilder
         let mut options = vec![];
         for p in inner {
             match p.as_rule() {
-                Rule::option => options.push(ProtoOption::parse(p)),
+                Rule::option => options.push(ProtoOption::parse(p)?),
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
         }
 
-        RpcBuilder {
+        Ok(RpcBuilder {
             name: name.as_str().to_string(),
             input,
             output,
             options,
-        }
+        })
     }
 }
 
@@ -320,7 +324,7 @@ impl RpcArgBuilder
     }
 }
 
-pub fn parse_uint_literal(p: Pair<Rule>) -> u64
+pub fn parse_uint_literal(p: Pair<Rule>) -> Result<u64, ParseError>
 {
     match p.as_rule() {
         Rule::fieldNumber => parse_uint_literal(p.into_inner().next().unwrap()),
@@ -328,33 +332,49 @@ pub fn parse_uint_literal(p: Pair<Rule>) -> u64
             let mut inner = p.into_inner();
             let lit = inner.next().unwrap();
             match lit.as_rule() {
-                Rule::decimalLit => str::parse(lit.as_str()).unwrap(),
-                Rule::octalLit => u64::from_str_radix(&lit.as_str()[1..], 8).unwrap(),
-                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => str::parse(lit.as_str()),
+                Rule::octalLit => u64::from_str_radix(lit.as_str(), 8),
+                Rule::hexLit => u64::from_str_radix(&lit.as_str()[2..], 16),
+                Rule::sign => {
+                    return Err(ParseError::SyntaxError {
+                        source: format!("Invalid field number near '{}'", lit.as_str()).into(),
+                    })
+                }
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
+            .map_err(literal_error)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
 
-pub fn parse_int_literal(p: Pair<Rule>) -> i64
+fn literal_error(e: std::num::ParseIntError) -> ParseError
+{
+    ParseError::SyntaxError {
+        source: Box::new(e),
+    }
+}
+
+pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 {
     match p.as_rule() {
         Rule::intLit => {
             let mut inner = p.into_inner();
             let sign = inner.next().unwrap();
             let (sign, lit) = match sign.as_rule() {
-                Rule::sign if sign.as_str() == "-" => (-1, inner.next().unwrap()),
-                Rule::sign if sign.as_str() == "+" => (1, inner.next().unwrap()),
-                _ => (1, sign),
+                Rule::sign if sign.as_str() == "-" => ("-", inner.next().unwrap()),
+                Rule::sign if sign.as_str() == "+" => ("", inner.next().unwrap()),
+                _ => ("", sign),
             };
+            // The sign is part of the parsed text, since the minimum value has no positive
+            // counterpart.
             match lit.as_rule() {
-                Rule::decimalLit => sign * str::parse::<i64>(lit.as_str()).unwrap(),
-                Rule::octalLit => sign * i64::from_str_radix(lit.as_str(), 8).unwrap(),
-                Rule::hexLit => sign * i64::from_str_radix(&lit.as_str()[2..], 16).unwrap(),
+                Rule::decimalLit => i64::from_str_radix(&format!("{}{}", sign, lit.as_str()), 10),
+                Rule::octalLit => i64::from_str_radix(&format!("{}{}", sign, lit.as_str()), 8),
+                Rule::hexLit => i64::from_str_radix(&format!("{}{}", sign, &lit.as_str()[2..]), 16),
                 r => unreachable!("{:?}: {:?}", r, lit),
             }
+            .map_err(literal_error)
         }
         r => unreachable!("{:?}: {:?}", r, p),
     }
@@ -370,16 +390,16 @@ pub fn parse_float_literal(p: Pair<Rule>) -> f64
 
 impl ProtoOption
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        Self {
+        Ok(Self {
             name: parse_ident(inner.next().unwrap()),
-            value: Constant::parse(inner.next().unwrap()),
-        }
+            value: Constant::parse(inner.next().unwrap())?,
+        })
     }
 
-    fn parse_options(pairs: Pairs<Rule>) -> Vec<Self>
+    fn parse_options(pairs: Pairs<Rule>) -> Result<Vec<Self>, ParseError>
     {
         pairs
             .map(|p| match p.as_rule() {
@@ -394,17 +414,17 @@ impl ProtoOption
 
 impl Constant
 {
-    fn parse(p: Pair<Rule>) -> Self
+    fn parse(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let p = p.into_inner().next().unwrap();
-        match p.as_rule() {
+        Ok(match p.as_rule() {
             Rule::fullIdent => Constant::Ident(parse_ident(p)),
-            Rule::intLit => Constant::Integer(parse_int_literal(p)),
+            Rule::intLit => Constant::Integer(parse_int_literal(p)?),
             Rule::floatLit => Constant::Float(parse_float_literal(p)),
             Rule::strLit => Constant::String(parse_string_literal(p)),
             Rule::boolLit => Constant::Bool(p.as_str() == "true"),
             r => unreachable!("{:?}: {:?}", r, p),
-        }
+        })
     }
 }
 
-- 
2.43.0


From 7f0103179d2d7de81c249768f6692f163dbb313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 14/19] fix: keywords and literals must not match a part of a
 longer word

Floats were cut at the decimal point, type names starting with a builtin type
or a keyword were split and identifiers starting with inf, nan, true or false
were rejected.
---
 src/context/parse.rs | 16 +++++++++++++++-
 src/proto.pest       | 19 +++++++++++--------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 67a3f50..6bdecf1 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -383,7 +383,21 @@ pub fn parse_int_literal(p: Pair<Rule>) -> Result<i64, ParseError>
 pub fn parse_float_literal(p: Pair<Rule>) -> f64
 {
     match p.as_rule() {
-        Rule::floatLit => p.as_str().parse::<f64>().unwrap(),
+        Rule::floatLit => {
+            let mut inner = p.into_inner();
+            let first = inner.next().unwrap();
+            match first.as_rule() {
+                Rule::sign => {
+                    let value = parse_float_literal(inner.next().unwrap());
+                    match first.as_str() {
+                        "-" => -value,
+                        _ => value,
+                    }
+                }
+                _ => parse_float_literal(first),
+            }
+        }
+        Rule::unsignedFloat => p.as_str().parse::<f64>().unwrap(),
         r => unreachable!("{:?}: {:?}", r, p),
     }
 }
diff --git a/src/proto.pest b/src/proto.pest
index 789dca4..deef971 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -7,6 +7,7 @@ decimalDigit = { '0'..'9' }
 octalDigit = { '0'..'7' }
 hexDigit = { '0'..'9' | 'A'..'F' | 'a'..'f' }
 
+identChar = @{ letter | decimalDigit | "_" }
 ident = @{ letter ~ ( letter | decimalDigit | "_" )* }
 fullIdent = { ident ~ ( "." ~ ident )* }
 messageName = { ident }
@@ -25,11 +26,12 @@ decimalLit = @{ '1'..'9' ~ decimalDigit* }
 octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
-floatLit = { sign? ~ ( ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | "inf" | "nan" ) }
+floatLit = { sign? ~ unsignedFloat }
+unsignedFloat = @{ ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !identChar }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = { "true" | "false" }
+boolLit = @{ ( "true" | "false" ) ~ !identChar }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -45,7 +47,7 @@ quote = { "'" | "\"" }
 
 emptyStatement = { ";" }
 
-constant = { intLit | floatLit | strLit | boolLit | fullIdent }
+constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
 import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
@@ -54,13 +56,14 @@ package = { "package" ~ fullIdent ~ ";" }
 option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
-type_ = { "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
+type_ = { builtinType | messageType | enumType }
+builtinType = @{ ( "double" | "float" | "int32" | "int64" | "uint32" | "uint64"
     | "sint32" | "sint64" | "fixed32" | "fixed64" | "sfixed32" | "sfixed64"
-    | "bool" | "string" | "bytes" | messageType | enumType }
+    | "bool" | "string" | "bytes" ) ~ !( identChar | "." ) }
 fieldNumber = { intLit }
 
-optional = { "optional" }
-repeated = { "repeated" }
+optional = @{ "optional" ~ !identChar }
+repeated = @{ "repeated" ~ !identChar }
 one_multiplicity = { repeated | optional }
 multiplicity = { one_multiplicity? }
 field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
@@ -88,7 +91,7 @@ message = { "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
-stream = { "stream" }
+stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
 rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
-- 
2.43.0


From b779347d319bd3c9fdabafb2d976dd2f338e2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:15 +0000
Subject: [PATCH 15/19] fix: message options with integer values are not fields

---
 src/proto.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto.pest b/src/proto.pest
index deef971..2ba6b0e 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -88,7 +88,7 @@ enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValue
 enumValueOption = { optionName ~ "=" ~ constant }
 
 message = { "message" ~ messageName ~ messageBody }
-messageBody = { "{" ~ ( field | enum_ | message | option | oneof | mapField | reserved | emptyStatement )* ~ "}" }
+messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
 service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
-- 
2.43.0


From 7ce42bdc5256c4d55fcc1e6d4ec4eee136002be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 16/19] fix: accept reserved names and reserved enum values

---
 src/context/parse.rs | 1 +
 src/proto.pest       | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 6bdecf1..568e15d 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -144,6 +144,7 @@ impl EnumBuilder
                     })
                 }
                 Rule::option => options.push(ProtoOption::parse(p)?),
+                Rule::reserved => {} // We don't need to care about reserved values.
                 Rule::emptyStatement => {}
                 r => unreachable!("{:?}: {:?}", r, p),
             }
diff --git a/src/proto.pest b/src/proto.pest
index 2ba6b0e..54fac68 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -80,10 +80,10 @@ keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
 reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
 range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
-fieldNames = { fieldName ~ ( "," ~ fieldName )* }
+fieldNames = { ( strLit | fieldName ) ~ ( "," ~ ( strLit | fieldName ) )* }
 
 enum_ = { "enum" ~ enumName ~ enumBody }
-enumBody = { "{" ~ ( option | enumField | emptyStatement )* ~ "}" }
+enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-- 
2.43.0


From ff2ff6de2df15565fb1d58bca1fa93f2ba4ff68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 17/19] fix: a field cannot be added to two oneofs

The first oneof kept listing the field.
---
 src/context/mod.rs        | 7 +++++++
 src/context/modify_api.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 518e150..81c5d2d 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -130,6 +130,13 @@ pub enum OneofInsertError
         /// Field number the Oneof referenced.
         field: u64,
     },
+
+    /// The oneof refers to a field that is already part of another oneof.
+    FieldConflict
+    {
+        /// Field number the Oneof referenced.
+        field: u64,
+    },
 }
 
 /// Type reference that references either message or enum type.
diff --git a/src/context/modify_api.rs b/src/context/modify_api.rs
index 2a80035..8188a34 100644
--- a/src/context/modify_api.rs
+++ b/src/context/modify_api.rs
@@ -185,9 +185,13 @@ impl MessageInfo
 
         // Ensure none of the existing fields are part of oneofs.
         for f in &oneof.fields {
-            self.fields
+            let field = self
+                .fields
                 .get(f)
                 .ok_or(OneofInsertError::FieldNotFound { field: *f })?;
+            if field.oneof.is_some() {
+                return Err(OneofInsertError::FieldConflict { field: *f });
+            }
         }
 
         // From here on we're making changes to self.
-- 
2.43.0


From ead5536b9bb6719b93818428ee281c3202d54a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 18/19] fix: recognise keywords only as whole words

An enum value named optionA was read as an option called A.
---
 src/proto.pest | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/proto.pest b/src/proto.pest
index 54fac68..6947c72 100644
--- a/src/proto.pest
+++ b/src/proto.pest
@@ -27,11 +27,11 @@ octalLit = @{ "0" ~ octalDigit* }
 hexLit = @{ "0" ~ ( "x" | "X" ) ~ hexDigit+ }
 
 floatLit = { sign? ~ unsignedFloat }
-unsignedFloat = @{ ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !identChar }
+unsignedFloat = @{ ( decimals ~ "." ~ decimals? ~ exponent? | decimals ~ exponent | "." ~ decimals ~ exponent? ) | ( "inf" | "nan" ) ~ !( identChar | "." ) }
 decimals = { decimalDigit+ }
 exponent = { ( "e" | "E" ) ~ sign? ~ decimals }
 
-boolLit = @{ ( "true" | "false" ) ~ !identChar }
+boolLit = @{ ( "true" | "false" ) ~ !( identChar | "." ) }
 
 strLit = ${ "'" ~ charValueQuot* ~ "'" | "\"" ~ charValueDblQuot* ~ "\"" }
 charValueQuot = ${ hexEscape | octEscape | charEscape | !( "\0" | "\n" | "\\" | "'" ) ~ anyChar }
@@ -45,15 +45,18 @@ escapeChar = { "a" | "b" | "f" | "n" | "r" | "t" | "v" | "\\" | "'" | "\"" }
 anyChar = ${ ANY }
 quote = { "'" | "\"" }
 
+keyword = @{ ( "enum" | "import" | "message" | "oneof" | "option" | "package" | "reserved" | "rpc"
+    | "service" | "to" ) ~ !identChar }
+
 emptyStatement = { ";" }
 
 constant = { floatLit | intLit | strLit | boolLit | fullIdent }
 
 syntax = { "syntax" ~ "=" ~ quote ~ "proto3" ~ quote ~ ";" }
-import = { "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
-package = { "package" ~ fullIdent ~ ";" }
+import = { &keyword ~ "import" ~ ( "weak" | "public" )? ~ strLit ~ ";" }
+package = { &keyword ~ "package" ~ fullIdent ~ ";" }
 
-option = { "option" ~ optionName ~ "=" ~ constant ~ ";" }
+option = { &keyword ~ "option" ~ optionName ~ "=" ~ constant ~ ";" }
 optionName = { ( ident | "(" ~ fullIdent ~ ")" ) ~ ( "." ~ ident )* }
 
 type_ = { builtinType | messageType | enumType }
@@ -70,31 +73,31 @@ field = { multiplicity ~ type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOp
 fieldOptions = { fieldOption ~ ( "," ~ fieldOption )* }
 fieldOption = { optionName ~ "=" ~ constant }
 
-oneof = { "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
+oneof = { &keyword ~ "oneof" ~ oneofName ~ "{" ~ ( option | oneofField | emptyStatement )* ~ "}" }
 oneofField = { type_ ~ fieldName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 
 mapField = { "map" ~ "<" ~ keyType ~ "," ~ type_ ~ ">" ~ mapName ~ "=" ~ fieldNumber ~ ( "[" ~ fieldOptions ~ "]" )? ~ ";" }
 keyType = { "int32" | "int64" | "uint32" | "uint64" | "sint32" | "sint64" |
           "fixed32" | "fixed64" | "sfixed32" | "sfixed64" | "bool" | "string" }
 
-reserved = { "reserved" ~ ( ranges | fieldNames ) ~ ";" }
+reserved = { &keyword ~ "reserved" ~ ( ranges | fieldNames ) ~ ";" }
 ranges = { range ~ ( "," ~ range )* }
-range = { intLit ~ ( "to" ~ ( intLit | "max" ) )? }
+range = { intLit ~ ( &keyword ~ "to" ~ ( intLit | "max" ) )? }
 fieldNames = { ( strLit | fieldName ) ~ ( "," ~ ( strLit | fieldName ) )* }
 
-enum_ = { "enum" ~ enumName ~ enumBody }
+enum_ = { &keyword ~ "enum" ~ enumName ~ enumBody }
 enumBody = { "{" ~ ( option | enumField | reserved | emptyStatement )* ~ "}" }
 enumField = { ident ~ "=" ~ intLit ~ ( "[" ~ enumValueOption ~ ( "," ~ enumValueOption )* ~ "]" )* ~ ";" }
 enumValueOption = { optionName ~ "=" ~ constant }
 
-message = { "message" ~ messageName ~ messageBody }
+message = { &keyword ~ "message" ~ messageName ~ messageBody }
 messageBody = { "{" ~ ( option | field | enum_ | message | oneof | mapField | reserved | emptyStatement )* ~ "}" }
 
-service = { "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
+service = { &keyword ~ "service" ~ serviceName ~ "{" ~ ( option | rpc | emptyStatement )* ~ "}" }
 stream = @{ "stream" ~ !identChar }
 opt_stream = { stream? }
 rpcParam = { opt_stream ~ messageType }
-rpc = { "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
+rpc = { &keyword ~ "rpc" ~ rpcName ~ "(" ~ rpcParam ~ ")" ~ "returns" ~ "(" ~ rpcParam ~ ")" ~ (( "{" ~ ( option | emptyStatement )* ~ "}" ) | ";") }
 
 proto = { SOI ~ BOM? ~ syntax ~ ( import | package | option | topLevelDef | emptyStatement )* ~ EOI }
 topLevelDef = { message | enum_ | service }
-- 
2.43.0


From a1129199541f8cc38c0f576bcea9b9f56047baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 19/19] fix: whitespace around the dots of package and type
 names became part of the name

---
 src/context/parse.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/context/parse.rs b/src/context/parse.rs
index 568e15d..c46cfc6 100644
--- a/src/context/parse.rs
+++ b/src/context/parse.rs
@@ -49,7 +49,7 @@ impl PackageBuilder
                     Rule::import => {}
                     Rule::package => {
                         current_package.name =
-                            Some(inner.into_inner().next().unwrap().as_str().to_string())
+                            Some(parse_ident(inner.into_inner().next().unwrap()))
                     }
                     Rule::option => {}
                     Rule::emptyStatement => {}
@@ -199,7 +199,7 @@ impl FieldBuilder
             }
             None => Multiplicity::Single,
         };
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(inner.next().unwrap());
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap())?;
 
@@ -220,7 +220,7 @@ impl FieldBuilder
     pub fn parse_oneof(p: Pair<Rule>) -> Result<Self, ParseError>
     {
         let mut inner = p.into_inner();
-        let field_type = parse_field_type(inner.next().unwrap().as_str());
+        let field_type = parse_field_type(inner.next().unwrap());
         let name = inner.next().unwrap().as_str().to_string();
         let number = parse_uint_literal(inner.next().unwrap())?;
 
@@ -263,9 +263,10 @@ impl OneofBuilder
     }
 }
 
-fn parse_field_type(t: &str) -> FieldTypeBuilder
+fn parse_field_type(p: Pair<Rule>) -> FieldTypeBuilder
 {
-    FieldTypeBuilder::Builtin(match t {
+    let t = p.into_inner().next().unwrap();
+    FieldTypeBuilder::Builtin(match t.as_str() {
         "double" => ValueType::Double,
         "float" => ValueType::Float,
         "int32" => ValueType::Int32,
@@ -281,7 +282,7 @@ fn parse_field_type(t: &str) -> FieldTypeBuilder
         "bool" => ValueType::Bool,
         "string" => ValueType::String,
         "bytes" => ValueType::Bytes,
-        _ => return FieldTypeBuilder::Unknown(t.to_string()),
+        _ => return FieldTypeBuilder::Unknown(parse_type_name(t)),
     })
 }
 
@@ -320,7 +321,7 @@ impl RpcArgBuilder
         let mut inner = p.into_inner();
         RpcArgBuilder {
             stream: inner.next().unwrap().into_inner().next().is_some(),
-            message: inner.next().unwrap().as_str().to_string(),
+            message: parse_type_name(inner.next().unwrap()),
         }
     }
 }
@@ -465,6 +466,17 @@ fn parse_ident(p: Pair<Rule>) -> String
     ident.join(".")
 }
 
+/// Type names are tokens separated by dots. Anything between the tokens is not part of the name.
+fn parse_type_name(p: Pair<Rule>) -> String
+{
+    let root = if p.as_str().starts_with('.') { "." } else { "" };
+    let parts = p
+        .into_inner()
+        .map(|part| part.as_str().to_string())
+        .collect::<Vec<_>>();
+    format!("{}{}", root, parts.join("."))
+}
+
 fn parse_string_literal(s: Pair<Rule>) -> Bytes
 {
     let inner = s.into_inner();
-- 
2.43.0

