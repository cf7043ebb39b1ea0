From 0c53a9f10b26a83d1d245fa9dc46ab27ec8f8531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 01/15] fix: reject a message with both an inline and an
 in-array return value

The return category listed RETURN_VALUE_IN_ARRAY twice and left out
RETURN_VALUE_INLINE, so conflicting flags were accepted.
---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 3097159d17cead6f14e1d183a6ca97ff06bfd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 02/15] fix: decode Char as UTF-8

Characters outside ASCII were read as one to four byte code units, so one
two byte character was decoded as a different character followed by
another one.
---
 src/data_type/char.rs | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..b0adb38 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,13 +1,7 @@
-use nom::{
-  IResult, Parser,
-  branch::alt,
-  combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
-};
+use nom::IResult;
 
 use super::impl_primitive;
 use crate::{
-  combinator::into_failure,
   enumeration::PrimitiveType,
   error::{Error, error_position},
 };
@@ -18,20 +12,13 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
-    map(
-      alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
-      )),
-      Self,
-    )
-    .parse(input)
-    .map_err(|err| {
-      into_failure(err)
-        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
-    })
+    // A character is encoded as UTF-8, i.e. in at most four bytes.
+    let c = input[..input.len().min(4)].utf8_chunks().next().and_then(|chunk| chunk.valid().chars().next());
+
+    match c {
+      Some(c) => Ok((&input[c.len_utf8()..], Self(c))),
+      None => Err(nom::Err::Failure(error_position!(input, ExpectedPrimitive(PrimitiveType::Char)))),
+    }
   }
 }
 
-- 
2.43.0


From 179bc9e3901bf898e13e4bdad43d8a4d080293aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 03/15] fix: do not count a list element that does not exist

Asking a list for one element more than its backing array holds counted as
reading an element, so a list whose size exceeds its items by one was
accepted.
---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From b7e022868fadeb4e8a2a5e974739b106d98de25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 04/15] fix: reject a run of nulls that exceeds the length of
 its array

The run was expanded without regard to the remaining length, so an array
could end up longer than declared, and a few bytes could allocate
gigabytes.
---
 src/binary_parser/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..1979b46 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -321,6 +321,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
@@ -367,6 +371,10 @@ impl<'i> BinaryParser<'i> {
 
       match member {
         ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
           for _ in 0..count {
             members.push(ValueOrRef::Value(Value::Null));
           }
-- 
2.43.0


From a2f3b2e7a2e5f232f9d77099733be51f70b5296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 05/15] fix: count every null of a run in a BinaryArray

A run of nulls was counted as one element, so the elements after it were
taken from whatever followed the array, and the surplus caused a panic when
the array was split into its dimensions.
---
 src/binary_parser/mod.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 1979b46..a5a2a10 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -395,19 +395,35 @@ impl<'i> BinaryParser<'i> {
   fn parse_binary_array(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
     let err_input = input;
 
-    let (input, binary_array) = BinaryArray::parse(input)?;
+    let (mut input, binary_array) = BinaryArray::parse(input)?;
 
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
-      member_count,
-    )
-    .parse(input)?;
+
+    let mut members = vec![];
+
+    while members.len() < member_count {
+      let member;
+      (input, member) = self
+        .parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))?;
+
+      match member {
+        ValueOrRef::Null(count) => {
+          if count > member_count - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
+          for _ in 0..count {
+            members.push(ValueOrRef::Value(Value::Null));
+          }
+        },
+        _ => {
+          members.push(member);
+        },
+      }
+    }
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From f840b6a09338083c1b1de8458ce3c9f61aa2b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 06/15] fix: split a BinaryArray into its dimensions in linear
 time

Draining from the front moved all remaining elements for every row.
---
 src/binary_parser/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index a5a2a10..1a4bd21 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -432,8 +432,9 @@ impl<'i> BinaryParser<'i> {
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      let mut rest = members.into_iter();
+      while rest.len() > 0 {
+        members2.push(Value::Array(rest.by_ref().take(l).collect::<Vec<_>>()));
       }
 
       members = members2;
-- 
2.43.0


From 1fe51579089e30020f4c04d6a80cbc31b567b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 07/15] fix: reject a run of nulls in place of a class member

The run was counted as one member but expanded to several, which moved the
values after it to the wrong members.
---
 src/binary_parser/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 1a4bd21..5158691 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -200,9 +200,12 @@ impl<'i> BinaryParser<'i> {
           members2.push(value);
         },
         ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members2.push(Value::Null);
+          // Runs of nulls in arrays have been expanded already, and a class member takes exactly one value.
+          if count != 1 {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
           }
+
+          members2.push(Value::Null);
         },
         ValueOrRef::Ref(id) => {
           if let Some(value) = self.objects.remove(&id.0) {
-- 
2.43.0


From 7e57173ebd88fab44a9d2c613f84d8513fd9b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 08/15] fix: do not look for a library in front of an untyped
 primitive

A primitive whose first byte happened to equal the record type of a
BinaryLibrary was parsed as one.
---
 src/binary_parser/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 5158691..712846b 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -95,7 +95,11 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    let (input, ()) = match type_enum_and_additional_type_info {
+      // A `MemberPrimitiveUnTyped` has no record type, so its first byte may be any.
+      Some((BinaryType::Primitive, _)) => (input, ()),
+      _ => self.parse_binary_library(input)?,
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0


From e5f3ba841f0bf345bdde1d8006505daea6e65346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 09/15] fix: parse a library only once per record

Each alternative parsed and registered the library in front of a record
again, so every library in front of anything but a class, e.g. an array or
a method call, was rejected as a duplicate.
---
 src/binary_parser/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 712846b..152602b 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -216,6 +216,7 @@ impl<'i> BinaryParser<'i> {
             members2.push(value);
           } else {
             let member2;
+            (input, ()) = self.parse_binary_library(input)?;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
             if let Some(value) = self.objects.remove(&member2.0) {
@@ -233,8 +234,6 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `Classes`
   fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
-
     let err_input = input;
 
     let (input, (object_id, class)) = match ClassWithId::parse(input) {
@@ -452,8 +451,6 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `Arrays`
   fn parse_arrays(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
-
     alt_mut!(input =>
       |input| self.parse_array_single_object(input),
       |input| self.parse_array_single_primitive(input),
@@ -498,8 +495,6 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], Vec<Value<'i>>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
-
     let (input, (call_array_id, call_array)) = self.parse_array_single_object(input)?;
 
     if Some(call_array_id.0) != root_id {
@@ -515,10 +510,10 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], MethodCall<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
-
     let (input, binary_method_call) = BinaryMethodCall::parse(input)?;
 
+    let (input, ()) = self.parse_binary_library(input)?;
+
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
     let parse_args = |message_enum: MessageFlags| {
@@ -559,10 +554,10 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     root_id: Option<NonZeroU32>,
   ) -> IResult<&'i [u8], MethodReturn<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
-
     let (input, binary_method_return) = BinaryMethodReturn::parse(input)?;
 
+    let (input, ()) = self.parse_binary_library(input)?;
+
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
     let parse_args = |message_enum: MessageFlags| {
@@ -610,6 +605,9 @@ impl<'i> BinaryParser<'i> {
 
   fn parse_referenceables(&mut self, mut input: &'i [u8]) -> IResult<&'i [u8], (), Error<'i>> {
     loop {
+      // The library may belong to any of the alternatives, including what follows the last referenceable.
+      (input, ()) = self.parse_binary_library(input)?;
+
       match self.parse_referenceable(input) {
         Ok((input2, _)) => {
           input = input2;
-- 
2.43.0


From d2f627c171911a6c92fff4177eb73bf6ea816a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 10/15] fix: accept references and nulls in members of every
 reference type

Typed String members could not be null or refer to a string, typed class
members could not refer to an object, and typed primitive arrays could not
be null.
---
 src/binary_parser/mod.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 152602b..852b2b5 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -108,9 +108,6 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           if let Ok((input, (_, object))) = self.parse_classes(input) {
@@ -120,7 +117,14 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            alt((
+              map(
+                |input| MemberReference::parse(input),
+                |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
+              ),
+              Self::parse_null_object,
+            ))
+            .parse(input)?
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -139,11 +143,18 @@ impl<'i> BinaryParser<'i> {
 
             (input, ValueOrRef::Value(Value::Object(object)))
           } else {
-            Self::parse_null_object(input)?
+            alt((
+              map(
+                |input| MemberReference::parse(input),
+                |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
+              ),
+              Self::parse_null_object,
+            ))
+            .parse(input)?
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
+        (BinaryType::String | BinaryType::StringArray, None) => alt((
           map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
           map(
             |input| MemberReference::parse(input),
@@ -152,10 +163,14 @@ impl<'i> BinaryParser<'i> {
           Self::parse_null_object,
         ))
         .parse(input)?,
-        (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
-        },
+        (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => alt((
+          map(
+            |input| MemberReference::parse(input),
+            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
+          ),
+          Self::parse_null_object,
+        ))
+        .parse(input)?,
         _ => unreachable!(),
       }
     } else {
-- 
2.43.0


From 9d899df8c0ba429e60670609cb14a5b652723da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 11/15] fix: remember class definitions

Classes were looked up for ClassWithId but never registered, so every
message with a second object of the same class was rejected.
---
 src/binary_parser/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 852b2b5..8f697e1 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -1,6 +1,7 @@
 use std::{
   collections::{BTreeMap, HashMap},
   num::NonZeroU32,
+  sync::Arc,
 };
 
 use nom::{
@@ -54,7 +55,7 @@ enum MethodCallOrReturn<'i> {
 #[derive(Debug, Default)]
 pub struct BinaryParser<'i> {
   binary_libraries: BTreeMap<NonZeroU32, LengthPrefixedString<'i>>,
-  classes: BTreeMap<NonZeroU32, Class<'i>>,
+  classes: BTreeMap<NonZeroU32, Arc<Class<'i>>>,
   objects: BTreeMap<NonZeroU32, Value<'i>>,
 }
 
@@ -251,10 +252,10 @@ impl<'i> BinaryParser<'i> {
   fn parse_classes(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Object<'i>), Error<'i>> {
     let err_input = input;
 
-    let (input, (object_id, class)) = match ClassWithId::parse(input) {
+    let (input, (object_id, class, is_definition)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
-          (input, (class_with_id.object_id(), class.clone()))
+          (input, (class_with_id.object_id(), Arc::clone(class), false))
         } else {
           return Err(nom::Err::Failure(error_position!(err_input, MissingMetadataId)))
         }
@@ -267,6 +268,7 @@ impl<'i> BinaryParser<'i> {
           (class.object_id(), Class::SystemClassWithMembersAndTypes(class))
         }),
       ))
+      .map(|(object_id, class)| (object_id, Arc::new(class), true))
       .parse(input)?,
       Err(err) => return Err(err),
     };
@@ -275,7 +277,12 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
-    let (input, (class_info, library, member_references)) = match class {
+    // Registered before parsing the members, which may be objects of the same class.
+    if is_definition {
+      self.classes.insert(object_id, Arc::clone(&class));
+    }
+
+    let (input, (class_info, library, member_references)) = match *class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
           library.as_str()
-- 
2.43.0


From 19dbc768662e53ad5065e0f29a4d46f2fdd5787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 12/15] fix: allow strings to be referred to more than once

A string that is equal to an earlier one is written as a reference to it.
Strings in place of members were not registered, and others were removed by
the first reference to them.
---
 src/binary_parser/mod.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 8f697e1..4d3d8ee 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -90,6 +90,23 @@ impl<'i> BinaryParser<'i> {
     Ok((input, ()))
   }
 
+  /// Parses a string in place of a member, to which later members may refer.
+  fn parse_member_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    let (input, string) = BinaryObjectString::parse(input)?;
+
+    self.objects.insert(string.object_id(), Value::String(string.as_str()));
+
+    Ok((input, ValueOrRef::Value(Value::String(string.as_str()))))
+  }
+
+  /// Takes an already parsed object, which only one member can refer to unless it is a string.
+  fn take_object(&mut self, id: NonZeroU32) -> Option<Value<'i>> {
+    match self.objects.get(&id) {
+      Some(Value::String(s)) => Some(Value::String(s)),
+      _ => self.objects.remove(&id),
+    }
+  }
+
   /// 2.7 Binary Record Grammar - `memberReference`
   fn parse_member_reference(
     &mut self,
@@ -156,7 +173,7 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
         (BinaryType::String | BinaryType::StringArray, None) => alt((
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+          |input| self.parse_member_string(input),
           map(
             |input| MemberReference::parse(input),
             |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
@@ -175,14 +192,13 @@ impl<'i> BinaryParser<'i> {
         _ => unreachable!(),
       }
     } else {
-      alt((
+      alt_mut!(input =>
         map(|input| MemberPrimitiveTyped::parse(input), |primitive| ValueOrRef::Value(primitive.into_value())),
         map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
-        map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
+        |input| self.parse_member_string(input),
         Self::parse_null_object,
         map(|input| self.parse_classes(input), |(_, object)| ValueOrRef::Value(Value::Object(object))),
-      ))
-      .parse(input)?
+      )?
     };
 
     Ok((input, object))
@@ -228,14 +244,14 @@ impl<'i> BinaryParser<'i> {
           members2.push(Value::Null);
         },
         ValueOrRef::Ref(id) => {
-          if let Some(value) = self.objects.remove(&id.0) {
+          if let Some(value) = self.take_object(id.0) {
             members2.push(value);
           } else {
             let member2;
             (input, ()) = self.parse_binary_library(input)?;
             (input, member2) = verify(|input| self.parse_referenceable(input), |id2| id2.0 == id.0).parse(input)?;
 
-            if let Some(value) = self.objects.remove(&member2.0) {
+            if let Some(value) = self.take_object(member2.0) {
               members2.push(value);
             } else {
               return Err(nom::Err::Failure(error_position!(input, UnresolvableMemberReference)))
-- 
2.43.0


From 1e8a8c2b3a00e7e00bb094befabdb9fcc7d3142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 13/15] fix: reject an empty array of a class whose library is
 missing

---
 src/binary_parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 4d3d8ee..bd46f97 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -441,6 +441,13 @@ impl<'i> BinaryParser<'i> {
 
     let (mut input, binary_array) = BinaryArray::parse(input)?;
 
+    // Elements are checked when they are parsed, but there may be none.
+    if let Some(AdditionalTypeInfo::Class(class_type_info)) = &binary_array.additional_type_info {
+      if !self.binary_libraries.contains_key(&class_type_info.library_id()) {
+        return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
+      }
+    }
+
     let member_count = match binary_array.lengths.iter().copied().try_fold(1usize, |acc, n| acc.checked_mul(n)) {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
-- 
2.43.0


From 1063953496b049071af1ec282b8dea1eaac7b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:56 +0000
Subject: [PATCH 14/15] fix: take an in-array return value from the call array

---
 src/binary_parser/mod.rs | 19 ++++++++++++++-----
 src/error.rs             |  2 ++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index bd46f97..bf021a7 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -605,6 +605,18 @@ impl<'i> BinaryParser<'i> {
 
     let (input, call_array) = opt(|input| self.parse_call_array(input, root_id)).parse(input)?;
 
+    let return_value = if binary_method_return.message_enum.intersects(MessageFlags::RETURN_VALUE_IN_ARRAY) {
+      // Follows the output arguments, if those are also in the call array.
+      let index = binary_method_return.message_enum.intersects(MessageFlags::ARGS_IN_ARRAY) as usize;
+
+      match call_array.as_ref().and_then(|call_array| call_array.get(index)) {
+        Some(return_value) => Some(return_value.clone()),
+        None => return Err(nom::Err::Failure(error_position!(input, InvalidReturnValue))),
+      }
+    } else {
+      binary_method_return.return_value.map(|v| v.into_value())
+    };
+
     let parse_args = |message_enum: MessageFlags| {
       if message_enum.intersects(MessageFlags::ARGS_IS_ARRAY) {
         if let Some(call_array) = call_array {
@@ -627,11 +639,8 @@ impl<'i> BinaryParser<'i> {
 
     let args = parse_args(binary_method_return.message_enum)?;
 
-    let method_return = MethodReturn {
-      return_value: binary_method_return.return_value.map(|v| v.into_value()),
-      call_context: binary_method_return.call_context.map(|c| c.as_str()),
-      args,
-    };
+    let method_return =
+      MethodReturn { return_value, call_context: binary_method_return.call_context.map(|c| c.as_str()), args };
 
     Ok((input, method_return))
   }
diff --git a/src/error.rs b/src/error.rs
index 69d48d1..f1e7276 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -54,6 +54,7 @@ pub(crate) enum ErrorInner {
   MissingMetadataId,
   InvalidMetadataId,
   InvalidArgs,
+  InvalidReturnValue,
   UnexpectedClass,
   ExpectedBinaryType,
   ExpectedBinaryArrayType,
@@ -87,6 +88,7 @@ impl fmt::Display for ErrorInner {
       Self::MissingMetadataId => write!(f, "missing metadata ID"),
       Self::InvalidMetadataId => write!(f, "invalid metadata ID"),
       Self::InvalidArgs => write!(f, "invalid method arguments"),
+      Self::InvalidReturnValue => write!(f, "invalid return value"),
       Self::UnexpectedClass => write!(f, "unexpected class"),
       Self::ExpectedBinaryType => write!(f, "expected BinaryType"),
       Self::ExpectedBinaryArrayType => write!(f, "expected BinaryArrayType"),
-- 
2.43.0


From 41db27fcb5affdd740421fbbd5b5d01cc35b695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:30 +0000
Subject: [PATCH 15/15] fix: accept negative lower bounds of arrays

---
 src/record/binary_array.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..e0c8abb 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -1,10 +1,15 @@
 use std::num::NonZeroU32;
 
-use nom::{IResult, Parser, combinator::cond, multi::count};
+use nom::{
+  IResult, Parser,
+  combinator::{cond, map},
+  multi::count,
+};
 
 use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
+  data_type::Int32,
   enumeration::{BinaryArrayType, BinaryType},
   error::Error,
   record::RecordType,
@@ -16,7 +21,7 @@ pub struct BinaryArray<'i> {
   pub object_id: NonZeroU32,
   pub binary_array_type_enum: BinaryArrayType,
   pub lengths: Vec<usize>,
-  pub lower_bounds: Option<Vec<usize>>,
+  pub lower_bounds: Option<Vec<i32>>,
   pub type_enum: BinaryType,
   pub additional_type_info: Option<AdditionalTypeInfo<'i>>,
 }
@@ -35,7 +40,8 @@ impl<'i> BinaryArray<'i> {
         binary_array_type_enum,
         BinaryArrayType::SingleOffset | BinaryArrayType::JaggedOffset | BinaryArrayType::RectangularOffset
       ),
-      count(length, rank),
+      // Unlike a length, a lower bound may be negative.
+      count(map(Int32::parse, i32::from), rank),
     )
     .parse(input)?;
     let (input, type_enum) = BinaryType::parse(input)?;
-- 
2.43.0

