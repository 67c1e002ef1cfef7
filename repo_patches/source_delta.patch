From e20be27577cd7b04a6e829d8f126f9e7e099caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:32 +0000
Subject: [PATCH 01/26] fix: reject a high surrogate whose third byte is not a
 continuation byte when validating WTF-8

---
 wtf8/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..a6c0c37 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1263,8 +1263,10 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                 match n {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         is_high_surrogate = true;
-                        next!();
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From 9e72a43922f366ad82bd93a4aa4895baff7c2479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:32 +0000
Subject: [PATCH 02/26] fix: only join encoded surrogate pairs whose bytes are
 continuation bytes when decoding Modified UTF-8

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From e0163bd3896a8631621379a99e5cc8a51ec86e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:32 +0000
Subject: [PATCH 03/26] fix: do not overflow the slot counter when a maximal
 constant pool ends with a wide entry

---
 src/cp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..b9afacd 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -161,7 +161,7 @@ impl ReadWrite for MapCp {
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
             let idx = i;
-            i += entry.size();
+            i = i.saturating_add(entry.size());
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
-- 
2.43.0


From c85c6eb85d4abebfb320a22c34c01f54461603c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:50 +0000
Subject: [PATCH 04/26] fix: write descriptors losslessly when their class
 names contain unpaired surrogates

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 2 +-
 src/rw.rs             | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..51a4959 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ffe9eea 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -252,7 +252,7 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into())
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..a5140ac 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From e0fc6692ae6a15b674d7865c5245c97650962523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:19 +0000
Subject: [PATCH 05/26] fix: reject descriptors with trailing text, nested
 method types or more than 255 dimensions

---
 src/ty.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..9b27c49 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -89,7 +89,10 @@ impl Type {
 }
 
 pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
-    fn get_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+    fn get_type(
+        c: &mut wtf_8::Wtf8CodePoints,
+        allow_method: bool,
+    ) -> Result<Type, crate::error::Error> {
         let next_codepoint = c.next();
         Ok(match next_codepoint.map(|c| c.to_char_lossy()) {
             Some('B') => Type::Byte,
@@ -115,15 +118,17 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        crate::error::Error::Invalid("array type", "more than 255 dimensions".into())
+                    })?;
                 }
-                let r = get_type(c)?;
+                let r = get_type(c, false)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
-            Some('(') => {
+            Some('(') if allow_method => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(get_type(c, false)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -131,9 +136,10 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(get_type(c, false)?))
                         },
                     }
                 }
@@ -147,7 +153,15 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let mut c = s.codepoints();
+    let ty = get_type(&mut c, true)?;
+    if c.next().is_some() {
+        return Err(crate::error::Error::Invalid(
+            "type",
+            format!("{s:?} has trailing characters").into(),
+        ));
+    }
+    Ok(ty)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From 9d384e07f8fc46060c5108fe0a4c872d4a5e0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:03 +0000
Subject: [PATCH 06/26] fix: print a thrown type variable as a type variable,
 not as a class

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..4aa2ea2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From a98cc7362103b751e8a1cdb860535157dfd15d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:03 +0000
Subject: [PATCH 07/26] fix: parse every bound of a type parameter, each after
 the end of the previous one

---
 src/signature.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 4aa2ea2..a88743f 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -366,21 +366,17 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
-    let mut chars = i.chars();
-    let name = chars
-        .by_ref()
-        .take_while(|&x| x != ':')
-        .collect::<String>()
-        .into();
-    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
+    let (name, bounds) = i.split_once(':').ok_or_else(unexpected_end)?;
+    let name = name.to_string().into();
+    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = bounds.chars().next() {
+        let (newi, ref_ty_sig) = ref_type_sig(bounds)?;
         (newi, Some(ref_ty_sig))
     } else {
-        (chars.as_str(), None)
+        (bounds, None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(rest) = i.strip_prefix(':') {
+        let (new_i, bound) = ref_type_sig(rest)?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From ac6fd21e1ca447570c0deb794ab997640d874c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:05 +0000
Subject: [PATCH 08/26] fix: reject signatures with trailing text, empty
 argument lists or more than 255 dimensions

---
 src/signature.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index a88743f..10276fe 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,7 +177,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("array type", "more than 255 dimensions"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
@@ -333,6 +335,9 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
             i = res.0;
             args.push(res.1);
         }
+        if args.is_empty() {
+            return Err(invalid("type arguments", "empty list"));
+        }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, args))
     } else {
@@ -400,6 +405,9 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
             i = res.0;
             params.push(res.1);
         }
+        if params.is_empty() {
+            return Err(invalid("type parameters", "empty list"));
+        }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, params))
     } else {
@@ -471,7 +479,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("trailing characters in signature", rest)),
+                    }
                 }
             }
         )*
-- 
2.43.0


From d04f655f9ca6a17ce178d18e51478e8c7d84484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 09/26] fix: write the tag and the length of a borrowed UTF-8
 pool entry

---
 src/cp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index b9afacd..c789e6c 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -25,7 +25,9 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
+        let bytes = mod_utf8::string_to_modified_utf8(self.0);
+        (bytes.len() as u16).write_to(writer)?;
+        writer.write_all(&bytes)?;
         Ok(())
     }
 }
@@ -33,6 +35,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0


From 7fffddd8489820e11517cc37e95298a48583aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 10/26] fix: write a static field store as putstatic

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From d4735f97a397f59f772270fa91d756f340f1a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 11/26] fix: read a dynamically computed constant loaded by
 ldc, ldc_w or ldc2_w

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..ece46ba 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -73,8 +73,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From 29d815dc9ec6c594f1ff6c42511404e92028751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:22 +0000
Subject: [PATCH 12/26] fix: write array creation instructions and read their
 component types uniformly

---
 src/code/convert.rs   | 103 ++++++++++++++++++++++++++++++++++++++++--
 src/code/structure.rs |   4 ++
 2 files changed, 102 insertions(+), 5 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index ece46ba..b398dd5 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -2,6 +2,8 @@ use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::io::Cursor;
 
+use wtf_8::{Wtf8Str, Wtf8String};
+
 use super::Instruction;
 use super::Instruction::*;
 use crate::constants::insn::*;
@@ -14,6 +16,70 @@ use crate::try_cp_read_idx;
 
 pub struct Conv;
 
+/// The `atype` operand of the `newarray` instruction for this component type.
+fn primitive_code(ty: &Type) -> Option<u8> {
+    Some(match ty {
+        Type::Boolean => 4,
+        Type::Char => 5,
+        Type::Float => 6,
+        Type::Double => 7,
+        Type::Byte => 8,
+        Type::Short => 9,
+        Type::Int => 10,
+        Type::Long => 11,
+        _ => return None,
+    })
+}
+
+/// The class operand of `anewarray` (one dimension) or `multianewarray` (more) that creates
+/// an array with this many dimensions over the component type.
+fn new_array_class(ty: &Type, dim: u8) -> Result<Cow<'static, Wtf8Str>> {
+    let inner = match ty {
+        Type::Method { .. } => {
+            return Err(Error::Invalid("NewArray type", ty.to_string().into()))
+        }
+        Type::ArrayRef(d, _) => *d,
+        _ => 0,
+    };
+    if dim == 0 || dim.checked_add(inner).is_none() {
+        return Err(Error::Invalid("NewArray dimensions", dim.to_string().into()));
+    }
+    Ok(match ty {
+        Type::Ref(c) if dim == 1 => c.clone(),
+        _ => {
+            let mut s = Wtf8String::new();
+            // the type operand of `anewarray` is the component type, not the array type.
+            for _ in 0..if dim == 1 { 0 } else { dim } {
+                s.push_char('[');
+            }
+            write_type(ty, &mut s);
+            Cow::Owned(s)
+        }
+    })
+}
+
+/// The component type named by the class operand of `anewarray`.
+fn class_component(c: Cow<'static, Wtf8Str>) -> Result<Type> {
+    if c.codepoints().next().map_or(false, |x| x == '[') {
+        parse_type(&c)
+    } else {
+        Ok(Type::Ref(c))
+    }
+}
+
+/// What is left of the array type that is the class operand of `multianewarray`
+/// after the dimensions that it creates.
+fn array_component(c: &Wtf8Str, dim: u8) -> Result<Type> {
+    match parse_type(c)? {
+        Type::ArrayRef(d, ty) if dim != 0 && d == dim => Ok(*ty),
+        Type::ArrayRef(d, ty) if dim != 0 && d > dim => Ok(Type::ArrayRef(d - dim, ty)),
+        _ => Err(Error::Invalid(
+            "MultiANewArray dimensions",
+            dim.to_string().into(),
+        )),
+    }
+}
+
 impl Conv {
     pub(crate) fn convert_direct_instruction<T: ConstantPoolReader>(
         insn: I,
@@ -361,16 +427,22 @@ impl Conv {
                 try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )
+                .and_then(|t| match t {
+                    OrDynamic::Static(c) => class_component(c).map(OrDynamic::Static),
+                    OrDynamic::Dynamic(d) => Ok(OrDynamic::Dynamic(d)),
+                })?,
                 1,
             ),
             I::MultiANewArray(r, dim) => NewArray(
                 try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )
+                .and_then(|t| match t {
+                    OrDynamic::Static(c) => array_component(&c, dim).map(OrDynamic::Static),
+                    OrDynamic::Dynamic(d) => Ok(OrDynamic::Dynamic(d)),
+                })?,
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -704,7 +776,28 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(OrDynamic::Static(ref ty), 1) if primitive_code(ty).is_some() => {
+                NEWARRAY.write_to(&mut cursor)?;
+                primitive_code(ty).unwrap_or_default().write_to(&mut cursor)?;
+            }
+            Instruction::NewArray(ref ty, dim) => {
+                let idx = match ty {
+                    OrDynamic::Static(ty) => cp.insert_class(new_array_class(ty, dim)?),
+                    OrDynamic::Dynamic(d) => cp.insert_dynamic(d.clone()),
+                };
+                match dim {
+                    0 => return Err(Error::Invalid("NewArray dimensions", "0".into())),
+                    1 => {
+                        ANEWARRAY.write_to(&mut cursor)?;
+                        idx.write_to(&mut cursor)?;
+                    }
+                    _ => {
+                        MULTIANEWARRAY.write_to(&mut cursor)?;
+                        idx.write_to(&mut cursor)?;
+                        dim.write_to(&mut cursor)?;
+                    }
+                }
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
diff --git a/src/code/structure.rs b/src/code/structure.rs
index ffe9eea..b5f86c2 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -294,6 +294,10 @@ pub enum Instruction {
     Throw,
     CheckCast(OrDynamic<ClassType>),
     InstanceOf(OrDynamic<ClassType>),
+    /// Create an array with this many dimensions over the component type.
+    ///
+    /// The component type may itself be an array type: creating one dimension of
+    /// `int[]` creates an `int[][]` whose elements are null.
     NewArray(OrDynamic<Type>, u8),
     Monitor(MonitorOperation),
     New(OrDynamic<Cow<'static, Wtf8Str>>),
-- 
2.43.0


From f1488cdd4756422626101a01f2d922837e938aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:57 +0000
Subject: [PATCH 13/26] fix: reject table switches with an empty range instead
 of overflowing

---
 src/code.rs |  8 +++++++-
 src/insn.rs | 13 +++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..48f0b35 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -442,7 +442,13 @@ impl ConstantPoolReadWrite for Code {
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    let high = i32::try_from(*low as i64 + offsets.len() as i64 - 1)
+                        .ok()
+                        .filter(|high| high >= low)
+                        .ok_or_else(|| {
+                            Error::Invalid("tableswitch range", offsets.len().to_string().into())
+                        })?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..bddd1d4 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -2,7 +2,7 @@
 //!
 //! Used for translating raw code to useful code.
 
-use crate::{helper as h, ReadWrite, Result};
+use crate::{helper as h, Error, ReadWrite, Result};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
 pub(crate) struct SwitchEntry(pub i32, pub i32);
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if high < low {
+            return Err(Error::Invalid(
+                "tableswitch range",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From 05859a1beebdaad6b8ee6a497e554ee57cfe859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:23 +0000
Subject: [PATCH 14/26] fix: decide the width of jumps by their offsets and lay
 out wide conditional jumps correctly

---
 src/code.rs | 156 ++++++++++++++++++++++++++--------------------------
 1 file changed, 77 insertions(+), 79 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 48f0b35..ab1ce51 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -32,6 +32,60 @@ pub struct Code {
     pub attrs: Vec<CodeAttribute>,
 }
 
+/// An instruction whose size depends on where it ends up. These separate the runs of other instructions.
+#[derive(Clone, Copy)]
+enum Branch {
+    /// A switch, with the size of its operands after the padding.
+    Switch(usize),
+    /// A jump to an offset in a run, with its size when it has to be wide.
+    Jump(usize, usize, usize),
+}
+
+/// Computes the sizes of the branches, and the indices where each of them ends,
+/// from the sizes of the runs and the branches between them.
+///
+/// A jump is wide only if its offset does not fit in an `i16`.
+fn layout(runs: &[usize], branches: &[Branch]) -> (Vec<usize>, Vec<usize>) {
+    let mut wide = vec![false; branches.len()];
+    loop {
+        let mut sizes = Vec::with_capacity(branches.len());
+        let mut ends = Vec::with_capacity(branches.len());
+        let mut index = 0;
+        for i in 0..branches.len() {
+            index += runs[i];
+            let size = match branches[i] {
+                // the operands are aligned to 4 bytes.
+                Branch::Switch(operands) => 1 + (3 - index % 4) + operands,
+                Branch::Jump(_, _, wide_size) => {
+                    if wide[i] {
+                        wide_size
+                    } else {
+                        3
+                    }
+                }
+            };
+            index += size;
+            sizes.push(size);
+            ends.push(index);
+        }
+        let mut changed = false;
+        for i in 0..branches.len() {
+            if let Branch::Jump(run, offset, _) = branches[i] {
+                let target = if run == 0 { 0 } else { ends[run - 1] } + offset;
+                let source = ends[i] - sizes[i];
+                let fits = target <= source + 32767 && source <= target + 32768;
+                if !fits && !wide[i] {
+                    wide[i] = true;
+                    changed = true;
+                }
+            }
+        }
+        if !changed {
+            return (sizes, ends);
+        }
+    }
+}
+
 impl ConstantPoolReadWrite for Code {
     fn read_from<C: ConstantPoolReader, R: Read>(
         cp: &mut C,
@@ -281,28 +335,8 @@ impl ConstantPoolReadWrite for Code {
             )?;
         }
         buf.push(cursor.into_inner());
-        let mut index_hints = Vec::new();
-        let mut last_max_index = 0usize;
-        let mut buf_iter = buf.iter();
-        // Get minimum/maximum starting index of the next buffer, that is: index_hints[n] is max of buf[n + 1] resulting index.
-        for j in &jumps {
-            let this_size_max = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => 11 + table.len() * 8,
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => 15 + offsets.len() * 4, // +3 alignment
-                Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
-                Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
-                // other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_max_index += this_size_max + buf_iter.next().unwrap().len();
-            index_hints.push(last_max_index);
-        }
         /*
-        determine the actual size by partially resolving the label through index_hints
+        Determine the size of each jump:
             Optimize for possible non-wide jumps, and convert conditional jumps to make it wide-compatible:
             such as:
                 ifnull far_away
@@ -313,76 +347,38 @@ impl ConstantPoolReadWrite for Code {
                 cont:
                     ops
         */
-        // Where the elements of `buf` end up.
-        let mut actual_indices = Vec::new();
-        // the index at the opcode byte of the jump instruction.
-        let mut last_idx = 0;
-        buf_iter = buf.iter();
-        let mut sizes_of_jump_insns = Vec::new();
+        let mut branches = Vec::with_capacity(jumps.len());
         for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
-            let actual_size = 1 + match *j {
+            branches.push(match *j {
                 Instruction::LookupSwitch { default: _, table } => {
-                    // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
-                    // default target begins if there was no padding.
-
-                    // Calculate the modulus and find the padding.
-                    // 0 1 2 3 4
-                    // * * * * x -> * * * * x (0 -> 0)
-                    // * * * x   -> * * * p x (3 -> 1)
-                    // * * x     -> * * p p x (2 -> 2)
-                    // * x       -> * p p p x (1 -> 3)
-
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 8 + table.len() * 8
+                    Branch::Switch(8 + table.len() * 8)
                 }
                 Instruction::TableSwitch {
                     default: _,
                     low: _,
                     offsets,
-                } => {
-                    // see comments above for finding the padding.
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 12 + offsets.len() * 4
-                }
+                } => Branch::Switch(12 + offsets.len() * 4),
                 Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        4
-                    }
+                    let (run, off) = get_label!(target);
+                    Branch::Jump(run, off, 5) // goto_w/jsr_w i32
                 }
                 Instruction::Jump(_, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        7
-                    }
+                    let (run, off) = get_label!(target);
+                    Branch::Jump(run, off, 8) // inverted condition i16, goto_w i32
                 }
                 // SAFETY: other variants are not inserted
                 _ => unreachable!(),
-            };
-            last_idx += actual_size;
-            sizes_of_jump_insns.push(actual_size);
-            actual_indices.push(last_idx);
+            });
         }
+        let runs: Vec<usize> = buf.iter().map(Vec::len).collect();
+        let (sizes_of_jump_insns, actual_indices) = layout(&runs, &branches);
+        let last_idx = actual_indices.last().copied().unwrap_or(0);
         // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
-        code_len.write_to(writer)?; // u4 code_length
+        let code_len = runs.last().copied().unwrap_or(0) + last_idx;
+        if code_len > u16::MAX as usize {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        (code_len as u32).write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
         writer.write_all(&buf_iter.next().unwrap())?;
@@ -405,7 +401,8 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if *size_of_jump_insn == 3 {
+                        let $off = $off as i16;
                         $non_wide
                     } else {
                         $wide
@@ -478,9 +475,10 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        // relative to the goto_w instruction
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 931a7c94dba12e875f8b96e84bff9ba6a00cf288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 15/26] fix: keep every line number when reading and writing
 code

---
 src/code.rs         | 39 +++++++++++++++++++++++++++++----------
 src/code/convert.rs |  4 ++--
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index ab1ce51..1209399 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -211,7 +211,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx
+                            .get(&(off as u32))
+                            .ok_or_else(|| Error::Invalid("index", format!("{off}").into()))?;
+                        to_insert.entry(idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -285,10 +288,10 @@ impl ConstantPoolReadWrite for Code {
                         .ok_or_else(|| Error::Invalid("index", format!("{k}").into()))?,
                 )
                 .or_default()
-                .push(Label(v));
+                .insert(0, Label(v));
         }
         for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
+            for i in v.into_iter().rev() {
                 instructions.insert(k, i)
             }
         }
@@ -313,7 +316,8 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        // Line numbers, and the positions in `buf` where they start.
+        let mut line_numbers: Vec<((usize, usize), u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -494,6 +498,17 @@ impl ConstantPoolReadWrite for Code {
             catches: &'a Vec<Catch>,
         }
 
+        impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
+            /// The index in the code array of a position in `buf`.
+            fn position(&self, (buf_off, inner_off): (usize, usize)) -> u16 {
+                (if buf_off == 0 {
+                    0
+                } else {
+                    self.indices[buf_off - 1] as u16
+                }) + (inner_off as u16)
+            }
+        }
+
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
             #[inline]
             fn insert_raw(&mut self, value: RawConstantEntry) -> u16 {
@@ -506,12 +521,7 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                (if buf_off == 0 {
-                    0
-                } else {
-                    self.indices[buf_off - 1] as u16
-                }) + (inner_off as u16)
+                self.position(*self.labels.get(lbl).unwrap())
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -549,6 +559,15 @@ impl ConstantPoolReadWrite for Code {
         let mut extra_attrs = 0;
         let mut attributes_writer = Vec::new();
 
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let lines = line_numbers
+                .into_iter()
+                .map(|(pos, line)| LineNumber(labeler.position(pos), line))
+                .collect();
+            CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
+        }
+
         for a in &self.attrs {
             match a {
                 CodeAttribute::VisibleTypeAnnotations(a) => {
diff --git a/src/code/convert.rs b/src/code/convert.rs
index b398dd5..74f5921 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -495,7 +495,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<((usize, usize), u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -894,7 +894,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push(((buf.len(), cursor.position() as usize), ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From fdb637c86c51cc166cf72eddb62f836d74c5578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:59 +0000
Subject: [PATCH 16/26] fix: read local variable ranges without overflow and
 keep the variables in order

---
 src/code.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 1209399..0908c40 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -200,9 +200,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // A map is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
@@ -220,7 +220,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -243,7 +243,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
-- 
2.43.0


From 8cffee8f20b31265a04664178fac359712ab0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:02 +0000
Subject: [PATCH 17/26] fix: report references to missing labels and catches,
 and reversed ranges, as errors

---
 src/annotation/type_annotation.rs |  6 ++++--
 src/code.rs                       | 26 +++++++++++++++++++++++---
 src/code/structure.rs             |  3 +--
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..3fb5401 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -6,7 +6,7 @@ use wtf_8::Wtf8Str;
 use super::super::Type;
 use super::AnnotationValue;
 use crate::code::{Catch, Label};
-use crate::{helper as h, ConstantPoolReadWrite, ReadWrite};
+use crate::{helper as h, ConstantPoolReadWrite, Error, ReadWrite};
 
 /// Represents where a type annotation is annotated in a class.
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
@@ -74,7 +74,9 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        end.checked_sub(start)
+            .ok_or_else(|| Error::Invalid("local variable", "range ends before its start".into()))?
+            .write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 0908c40..46a84e6 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -496,6 +496,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label that was referenced but is not in the code.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
@@ -521,7 +523,13 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                self.position(*self.labels.get(lbl).unwrap())
+                match self.labels.get(lbl) {
+                    Some(pos) => self.position(*pos),
+                    None => {
+                        self.missing = Some(*lbl);
+                        0
+                    }
+                }
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -538,6 +546,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -577,12 +586,17 @@ impl ConstantPoolReadWrite for Code {
                     CodeAttr::RuntimeInvisibleTypeAnnotations(a.clone())
                 }
                 CodeAttribute::LocalVariables(l) => {
+                    fn local_var_len(start: u16, end: u16) -> Result<u16> {
+                        end.checked_sub(start).ok_or_else(|| {
+                            Error::Invalid("local variables", "range ends before its start".into())
+                        })
+                    }
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = local_var_len(start, labeler.label(&lc.end))?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -593,7 +607,7 @@ impl ConstantPoolReadWrite for Code {
                         }
                         if let Some(ref sig) = lc.signature {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = local_var_len(start, labeler.label(&lc.end))?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -624,6 +638,12 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if let Some(label) = labeler.missing {
+            return Err(Error::Invalid(
+                "referenced label",
+                label.0.to_string().into(),
+            ));
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
diff --git a/src/code/structure.rs b/src/code/structure.rs
index b5f86c2..7441043 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -460,8 +460,7 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid("catch", format!("{self:?}").into())),
         }
     }
 }
-- 
2.43.0


From 67d30721752adae8c070972ffda17eca1fb4ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 18/26] fix: use the right tags for long and double
 verification types and reject empty append frames

---
 src/code.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 46a84e6..0f3afdb 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -656,8 +656,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
@@ -677,7 +677,7 @@ pub enum RawFrame {
     SameLocalsOneStack(u16, VerificationType),
     /// Chop up to three.
     Chop(u16, u8),
-    /// At most three items.
+    /// One to three items.
     Append(u16, Vec<VerificationType>),
     /// Locals and then stack values.
     Full(u16, Vec<VerificationType>, Vec<VerificationType>),
@@ -761,7 +761,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 off.write_to(writer)?;
             }
             RawFrame::Chop(_, c) => return Err(Error::Invalid("Chop value", c.to_string().into())),
-            RawFrame::Append(off, locals) if locals.len() <= 3 => {
+            RawFrame::Append(off, locals) if (1..=3).contains(&locals.len()) => {
                 (locals.len() as u8 + 251).write_to(writer)?;
                 off.write_to(writer)?;
                 for local in locals {
@@ -769,7 +769,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 }
             }
             RawFrame::Append(_, _) => {
-                return Err(Error::Invalid("Append", "locals length > 3".into()))
+                return Err(Error::Invalid("Append", "locals length is not 1 to 3".into()))
             }
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
-- 
2.43.0


From 4deff11870bb2f40e7ef3dce1f0422af191d6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:02 +0000
Subject: [PATCH 19/26] fix: count the BootstrapMethods attribute when writing
 a class and keep the indices of bootstrap methods

---
 src/clazz.rs | 39 ++++++++++++++++++++++-----------------
 src/cp.rs    | 10 +++++++---
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..0cc4cad 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -100,33 +100,38 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut count = 0u16;
+        let mut has_bsm = false;
+        let mut attributes = vec![];
         for a in &self.attributes {
             match a {
-                ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                ClassAttribute::BootstrapMethods(_) => has_bsm = true,
+                _ => {
+                    count += 1;
+                    a.write_to(&mut cp, &mut attributes)?;
+                }
             }
         }
-        if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
-            let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+        if has_bsm || !cp.bsm.is_empty() {
+            let mut bsms = vec![];
+            let mut i = 0;
+            // writing a bootstrap method may insert others.
+            while let Some(bsm) = cp.bsm.get(i).cloned() {
+                bsm.write_to(&mut cp, &mut bsms)?;
+                i += 1;
             }
+            count += 1;
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
-                &mut buf
+                &mut attributes
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut buf)?;
-            i.write_to(&mut buf)?;
-            buf.write_all(&buf2)?;
+            (bsms.len() as u32 + 2).write_to(&mut attributes)?;
+            (i as u16).write_to(&mut attributes)?;
+            attributes.write_all(&bsms)?;
         }
+        count.write_to(&mut buf)?;
+        buf.write_all(&attributes)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
         Ok(())
diff --git a/src/cp.rs b/src/cp.rs
index c789e6c..1be3e2a 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -232,8 +232,12 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        match self.bsm.iter().position(|b| *b == bsm) {
+            Some(i) => i as u16,
+            None => {
+                self.bsm.push(bsm);
+                (self.bsm.len() - 1) as u16
+            }
+        }
     }
 }
-- 
2.43.0


From 495d40aeb58882bf7a3cd7ddfbb085343c7763b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:04 +0000
Subject: [PATCH 20/26] fix: report dynamic constants in a class without
 bootstrap methods when reading it

---
 src/clazz.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 0cc4cad..3417376 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,12 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
-                }
+                let bsms = c.attributes.iter().find_map(|attr| match attr {
+                    ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                    _ => None,
+                });
+                // fails if there are references to bootstrap methods that are absent.
+                cp.bootstrap_methods(bsms.unwrap_or_default())?;
                 Ok(Class {
                     version,
                     access: c.access,
-- 
2.43.0


From 427ff079d7ba060e10591dafe5e8628f096586da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:26 +0000
Subject: [PATCH 21/26] fix: reject bootstrap methods that need their own
 result as an argument

---
 src/cp.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 1be3e2a..5bc0765 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -147,6 +147,49 @@ impl MapCp {
             refs: HashMap::new(),
         }
     }
+
+    /// Whether a bootstrap method needs its own result, directly or through others, as an argument.
+    fn is_cyclic(&self, bsms: &[BootstrapMethod]) -> bool {
+        let mut cells = HashMap::new();
+        for (idx, refs) in &self.refs {
+            for cell in refs {
+                cells.insert(Arc::as_ptr(cell), *idx as usize);
+            }
+        }
+        // The bootstrap methods that are used by each bootstrap method.
+        let mut uses: Vec<Vec<usize>> = Vec::with_capacity(bsms.len());
+        for b in bsms {
+            let mut used = Vec::new();
+            for arg in &b.arguments {
+                if let OrDynamic::Dynamic(d) = arg {
+                    used.extend(cells.get(&Arc::as_ptr(&d.bsm)));
+                }
+            }
+            uses.push(used);
+        }
+        // Remove the bootstrap methods that only use removed ones until nothing changes.
+        let mut users: Vec<Vec<usize>> = vec![Vec::new(); bsms.len()];
+        let mut pending: Vec<usize> = Vec::with_capacity(bsms.len());
+        for (i, used) in uses.iter().enumerate() {
+            let known = used.iter().filter(|u| **u < bsms.len());
+            pending.push(known.clone().count());
+            for u in known {
+                users[*u].push(i);
+            }
+        }
+        let mut ready: Vec<usize> = (0..bsms.len()).filter(|i| pending[*i] == 0).collect();
+        let mut removed = 0;
+        while let Some(i) = ready.pop() {
+            removed += 1;
+            for u in &users[i] {
+                pending[*u] -= 1;
+                if pending[*u] == 0 {
+                    ready.push(*u);
+                }
+            }
+        }
+        removed != bsms.len()
+    }
 }
 
 impl Default for MapCp {
@@ -185,6 +228,12 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        if self.is_cyclic(bsms) {
+            return Err(Error::Invalid(
+                "bootstrap method",
+                "an argument is computed by the bootstrap method itself".into(),
+            ));
+        }
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
-- 
2.43.0


From 51f6c658b6f35ea7e3149395c912198fed867f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:11 +0000
Subject: [PATCH 22/26] fix: do not reserve memory for lengths that the input
 does not back up

---
 coffer_macros/src/derive.rs |  6 ++----
 src/annotation/mod.rs       |  4 ++--
 src/code.rs                 |  4 ++--
 src/rw.rs                   | 15 +++++++++++++++
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..9d6e4e6 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::rw::read_bytes(#reader, len)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::rw::read_bytes(#reader, byte_size)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 51a4959..822b4c6 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -123,7 +123,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
                     values.push(AnnotationValue::read_from(cp, reader)?)
                 }
@@ -225,7 +225,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         reader: &mut R,
     ) -> Result<Self, Error> {
         let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
+        let mut element_values = HashMap::new();
         for _ in 0..pairs {
             let name = read_from!(cp, reader)?;
             let value = AnnotationValue::read_from(cp, reader)?;
diff --git a/src/code.rs b/src/code.rs
index 0f3afdb..85aab51 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -131,8 +131,8 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
-        reader.read_exact(&mut code)?;
+        let code_len = u32::read_from(reader)?;
+        let code = crate::rw::read_bytes(reader, code_len)?;
         let mut labeler = Labeler {
             inner: cp,
             labels: HashMap::new(),
diff --git a/src/rw.rs b/src/rw.rs
index a5140ac..631f211 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -426,6 +426,21 @@ macro_rules! write_to {
     };
 }
 
+/// Reads exactly this many bytes.
+///
+/// The length comes from the input, so space is only made as far as there is input to fill it.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>> {
+    const CHUNK: usize = 1 << 16;
+    let len = len as usize;
+    let mut bytes = Vec::new();
+    while bytes.len() < len {
+        let start = bytes.len();
+        bytes.resize(start + (len - start).min(CHUNK), 0);
+        reader.read_exact(&mut bytes[start..])?;
+    }
+    Ok(bytes)
+}
+
 macro_rules! impl_readwrite_nums {
     ($(($i:ty, $s:literal)),*) => {
         $(
-- 
2.43.0


From 71a3da2526f43fe8ad537a0ec10d506db047eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:39 +0000
Subject: [PATCH 23/26] fix: report counts that do not fit in the class file
 instead of truncating them

---
 src/annotation/mod.rs |  6 +++---
 src/clazz.rs          | 13 +++++++------
 src/code.rs           |  9 +++++----
 src/cp.rs             |  3 ++-
 src/dynamic.rs        |  2 +-
 src/rw.rs             |  9 ++++++++-
 6 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 822b4c6..af992bd 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -9,6 +9,7 @@ use wtf_8::{w, Wtf8Str};
 use super::Type;
 use crate::error::Error;
 use crate::prelude::parse_type;
+use crate::rw::write_len;
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{
     helper as h, read_from, write_to, ConstantPoolReadWrite, ConstantPoolReader,
@@ -200,7 +201,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                write_len(v.len(), writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,8 +240,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
-        size.write_to(writer)?;
+        write_len(self.len(), writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 3417376..82585b6 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -4,6 +4,7 @@ use wtf_8::Wtf8Str;
 
 use crate::constants::JVM_MAGIC;
 use crate::prelude::*;
+use crate::rw::write_len;
 
 #[derive(Debug, Clone)]
 pub struct Class {
@@ -88,19 +89,19 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        write_len(self.interfaces.len(), &mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        write_len(self.fields.len(), &mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        write_len(self.methods.len(), &mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        let mut count = 0u16;
+        let mut count = 0;
         let mut has_bsm = false;
         let mut attributes = vec![];
         for a in &self.attributes {
@@ -127,10 +128,10 @@ impl ReadWrite for Class {
                 &mut attributes
             )?;
             (bsms.len() as u32 + 2).write_to(&mut attributes)?;
-            (i as u16).write_to(&mut attributes)?;
+            write_len(i, &mut attributes)?;
             attributes.write_all(&bsms)?;
         }
-        count.write_to(&mut buf)?;
+        write_len(count, &mut buf)?;
         buf.write_all(&attributes)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
diff --git a/src/code.rs b/src/code.rs
index 85aab51..67e4c31 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -8,6 +8,7 @@ use std::io::{Cursor, Read, Write};
 use std::sync::Arc;
 
 use crate::prelude::*;
+use crate::rw::write_len;
 use crate::{
     read_from, try_cp_read_idx, ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter,
     Error, ReadWrite,
@@ -540,7 +541,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        write_len(self.catches.len(), writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -644,7 +645,7 @@ impl ConstantPoolReadWrite for Code {
                 label.0.to_string().into(),
             ));
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        write_len(self.attrs.len() + extra_attrs, writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -774,11 +775,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                write_len(locals.len(), writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                write_len(stack.len(), writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/cp.rs b/src/cp.rs
index 5bc0765..4cb3b60 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -10,6 +10,7 @@ use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
 use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
+use crate::rw::write_len;
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -26,7 +27,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let bytes = mod_utf8::string_to_modified_utf8(self.0);
-        (bytes.len() as u16).write_to(writer)?;
+        write_len(bytes.len(), writer)?;
         writer.write_all(&bytes)?;
         Ok(())
     }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..7842f7d 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        crate::rw::write_len(self.arguments.len(), writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/rw.rs b/src/rw.rs
index 631f211..431ef55 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -426,6 +426,13 @@ macro_rules! write_to {
     };
 }
 
+/// Writes the number of items that follow, which must fit in a `u16`.
+pub(crate) fn write_len<W: Write>(len: usize, writer: &mut W) -> Result<()> {
+    u16::try_from(len)
+        .map_err(|_| Error::Invalid("length (more than 65535)", len.to_string().into()))?
+        .write_to(writer)
+}
+
 /// Reads exactly this many bytes.
 ///
 /// The length comes from the input, so space is only made as far as there is input to fill it.
@@ -488,7 +495,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        write_len(string.len(), writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From 689a4b12a402c8f62809c63c75181843c1b0f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:42 +0000
Subject: [PATCH 24/26] fix: report a constant pool with too many entries when
 it is written

---
 src/cp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 4cb3b60..06ec42d 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -117,7 +117,7 @@ pub struct VecCp {
     entries: Vec<RawConstantEntry>,
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
-    len: u16,
+    len: usize,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -259,7 +259,7 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        self.len.write_to(writer)?;
+        write_len(self.len, writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
         }
@@ -272,8 +272,9 @@ impl ConstantPoolWriter for VecCp {
         match self.cache.entry(value.clone()) {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
-                let idx = self.len;
-                self.len += value.size();
+                // If there are too many entries, it is reported when the pool is written.
+                let idx = self.len as u16;
+                self.len += value.size() as usize;
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From 300c0ef023ed8350e63357b194668f7fbc10e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:54 +0000
Subject: [PATCH 25/26] hook: verification entry points and plain map models,
 compiled only under cfg(kani)

---
 src/annotation/mod.rs             |   3 +
 src/annotation/type_annotation.rs |   3 +
 src/code.rs                       |   6 +
 src/code/convert.rs               |   3 +
 src/code/structure.rs             |   3 +
 src/code/verif_hooks.rs           |  53 +++++++
 src/cp.rs                         |   4 +
 src/lib.rs                        |   2 +
 src/verif_model.rs                | 250 ++++++++++++++++++++++++++++++
 9 files changed, 327 insertions(+)
 create mode 100644 src/code/verif_hooks.rs
 create mode 100644 src/verif_model.rs

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index af992bd..fe4b50f 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -1,5 +1,6 @@
 pub(crate) mod type_annotation;
 use std::borrow::Cow;
+#[cfg(not(kani))]
 use std::collections::HashMap;
 use std::convert::TryInto;
 
@@ -11,6 +12,8 @@ use crate::error::Error;
 use crate::prelude::parse_type;
 use crate::rw::write_len;
 use crate::total_floats::{TotalF32, TotalF64};
+#[cfg(kani)]
+use crate::verif_model::HashMap;
 use crate::{
     helper as h, read_from, write_to, ConstantPoolReadWrite, ConstantPoolReader,
     ConstantPoolWriter, Read, ReadWrite, Result, Write,
diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 3fb5401..cf61abb 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -1,4 +1,5 @@
 use std::borrow::Cow;
+#[cfg(not(kani))]
 use std::collections::HashMap;
 
 use wtf_8::Wtf8Str;
@@ -6,6 +7,8 @@ use wtf_8::Wtf8Str;
 use super::super::Type;
 use super::AnnotationValue;
 use crate::code::{Catch, Label};
+#[cfg(kani)]
+use crate::verif_model::HashMap;
 use crate::{helper as h, ConstantPoolReadWrite, Error, ReadWrite};
 
 /// Represents where a type annotation is annotated in a class.
diff --git a/src/code.rs b/src/code.rs
index 67e4c31..7509b87 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,6 +1,7 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
+#[cfg(not(kani))]
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -9,16 +10,21 @@ use std::sync::Arc;
 
 use crate::prelude::*;
 use crate::rw::write_len;
+#[cfg(kani)]
+use crate::verif_model::{BTreeMap, Entry, HashMap, IndexMap};
 use crate::{
     read_from, try_cp_read_idx, ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter,
     Error, ReadWrite,
 };
 
 mod convert;
+#[cfg(kani)]
+pub mod verif_hooks;
 // pub mod gen_stack_map;
 mod structure;
 
 use convert::*;
+#[cfg(not(kani))]
 use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 74f5921..1d5b456 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -1,3 +1,4 @@
+#[cfg(not(kani))]
 use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::io::Cursor;
@@ -13,6 +14,8 @@ use crate::prelude::LoadOrStore::*;
 use crate::prelude::MemberType::*;
 use crate::prelude::{FloatOperation as FOp, IntOperation as IOp, Label as Lbl, *};
 use crate::try_cp_read_idx;
+#[cfg(kani)]
+use crate::verif_model::HashMap;
 
 pub struct Conv;
 
diff --git a/src/code/structure.rs b/src/code/structure.rs
index 7441043..ebb698e 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -1,8 +1,11 @@
+#[cfg(not(kani))]
 use indexmap::map::IndexMap;
 use wtf_8::Wtf8Str;
 
 use crate::annotation::CodeTypeAnnotation;
 use crate::prelude::*;
+#[cfg(kani)]
+use crate::verif_model::IndexMap;
 
 /// Acts as a unique identifier to the code. Labels should be treated carefully because when labels become invalid (i.e. removed from the code array) it will become an error.
 #[derive(Debug, Eq, PartialOrd, PartialEq, Ord, Hash, Copy, Clone)]
diff --git a/src/code/verif_hooks.rs b/src/code/verif_hooks.rs
new file mode 100644
index 0000000..1578665
--- /dev/null
+++ b/src/code/verif_hooks.rs
@@ -0,0 +1,53 @@
+//! Verification only (`cfg(kani)`): gives contract harnesses access to the instruction
+//! decoder, the instruction encoder and the branch layout, which are private otherwise.
+use std::io::{Cursor, Read};
+
+use super::convert::Conv;
+use super::{Branch, Instruction};
+use crate::verif_model::HashMap;
+use crate::{ConstantPoolReader, ConstantPoolWriter, ReadWrite, Result};
+
+/// Decodes the instruction that the reader is at, which is at `pos` in the code array
+/// (a switch: without its padding).
+pub fn decode<C: ConstantPoolReader, R: Read>(
+    reader: &mut R,
+    cp: &mut C,
+    pos: i64,
+) -> Result<Instruction> {
+    let raw = crate::insn::Instruction::read_from(reader)?;
+    Conv::convert_direct_instruction(raw, cp, pos)
+}
+
+/// Encodes an instruction that is not a branch. Branches give no bytes and `true`.
+pub fn encode<C: ConstantPoolWriter>(insn: &Instruction, cp: &mut C) -> Result<(Vec<u8>, bool)> {
+    let mut jumps = Vec::new();
+    let mut buf = Vec::new();
+    let mut labels = HashMap::new();
+    let mut lines = Vec::new();
+    let cursor = Conv::write_insn(
+        Cursor::new(Vec::new()),
+        &mut jumps,
+        &mut buf,
+        &mut labels,
+        &mut lines,
+        insn,
+        cp,
+    )?;
+    Ok((cursor.into_inner(), !jumps.is_empty()))
+}
+
+/// The branch layout: `Err` is a switch with the size of its operands, `Ok` is a jump to an
+/// offset in a run with its wide size. Gives the sizes and the ends of the branches.
+pub fn layout(
+    runs: &[usize],
+    branches: &[std::result::Result<(usize, usize, usize), usize>],
+) -> (Vec<usize>, Vec<usize>) {
+    let branches: Vec<Branch> = branches
+        .iter()
+        .map(|b| match *b {
+            Ok((run, off, wide)) => Branch::Jump(run, off, wide),
+            Err(operands) => Branch::Switch(operands),
+        })
+        .collect();
+    super::layout(runs, &branches)
+}
diff --git a/src/cp.rs b/src/cp.rs
index 06ec42d..d182074 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -1,7 +1,9 @@
 //! This module contains structures representing a constant pool and its entries.
 
 use std::borrow::Cow;
+#[cfg(not(kani))]
 use std::collections::hash_map::Entry;
+#[cfg(not(kani))]
 use std::collections::HashMap;
 use std::hash::Hash;
 use std::sync::Arc;
@@ -12,6 +14,8 @@ use wtf_8::Wtf8Str;
 use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::rw::write_len;
 use crate::total_floats::{TotalF32, TotalF64};
+#[cfg(kani)]
+use crate::verif_model::{Entry, HashMap};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
 #[derive(Clone, Debug, Copy)]
diff --git a/src/lib.rs b/src/lib.rs
index a6497fd..7c66aa7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -46,6 +46,8 @@ pub mod rw;
 pub mod signature;
 pub mod total_floats;
 pub mod ty;
+#[cfg(kani)]
+pub mod verif_model;
 pub mod version;
 
 pub(crate) mod insn;
diff --git a/src/verif_model.rs b/src/verif_model.rs
new file mode 100644
index 0000000..a0a6f5e
--- /dev/null
+++ b/src/verif_model.rs
@@ -0,0 +1,250 @@
+//! Verification only (`cfg(kani)`): association lists that stand in for the hash, index and
+//! B-tree maps of the standard library and `indexmap`, whose internals a bounded model
+//! checker cannot explore. They assume the documented contracts of those maps.
+use std::borrow::Borrow;
+
+/// Stands in for `HashMap` and `IndexMap`: keys are unique and in insertion order.
+#[derive(Debug, Clone)]
+pub struct Map<K, V> {
+    items: Vec<(K, V)>,
+}
+
+pub type HashMap<K, V> = Map<K, V>;
+pub type IndexMap<K, V> = Map<K, V>;
+
+pub enum Entry<'a, K, V> {
+    Occupied(OccupiedEntry<'a, K, V>),
+    Vacant(VacantEntry<'a, K, V>),
+}
+
+pub struct OccupiedEntry<'a, K, V> {
+    map: &'a mut Map<K, V>,
+    at: usize,
+}
+
+pub struct VacantEntry<'a, K, V> {
+    map: &'a mut Map<K, V>,
+    key: K,
+}
+
+impl<'a, K, V> OccupiedEntry<'a, K, V> {
+    pub fn get(&self) -> &V {
+        &self.map.items[self.at].1
+    }
+    pub fn get_mut(&mut self) -> &mut V {
+        &mut self.map.items[self.at].1
+    }
+    pub fn insert(&mut self, v: V) -> V {
+        std::mem::replace(&mut self.map.items[self.at].1, v)
+    }
+    pub fn remove(self) -> V {
+        self.map.items.remove(self.at).1
+    }
+}
+
+impl<'a, K, V> VacantEntry<'a, K, V> {
+    pub fn insert(self, v: V) -> &'a mut V {
+        self.map.items.push((self.key, v));
+        let n = self.map.items.len() - 1;
+        &mut self.map.items[n].1
+    }
+}
+
+impl<'a, K, V> Entry<'a, K, V> {
+    pub fn or_insert(self, v: V) -> &'a mut V {
+        match self {
+            Entry::Occupied(e) => &mut e.map.items[e.at].1,
+            Entry::Vacant(e) => e.insert(v),
+        }
+    }
+    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
+        match self {
+            Entry::Occupied(e) => &mut e.map.items[e.at].1,
+            Entry::Vacant(e) => e.insert(f()),
+        }
+    }
+    pub fn or_default(self) -> &'a mut V
+    where
+        V: Default,
+    {
+        self.or_insert_with(V::default)
+    }
+}
+
+impl<K, V> Default for Map<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<K, V> Map<K, V> {
+    pub fn new() -> Self {
+        Map { items: Vec::new() }
+    }
+    pub fn with_capacity(_: usize) -> Self {
+        Self::new()
+    }
+    pub fn len(&self) -> usize {
+        self.items.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.items.is_empty()
+    }
+    pub fn iter(&self) -> std::iter::Map<std::slice::Iter<'_, (K, V)>, fn(&(K, V)) -> (&K, &V)> {
+        self.items.iter().map(|(k, v)| (k, v))
+    }
+    pub fn keys(&self) -> std::iter::Map<std::slice::Iter<'_, (K, V)>, fn(&(K, V)) -> &K> {
+        self.items.iter().map(|(k, _)| k)
+    }
+    pub fn values(&self) -> std::iter::Map<std::slice::Iter<'_, (K, V)>, fn(&(K, V)) -> &V> {
+        self.items.iter().map(|(_, v)| v)
+    }
+    pub fn into_values(self) -> std::iter::Map<std::vec::IntoIter<(K, V)>, fn((K, V)) -> V> {
+        self.items.into_iter().map(|(_, v)| v)
+    }
+    pub fn sort_keys(&mut self)
+    where
+        K: Ord,
+    {
+        // insertion sort: the lists are short.
+        for i in 1..self.items.len() {
+            let mut j = i;
+            while j > 0 && self.items[j].0 < self.items[j - 1].0 {
+                self.items.swap(j, j - 1);
+                j -= 1;
+            }
+        }
+    }
+}
+
+impl<K: Eq, V> Map<K, V> {
+    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
+    where
+        K: Borrow<Q>,
+    {
+        let mut i = 0;
+        while i < self.items.len() {
+            if self.items[i].0.borrow() == k {
+                return Some(i);
+            }
+            i += 1;
+        }
+        None
+    }
+    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        self.find(k).map(|i| &self.items[i].1)
+    }
+    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.find(k).is_some()
+    }
+    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
+        match self.find(&k) {
+            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
+            None => {
+                self.items.push((k, v));
+                None
+            }
+        }
+    }
+    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        self.find(k).map(|i| self.items.remove(i).1)
+    }
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
+        match self.find(&key) {
+            Some(at) => Entry::Occupied(OccupiedEntry { map: self, at }),
+            None => Entry::Vacant(VacantEntry { map: self, key }),
+        }
+    }
+}
+
+impl<K: Eq, V: PartialEq> PartialEq for Map<K, V> {
+    fn eq(&self, o: &Self) -> bool {
+        self.len() == o.len() && self.items.iter().all(|(k, v)| o.get(k) == Some(v))
+    }
+}
+
+impl<K: Eq, V: Eq> Eq for Map<K, V> {}
+
+impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for Map<K, V> {
+    type Output = V;
+    fn index(&self, k: &Q) -> &V {
+        self.get(k).expect("no entry found for key")
+    }
+}
+
+impl<K, V> IntoIterator for Map<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::vec::IntoIter<(K, V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.items.into_iter()
+    }
+}
+
+impl<'a, K, V> IntoIterator for &'a Map<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = std::iter::Map<std::slice::Iter<'a, (K, V)>, fn(&(K, V)) -> (&K, &V)>;
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
+
+impl<K: Eq, V> FromIterator<(K, V)> for Map<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+        let mut m = Map::new();
+        for (k, v) in iter {
+            m.insert(k, v);
+        }
+        m
+    }
+}
+
+impl<K: Eq, V> Extend<(K, V)> for Map<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
+        for (k, v) in iter {
+            self.insert(k, v);
+        }
+    }
+}
+
+/// Stands in for `BTreeMap`: visited in key order.
+#[derive(Debug, Clone)]
+pub struct BTreeMap<K, V>(Map<K, V>);
+
+impl<K: Ord, V> BTreeMap<K, V> {
+    pub fn new() -> Self {
+        BTreeMap(Map::new())
+    }
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
+        self.0.insert(k, v)
+    }
+    pub fn get(&self, k: &K) -> Option<&V> {
+        self.0.get(k)
+    }
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
+        self.0.entry(key)
+    }
+}
+
+impl<K: Ord, V> IntoIterator for BTreeMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = std::vec::IntoIter<(K, V)>;
+    fn into_iter(mut self) -> Self::IntoIter {
+        self.0.sort_keys();
+        self.0.into_iter()
+    }
+}
-- 
2.43.0


From 1c2c4b2426a6a761b519067621090330ae6d2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:30 +0000
Subject: [PATCH 26/26] fix: refuse an attribute of 4 GiB or more instead of
 writing its length truncated

---
 coffer_macros/src/derive.rs | 4 ++--
 src/clazz.rs                | 4 ++--
 src/rw.rs                   | 7 +++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9d6e4e6..efde3ee 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -169,7 +169,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                 let raw_attr = &variant.bindings()[0];
                 quote! {
                     u16::write_to(&#cp.insert_wtf8(#raw_attr.name.clone()), #writer)?;
-                    crate::write_to!(&(#raw_attr.inner.len() as u32), #writer)?;
+                    crate::rw::write_size(#raw_attr.inner.len(), #writer)?;
                     #writer.write_all(&#raw_attr.inner)?;
                 }
             } else {
@@ -200,7 +200,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                     let mut __inner_writer = ::std::io::Cursor::new(&mut #vec);
                     let mut #inner_writer = &mut __inner_writer;
                     #fields
-                    u32::write_to(&(#vec.len() as u32), #writer)?;
+                    crate::rw::write_size(#vec.len(), #writer)?;
                     #writer.write_all(&#vec)?;
                 }
             };
diff --git a/src/clazz.rs b/src/clazz.rs
index 82585b6..b17e2f1 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -4,7 +4,7 @@ use wtf_8::Wtf8Str;
 
 use crate::constants::JVM_MAGIC;
 use crate::prelude::*;
-use crate::rw::write_len;
+use crate::rw::{write_len, write_size};
 
 #[derive(Debug, Clone)]
 pub struct Class {
@@ -127,7 +127,7 @@ impl ReadWrite for Class {
                 &mut cp,
                 &mut attributes
             )?;
-            (bsms.len() as u32 + 2).write_to(&mut attributes)?;
+            write_size(bsms.len() + 2, &mut attributes)?;
             write_len(i, &mut attributes)?;
             attributes.write_all(&bsms)?;
         }
diff --git a/src/rw.rs b/src/rw.rs
index 431ef55..c4ff08a 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -433,6 +433,13 @@ pub(crate) fn write_len<W: Write>(len: usize, writer: &mut W) -> Result<()> {
         .write_to(writer)
 }
 
+/// Writes the number of bytes that follow, which must fit in a `u32`.
+pub(crate) fn write_size<W: Write>(len: usize, writer: &mut W) -> Result<()> {
+    u32::try_from(len)
+        .map_err(|_| Error::Invalid("length (4 GiB or more)", len.to_string().into()))?
+        .write_to(writer)
+}
+
 /// Reads exactly this many bytes.
 ///
 /// The length comes from the input, so space is only made as far as there is input to fill it.
-- 
2.43.0

