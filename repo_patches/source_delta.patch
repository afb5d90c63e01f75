From 8f3b55b57af09bd570a0aaf0dfad9e1c93f5c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:43 +0000
Subject: [PATCH 01/27] fix: reject append frames without locals instead of
 writing a same frame

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..9587860 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -718,7 +718,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 off.write_to(writer)?;
             }
             RawFrame::Chop(_, c) => return Err(Error::Invalid("Chop value", c.to_string().into())),
-            RawFrame::Append(off, locals) if locals.len() <= 3 => {
+            RawFrame::Append(off, locals) if (1..=3).contains(&locals.len()) => {
                 (locals.len() as u8 + 251).write_to(writer)?;
                 off.write_to(writer)?;
                 for local in locals {
@@ -726,7 +726,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 }
             }
             RawFrame::Append(_, _) => {
-                return Err(Error::Invalid("Append", "locals length > 3".into()))
+                return Err(Error::Invalid("Append", "locals length is not 1..=3".into()))
             }
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
-- 
2.43.0


From d007d685af134acea9eba2d1c36cfc015e267dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:48 +0000
Subject: [PATCH 02/27] fix: swap the verification type tags of long and double
 to match the JVM specification

---
 src/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index 9587860..357d468 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -613,8 +613,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From b69f0296be18724ba6451eec1cc16e38c02d874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:59 +0000
Subject: [PATCH 03/27] fix: write putstatic, not getstatic, for static field
 stores

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From d2042762ae7a49f0f080d85b716f89da92566947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:44 +0000
Subject: [PATCH 04/27] fix: write descriptors with unpaired surrogates without
 replacing them

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 2 +-
 src/rw.rs             | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..51a4959 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ffe9eea 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -252,7 +252,7 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into())
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..a5140ac 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From dfb1d4bbb5175c8c95073289022b99199b538521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:08 +0000
Subject: [PATCH 05/27] fix: write array creation instructions, and do not
 parse class names as descriptors when reading them

---
 src/code/convert.rs   | 81 +++++++++++++++++++++++++++++++++++++++----
 src/code/structure.rs |  2 ++
 2 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..3bd9f35 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -352,19 +352,42 @@ impl Conv {
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
             I::ANewArray(r) => NewArray(
-                try_cp_read!(
+                match try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )? {
+                    // only array classes are named by a descriptor
+                    OrDynamic::Static(c) if c.as_bytes().first() == Some(&b'[') => {
+                        OrDynamic::Static(parse_type(&c)?)
+                    }
+                    c => c.map_static(Type::Ref),
+                },
                 1,
             ),
+            I::MultiANewArray(_, 0) => {
+                return Err(Error::Invalid("MultiANewArray dimensions", "0".into()))
+            }
             I::MultiANewArray(r, dim) => NewArray(
-                try_cp_read!(
+                match try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )? {
+                    OrDynamic::Dynamic(d) => OrDynamic::Dynamic(d),
+                    OrDynamic::Static(c) => match (parse_type(&c)?, dim) {
+                        // same as `newarray` or `anewarray`, whose operand is the component type
+                        (Type::ArrayRef(1, ty), 1) => OrDynamic::Static(*ty),
+                        (Type::ArrayRef(n, ty), 1) => {
+                            OrDynamic::Static(Type::ArrayRef(n - 1, ty))
+                        }
+                        (ty @ Type::ArrayRef(_, _), _) => OrDynamic::Static(ty),
+                        (ty, _) => {
+                            return Err(Error::Invalid(
+                                "MultiANewArray type",
+                                ty.to_string().into(),
+                            ))
+                        }
+                    },
+                },
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -698,7 +721,51 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(_, 0) => {
+                return Err(Error::Invalid("array dimensions", "0".into()))
+            }
+            Instruction::NewArray(OrDynamic::Static(ref ty), 1) => {
+                let atype: u8 = match ty {
+                    Type::Boolean => 4,
+                    Type::Char => 5,
+                    Type::Float => 6,
+                    Type::Double => 7,
+                    Type::Byte => 8,
+                    Type::Short => 9,
+                    Type::Int => 10,
+                    Type::Long => 11,
+                    Type::Ref(_) | Type::ArrayRef(_, _) => 0,
+                    Type::Method { .. } => {
+                        return Err(Error::Invalid("array type", ty.to_string().into()))
+                    }
+                };
+                if atype == 0 {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    cp.insert_class(match ty {
+                        Type::Ref(c) => c.clone(),
+                        ty => Cow::Owned(ty.into()),
+                    })
+                    .write_to(&mut cursor)?;
+                } else {
+                    NEWARRAY.write_to(&mut cursor)?;
+                    atype.write_to(&mut cursor)?;
+                }
+            }
+            Instruction::NewArray(OrDynamic::Dynamic(ref d), 1) => {
+                ANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_dynamic(d.clone()).write_to(&mut cursor)?;
+            }
+            Instruction::NewArray(ref ty, dim) => {
+                if let OrDynamic::Static(ty) = ty {
+                    if !matches!(ty, Type::ArrayRef(_, _)) {
+                        return Err(Error::Invalid("array type", ty.to_string().into()));
+                    }
+                }
+                MULTIANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(Cow::Owned((&x).into())))
+                    .write_to(&mut cursor)?;
+                dim.write_to(&mut cursor)?;
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
diff --git a/src/code/structure.rs b/src/code/structure.rs
index ffe9eea..b920ca4 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -294,6 +294,8 @@ pub enum Instruction {
     Throw,
     CheckCast(OrDynamic<ClassType>),
     InstanceOf(OrDynamic<ClassType>),
+    /// Creates an array. With one dimension, the type is the component type of the array,
+    /// otherwise it is the type of the array itself.
     NewArray(OrDynamic<Type>, u8),
     Monitor(MonitorOperation),
     New(OrDynamic<Cow<'static, Wtf8Str>>),
-- 
2.43.0


From 05a21b547cf0ed9ad85b243faf74a4f66d2e6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:34 +0000
Subject: [PATCH 06/27] fix: choose the size of jumps by distance, and write
 far conditional jumps with their computed size

---
 src/code.rs | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 357d468..ef45d2c 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -319,7 +319,25 @@ impl ConstantPoolReadWrite for Code {
         let mut last_idx = 0;
         buf_iter = buf.iter();
         let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
+        macro_rules! is_near {
+            ($jump: expr, $label: expr) => {{
+                let (buf_idx, buf_off) = get_label!($label);
+                let target_off = if buf_idx != 0 {
+                    index_hints[buf_idx - 1]
+                } else {
+                    0
+                } + buf_off;
+                // the index of the opcode byte when everything is of its maximum size, so
+                // that this distance is not less than the actual distance.
+                let opcode_off = if $jump != 0 {
+                    index_hints[$jump - 1]
+                } else {
+                    0
+                } + buf[$jump].len();
+                i16::try_from(target_off as i64 - opcode_off as i64).is_ok()
+            }};
+        }
+        for (i, j) in jumps.iter().enumerate() {
             last_idx += buf_iter.next().unwrap().len();
             let actual_size = 1 + match *j {
                 Instruction::LookupSwitch { default: _, table } => {
@@ -348,26 +366,14 @@ impl ConstantPoolReadWrite for Code {
                     padding + 12 + offsets.len() * 4
                 }
                 Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if is_near!(i, target) {
                         2
                     } else {
                         4
                     }
                 }
                 Instruction::Jump(_, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if is_near!(i, target) {
                         2
                     } else {
                         7
@@ -405,7 +411,11 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if *size_of_jump_insn == 3 {
+                        // the size was chosen so that the offset fits
+                        let $off = i16::try_from($off).map_err(|_| {
+                            Error::Invalid("jump offset", $off.to_string().into())
+                        })?;
                         $non_wide
                     } else {
                         $wide
@@ -472,9 +482,11 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        // skip this instruction and the `goto_w`
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        // relative to the `goto_w`
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 816994359c2f871f58fdbc823de781977e80049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:53 +0000
Subject: [PATCH 07/27] fix: reject table switches without a valid upper bound
 instead of overflowing

---
 src/code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index ef45d2c..2510be5 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -452,7 +452,14 @@ impl ConstantPoolReadWrite for Code {
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    let high = i32::try_from(offsets.len())
+                        .ok()
+                        .and_then(|len| low.checked_add(len - 1))
+                        .filter(|high| high >= low)
+                        .ok_or_else(|| {
+                            Error::Invalid("table switch length", offsets.len().to_string().into())
+                        })?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
-- 
2.43.0


From 5117a38531f3a638c9de56d58fee268722fd583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:56 +0000
Subject: [PATCH 08/27] fix: reject table switches with reversed bounds, and do
 not overflow computing their length

---
 src/insn.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..ef958af 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if low > high {
+            return Err(crate::Error::Invalid(
+                "table switch bounds",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From 7f994c59877dec36143a183ec830a3f021b942d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:59 +0000
Subject: [PATCH 09/27] fix: read loads of dynamically computed constants

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3bd9f35..889697c 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -73,8 +73,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From b3a7068b90ac28491a4498ce324d9bb78c5b3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:11 +0000
Subject: [PATCH 10/27] fix: write the line numbers of the code

---
 src/code.rs         | 28 ++++++++++++++++++++++------
 src/code/convert.rs |  4 ++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 2510be5..53dfcf0 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -259,7 +259,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<(usize, usize, u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -509,6 +509,16 @@ impl ConstantPoolReadWrite for Code {
             catches: &'a Vec<Catch>,
         }
 
+        impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
+            fn offset(&self, buf_off: usize, inner_off: usize) -> u16 {
+                (if buf_off == 0 {
+                    0
+                } else {
+                    self.indices[buf_off - 1] as u16
+                }) + (inner_off as u16)
+            }
+        }
+
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
             #[inline]
             fn insert_raw(&mut self, value: RawConstantEntry) -> u16 {
@@ -522,11 +532,7 @@ impl ConstantPoolReadWrite for Code {
 
             fn label(&mut self, lbl: &Label) -> u16 {
                 let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                (if buf_off == 0 {
-                    0
-                } else {
-                    self.indices[buf_off - 1] as u16
-                }) + (inner_off as u16)
+                self.offset(buf_off, inner_off)
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -564,6 +570,16 @@ impl ConstantPoolReadWrite for Code {
         let mut extra_attrs = 0;
         let mut attributes_writer = Vec::new();
 
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let lines = line_numbers
+                .into_iter()
+                .map(|(buf_off, inner_off, line)| {
+                    LineNumber(labeler.offset(buf_off, inner_off), line)
+                })
+                .collect();
+            CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         for a in &self.attrs {
             match a {
                 CodeAttribute::VisibleTypeAnnotations(a) => {
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 889697c..1cfbc13 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -446,7 +446,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<(usize, usize, u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -868,7 +868,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push((buf.len(), cursor.position() as usize, ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From e589deef8792eddc6228ee007bc1987dd418090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:14 +0000
Subject: [PATCH 11/27] fix: keep every line number of an instruction, and
 reject line numbers outside of the code

---
 src/code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index 53dfcf0..389e2c5 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -157,7 +157,14 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx.get(&(off as u32)).ok_or_else(|| {
+                            Error::Invalid("line number start", off.to_string().into())
+                        })?;
+                        // the last element is the first instruction when inserted.
+                        to_insert
+                            .entry(idx)
+                            .or_default()
+                            .insert(0, LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
-- 
2.43.0


From 01356d7c14131a7f7798ab83ed6cecc4a0626476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:56 +0000
Subject: [PATCH 12/27] fix: report lengths that do not fit in their field
 instead of truncating them

---
 coffer_macros/src/derive.rs |  4 ++--
 src/annotation/mod.rs       |  4 ++--
 src/clazz.rs                |  8 ++++----
 src/code.rs                 |  8 ++++----
 src/dynamic.rs              |  2 +-
 src/helper.rs               | 12 ++++++++++++
 src/rw.rs                   |  2 +-
 7 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..cdeccc1 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -169,7 +169,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                 let raw_attr = &variant.bindings()[0];
                 quote! {
                     u16::write_to(&#cp.insert_wtf8(#raw_attr.name.clone()), #writer)?;
-                    crate::write_to!(&(#raw_attr.inner.len() as u32), #writer)?;
+                    crate::write_to!(&crate::helper::len32(#raw_attr.inner.len())?, #writer)?;
                     #writer.write_all(&#raw_attr.inner)?;
                 }
             } else {
@@ -200,7 +200,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                     let mut __inner_writer = ::std::io::Cursor::new(&mut #vec);
                     let mut #inner_writer = &mut __inner_writer;
                     #fields
-                    u32::write_to(&(#vec.len() as u32), #writer)?;
+                    u32::write_to(&crate::helper::len32(#vec.len())?, #writer)?;
                     #writer.write_all(&#vec)?;
                 }
             };
diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 51a4959..cc354f7 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                crate::helper::len16(v.len())?.write_to(writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,7 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
+        let size = crate::helper::len16(self.len())?;
         size.write_to(writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..1749bd6 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -88,19 +88,19 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        h::len16(self.interfaces.len())?.write_to(&mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        h::len16(self.fields.len())?.write_to(&mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        h::len16(self.methods.len())?.write_to(&mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        h::len16(self.attributes.len())?.write_to(&mut buf)?;
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
diff --git a/src/code.rs b/src/code.rs
index 389e2c5..173e1bf 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -550,7 +550,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        h::len16(self.catches.len())?.write_to(writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -643,7 +643,7 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        h::len16(self.attrs.len() + extra_attrs)?.write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -773,11 +773,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                h::len16(locals.len())?.write_to(writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                h::len16(stack.len())?.write_to(writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..dbe6046 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        h::len16(self.arguments.len())?.write_to(writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/helper.rs b/src/helper.rs
index 67a7814..5c2f24d 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -181,6 +181,18 @@ where
     }
 }
 
+/// Converts the length of a list to the `u16` which is written before it.
+pub(crate) fn len16(len: usize) -> crate::Result<u16> {
+    u16::try_from(len)
+        .map_err(|_| Error::Invalid("length", format!("{len} does not fit in a `u16`").into()))
+}
+
+/// Converts the length of an attribute to the `u32` which is written before it.
+pub(crate) fn len32(len: usize) -> crate::Result<u32> {
+    u32::try_from(len)
+        .map_err(|_| Error::Invalid("length", format!("{len} does not fit in a `u32`").into()))
+}
+
 pub type Vec8<H = Identity> = VecLen<H, u8>;
 pub type Vec16<H = Identity> = VecLen<H, u16>;
 pub type Vec32<H = Identity> = VecLen<H, u32>;
diff --git a/src/rw.rs b/src/rw.rs
index a5140ac..ce1304e 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        h::len16(string.len())?.write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From 91173682c20d5733171c5d07e0a7ddd5edabe501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:17 +0000
Subject: [PATCH 13/27] fix: report unknown labels, reversed ranges and too
 long code instead of panicking or truncating offsets

---
 src/annotation/type_annotation.rs |  6 +++++-
 src/code.rs                       | 32 ++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..bb419f3 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -74,7 +74,11 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        end.checked_sub(start)
+            .ok_or_else(|| {
+                crate::Error::Invalid("local variable target", "ends before it starts".into())
+            })?
+            .write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 173e1bf..42b9bc1 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -394,7 +394,9 @@ impl ConstantPoolReadWrite for Code {
             actual_indices.push(last_idx);
         }
         // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
+        let code_len = buf_iter.next().unwrap().len() + last_idx;
+        // offsets into the code are `u16`s
+        let code_len = u32::from(h::len16(code_len)?);
         code_len.write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
@@ -514,6 +516,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label which was referenced, but is not in the code.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> Labeler<'a, T> {
@@ -538,8 +542,12 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                self.offset(buf_off, inner_off)
+                if let Some(&(buf_off, inner_off)) = self.labels.get(lbl) {
+                    self.offset(buf_off, inner_off)
+                } else {
+                    self.missing = Some(*lbl);
+                    0
+                }
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -556,6 +564,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -599,9 +608,14 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        let start = labeler.label(&lc.start);
+                        let len = labeler
+                            .label(&lc.end)
+                            .checked_sub(start)
+                            .ok_or_else(|| {
+                                Error::Invalid("local variable", "ends before it starts".into())
+                            })?;
                         if let Some(ref desc) = lc.descriptor {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -611,8 +625,6 @@ impl ConstantPoolReadWrite for Code {
                             })
                         }
                         if let Some(ref sig) = lc.signature {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -643,6 +655,12 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if let Some(label) = labeler.missing {
+            return Err(Error::Invalid(
+                "referenced label",
+                label.0.to_string().into(),
+            ));
+        }
         h::len16(self.attrs.len() + extra_attrs)?.write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
-- 
2.43.0


From 04b0da6b2ce309915d296ef478fd1a92a1933631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 14/27] fix: report annotations of missing catches instead of
 leaving out their index

---
 src/code/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code/structure.rs b/src/code/structure.rs
index b920ca4..7f11d96 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -458,8 +458,8 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            // Writing nothing would shift everything that follows.
+            None => Err(Error::Invalid("catch", "not in the code".into())),
         }
     }
 }
-- 
2.43.0


From 21b525fc93ffb0c7dbd96d66cb3a21338d9cb356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:23 +0000
Subject: [PATCH 15/27] fix: do not overflow on local variables and constants
 at the end of their range

---
 src/code.rs | 4 ++--
 src/cp.rs   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 42b9bc1..a3ae9f0 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -170,7 +170,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -193,7 +193,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..e81c636 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -161,7 +161,8 @@ impl ReadWrite for MapCp {
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
             let idx = i;
-            i += entry.size();
+            // the last entry may be of two slots
+            i = i.saturating_add(entry.size());
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
-- 
2.43.0


From fb7a36d994cd260426f0f8d62910372e364e390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:25 +0000
Subject: [PATCH 16/27] fix: report too many constants instead of overflowing
 their indices

---
 src/cp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index e81c636..6e29e10 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -113,7 +113,9 @@ pub struct VecCp {
     entries: Vec<RawConstantEntry>,
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
-    len: u16,
+    ///
+    /// This is larger than `u16::MAX` if there are too many entries.
+    len: u32,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -207,7 +209,7 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        self.len.write_to(writer)?;
+        crate::helper::len16(self.len as usize)?.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
         }
@@ -220,8 +222,9 @@ impl ConstantPoolWriter for VecCp {
         match self.cache.entry(value.clone()) {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
-                let idx = self.len;
-                self.len += value.size();
+                // if this does not fit then it will be an error when writing the constant pool.
+                let idx = self.len as u16;
+                self.len += u32::from(value.size());
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From b1de2a445cbdfc77d94ccd8c2f9ba8ce057f9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:48 +0000
Subject: [PATCH 17/27] fix: reject references to bootstrap methods without
 bootstrap methods

---
 src/clazz.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 1749bd6..97494cb 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,15 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
+                // without the attribute there must be no references to bootstrap methods.
+                let mut bsms: &[BootstrapMethod] = &[];
                 for attr in &c.attributes {
                     if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
+                        bsms = b;
                         break;
                     }
                 }
+                cp.bootstrap_methods(bsms)?;
                 Ok(Class {
                     version,
                     access: c.access,
-- 
2.43.0


From 89644b9caad0137a6ac276424874a78be0c4f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 18/27] fix: count the written attributes, and keep the indices
 of bootstrap methods used by bootstrap methods

---
 src/clazz.rs | 38 ++++++++++++++++++++++----------------
 src/cp.rs    |  4 ++++
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 97494cb..57eb78a 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -103,33 +103,39 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        h::len16(self.attributes.len())?.write_to(&mut buf)?;
+        let mut num_attributes = 0;
+        let mut attributes = vec![];
+        let mut has_bsm = false;
         for a in &self.attributes {
             match a {
-                ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                ClassAttribute::BootstrapMethods(_) => has_bsm = true,
+                _ => {
+                    a.write_to(&mut cp, &mut attributes)?;
+                    num_attributes += 1;
+                }
             }
         }
-        if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
+        if has_bsm || !cp.bsm.is_empty() {
+            let mut i = 0;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+            // writing a bootstrap method may insert more of them.
+            while i < cp.bsm.len() {
+                let bsm = cp.bsm[i].clone();
+                bsm.write_to(&mut cp, &mut buf2)?;
+                i += 1;
             }
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
-                &mut buf
+                &mut attributes
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut buf)?;
-            i.write_to(&mut buf)?;
-            buf.write_all(&buf2)?;
+            h::len32(buf2.len() + 2)?.write_to(&mut attributes)?;
+            h::len16(i)?.write_to(&mut attributes)?;
+            attributes.write_all(&buf2)?;
+            num_attributes += 1;
         }
+        h::len16(num_attributes)?.write_to(&mut buf)?;
+        buf.write_all(&attributes)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
         Ok(())
diff --git a/src/cp.rs b/src/cp.rs
index 6e29e10..80ed7c1 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -233,6 +233,10 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
+        // if this does not fit then it will be an error when writing the bootstrap methods.
+        if let Some(idx) = self.bsm.iter().position(|b| *b == bsm) {
+            return idx as u16;
+        }
         let ret = self.bsm.len() as u16;
         self.bsm.push(bsm);
         ret
-- 
2.43.0


From 9e2c8df06fdb77a8817cf57b05d17cd98341893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:18 +0000
Subject: [PATCH 19/27] fix: keep local variables and annotation elements in
 the same order every time

---
 src/annotation/mod.rs | 5 ++++-
 src/code.rs           | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index cc354f7..8576164 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -241,7 +241,10 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     ) -> Result<(), Error> {
         let size = crate::helper::len16(self.len())?;
         size.write_to(writer)?;
-        for (k, e) in self {
+        // the order of a hash map is not the same every time.
+        let mut pairs: Vec<_> = self.iter().collect();
+        pairs.sort_by(|(a, _), (b, _)| a.as_bytes().cmp(b.as_bytes()));
+        for (k, e) in pairs {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
         }
diff --git a/src/code.rs b/src/code.rs
index a3ae9f0..e73ae25 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -146,9 +146,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
-- 
2.43.0


From 2d51ba1faeb2f2491427adf4e44a26f481d4320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:50 +0000
Subject: [PATCH 20/27] fix: reject surrogates without a continuation byte in
 WTF-8

---
 wtf8/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..fbc6f83 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1264,7 +1264,9 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
                         is_high_surrogate = true;
-                        next!();
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From 9aa6991ae715e3ee28e63038dc6a83e6baab1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 21/27] fix: do not create invalid characters from invalid
 surrogate pairs

---
 wtf8/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index fbc6f83..4e4d20b 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1032,7 +1032,10 @@ pub fn decode_surrogate(second_byte: u8, third_byte: u8) -> u16 {
 
 #[inline]
 pub fn decode_surrogate_pair(lead: u16, trail: u16) -> char {
+    assert!(matches!(lead, 0xD800..=0xDBFF), "not a lead surrogate");
+    assert!(matches!(trail, 0xDC00..=0xDFFF), "not a trail surrogate");
     let code_point = 0x10000 + ((((lead - 0xD800) as u32) << 10) | (trail - 0xDC00) as u32);
+    // SAFETY: A surrogate pair is always a scalar value of the supplementary planes.
     unsafe { char::from_u32_unchecked(code_point) }
 }
 
-- 
2.43.0


From bfcccf39bbe0405c0ede019bfd4b49007adce373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 22/27] fix: reject surrogate pairs with invalid continuation
 bytes in modified UTF-8

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From 5afbd99ed7f1c5ffdde24af5601532b82e8f0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 23/27] fix: write thrown type variables as type variables

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..4aa2ea2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From a5ecc601847ef0bcafb38546b2210fc972d0b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 24/27] fix: read every bound of type parameters

---
 src/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 4aa2ea2..3ece675 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -379,8 +379,8 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
         (chars.as_str(), None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while i.as_bytes().first() == Some(&b':') {
+        let (new_i, bound) = ref_type_sig(&i[1..])?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From ca434b3828829786d94b3c5326f3bea62b964fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 25/27] fix: reject arrays of more than 255 dimensions instead
 of overflowing

---
 src/signature.rs | 4 +++-
 src/ty.rs        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 3ece675..7b16c12 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,7 +177,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("array dimensions", i))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..435a486 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -115,7 +115,9 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        crate::error::Error::Invalid("array dimensions", "more than 255".into())
+                    })?;
                 }
                 let r = get_type(c)?;
                 Type::ArrayRef(dim, Box::new(r))
-- 
2.43.0


From e03813020d1e51797f096fd059f6e51d2270f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:41 +0000
Subject: [PATCH 26/27] fix: reject characters after descriptors and signatures
 instead of dropping them

---
 src/signature.rs |  5 ++++-
 src/ty.rs        | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 7b16c12..a31e6f4 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -477,7 +477,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("characters after signature", rest)),
+                    }
                 }
             }
         )*
diff --git a/src/ty.rs b/src/ty.rs
index 435a486..a48ffeb 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -133,6 +133,7 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
                             Some(Box::new(get_type(c)?))
@@ -149,7 +150,15 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let mut codepoints = s.codepoints();
+    let ty = get_type(&mut codepoints)?;
+    match codepoints.next() {
+        None => Ok(ty),
+        Some(_) => Err(crate::error::Error::Invalid(
+            "characters after type",
+            format!("{s:?}").into(),
+        )),
+    }
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From b62106da23a68b82129e7bbc1dea964c754d5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:58 +0000
Subject: [PATCH 27/27] fix: write the tag and the length of borrowed string
 constants

---
 src/cp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 80ed7c1..7b499bf 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -25,7 +25,9 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
+        let string = mod_utf8::string_to_modified_utf8(self.0);
+        crate::helper::len16(string.len())?.write_to(writer)?;
+        writer.write_all(&string)?;
         Ok(())
     }
 }
@@ -33,6 +35,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0

