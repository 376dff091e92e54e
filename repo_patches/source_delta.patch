From 3fe747182a8d32239e240a8ddce5f43a8466251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:33 +0000
Subject: [PATCH 01/27] fix: write putstatic, not getstatic, for static field
 stores

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From 9a89b7bd00449d7b1df48fdfb2886832c59000f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 02/27] fix: write array creation instructions and read their
 class names as names

---
 src/code/convert.rs | 65 ++++++++++++++++++++++++++++++++++++++++++---
 src/dynamic.rs      | 10 +++++++
 2 files changed, 72 insertions(+), 3 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..5e7706f 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -2,6 +2,8 @@ use std::collections::HashMap;
 use std::convert::TryFrom;
 use std::io::Cursor;
 
+use wtf_8::Wtf8Str;
+
 use super::Instruction;
 use super::Instruction::*;
 use crate::constants::insn::*;
@@ -29,6 +31,14 @@ impl Conv {
         fn push<C: Into<OrDynamic<Constant>>>(c: C) -> Instruction {
             Push(c.into())
         }
+        // The name in a class entry is a descriptor only if it names an array class.
+        fn class_type(name: Cow<'static, Wtf8Str>) -> Result<Type> {
+            if name.codepoints().next().map_or(false, |x| x == '[') {
+                parse_type(&name)
+            } else {
+                Ok(Type::Ref(name))
+            }
+        }
         Ok(match insn {
             I::AThrow => Throw,
             I::Nop => NoOp,
@@ -356,7 +366,7 @@ impl Conv {
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(class_type)?,
                 1,
             ),
             I::MultiANewArray(r, dim) => NewArray(
@@ -364,7 +374,16 @@ impl Conv {
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(|c| match (class_type(c)?, dim) {
+                    // One dimension is represented by the type of the components.
+                    (Type::ArrayRef(1, ty), 1) => Ok(*ty),
+                    (Type::ArrayRef(d, ty), 1) => Ok(Type::ArrayRef(d - 1, ty)),
+                    (Type::ArrayRef(d, ty), 2..) if d >= dim => Ok(Type::ArrayRef(d, ty)),
+                    (ty, dim) => Err(Error::Invalid(
+                        "MultiANewArray dimensions",
+                        format!("{dim} for type {ty}").into(),
+                    )),
+                })?,
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -698,7 +717,47 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(ref ty, 1) => match ty {
+                OrDynamic::Static(Type::Boolean) => cursor.write_all(&[NEWARRAY, 4])?,
+                OrDynamic::Static(Type::Char) => cursor.write_all(&[NEWARRAY, 5])?,
+                OrDynamic::Static(Type::Float) => cursor.write_all(&[NEWARRAY, 6])?,
+                OrDynamic::Static(Type::Double) => cursor.write_all(&[NEWARRAY, 7])?,
+                OrDynamic::Static(Type::Byte) => cursor.write_all(&[NEWARRAY, 8])?,
+                OrDynamic::Static(Type::Short) => cursor.write_all(&[NEWARRAY, 9])?,
+                OrDynamic::Static(Type::Int) => cursor.write_all(&[NEWARRAY, 10])?,
+                OrDynamic::Static(Type::Long) => cursor.write_all(&[NEWARRAY, 11])?,
+                OrDynamic::Static(Type::Method { .. }) => {
+                    return Err(Error::Invalid("NewArray type", "method descriptor".into()))
+                }
+                _ => {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    cp.insert_ordynamic(ty.clone(), |w, ty| {
+                        w.insert_class(match ty {
+                            Type::Ref(name) => name,
+                            ty => Cow::Owned((&ty).into()),
+                        })
+                    })
+                    .write_to(&mut cursor)?;
+                }
+            },
+            Instruction::NewArray(ref ty, dim) => {
+                // The class of a multianewarray is the array itself, so it must have at
+                // least as many dimensions as the instruction creates.
+                if let OrDynamic::Static(ty) = ty {
+                    if dim == 0 || !matches!(ty, Type::ArrayRef(d, _) if *d >= dim) {
+                        return Err(Error::Invalid(
+                            "NewArray dimensions",
+                            format!("{dim} for type {ty}").into(),
+                        ));
+                    }
+                } else if dim == 0 {
+                    return Err(Error::Invalid("NewArray dimensions", "0".into()));
+                }
+                MULTIANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_ordynamic(ty.clone(), |w, ty| w.insert_class(Cow::Owned((&ty).into())))
+                    .write_to(&mut cursor)?;
+                dim.write_to(&mut cursor)?;
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..a96a968 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -113,6 +113,16 @@ impl<T> OrDynamic<T> {
             Self::Static(t) => OrDynamic::Static(f(t)),
         }
     }
+
+    pub(crate) fn try_map_static<F, N>(self, f: F) -> Result<OrDynamic<N>>
+    where
+        F: FnOnce(T) -> Result<N>,
+    {
+        Ok(match self {
+            Self::Dynamic(d) => OrDynamic::Dynamic(d),
+            Self::Static(t) => OrDynamic::Static(f(t)?),
+        })
+    }
 }
 
 impl<T> From<Dynamic> for OrDynamic<T> {
-- 
2.43.0


From 15dfb4fd88dfc6b07c5c31b15851866469aa3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 03/27] fix: read dynamically computed constants loaded by ldc

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 5e7706f..af8d740 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -83,8 +83,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From 1d7e1fce38b850da0020b094eeaa9e087d5ac1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:20 +0000
Subject: [PATCH 04/27] fix: keep every line number of a code position and its
 order when reading

---
 src/code.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..73194d9 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -143,6 +143,8 @@ impl ConstantPoolReadWrite for Code {
         // Some attributes are instructions that will be inserted to the vector.
         // It should be sorted to avoid ending in the wrong positions.
         let mut to_insert: BTreeMap<usize, Vec<Instruction>> = BTreeMap::new();
+        // Line numbers follow the labels of their position.
+        let mut line_numbers: BTreeMap<usize, Vec<Instruction>> = BTreeMap::new();
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
@@ -157,7 +159,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx.get(&(off as u32)).ok_or_else(|| {
+                            Error::Invalid("line number index", off.to_string().into())
+                        })?;
+                        line_numbers.entry(idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -221,9 +226,10 @@ impl ConstantPoolReadWrite for Code {
                 local_vars.into_values().collect(),
             ));
         }
-        instructions.reserve(to_insert.len());
-        instructions.reserve(labeler.labels.len());
-        for (k, v) in labeler.labels {
+        // The order of the labels at one position should not depend on the hasher.
+        let mut labels: Vec<_> = labeler.labels.into_iter().collect();
+        labels.sort_by_key(|(_, v)| *v);
+        for (k, v) in labels {
             to_insert
                 .entry(
                     *pos2idx
@@ -233,15 +239,20 @@ impl ConstantPoolReadWrite for Code {
                 .or_default()
                 .push(Label(v));
         }
-        for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
-                instructions.insert(k, i)
-            }
+        for (k, mut v) in line_numbers {
+            to_insert.entry(k).or_default().append(&mut v);
+        }
+        let mut code = Vec::new();
+        let len = instructions.len();
+        let mut insns = instructions.into_iter();
+        for idx in 0..=len {
+            code.append(&mut to_insert.remove(&idx).unwrap_or_default());
+            code.extend(insns.next());
         }
         Ok(Code {
             max_stack,
             max_locals,
-            code: instructions,
+            code,
             catches,
             attrs,
         })
-- 
2.43.0


From 0373b2703f0ef64af378715a2c876a703faad9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:38 +0000
Subject: [PATCH 05/27] fix: refuse code lengths, ranges and switch bounds that
 do not fit instead of panicking

---
 src/code.rs | 16 ++++++++++------
 src/insn.rs | 11 ++++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 73194d9..1454b88 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -77,7 +77,11 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
+        let code_len = u32::read_from(reader)?;
+        if !(1..=65535).contains(&code_len) {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        let mut code = vec![0; code_len as usize];
         reader.read_exact(&mut code)?;
         let mut labeler = Labeler {
             inner: cp,
@@ -148,9 +152,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap (keeping their order) is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
@@ -168,7 +172,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -191,7 +195,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..7a2746c 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if low > high {
+            return Err(crate::Error::Invalid(
+                "tableswitch range",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From c5eee36e9e8e9d4b1974511e029a45b058521efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:10 +0000
Subject: [PATCH 06/27] fix: lay out long jumps by distance and encode them
 consistently

---
 src/code.rs | 165 ++++++++++++++++++++++++++--------------------------
 1 file changed, 82 insertions(+), 83 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 1454b88..37012c2 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -296,28 +296,9 @@ impl ConstantPoolReadWrite for Code {
             )?;
         }
         buf.push(cursor.into_inner());
-        let mut index_hints = Vec::new();
-        let mut last_max_index = 0usize;
-        let mut buf_iter = buf.iter();
-        // Get minimum/maximum starting index of the next buffer, that is: index_hints[n] is max of buf[n + 1] resulting index.
-        for j in &jumps {
-            let this_size_max = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => 11 + table.len() * 8,
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => 15 + offsets.len() * 4, // +3 alignment
-                Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
-                Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
-                // other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_max_index += this_size_max + buf_iter.next().unwrap().len();
-            index_hints.push(last_max_index);
-        }
         /*
-        determine the actual size by partially resolving the label through index_hints
+        determine the actual size by assuming that every jump is short, and making those wide
+        that cannot reach their target until all of them do.
             Optimize for possible non-wide jumps, and convert conditional jumps to make it wide-compatible:
             such as:
                 ifnull far_away
@@ -328,76 +309,84 @@ impl ConstantPoolReadWrite for Code {
                 cont:
                     ops
         */
+        let min_len = buf.iter().map(Vec::len).sum::<usize>() + jumps.len() * 3;
+        if min_len > 65535 {
+            return Err(Error::Invalid("code length", min_len.to_string().into()));
+        }
+        let mut wide_jumps = vec![false; jumps.len()];
         // Where the elements of `buf` end up.
         let mut actual_indices = Vec::new();
-        // the index at the opcode byte of the jump instruction.
-        let mut last_idx = 0;
-        buf_iter = buf.iter();
         let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
-            let actual_size = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => {
-                    // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
-                    // default target begins if there was no padding.
-
-                    // Calculate the modulus and find the padding.
-                    // 0 1 2 3 4
-                    // * * * * x -> * * * * x (0 -> 0)
-                    // * * * x   -> * * * p x (3 -> 1)
-                    // * * x     -> * * p p x (2 -> 2)
-                    // * x       -> * p p p x (1 -> 3)
-
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 8 + table.len() * 8
-                }
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => {
-                    // see comments above for finding the padding.
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 12 + offsets.len() * 4
-                }
-                Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        4
+        let code_len = loop {
+            // the index at the opcode byte of the jump instruction.
+            let mut last_idx = 0;
+            let mut buf_iter = buf.iter();
+            actual_indices.clear();
+            sizes_of_jump_insns.clear();
+            for (j, wide) in jumps.iter().zip(&wide_jumps) {
+                last_idx += buf_iter.next().unwrap().len();
+                let actual_size = 1 + match *j {
+                    Instruction::LookupSwitch { default: _, table } => {
+                        // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
+                        // default target begins if there was no padding.
+
+                        // Calculate the modulus and find the padding.
+                        // 0 1 2 3 4
+                        // * * * * x -> * * * * x (0 -> 0)
+                        // * * * x   -> * * * p x (3 -> 1)
+                        // * * x     -> * * p p x (2 -> 2)
+                        // * x       -> * p p p x (1 -> 3)
+
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 8 + table.len() * 8
                     }
-                }
-                Instruction::Jump(_, target) => {
+                    Instruction::TableSwitch {
+                        default: _,
+                        low: _,
+                        offsets,
+                    } => {
+                        // see comments above for finding the padding.
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 12 + offsets.len() * 4
+                    }
+                    Instruction::Jump(_, _) | Instruction::Jsr(_) if !wide => 2,
+                    Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
+                    Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
+                    // SAFETY: other variants are not inserted
+                    _ => unreachable!(),
+                };
+                last_idx += actual_size;
+                sizes_of_jump_insns.push(actual_size);
+                actual_indices.push(last_idx);
+            }
+            let mut all_reached = true;
+            for (i, j) in jumps.iter().enumerate() {
+                if let Instruction::Jsr(target) | Instruction::Jump(_, target) = j {
                     let (buf_idx, buf_off) = get_label!(target);
                     let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
+                        actual_indices[buf_idx - 1]
                     } else {
                         0
                     } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        7
+                    let off =
+                        target_off as i64 - (actual_indices[i] - sizes_of_jump_insns[i]) as i64;
+                    if !wide_jumps[i] && i16::try_from(off).is_err() {
+                        wide_jumps[i] = true;
+                        all_reached = false;
                     }
                 }
-                // SAFETY: other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_idx += actual_size;
-            sizes_of_jump_insns.push(actual_size);
-            actual_indices.push(last_idx);
+            }
+            if all_reached {
+                // The index of the second last `buf` element + length of last element.
+                break buf_iter.next().unwrap().len() + last_idx;
+            }
+        };
+        if !(1..=65535).contains(&code_len) {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
         }
-        // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
-        code_len.write_to(writer)?; // u4 code_length
+        (code_len as u32).write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
         writer.write_all(&buf_iter.next().unwrap())?;
@@ -420,7 +409,8 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if *size_of_jump_insn == 3 {
+                        let $off = $off as i16;
                         $non_wide
                     } else {
                         $wide
@@ -457,7 +447,16 @@ impl ConstantPoolReadWrite for Code {
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    let high = i32::try_from(*low as i64 + offsets.len() as i64 - 1);
+                    match high {
+                        Ok(high) if high >= *low => write_to!(&high, writer)?,
+                        _ => {
+                            return Err(Error::Invalid(
+                                "tableswitch range",
+                                format!("{} offsets from {low}", offsets.len()).into(),
+                            ))
+                        }
+                    }
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
@@ -487,9 +486,9 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 92d9ee73adf21977680fa531e9d7b9620cd3610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:14 +0000
Subject: [PATCH 07/27] fix: write the line numbers of a method body

---
 src/code.rs         | 20 +++++++++++++++++++-
 src/code/convert.rs |  4 ++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 37012c2..412b90c 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -274,7 +274,8 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        // Where the line numbers are in `buf`, in the order they appear.
+        let mut line_numbers: Vec<(usize, usize, u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -559,6 +560,23 @@ impl ConstantPoolReadWrite for Code {
         let mut extra_attrs = 0;
         let mut attributes_writer = Vec::new();
 
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let line_numbers = line_numbers
+                .into_iter()
+                .map(|(buf_off, inner_off, line)| {
+                    let off = if buf_off == 0 {
+                        0
+                    } else {
+                        actual_indices[buf_off - 1]
+                    } + inner_off;
+                    LineNumber(off as u16, line)
+                })
+                .collect();
+            CodeAttr::LineNumberTable(line_numbers)
+                .write_to(&mut labeler, &mut attributes_writer)?;
+        }
+
         for a in &self.attrs {
             match a {
                 CodeAttribute::VisibleTypeAnnotations(a) => {
diff --git a/src/code/convert.rs b/src/code/convert.rs
index af8d740..75caa51 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -442,7 +442,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<(usize, usize, u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -860,7 +860,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push((buf.len(), cursor.position() as usize, ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From 73afed8f1817a7eb71391d77f807fe273bb71063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:59 +0000
Subject: [PATCH 08/27] fix: refuse missing labels, missing catches and
 reversed ranges instead of panicking

---
 src/annotation/type_annotation.rs | 10 ++++++----
 src/code.rs                       | 30 +++++++++++++++++++-----------
 src/code/structure.rs             |  8 +++++---
 src/rw.rs                         |  2 +-
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..7aa44cc 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -6,7 +6,7 @@ use wtf_8::Wtf8Str;
 use super::super::Type;
 use super::AnnotationValue;
 use crate::code::{Catch, Label};
-use crate::{helper as h, ConstantPoolReadWrite, ReadWrite};
+use crate::{helper as h, ConstantPoolReadWrite, Error, ReadWrite};
 
 /// Represents where a type annotation is annotated in a class.
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
@@ -71,10 +71,12 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         cp: &mut C,
         writer: &mut W,
     ) -> crate::Result<()> {
-        let start = cp.label(&self.start);
-        let end = cp.label(&self.end);
+        let start = cp.label(&self.start)?;
+        let end = cp.label(&self.end)?;
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        end.checked_sub(start)
+            .ok_or_else(|| Error::Invalid("range", "ends before it starts".into()))?
+            .write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 412b90c..f475e34 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -516,13 +516,16 @@ impl ConstantPoolReadWrite for Code {
                 self.writer.insert_bsm(bsm)
             }
 
-            fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
-                (if buf_off == 0 {
+            fn label(&mut self, lbl: &Label) -> Result<u16> {
+                let (buf_off, inner_off) = *self
+                    .labels
+                    .get(lbl)
+                    .ok_or_else(|| Error::Invalid("referenced label", lbl.0.to_string().into()))?;
+                Ok((if buf_off == 0 {
                     0
                 } else {
                     self.indices[buf_off - 1] as u16
-                }) + (inner_off as u16)
+                }) + (inner_off as u16))
             }
 
             fn catch(&mut self, catch: &Catch) -> Option<u16> {
@@ -547,9 +550,9 @@ impl ConstantPoolReadWrite for Code {
             catch,
         } in &self.catches
         {
-            labeler.label(start).write_to(writer)?;
-            labeler.label(end).write_to(writer)?;
-            labeler.label(handler).write_to(writer)?;
+            labeler.label(start)?.write_to(writer)?;
+            labeler.label(end)?.write_to(writer)?;
+            labeler.label(handler)?.write_to(writer)?;
             if let Some(s) = catch {
                 labeler.insert_class(s.clone())
             } else {
@@ -557,6 +560,11 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(writer)?;
         }
+        fn range_len(start: u16, end: u16) -> Result<u16> {
+            end.checked_sub(start)
+                .ok_or_else(|| Error::Invalid("range", "ends before it starts".into()))
+        }
+
         let mut extra_attrs = 0;
         let mut attributes_writer = Vec::new();
 
@@ -590,8 +598,8 @@ impl ConstantPoolReadWrite for Code {
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let start = labeler.label(&lc.start)?;
+                            let len = range_len(start, labeler.label(&lc.end)?)?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -601,8 +609,8 @@ impl ConstantPoolReadWrite for Code {
                             })
                         }
                         if let Some(ref sig) = lc.signature {
-                            let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let start = labeler.label(&lc.start)?;
+                            let len = range_len(start, labeler.label(&lc.end)?)?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..705d6e0 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -20,7 +20,7 @@ impl ConstantPoolReadWrite for Label {
         cp: &mut C,
         writer: &mut W,
     ) -> crate::Result<()> {
-        ReadWrite::write_to(&cp.label(self), writer)
+        ReadWrite::write_to(&cp.label(self)?, writer)
     }
 }
 
@@ -456,8 +456,10 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid(
+                "referenced catch",
+                format!("{self:?} (the block was probably removed)").into(),
+            )),
         }
     }
 }
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..3e4a705 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -157,7 +157,7 @@ pub trait ConstantPoolWriter {
     /// This does not need to be implemented because it is used internally,
     /// however a wrapper type should always delagate this function to their inner impl.
     #[inline]
-    fn label(&mut self, _lbl: &Label) -> u16 {
+    fn label(&mut self, _lbl: &Label) -> Result<u16> {
         unreachable!();
     }
 
-- 
2.43.0


From d3c86a3fecd6e90ccaae028c8df782bfdc7a41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:49 +0000
Subject: [PATCH 09/27] fix: refuse element counts and strings that do not fit
 their length fields

---
 src/annotation/mod.rs | 4 ++--
 src/clazz.rs          | 7 ++++---
 src/code.rs           | 9 +++++----
 src/dynamic.rs        | 3 ++-
 src/helper.rs         | 6 ++++++
 src/rw.rs             | 2 +-
 6 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..a5cdccb 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                h::len16(v.len())?.write_to(writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,7 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
+        let size = h::len16(self.len())?;
         size.write_to(writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..caaf951 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -3,6 +3,7 @@ use std::borrow::Cow;
 use wtf_8::Wtf8Str;
 
 use crate::constants::JVM_MAGIC;
+use crate::helper::len16;
 use crate::prelude::*;
 
 #[derive(Debug, Clone)]
@@ -88,15 +89,15 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        len16(self.interfaces.len())?.write_to(&mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        len16(self.fields.len())?.write_to(&mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        len16(self.methods.len())?.write_to(&mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
diff --git a/src/code.rs b/src/code.rs
index f475e34..2e11dab 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -7,6 +7,7 @@ use std::hash::Hash;
 use std::io::{Cursor, Read, Write};
 use std::sync::Arc;
 
+use crate::helper::len16;
 use crate::prelude::*;
 use crate::{
     read_from, try_cp_read_idx, ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter,
@@ -536,7 +537,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        len16(self.catches.len())?.write_to(writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -641,7 +642,7 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        len16(self.attrs.len() + extra_attrs)?.write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -771,11 +772,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                len16(locals.len())?.write_to(writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                len16(stack.len())?.write_to(writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index a96a968..d55c4f8 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -4,6 +4,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
+use crate::helper::len16;
 use crate::prelude::*;
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -37,7 +38,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        len16(self.arguments.len())?.write_to(writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/helper.rs b/src/helper.rs
index 67a7814..380a803 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -24,6 +24,12 @@ pub trait ReadWriteAs<T> {
     fn write_to<W: Write>(x: &T, writer: &mut W) -> crate::Result<()>;
 }
 
+/// Converts the number of elements to what is written before them.
+pub(crate) fn len16(len: usize) -> crate::Result<u16> {
+    u16::try_from(len)
+        .map_err(|_| Error::Invalid("length", format!("{len} does not fit in a `u16`").into()))
+}
+
 pub struct Normal;
 
 impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal {
diff --git a/src/rw.rs b/src/rw.rs
index 3e4a705..ef7bb8e 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        crate::helper::len16(string.len())?.write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From fe3a314730fa9d256475cb4d513eba5b0ad879e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:53 +0000
Subject: [PATCH 10/27] fix: refuse constant pools that are too large instead
 of overflowing

---
 src/cp.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..4e03c41 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -114,6 +114,8 @@ pub struct VecCp {
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
     len: u16,
+    /// Whether something was inserted that did not fit, which makes the pool unwritable.
+    overflow: bool,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -124,6 +126,7 @@ impl VecCp {
             entries: vec![],
             cache: HashMap::new(),
             len: 1,
+            overflow: false,
             bsm: vec![],
         }
     }
@@ -161,7 +164,16 @@ impl ReadWrite for MapCp {
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
             let idx = i;
-            i += entry.size();
+            // a double-sized entry must not extend beyond the end of the pool.
+            i = match i.checked_add(entry.size()) {
+                Some(next) if next <= count => next,
+                _ => {
+                    return Err(Error::Invalid(
+                        "constant pool entry index",
+                        idx.to_string().into(),
+                    ))
+                }
+            };
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
@@ -206,6 +218,9 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
+        if self.overflow {
+            return Err(Error::Invalid("constant pool", "too many entries".into()));
+        }
         self.len.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
@@ -220,7 +235,13 @@ impl ConstantPoolWriter for VecCp {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
                 let idx = self.len;
-                self.len += value.size();
+                match self.len.checked_add(value.size()) {
+                    Some(len) => self.len = len,
+                    None => {
+                        self.overflow = true;
+                        return 0;
+                    }
+                }
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From ec28a4017f053b7efdeafc8851e8617306a3f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:48 +0000
Subject: [PATCH 11/27] fix: write every bootstrap method once and count its
 attribute

---
 src/clazz.rs | 36 ++++++++++++++++++++++--------------
 src/cp.rs    | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index caaf951..2470a48 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -70,14 +70,16 @@ impl ReadWrite for Class {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        let mut bsm = vec![];
+        let mut cp = VecCp::new();
+        let mut has_bsm_attr = false;
         for a in &self.attributes {
             if let ClassAttribute::BootstrapMethods(b) = a {
-                bsm.extend_from_slice(b);
+                has_bsm_attr = true;
+                for bsm in b {
+                    cp.push_bsm(bsm.clone());
+                }
             }
         }
-        let mut cp = VecCp::new();
-        cp.bsm = bsm;
 
         JVM_MAGIC.write_to(writer)?;
         self.version.write_to(writer)?;
@@ -101,23 +103,29 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut attr_count = 0;
+        let mut attr_buf = vec![];
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                _ => {
+                    attr_count += 1;
+                    a.write_to(&mut cp, &mut attr_buf)?
+                }
             }
         }
-        if !cp.bsm.is_empty() {
+        if has_bsm_attr || !cp.bsm.is_empty() {
+            attr_count += 1;
+        }
+        len16(attr_count)?.write_to(&mut buf)?;
+        buf.append(&mut attr_buf);
+        if has_bsm_attr || !cp.bsm.is_empty() {
             let mut i: u16 = 0;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+            // Arguments of bootstrap methods can add further bootstrap methods.
+            while let Some(bsm) = cp.bsm.get(i as usize).cloned() {
+                bsm.write_to(&mut cp, &mut buf2)?;
+                i += 1;
             }
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
diff --git a/src/cp.rs b/src/cp.rs
index 4e03c41..e59989f 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -117,6 +117,7 @@ pub struct VecCp {
     /// Whether something was inserted that did not fit, which makes the pool unwritable.
     overflow: bool,
     pub(crate) bsm: Vec<BootstrapMethod>,
+    bsm_cache: HashMap<BootstrapMethod, u16>,
 }
 impl VecCp {
     /// Creates an empty constant pool.
@@ -128,10 +129,27 @@ impl VecCp {
             len: 1,
             overflow: false,
             bsm: vec![],
+            bsm_cache: HashMap::new(),
         }
     }
 }
 
+impl VecCp {
+    /// Adds a bootstrap method after the existing ones, even if it is one of them.
+    pub(crate) fn push_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
+        let idx = match u16::try_from(self.bsm.len()) {
+            Ok(idx) if idx != u16::MAX => idx,
+            _ => {
+                self.overflow = true;
+                return 0;
+            }
+        };
+        self.bsm.push(bsm.clone());
+        self.bsm_cache.entry(bsm).or_insert(idx);
+        idx
+    }
+}
+
 impl Default for VecCp {
     fn default() -> Self {
         Self::new()
@@ -250,8 +268,9 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        if let Some(idx) = self.bsm_cache.get(&bsm) {
+            return *idx;
+        }
+        self.push_bsm(bsm)
     }
 }
-- 
2.43.0


From ceda546f95836a2ee41494c57956ae9e522cc1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 12/27] fix: refuse missing, cyclic and exploding bootstrap
 methods when reading a class

---
 src/clazz.rs | 16 ++++++---
 src/code.rs  |  4 +++
 src/cp.rs    | 94 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 src/rw.rs    | 17 ++++++----
 4 files changed, 117 insertions(+), 14 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 2470a48..145753b 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -48,11 +48,17 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
+                let mut bsms = c.attributes.iter().filter_map(|attr| match attr {
+                    ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                    _ => None,
+                });
+                // Without the attribute there must not be any reference to one either.
+                cp.bootstrap_methods(bsms.next().unwrap_or(&[]))?;
+                if bsms.next().is_some() {
+                    return Err(Error::Invalid(
+                        "attribute",
+                        "more than one BootstrapMethods".into(),
+                    ));
                 }
                 Ok(Class {
                     version,
diff --git a/src/code.rs b/src/code.rs
index 2e11dab..7eccc89 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -57,6 +57,10 @@ impl ConstantPoolReadWrite for Code {
                 self.inner.resolve_later(bsm_idx, bsm)
             }
 
+            fn bootstrap_method(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+                self.inner.bootstrap_method(bsm_idx)
+            }
+
             fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
                 self.inner.bootstrap_methods(bsms)
             }
diff --git a/src/cp.rs b/src/cp.rs
index e59989f..8e641fd 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -167,6 +167,85 @@ impl MapCp {
     }
 }
 
+/// How deep dynamically computed constants may be nested in the arguments of bootstrap methods.
+const MAX_BSM_DEPTH: usize = 128;
+
+/// How many arguments there may be in total when following all references to bootstrap methods.
+const MAX_BSM_ARGUMENTS: usize = 1 << 24;
+
+impl MapCp {
+    /// Checks that no bootstrap method depends on itself, and that replacing the references by
+    /// the bootstrap methods results in a reasonable structure.
+    fn check_bootstrap_methods(&self, bsms: &[BootstrapMethod]) -> Result<()> {
+        struct Check<'a> {
+            bsms: &'a [BootstrapMethod],
+            /// The index that is referred to by a dynamic.
+            indices: HashMap<*const OnceCell<BootstrapMethod>, usize>,
+            /// Depth and the number of arguments, including those of nested dynamics.
+            known: Vec<Option<(usize, usize)>>,
+        }
+        impl<'a> Check<'a> {
+            fn visit(&mut self, idx: usize, parents: usize) -> Result<(usize, usize)> {
+                let bsm = match self.bsms.get(idx) {
+                    Some(bsm) => bsm,
+                    None => return Ok((0, 0)), // reported by the caller
+                };
+                if let Some(known) = self.known[idx] {
+                    return Ok(known);
+                }
+                let mut depth = 0;
+                let mut arguments = bsm.arguments.len();
+                for arg in &bsm.arguments {
+                    if let OrDynamic::Dynamic(d) = arg {
+                        if let Some(&nested) = self.indices.get(&Arc::as_ptr(&d.bsm)) {
+                            if parents >= MAX_BSM_DEPTH {
+                                return Err(too_complex(idx));
+                            }
+                            let (d, n) = self.visit(nested, parents + 1)?;
+                            depth = depth.max(d + 1);
+                            arguments = arguments.saturating_add(n);
+                        }
+                    }
+                }
+                if depth > MAX_BSM_DEPTH {
+                    return Err(too_complex(idx));
+                }
+                self.known[idx] = Some((depth, arguments));
+                Ok((depth, arguments))
+            }
+        }
+        fn too_complex(idx: usize) -> Error {
+            Error::Invalid(
+                "bootstrap method (refers to itself or is too complex)",
+                idx.to_string().into(),
+            )
+        }
+
+        let mut check = Check {
+            bsms,
+            indices: HashMap::new(),
+            known: vec![None; bsms.len()],
+        };
+        for (idx, refs) in &self.refs {
+            for r in refs {
+                check.indices.insert(Arc::as_ptr(r), *idx as usize);
+            }
+        }
+        let mut total = 0usize;
+        for idx in 0..bsms.len() {
+            let (_, arguments) = check.visit(idx, 0)?;
+            let references = self.refs.get(&(idx as u16)).map_or(0, |refs| {
+                refs.iter().map(|r| Arc::strong_count(r) - 1).sum()
+            });
+            total = total.saturating_add(arguments.saturating_mul(references));
+            if total > MAX_BSM_ARGUMENTS {
+                return Err(too_complex(idx));
+            }
+        }
+        Ok(())
+    }
+}
+
 impl Default for MapCp {
     #[inline]
     fn default() -> Self {
@@ -211,7 +290,16 @@ impl ConstantPoolReader for MapCp {
         self.refs.entry(bsm_idx).or_default().push(bsm);
     }
 
+    fn bootstrap_method(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+        let refs = self.refs.entry(bsm_idx).or_default();
+        if refs.is_empty() {
+            refs.push(Arc::default());
+        }
+        refs[0].clone()
+    }
+
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        self.check_bootstrap_methods(bsms)?;
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
@@ -219,10 +307,10 @@ impl ConstantPoolReader for MapCp {
                 }
             }
         }
-        if let Some((_, v)) = self.refs.iter().find(|(_, v)| !v.is_empty()) {
+        if let Some(idx) = self.refs.keys().min() {
             Err(Error::Invalid(
                 "reference(s) to bootstrap method",
-                Cow::from(format!("{:?}", v)),
+                idx.to_string().into(),
             ))
         } else {
             Ok(())
diff --git a/src/rw.rs b/src/rw.rs
index ef7bb8e..161b0da 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -276,11 +276,9 @@ pub trait ConstantPoolReader {
     fn read_invokedynamic(&mut self, idx: u16) -> Option<Dynamic> {
         match self.read_raw(idx) {
             Some(RawConstantEntry::InvokeDynamic(s, a)) => {
-                let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
-                self.resolve_later(s, cell.clone());
                 Some(Dynamic {
-                    bsm: cell,
+                    bsm: self.bootstrap_method(s),
                     name,
                     descriptor,
                 })
@@ -291,11 +289,9 @@ pub trait ConstantPoolReader {
     fn read_dynamic(&mut self, idx: u16) -> Option<Dynamic> {
         match self.read_raw(idx) {
             Some(RawConstantEntry::Dynamic(s, a)) => {
-                let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
-                self.resolve_later(s, cell.clone());
                 Some(Dynamic {
-                    bsm: cell,
+                    bsm: self.bootstrap_method(s),
                     name,
                     descriptor,
                 })
@@ -343,6 +339,15 @@ pub trait ConstantPoolReader {
     /// Registers a bootstrap method to be resolved.
     fn resolve_later(&mut self, bsm_idx: u16, bsm: Arc<OnceCell<BootstrapMethod>>);
 
+    /// Gets a bootstrap method that is going to be resolved later.
+    ///
+    /// References to the same bootstrap method can share it.
+    fn bootstrap_method(&mut self, bsm_idx: u16) -> Arc<OnceCell<BootstrapMethod>> {
+        let cell = Arc::new(OnceCell::default());
+        self.resolve_later(bsm_idx, cell.clone());
+        cell
+    }
+
     /// Attempts to complete resolution of bootstrap methods by providing a list of bootstrap methods.
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()>;
     // Implementations from Code
-- 
2.43.0


From 6460291811ae3a936c164f0e137b304ebf90b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:50 +0000
Subject: [PATCH 13/27] fix: allocate memory for data that was read, not for
 announced lengths

---
 coffer_macros/src/derive.rs |  6 ++----
 src/annotation/mod.rs       |  4 ++--
 src/code.rs                 |  8 ++++----
 src/dynamic.rs              |  2 +-
 src/helper.rs               | 10 ++++++++++
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..a3f3f2b 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::helper::read_bytes(#reader, len)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::helper::read_bytes(#reader, byte_size)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index a5cdccb..56896d0 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -123,7 +123,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
                     values.push(AnnotationValue::read_from(cp, reader)?)
                 }
@@ -225,7 +225,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         reader: &mut R,
     ) -> Result<Self, Error> {
         let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
+        let mut element_values = HashMap::new();
         for _ in 0..pairs {
             let name = read_from!(cp, reader)?;
             let value = AnnotationValue::read_from(cp, reader)?;
diff --git a/src/code.rs b/src/code.rs
index 7eccc89..85cdd2c 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -123,7 +123,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read try-catch blocks.
         let exceptions = u16::read_from(reader)?;
-        let mut catches = Vec::with_capacity(exceptions as usize);
+        let mut catches = Vec::new();
         for _ in 0..exceptions {
             let start = read_from!(&mut labeler, reader)?;
             let end = read_from!(&mut labeler, reader)?;
@@ -147,7 +147,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read Attributes
         let numattrs = u16::read_from(reader)?;
-        let mut attrs = Vec::with_capacity(numattrs as usize);
+        let mut attrs = Vec::new();
 
         // Some attributes are instructions that will be inserted to the vector.
         // It should be sorted to avoid ending in the wrong positions.
@@ -720,7 +720,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 u16::read_from(reader)?,
                 {
                     let locals = u16::read_from(reader)?;
-                    let mut local = Vec::with_capacity(locals as usize);
+                    let mut local = Vec::new();
                     for _ in 0..locals {
                         local.push(VerificationType::read_from(cp, reader)?);
                     }
@@ -728,7 +728,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 },
                 {
                     let stacks = u16::read_from(reader)?;
-                    let mut stack = Vec::with_capacity(stacks as usize);
+                    let mut stack = Vec::new();
                     for _ in 0..stacks {
                         stack.push(VerificationType::read_from(cp, reader)?);
                     }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index d55c4f8..6f75b0f 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -20,7 +20,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<Self, Error> {
         let handle = try_cp_read!(cp, reader, read_method_handle)?;
         let num_arguments = u16::read_from(reader)?;
-        let mut arguments = Vec::with_capacity(num_arguments.into());
+        let mut arguments = Vec::new();
         for _ in 0..num_arguments {
             let idx = u16::read_from(reader)?;
             arguments.push(try_cp_read!(
diff --git a/src/helper.rs b/src/helper.rs
index 380a803..f8b87f4 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -30,6 +30,16 @@ pub(crate) fn len16(len: usize) -> crate::Result<u16> {
         .map_err(|_| Error::Invalid("length", format!("{len} does not fit in a `u16`").into()))
 }
 
+/// Reads a number of bytes, without allocating memory for bytes that do not exist.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> crate::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.by_ref().take(len as u64).read_to_end(&mut bytes)?;
+    if bytes.len() < len as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 pub struct Normal;
 
 impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal {
-- 
2.43.0


From 6e354b1c2297e434b2a64cd210a120261b021436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:10 +0000
Subject: [PATCH 14/27] fix: refuse malformed surrogates in modified UTF-8 and
 WTF-8

---
 src/mod_utf8.rs | 4 ++--
 wtf8/src/lib.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..fbc6f83 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1264,7 +1264,9 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
                         is_high_surrogate = true;
-                        next!();
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From f44c9382afdb7e5b30d627af67fa0b64df23b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:42 +0000
Subject: [PATCH 15/27] fix: print thrown type parameters as type variables

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..4aa2ea2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 64158de27e0a480a4d23dd4701582bc3f06d98f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:42 +0000
Subject: [PATCH 16/27] fix: parse interface bounds that follow a class bound

---
 src/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 4aa2ea2..d29f0b2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -379,8 +379,8 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
         (chars.as_str(), None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(':') = i.chars().next() {
+        let (new_i, bound) = ref_type_sig(&i[1..])?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From 7895d2c793c02334cb9db8b097901533a99baccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:57 +0000
Subject: [PATCH 17/27] fix: refuse signatures that are not valid in full
 instead of altering them

---
 src/signature.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index d29f0b2..d9e98ec 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,7 +177,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("array type signature", "too many dimensions"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
@@ -333,6 +335,9 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
             i = res.0;
             args.push(res.1);
         }
+        if args.is_empty() {
+            return Err(invalid("type arguments", "empty list"));
+        }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, args))
     } else {
@@ -367,6 +372,9 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
     let mut chars = i.chars();
+    if !i.contains(':') {
+        return Err(unexpected_end());
+    }
     let name = chars
         .by_ref()
         .take_while(|&x| x != ':')
@@ -404,6 +412,9 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
             i = res.0;
             params.push(res.1);
         }
+        if params.is_empty() {
+            return Err(invalid("type parameters", "empty list"));
+        }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, params))
     } else {
@@ -475,7 +486,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("signature", format!("unexpected {rest:?} at the end"))),
+                    }
                 }
             }
         )*
@@ -488,7 +502,8 @@ macro_rules! cprw_impls {
             impl ConstantPoolReadWrite for $ty {
                 fn read_from<C: crate::ConstantPoolReader, R: std::io::Read>(cp: &mut C, reader: &mut R) -> crate::Result<Self> {
                     let s = Cow::<'static, wtf_8::Wtf8Str>::read_from(cp, reader)?;
-                    FromStr::from_str(&s.to_string_lossy())
+                    let s = s.as_str().ok_or_else(|| invalid("signature", s.to_string_lossy()))?;
+                    FromStr::from_str(s)
                 }
 
                 fn write_to<C: crate::ConstantPoolWriter, W: std::io::Write>(&self, cp: &mut C, writer: &mut W) -> crate::Result<()> {
-- 
2.43.0


From 9bf7e58c8710b6306117a3cbe3a749c656e0ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:29 +0000
Subject: [PATCH 18/27] fix: refuse signatures nested too deeply instead of
 overflowing the stack

---
 src/signature.rs | 79 +++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 35 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index d9e98ec..06aebcf 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -147,13 +147,16 @@ pub(super) fn unexpected_end() -> crate::Error {
 
 use crate::ConstantPoolReadWrite;
 
+/// How deep type arguments may be nested in a signature that is parsed. This keeps data from exhausting the stack.
+const MAX_DEPTH: usize = 128;
+
 pub type IResult<'a, T> = crate::Result<(&'a str, T)>;
 
 fn invalid(s: &'static str, x: impl Into<String>) -> crate::Error {
     crate::Error::Invalid(s, x.into().into())
 }
 
-fn type_sig(i: &str) -> IResult<'_, TypeSignature> {
+fn type_sig(i: &str, depth: usize) -> IResult<'_, TypeSignature> {
     let o = match i.chars().next() {
         Some('B') => TypeSignature::Byte,
         Some('C') => TypeSignature::Char,
@@ -163,14 +166,16 @@ fn type_sig(i: &str) -> IResult<'_, TypeSignature> {
         Some('J') => TypeSignature::Long,
         Some('S') => TypeSignature::Short,
         Some('Z') => TypeSignature::Boolean,
-        Some('T' | 'L' | '[') => return ref_type_sig(i).map(|(i, r)| (i, TypeSignature::Ref(r))),
+        Some('T' | 'L' | '[') => {
+            return ref_type_sig(i, depth).map(|(i, r)| (i, TypeSignature::Ref(r)))
+        }
         Some(c) => return Err(invalid("character for type signature", c)),
         None => return Err(unexpected_end()),
     };
 
     Ok((&i[1..], o))
 }
-fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
+fn ref_type_sig(i: &str, depth: usize) -> IResult<'_, RefTypeSignature> {
     match i.chars().next() {
         Some('[') => {
             let mut dim: u8 = 0;
@@ -181,7 +186,7 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
                     .checked_add(1)
                     .ok_or_else(|| invalid("array type signature", "too many dimensions"))?;
             }
-            let (i, t) = type_sig(c.as_str())?;
+            let (i, t) = type_sig(c.as_str(), depth)?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
         }
         Some('T') => {
@@ -193,7 +198,7 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             ))
         }
         Some('L') => {
-            let (i, sig) = class_type_sig(i)?;
+            let (i, sig) = class_type_sig(i, depth)?;
             Ok((i, RefTypeSignature::ClassType(sig)))
         }
         Some(c) => Err(invalid("character for reference type signature", c)),
@@ -212,11 +217,11 @@ fn char<const C: char>(i: &str) -> IResult<'_, ()> {
     }
 }
 
-fn throws(i: &str) -> IResult<'_, Throws> {
+fn throws(i: &str, depth: usize) -> IResult<'_, Throws> {
     let (i, ()) = char::<'^'>(i)?;
     match i.chars().next() {
         Some('L') => {
-            let (i, sig) = class_type_sig(i)?;
+            let (i, sig) = class_type_sig(i, depth)?;
             Ok((i, Throws::Class(sig)))
         }
         Some('T') => {
@@ -233,14 +238,14 @@ fn throws(i: &str) -> IResult<'_, Throws> {
 // L [PackageSpecifier] SimpleClassTypeSignature {ClassTypeSignatureSuffix} ;
 // ClassTypeSignatureSuffix:
 // . SimpleClassTypeSignature
-fn class_type_sig(i: &str) -> IResult<'_, ClassTypeSignature> {
+fn class_type_sig(i: &str, depth: usize) -> IResult<'_, ClassTypeSignature> {
     let (i, ()) = char::<'L'>(i)?;
     let (i, package) = packages(i)?;
-    let (mut i, name) = simple_type_sig(i)?;
+    let (mut i, name) = simple_type_sig(i, depth)?;
     let mut suffix = vec![];
     while i.as_bytes().first() == Some(&b'.') {
         // Safe way to do this because the nom macros looks confusing
-        let res = simple_type_sig(&i[1..])?; // Skip the dot here
+        let res = simple_type_sig(&i[1..], depth)?; // Skip the dot here
         i = res.0;
         suffix.push(res.1);
     }
@@ -299,21 +304,21 @@ fn packages(i: &str) -> IResult<'_, Vec<Cow<'static, str>>> {
 // WildcardIndicator:
 // +
 // -
-fn type_arg(i: &str) -> IResult<'_, TypeArgument> {
+fn type_arg(i: &str, depth: usize) -> IResult<'_, TypeArgument> {
     let mut chars = i.chars();
     Ok(match chars.next() {
         Some('*') => (chars.as_str(), TypeArgument::Any),
         Some('-') => {
-            let (i, o) = ref_type_sig(chars.as_str())?;
+            let (i, o) = ref_type_sig(chars.as_str(), depth)?;
             (i, TypeArgument::Super(o))
         }
         Some('+') => {
-            let (i, o) = ref_type_sig(chars.as_str())?;
+            let (i, o) = ref_type_sig(chars.as_str(), depth)?;
             (i, TypeArgument::Extends(o))
         }
         // Use the old `i` to parse the exact type.
         Some('T' | 'L' | '[') => {
-            let (i, o) = ref_type_sig(i)?;
+            let (i, o) = ref_type_sig(i, depth)?;
             (i, TypeArgument::Exact(o))
         }
         Some(c) => {
@@ -326,12 +331,16 @@ fn type_arg(i: &str) -> IResult<'_, TypeArgument> {
     })
 }
 
-fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
+fn type_args(mut i: &str, depth: usize) -> IResult<'_, Vec<TypeArgument>> {
     let mut args = vec![];
     if i.as_bytes().first() == Some(&b'<') {
+        // Type arguments are the only place where signatures nest.
+        if depth >= MAX_DEPTH {
+            return Err(invalid("type arguments", "nested too deeply"));
+        }
         i = &i[1..];
         while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
-            let res = type_arg(i)?;
+            let res = type_arg(i, depth + 1)?;
             i = res.0;
             args.push(res.1);
         }
@@ -345,7 +354,7 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
     }
 }
 
-fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
+fn simple_type_sig(i: &str, depth: usize) -> IResult<'_, SimpleClassTypeSignature> {
     fn type_var_start(c: char) -> bool {
         c == '<' || c == '.' || c == ';'
     }
@@ -359,7 +368,7 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
     {
         name.push(chars.next().unwrap());
     }
-    let (i, type_arguments) = type_args(chars.as_str())?;
+    let (i, type_arguments) = type_args(chars.as_str(), depth)?;
     Ok((
         i,
         SimpleClassTypeSignature {
@@ -369,7 +378,7 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
     ))
 }
 
-fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
+fn type_parameter(i: &str, depth: usize) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
     let mut chars = i.chars();
     if !i.contains(':') {
@@ -381,14 +390,14 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
         .collect::<String>()
         .into();
     let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
+        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str(), depth)?;
         (newi, Some(ref_ty_sig))
     } else {
         (chars.as_str(), None)
     };
     let mut interface_bounds = vec![];
     while let Some(':') = i.chars().next() {
-        let (new_i, bound) = ref_type_sig(&i[1..])?;
+        let (new_i, bound) = ref_type_sig(&i[1..], depth)?;
         interface_bounds.push(bound);
         i = new_i;
     }
@@ -403,12 +412,12 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     ))
 }
 
-fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
+fn type_parameters(mut i: &str, depth: usize) -> IResult<'_, Vec<TypeParameter>> {
     let mut params = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
         while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
-            let res = type_parameter(i)?;
+            let res = type_parameter(i, depth)?;
             i = res.0;
             params.push(res.1);
         }
@@ -422,30 +431,30 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
     }
 }
 
-fn ret(i: &str) -> IResult<'_, Option<TypeSignature>> {
+fn ret(i: &str, depth: usize) -> IResult<'_, Option<TypeSignature>> {
     Ok(if i.as_bytes().first() == Some(&b'V') {
         (&i[1..], None)
     } else {
-        type_sig(i).map(|(i, r)| (i, Some(r)))?
+        type_sig(i, depth).map(|(i, r)| (i, Some(r)))?
     })
 }
 
-fn method_sig(i: &str) -> IResult<'_, MethodSignature> {
-    let (i, type_parameters) = type_parameters(i)?;
+fn method_sig(i: &str, depth: usize) -> IResult<'_, MethodSignature> {
+    let (i, type_parameters) = type_parameters(i, depth)?;
     let (mut i, ()) = char::<'('>(i)?;
     let mut parameters = vec![];
     while let Some('B' | 'C' | 'D' | 'F' | 'I' | 'J' | 'S' | 'Z' | 'T' | 'L' | '[') =
         i.chars().next()
     {
-        let (new_i, param) = type_sig(i)?;
+        let (new_i, param) = type_sig(i, depth)?;
         i = new_i;
         parameters.push(param);
     }
     let (i, ()) = char::<')'>(i)?;
-    let (mut i, return_type) = ret(i)?;
+    let (mut i, return_type) = ret(i, depth)?;
     let mut t = vec![];
     while let Some('^') = i.chars().next() {
-        let (new_i, throw) = throws(i)?;
+        let (new_i, throw) = throws(i, depth)?;
         i = new_i;
         t.push(throw);
     }
@@ -460,12 +469,12 @@ fn method_sig(i: &str) -> IResult<'_, MethodSignature> {
     ))
 }
 
-fn class_sig(i: &str) -> IResult<'_, ClassSignature> {
-    let (i, type_parameters) = type_parameters(i)?;
-    let (mut i, super_class) = class_type_sig(i)?;
+fn class_sig(i: &str, depth: usize) -> IResult<'_, ClassSignature> {
+    let (i, type_parameters) = type_parameters(i, depth)?;
+    let (mut i, super_class) = class_type_sig(i, depth)?;
     let mut interfaces = vec![];
     while let Some('L') = i.chars().next() {
-        let (new_i, interface) = class_type_sig(i)?;
+        let (new_i, interface) = class_type_sig(i, depth)?;
         i = new_i;
         interfaces.push(interface);
     }
@@ -486,7 +495,7 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    match $fn(s)? {
+                    match $fn(s, 0)? {
                         ("", r) => Ok(r),
                         (rest, _) => Err(invalid("signature", format!("unexpected {rest:?} at the end"))),
                     }
-- 
2.43.0


From 9168d94b5f4a039975af7030fa51bef6d8f8a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:46 +0000
Subject: [PATCH 19/27] fix: refuse descriptors that are not valid in full
 instead of overflowing or altering them

---
 src/ty.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..e669fc6 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -89,6 +89,16 @@ impl Type {
 }
 
 pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
+    fn invalid(reason: &'static str) -> crate::error::Error {
+        crate::error::Error::Invalid("descriptor", reason.into())
+    }
+    // Method types are neither parameters, nor returned, nor elements of arrays.
+    fn field(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+        if Some('('.into()) == c.as_str().codepoints().next() {
+            return Err(invalid("nested method type"));
+        }
+        get_type(c)
+    }
     fn get_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
         let next_codepoint = c.next();
         Ok(match next_codepoint.map(|c| c.to_char_lossy()) {
@@ -115,15 +125,17 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim
+                        .checked_add(1)
+                        .ok_or_else(|| invalid("too many array dimensions"))?;
                 }
-                let r = get_type(c)?;
+                let r = field(c)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
             Some('(') => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(field(c)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -131,9 +143,10 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(field(c)?))
                         },
                     }
                 }
@@ -147,7 +160,12 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let mut c = s.codepoints();
+    let t = get_type(&mut c)?;
+    if c.next().is_some() {
+        return Err(invalid("unexpected characters at the end"));
+    }
+    Ok(t)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From 253bab2a7227ff879727b5bf961e60a88c14637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:45 +0000
Subject: [PATCH 20/27] fix: keep unpaired surrogates of descriptors when
 writing them

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 6 ++++--
 src/rw.rs             | 6 +++---
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 56896d0..70a0e20 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index 705d6e0..541a21c 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -1,5 +1,5 @@
 use indexmap::map::IndexMap;
-use wtf_8::Wtf8Str;
+use wtf_8::{Wtf8Str, Wtf8String};
 
 use crate::annotation::CodeTypeAnnotation;
 use crate::prelude::*;
@@ -252,7 +252,9 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                let mut s = Wtf8String::from("[".repeat(dim as usize));
+                write_type(&ty, &mut s);
+                Cow::Owned(s)
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 161b0da..03498cc 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From e9e5b1a4a53ba69ba7cbd52ef55b5e4a15adb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:34 +0000
Subject: [PATCH 21/27] fix: write the elements of an annotation in a fixed
 order

---
 src/annotation/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 70a0e20..c8a9773 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -241,7 +241,10 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     ) -> Result<(), Error> {
         let size = h::len16(self.len())?;
         size.write_to(writer)?;
-        for (k, e) in self {
+        // The iteration order of a hash map differs from process to process.
+        let mut values: Vec<_> = self.iter().collect();
+        values.sort_unstable_by_key(|(name, _)| *name);
+        for (k, e) in values {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
         }
-- 
2.43.0


From b8dd5234669ce25d4041db14477168ad6ecd2cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:38 +0000
Subject: [PATCH 22/27] fix: refuse annotations nested too deeply instead of
 overflowing the stack

---
 src/annotation/mod.rs | 54 +++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index c8a9773..917ad7f 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -68,8 +68,21 @@ pub enum AnnotationValue {
     Array(Vec<AnnotationValue>),
 }
 
-impl ConstantPoolReadWrite for AnnotationValue {
-    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+/// How deep annotations and arrays may be nested in an annotation that is read. This keeps data from exhausting the stack.
+const MAX_DEPTH: usize = 128;
+
+impl AnnotationValue {
+    fn read<C: ConstantPoolReader, R: Read>(
+        cp: &mut C,
+        reader: &mut R,
+        depth: usize,
+    ) -> Result<Self> {
+        if depth > MAX_DEPTH {
+            return Err(Error::Invalid(
+                "annotation value",
+                "nested too deeply".into(),
+            ));
+        }
         let tag = u8::read_from(reader)? as char;
         Ok(match tag {
             'B' => AnnotationValue::Byte({
@@ -120,18 +133,42 @@ impl ConstantPoolReadWrite for AnnotationValue {
                     Some(parse_type(&str)?)
                 })
             }
-            '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
+            '@' => AnnotationValue::Annotation(Annotation {
+                annotation_type: read_from!(cp, reader)?,
+                element_values: read_elements(cp, reader, depth + 1)?,
+            }),
             '[' => {
                 let num = u16::read_from(reader)?;
                 let mut values = Vec::new();
                 for _ in 0..num {
-                    values.push(AnnotationValue::read_from(cp, reader)?)
+                    values.push(AnnotationValue::read(cp, reader, depth + 1)?)
                 }
                 AnnotationValue::Array(values)
             }
             _ => return Err(Error::Invalid("Enum value type", tag.to_string().into())),
         })
     }
+}
+
+fn read_elements<C: ConstantPoolReader, R: Read>(
+    cp: &mut C,
+    reader: &mut R,
+    depth: usize,
+) -> Result<HashMap<Cow<'static, Wtf8Str>, AnnotationValue>> {
+    let pairs = u16::read_from(reader)?;
+    let mut element_values = HashMap::new();
+    for _ in 0..pairs {
+        let name = read_from!(cp, reader)?;
+        let value = AnnotationValue::read(cp, reader, depth)?;
+        element_values.insert(name, value);
+    }
+    Ok(element_values)
+}
+
+impl ConstantPoolReadWrite for AnnotationValue {
+    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+        Self::read(cp, reader, 0)
+    }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> {
         fn cp_int<C: ConstantPoolWriter, W: Write, I: Into<i32>>(
@@ -224,14 +261,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         reader: &mut R,
     ) -> Result<Self, Error> {
-        let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::new();
-        for _ in 0..pairs {
-            let name = read_from!(cp, reader)?;
-            let value = AnnotationValue::read_from(cp, reader)?;
-            element_values.insert(name, value);
-        }
-        Ok(element_values)
+        read_elements(cp, reader, 0)
     }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(
-- 
2.43.0


From 9736e85669b75143a3ad976d24a6bd217476c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:12 +0000
Subject: [PATCH 23/27] fix: refuse dynamic constants and call sites whose
 descriptor is of the other kind

---
 src/rw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rw.rs b/src/rw.rs
index 03498cc..e8edba7 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -277,6 +277,9 @@ pub trait ConstantPoolReader {
         match self.read_raw(idx) {
             Some(RawConstantEntry::InvokeDynamic(s, a)) => {
                 let (name, descriptor) = self.read_nameandtype(a)?;
+                if !descriptor.is_method() {
+                    return None;
+                }
                 Some(Dynamic {
                     bsm: self.bootstrap_method(s),
                     name,
@@ -290,6 +293,9 @@ pub trait ConstantPoolReader {
         match self.read_raw(idx) {
             Some(RawConstantEntry::Dynamic(s, a)) => {
                 let (name, descriptor) = self.read_nameandtype(a)?;
+                if descriptor.is_method() {
+                    return None;
+                }
                 Some(Dynamic {
                     bsm: self.bootstrap_method(s),
                     name,
-- 
2.43.0


From 6663d2e0385e7b44f4015152cbdab7bb53d8a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:20 +0000
Subject: [PATCH 24/27] fix: refuse to write annotation values that are nested
 deeper than can be read

Reading refuses values that are nested more than 128 deep, but writing did
not, so a class could be saved that cannot be loaded.
---
 src/annotation/mod.rs | 58 +++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 917ad7f..3c4cc88 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -78,10 +78,7 @@ impl AnnotationValue {
         depth: usize,
     ) -> Result<Self> {
         if depth > MAX_DEPTH {
-            return Err(Error::Invalid(
-                "annotation value",
-                "nested too deeply".into(),
-            ));
+            return Err(nested_too_deeply());
         }
         let tag = u8::read_from(reader)? as char;
         Ok(match tag {
@@ -165,12 +162,49 @@ fn read_elements<C: ConstantPoolReader, R: Read>(
     Ok(element_values)
 }
 
+fn write_elements<C: ConstantPoolWriter, W: Write>(
+    elements: &HashMap<Cow<'static, Wtf8Str>, AnnotationValue>,
+    cp: &mut C,
+    writer: &mut W,
+    depth: usize,
+) -> Result<()> {
+    let size = h::len16(elements.len())?;
+    size.write_to(writer)?;
+    // The iteration order of a hash map differs from process to process.
+    let mut values: Vec<_> = elements.iter().collect();
+    values.sort_unstable_by_key(|(name, _)| *name);
+    for (k, e) in values {
+        write_to!(k, cp, writer)?;
+        e.write(cp, writer, depth)?;
+    }
+    Ok(())
+}
+
+fn nested_too_deeply() -> Error {
+    Error::Invalid("annotation value", "nested too deeply".into())
+}
+
 impl ConstantPoolReadWrite for AnnotationValue {
     fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
         Self::read(cp, reader, 0)
     }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> {
+        self.write(cp, writer, 0)
+    }
+}
+
+impl AnnotationValue {
+    fn write<C: ConstantPoolWriter, W: Write>(
+        &self,
+        cp: &mut C,
+        writer: &mut W,
+        depth: usize,
+    ) -> Result<()> {
+        // Reading would refuse it.
+        if depth > MAX_DEPTH {
+            return Err(nested_too_deeply());
+        }
         fn cp_int<C: ConstantPoolWriter, W: Write, I: Into<i32>>(
             cp: &mut C,
             writer: &mut W,
@@ -233,13 +267,14 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Annotation(a) => {
                 b'@'.write_to(writer)?;
-                a.write_to(cp, writer)
+                a.annotation_type.write_to(cp, writer)?;
+                write_elements(&a.element_values, cp, writer, depth + 1)
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
                 h::len16(v.len())?.write_to(writer)?;
                 for e in v {
-                    e.write_to(cp, writer)?;
+                    e.write(cp, writer, depth + 1)?;
                 }
                 Ok(())
             }
@@ -269,15 +304,6 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = h::len16(self.len())?;
-        size.write_to(writer)?;
-        // The iteration order of a hash map differs from process to process.
-        let mut values: Vec<_> = self.iter().collect();
-        values.sort_unstable_by_key(|(name, _)| *name);
-        for (k, e) in values {
-            write_to!(k, cp, writer)?;
-            e.write_to(cp, writer)?;
-        }
-        Ok(())
+        write_elements(self, cp, writer, 0)
     }
 }
-- 
2.43.0


From 467018b54488b0c57347739e0253f26b41b56687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:23 +0000
Subject: [PATCH 25/27] fix: refuse to write signatures that cannot be read

Reading refuses type arguments that are nested more than 128 deep, but
writing did not, so a class could be saved that cannot be loaded.
---
 src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 06aebcf..4f7c816 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -516,7 +516,10 @@ macro_rules! cprw_impls {
                 }
 
                 fn write_to<C: crate::ConstantPoolWriter, W: std::io::Write>(&self, cp: &mut C, writer: &mut W) -> crate::Result<()> {
-                    Cow::<'static, wtf_8::Wtf8Str>::write_to(&Cow::Owned(wtf_8::Wtf8String::from_string(self.to_string())), cp, writer)
+                    let s = self.to_string();
+                    // What cannot be read, such as one that is nested too deeply, must not be written.
+                    let _: Self = FromStr::from_str(&s)?;
+                    Cow::<'static, wtf_8::Wtf8Str>::write_to(&Cow::Owned(wtf_8::Wtf8String::from_string(s)), cp, writer)
                 }
             }
         )*
-- 
2.43.0


From 3c8d81d42453120569c1c5563e008826ca84561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:19 +0000
Subject: [PATCH 26/27] fix: refuse to write bootstrap methods that are too
 complex to be read

Reading refuses bootstrap methods that are nested more than 128 deep or that
stand for too many arguments, but writing did not, so a class could be saved
that cannot be loaded.
---
 src/clazz.rs |   1 +
 src/cp.rs    | 162 +++++++++++++++++++++++++++++++--------------------
 2 files changed, 100 insertions(+), 63 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 145753b..23ca89b 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -133,6 +133,7 @@ impl ReadWrite for Class {
                 bsm.write_to(&mut cp, &mut buf2)?;
                 i += 1;
             }
+            cp.check_bootstrap_methods()?;
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
diff --git a/src/cp.rs b/src/cp.rs
index 8e641fd..a2f9b76 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, Dynamic, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -118,6 +118,8 @@ pub struct VecCp {
     overflow: bool,
     pub(crate) bsm: Vec<BootstrapMethod>,
     bsm_cache: HashMap<BootstrapMethod, u16>,
+    /// How often each of the bootstrap methods was referred to.
+    bsm_references: Vec<usize>,
 }
 impl VecCp {
     /// Creates an empty constant pool.
@@ -130,6 +132,7 @@ impl VecCp {
             overflow: false,
             bsm: vec![],
             bsm_cache: HashMap::new(),
+            bsm_references: vec![],
         }
     }
 }
@@ -145,6 +148,7 @@ impl VecCp {
             }
         };
         self.bsm.push(bsm.clone());
+        self.bsm_references.push(0);
         self.bsm_cache.entry(bsm).or_insert(idx);
         idx
     }
@@ -173,76 +177,104 @@ const MAX_BSM_DEPTH: usize = 128;
 /// How many arguments there may be in total when following all references to bootstrap methods.
 const MAX_BSM_ARGUMENTS: usize = 1 << 24;
 
-impl MapCp {
-    /// Checks that no bootstrap method depends on itself, and that replacing the references by
-    /// the bootstrap methods results in a reasonable structure.
-    fn check_bootstrap_methods(&self, bsms: &[BootstrapMethod]) -> Result<()> {
-        struct Check<'a> {
-            bsms: &'a [BootstrapMethod],
-            /// The index that is referred to by a dynamic.
-            indices: HashMap<*const OnceCell<BootstrapMethod>, usize>,
-            /// Depth and the number of arguments, including those of nested dynamics.
-            known: Vec<Option<(usize, usize)>>,
-        }
-        impl<'a> Check<'a> {
-            fn visit(&mut self, idx: usize, parents: usize) -> Result<(usize, usize)> {
-                let bsm = match self.bsms.get(idx) {
-                    Some(bsm) => bsm,
-                    None => return Ok((0, 0)), // reported by the caller
-                };
-                if let Some(known) = self.known[idx] {
-                    return Ok(known);
-                }
-                let mut depth = 0;
-                let mut arguments = bsm.arguments.len();
-                for arg in &bsm.arguments {
-                    if let OrDynamic::Dynamic(d) = arg {
-                        if let Some(&nested) = self.indices.get(&Arc::as_ptr(&d.bsm)) {
-                            if parents >= MAX_BSM_DEPTH {
-                                return Err(too_complex(idx));
-                            }
-                            let (d, n) = self.visit(nested, parents + 1)?;
-                            depth = depth.max(d + 1);
-                            arguments = arguments.saturating_add(n);
+/// Checks that no bootstrap method depends on itself, and that replacing the references by
+/// the bootstrap methods results in a reasonable structure.
+///
+/// `nested` is the index of the bootstrap method of a dynamic, and `references` is how often the
+/// bootstrap method with an index is referred to.
+fn check_bootstrap_methods(
+    bsms: &[BootstrapMethod],
+    nested: impl Fn(&Dynamic) -> Option<usize>,
+    references: impl Fn(usize) -> usize,
+) -> Result<()> {
+    struct Check<'a, F> {
+        bsms: &'a [BootstrapMethod],
+        nested: F,
+        /// Depth and the number of arguments, including those of nested dynamics.
+        known: Vec<Option<(usize, usize)>>,
+    }
+    impl<'a, F: Fn(&Dynamic) -> Option<usize>> Check<'a, F> {
+        fn visit(&mut self, idx: usize, parents: usize) -> Result<(usize, usize)> {
+            let bsm = match self.bsms.get(idx) {
+                Some(bsm) => bsm,
+                None => return Ok((0, 0)), // reported by the caller
+            };
+            if let Some(known) = self.known[idx] {
+                return Ok(known);
+            }
+            let mut depth = 0;
+            let mut arguments = bsm.arguments.len();
+            for arg in &bsm.arguments {
+                if let OrDynamic::Dynamic(d) = arg {
+                    if let Some(nested) = (self.nested)(d) {
+                        if parents >= MAX_BSM_DEPTH {
+                            return Err(too_complex(idx));
                         }
+                        let (d, n) = self.visit(nested, parents + 1)?;
+                        depth = depth.max(d + 1);
+                        arguments = arguments.saturating_add(n);
                     }
                 }
-                if depth > MAX_BSM_DEPTH {
-                    return Err(too_complex(idx));
-                }
-                self.known[idx] = Some((depth, arguments));
-                Ok((depth, arguments))
             }
+            if depth > MAX_BSM_DEPTH {
+                return Err(too_complex(idx));
+            }
+            self.known[idx] = Some((depth, arguments));
+            Ok((depth, arguments))
         }
-        fn too_complex(idx: usize) -> Error {
-            Error::Invalid(
-                "bootstrap method (refers to itself or is too complex)",
-                idx.to_string().into(),
-            )
+    }
+    fn too_complex(idx: usize) -> Error {
+        Error::Invalid(
+            "bootstrap method (refers to itself or is too complex)",
+            idx.to_string().into(),
+        )
+    }
+
+    let mut check = Check {
+        bsms,
+        nested,
+        known: vec![None; bsms.len()],
+    };
+    let mut total = 0usize;
+    for idx in 0..bsms.len() {
+        let (_, arguments) = check.visit(idx, 0)?;
+        total = total.saturating_add(arguments.saturating_mul(references(idx)));
+        if total > MAX_BSM_ARGUMENTS {
+            return Err(too_complex(idx));
         }
+    }
+    Ok(())
+}
 
-        let mut check = Check {
-            bsms,
-            indices: HashMap::new(),
-            known: vec![None; bsms.len()],
-        };
+impl MapCp {
+    fn check_bootstrap_methods(&self, bsms: &[BootstrapMethod]) -> Result<()> {
+        // The index that is referred to by a dynamic.
+        let mut indices = HashMap::new();
         for (idx, refs) in &self.refs {
             for r in refs {
-                check.indices.insert(Arc::as_ptr(r), *idx as usize);
+                indices.insert(Arc::as_ptr(r), *idx as usize);
             }
         }
-        let mut total = 0usize;
-        for idx in 0..bsms.len() {
-            let (_, arguments) = check.visit(idx, 0)?;
-            let references = self.refs.get(&(idx as u16)).map_or(0, |refs| {
-                refs.iter().map(|r| Arc::strong_count(r) - 1).sum()
-            });
-            total = total.saturating_add(arguments.saturating_mul(references));
-            if total > MAX_BSM_ARGUMENTS {
-                return Err(too_complex(idx));
-            }
-        }
-        Ok(())
+        check_bootstrap_methods(
+            bsms,
+            |d| indices.get(&Arc::as_ptr(&d.bsm)).copied(),
+            |idx| {
+                self.refs.get(&(idx as u16)).map_or(0, |refs| {
+                    refs.iter().map(|r| Arc::strong_count(r) - 1).sum()
+                })
+            },
+        )
+    }
+}
+
+impl VecCp {
+    /// Checks that the bootstrap methods are not too complex to be read.
+    pub(crate) fn check_bootstrap_methods(&self) -> Result<()> {
+        check_bootstrap_methods(
+            &self.bsm,
+            |d| self.bsm_cache.get(d.get_bsm()).map(|&idx| idx as usize),
+            |idx| self.bsm_references[idx],
+        )
     }
 }
 
@@ -356,9 +388,13 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        if let Some(idx) = self.bsm_cache.get(&bsm) {
-            return *idx;
+        let idx = match self.bsm_cache.get(&bsm) {
+            Some(idx) => *idx,
+            None => self.push_bsm(bsm),
+        };
+        if let Some(n) = self.bsm_references.get_mut(idx as usize) {
+            *n += 1;
         }
-        self.push_bsm(bsm)
+        idx
     }
 }
-- 
2.43.0


From 68f152564be9787d39c17a9572fedad8a06fa910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:29 +0000
Subject: [PATCH 27/27] fix: refuse a local variable without descriptor and
 signature instead of dropping it

---
 src/code.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 85cdd2c..0cb85e3 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -602,6 +602,12 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        if lc.descriptor.is_none() && lc.signature.is_none() {
+                            return Err(Error::Invalid(
+                                "local variable",
+                                "no descriptor or signature present".into(),
+                            ));
+                        }
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start)?;
                             let len = range_len(start, labeler.label(&lc.end)?)?;
-- 
2.43.0

