//! Model -> coffer values: what a user of the library would assemble by hand. `style` 0 is the
//! plainest assembly; other values vary label numbering, spelling and attribute placement.
use crate::model::{self as m, Attr, Cst, Insn, MKind, Target};
use crate::{flags, ops};
use crate::tape::Rng;
use crate::text::{self, w};
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::module as md;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use std::collections::BTreeMap;
use std::collections::HashMap;

pub type R<T> = Result<T, String>;

pub struct B { rng: Rng, plain: bool }

fn ty(d: &m::JStr) -> R<Type> { text::ty(d).ok_or_else(|| format!("model descriptor {d:?}")) }
fn member(x: &m::Member) -> R<MemberRef> {
    Ok(MemberRef { owner: w(&x.owner), name: w(&x.name), descriptor: ty(&x.desc)?, itfs: x.kind == MKind::IMethod })
}
pub fn kind(k: u8) -> MethodHandleKind {
    use MethodHandleKind::*;
    [GetField, GetStatic, PutField, PutStatic, InvokeVirtual, InvokeStatic, InvokeSpecial, NewInvokeSpecial, InvokeInterface][k as usize - 1]
}
fn handle(h: &m::Handle) -> R<MethodHandle> { Ok(MethodHandle { kind: kind(h.kind), member: member(&h.member)? }) }
fn bsm(b: &m::Bsm) -> R<BootstrapMethod> {
    Ok(BootstrapMethod { handle: handle(&b.handle)?, arguments: b.args.iter().map(cst).collect::<R<_>>()? })
}
fn dynamic(d: &m::Dyn) -> R<Dynamic> { Ok(Dynamic::new(bsm(&d.bsm)?, w(&d.name), ty(&d.desc)?)) }
fn constant(c: &Cst) -> R<Constant> {
    Ok(match c {
        Cst::Int(v) => Constant::I32(*v), Cst::Float(v) => Constant::F32(TotalF32(f32::from_bits(*v))),
        Cst::Long(v) => Constant::I64(*v), Cst::Double(v) => Constant::F64(TotalF64(f64::from_bits(*v))),
        Cst::Str(s) => Constant::String(w(s)), Cst::Class(s) => Constant::Class(w(s)),
        Cst::MType(s) => Constant::MethodType(ty(s)?), Cst::MHandle(h) => Constant::MethodHandle(handle(h)?),
        Cst::Member(x) => Constant::Member(member(x)?),
        Cst::Dyn(_) => return Err("dynamic where a static constant is needed".into()),
    })
}
fn cst(c: &Cst) -> R<OrDynamic<Constant>> {
    Ok(match c { Cst::Dyn(d) => OrDynamic::Dynamic(dynamic(d)?), c => OrDynamic::Static(constant(c)?) })
}

fn path(p: &[(u8, u8)]) -> Vec<TypePath> {
    p.iter().map(|(k, i)| match k { 0 => TypePath::Array(*i), 1 => TypePath::Nested(*i), 2 => TypePath::TypeBound(*i), _ => TypePath::TypeArgument(*i) }).collect()
}

type Lab<'a> = &'a mut dyn FnMut(usize) -> Label;

impl B {
    pub fn new(style: u64) -> Self { B { rng: Rng::new(style ^ 0xB01D), plain: style == 0 } }
    fn below(&mut self, n: u64) -> u64 { if self.plain { 0 } else { self.rng.next() % n } }
    fn yes(&mut self, per_mille: u64) -> bool { !self.plain && self.rng.next() % 1000 < per_mille }

    fn val(&mut self, v: &m::AVal) -> R<AnnotationValue> {
        use m::AVal as V;
        Ok(match v {
            V::Int(b'B', v) => AnnotationValue::Byte(i8::try_from(*v).map_err(|_| "byte")?),
            V::Int(b'C', v) => AnnotationValue::Char(u16::try_from(*v).map_err(|_| "char")?),
            V::Int(b'S', v) => AnnotationValue::Short(i16::try_from(*v).map_err(|_| "short")?),
            V::Int(b'Z', v) => AnnotationValue::Boolean(*v == 1),
            V::Int(_, v) => AnnotationValue::Int(*v),
            V::Long(v) => AnnotationValue::Long(*v),
            V::Float(v) => AnnotationValue::Float(TotalF32(f32::from_bits(*v))),
            V::Double(v) => AnnotationValue::Double(TotalF64(f64::from_bits(*v))),
            V::Str(s) => AnnotationValue::String(w(s)),
            V::Enum(t, n) => AnnotationValue::Enum(ty(t)?, w(n)),
            V::Class(t) => AnnotationValue::Class(if t.is("V") { None } else { Some(ty(t)?) }),
            V::Annot(a) => AnnotationValue::Annotation(self.annot(a)?),
            V::Array(v) => AnnotationValue::Array(v.iter().map(|x| self.val(x)).collect::<R<_>>()?),
        })
    }
    fn vals(&mut self, v: &[(m::JStr, m::AVal)]) -> R<HashMap<text::W, AnnotationValue>> {
        let mut h = HashMap::new();
        // in any order: a map has none
        let mut order: Vec<usize> = (0..v.len()).collect();
        for i in (1..order.len()).rev() { let k = i - self.below(i as u64 + 1) as usize; order.swap(i, k) }
        for i in order { let x = self.val(&v[i].1)?; h.insert(w(&v[i].0), x); }
        Ok(h)
    }
    fn annot(&mut self, a: &m::Annot) -> R<Annotation> { Ok(Annotation { annotation_type: ty(&a.ty)?, element_values: self.vals(&a.vals)? }) }
    fn annots(&mut self, v: &[m::Annot]) -> R<Vec<Annotation>> { v.iter().map(|a| self.annot(a)).collect() }

    fn class_tannots(&mut self, v: &[m::TAnnot]) -> R<Vec<ClassTypeAnnotation>> {
        v.iter().map(|t| Ok(ClassTypeAnnotation {
            target: match &t.target {
                Target::Plain(0x00, b) => ClassTypeAnnotationTarget::GenericTypeParameter(b[0]),
                Target::Plain(0x10, b) => ClassTypeAnnotationTarget::ExtendsImplementsClause(u16::from_be_bytes([b[0], b[1]])),
                Target::Plain(0x11, b) => ClassTypeAnnotationTarget::GenericTypeParameterBound(b[0], b[1]),
                o => return Err(format!("class target {o:?}")),
            },
            type_path: path(&t.path), annotation_type: ty(&t.annot.ty)?, element_values: self.vals(&t.annot.vals)?,
        })).collect()
    }
    fn method_tannots(&mut self, v: &[m::TAnnot]) -> R<Vec<MethodTypeAnnotation>> {
        use MethodTypeAnnotationTarget as T;
        v.iter().map(|t| Ok(MethodTypeAnnotation {
            target: match &t.target {
                Target::Plain(0x01, b) => T::GenericTypeParameter(b[0]), Target::Plain(0x12, b) => T::GenericTypeParameterBound(b[0], b[1]),
                Target::Plain(0x14, _) => T::Return, Target::Plain(0x15, _) => T::Reciever,
                Target::Plain(0x16, b) => T::FormalParameter(b[0]), Target::Plain(0x17, b) => T::Throws(u16::from_be_bytes([b[0], b[1]])),
                o => return Err(format!("method target {o:?}")),
            },
            type_path: path(&t.path), annotation_type: ty(&t.annot.ty)?, element_values: self.vals(&t.annot.vals)?,
        })).collect()
    }
    fn field_tannots(&mut self, v: &[m::TAnnot]) -> R<Vec<FieldTypeAnnotation>> {
        v.iter().map(|t| Ok(FieldTypeAnnotation {
            target_type: FieldTarget::Field, type_path: path(&t.path), annotation_type: ty(&t.annot.ty)?, element_values: self.vals(&t.annot.vals)?,
        })).collect()
    }
    fn code_tannots(&mut self, v: &[m::TAnnot], lab: Lab, catches: &[Catch]) -> R<Vec<CodeTypeAnnotation>> {
        use CodeTypeAnnotationTarget as T;
        v.iter().map(|t| Ok(CodeTypeAnnotation {
            target: match &t.target {
                Target::Vars(k, l) => {
                    let v = l.iter().map(|(s, e, i)| LocalVarTarget { start: lab(*s), end: lab(*e), idx: *i }).collect();
                    if *k == 0x40 { T::LocalVariable(v) } else { T::ResourceVariable(v) }
                }
                Target::Catch(i) => T::CatchParameter(catches[*i as usize].clone()),
                Target::Pos(0x43, p, _) => T::InstanceOf(lab(*p)), Target::Pos(0x44, p, _) => T::Constructor(lab(*p)),
                Target::Pos(0x45, p, _) => T::ConstructorRef(lab(*p)), Target::Pos(0x46, p, _) => T::MethodRef(lab(*p)),
                Target::Pos(k, p, Some(a)) => match k {
                    0x47 => T::Cast(lab(*p), *a), 0x48 => T::GenericConstructor(lab(*p), *a), 0x49 => T::GenericMethod(lab(*p), *a),
                    0x4A => T::GenericConstructorRef(lab(*p), *a), _ => T::GenericMethodRef(lab(*p), *a),
                },
                o => return Err(format!("code target {o:?}")),
            },
            type_path: path(&t.path), annotation_type: ty(&t.annot.ty)?, element_values: self.vals(&t.annot.vals)?,
        })).collect()
    }

    pub fn code(&mut self, c: &m::Code) -> R<Code> {
        let n = c.insns.len();
        // labels: assigned on demand, numbered in an arbitrary way
        let mut labels: BTreeMap<usize, Vec<Label>> = BTreeMap::new();
        let mut rng = self.rng.clone();
        let plain = self.plain;
        let (mul, add) = if plain { (1u32, 0u32) } else { ((rng.next() as u32) | 1, rng.next() as u32) };
        let mut next = 0u32;
        let mut lab = |p: usize| -> Label {
            let v = labels.entry(p).or_default();
            if v.is_empty() || (!plain && v.len() < 3 && rng.next() % 8 == 0) {
                let l = Label(next.wrapping_mul(mul).wrapping_add(add));
                next += 1;
                v.push(l);
                l
            } else { v[if plain { 0 } else { (rng.next() % v.len() as u64) as usize }] }
        };
        let mut body = vec![];
        for i in &c.insns {
            body.push(match i {
                Insn::Op(o) => match ops::alternative(*o) { Some(a) if self.yes(500) => a, _ => ops::simple(*o).ok_or("opcode")? },
                Insn::Push(x) => Instruction::Push(cst(x)?),
                Insn::Local(o, ix) => {
                    let (ls, t) = if *o >= 0x36 { (LoadOrStore::Store, o - 0x36) } else { (LoadOrStore::Load, o - 0x15) };
                    Instruction::LocalVariable(ls, [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference][t as usize], *ix)
                }
                Insn::IInc(a, b) => Instruction::IntIncrement(*a, *b),
                Insn::Ret(a) => Instruction::Ret(*a),
                Insn::Jump(0xA8, t) => Instruction::Jsr(lab(*t)),
                Insn::Jump(o, t) => Instruction::Jump(ops::cond(*o).ok_or("jump")?, lab(*t)),
                Insn::TSwitch { def, low, to } => Instruction::TableSwitch { default: lab(*def), low: *low, offsets: to.iter().map(|t| lab(*t)).collect() },
                Insn::LSwitch { def, to } => {
                    let default = lab(*def);
                    let mut table = indexmap::IndexMap::new();
                    let mut order: Vec<usize> = (0..to.len()).collect();
                    if self.yes(300) { for i in (1..order.len()).rev() { let k = self.below(i as u64 + 1) as usize; order.swap(i, k) } }
                    for k in order { table.insert(to[k].0, lab(to[k].1)); }
                    Instruction::LookupSwitch { default, table }
                }
                Insn::Field(o, x) => {
                    let x = OrDynamic::Static(member(x)?);
                    match o {
                        0xB2 => Instruction::Field(GetOrPut::Get, MemberType::Static, x), 0xB3 => Instruction::Field(GetOrPut::Put, MemberType::Static, x),
                        0xB4 => Instruction::Field(GetOrPut::Get, MemberType::Virtual, x), _ => Instruction::Field(GetOrPut::Put, MemberType::Virtual, x),
                    }
                }
                Insn::Invoke(o, x, k) => {
                    let x = OrDynamic::Static(member(x)?);
                    match o {
                        0xB6 => Instruction::InvokeExact(MemberType::Virtual, x), 0xB7 => Instruction::InvokeSpecial(x),
                        0xB8 => Instruction::InvokeExact(MemberType::Static, x), _ => Instruction::InvokeInterface(x, *k),
                    }
                }
                Insn::InvokeDyn(d) => Instruction::InvokeDynamic(dynamic(d)?),
                Insn::Computed(o, x, k) => {
                    let x = dynamic(x)?;
                    match o {
                        0xB2 => Instruction::Field(GetOrPut::Get, MemberType::Static, OrDynamic::Dynamic(x)), 0xB3 => Instruction::Field(GetOrPut::Put, MemberType::Static, OrDynamic::Dynamic(x)),
                        0xB4 => Instruction::Field(GetOrPut::Get, MemberType::Virtual, OrDynamic::Dynamic(x)), 0xB5 => Instruction::Field(GetOrPut::Put, MemberType::Virtual, OrDynamic::Dynamic(x)),
                        0xB6 => Instruction::InvokeExact(MemberType::Virtual, OrDynamic::Dynamic(x)), 0xB7 => Instruction::InvokeSpecial(OrDynamic::Dynamic(x)),
                        0xB8 => Instruction::InvokeExact(MemberType::Static, OrDynamic::Dynamic(x)), 0xB9 => Instruction::InvokeInterface(OrDynamic::Dynamic(x), *k),
                        0xBB => Instruction::New(OrDynamic::Dynamic(x)), 0xBD => Instruction::NewArray(OrDynamic::Dynamic(x), 1), 0xC5 => Instruction::NewArray(OrDynamic::Dynamic(x), *k),
                        0xC0 => Instruction::CheckCast(OrDynamic::Dynamic(x)), _ => Instruction::InstanceOf(OrDynamic::Dynamic(x)),
                    }
                }
                Insn::New(s) => Instruction::New(OrDynamic::Static(w(s))),
                Insn::NewArray(d, dims) => {
                    let d = if *dims == 1 { m::JStr(d.0[1..].to_vec()) } else { d.clone() };
                    Instruction::NewArray(OrDynamic::Static(ty(&d)?), *dims)
                }
                Insn::CheckCast(s) => Instruction::CheckCast(OrDynamic::Static(class_type(s)?)),
                Insn::InstanceOf(s) => Instruction::InstanceOf(OrDynamic::Static(class_type(s)?)),
            });
        }
        let catches: Vec<Catch> = {
            // equal rows must be equal values, or a type annotation on one could not name it
            let mut done: Vec<(usize, Catch)> = vec![];
            for (i, (s, e, h, t)) in c.catches.iter().enumerate() {
                let x = match done.iter().find(|d| c.catches[d.0] == c.catches[i]) {
                    Some(d) => d.1.clone(),
                    None => Catch { start: lab(*s), end: lab(*e), handler: lab(*h), catch: t.as_ref().map(w) },
                };
                done.push((i, x));
            }
            done.into_iter().map(|d| d.1).collect()
        };
        let mut attrs = vec![];
        for a in &c.attrs {
            attrs.push(match a {
                Attr::TypeAnnots(true, v) => CodeAttribute::VisibleTypeAnnotations(self.code_tannots(v, &mut lab, &catches)?),
                Attr::TypeAnnots(false, v) => CodeAttribute::InvisibleTypeAnnotations(self.code_tannots(v, &mut lab, &catches)?),
                Attr::Raw(n, b) => CodeAttribute::Raw(RawAttribute::new(w(n), b.clone())),
                o => return Err(format!("code attribute {o:?}")),
            })
        }
        if !c.lvars.is_empty() {
            let mut vars: Vec<LocalVariable> = vec![];
            for v in &c.lvars {
                vars.push(LocalVariable {
                    start: lab(v.start), end: lab(v.end), name: w(&v.name), descriptor: v.desc.as_ref().map(ty).transpose()?,
                    signature: match &v.sig { Some(s) => Some(field_sig(s)?), None => None }, index: v.index,
                })
            }
            if vars.len() > 1 && self.yes(200) {
                let tail = vars.split_off(1 + self.below(vars.len() as u64 - 1) as usize);
                attrs.push(CodeAttribute::LocalVariables(tail));
            }
            let at = attrs.len() - self.below(attrs.len() as u64 + 1) as usize;
            attrs.insert(at, CodeAttribute::LocalVariables(vars));
        }
        let mut extra = vec![];
        if self.yes(200) { for _ in 0..3 { let p = self.below(n as u64 + 1) as usize; extra.push((p, lab(p))) } }
        let mut code = vec![];
        let mut lines: BTreeMap<usize, Vec<u16>> = BTreeMap::new();
        for (p, l) in &c.lines { lines.entry(*p).or_default().push(*l) }
        let mut it = body.into_iter();
        for p in 0..=n {
            let first = self.yes(500);
            let ls = labels.get(&p).cloned().unwrap_or_default();
            if first { code.extend(ls.iter().map(|l| Instruction::Label(*l))) }
            for l in lines.get(&p).into_iter().flatten() { code.push(Instruction::LineNumber(*l)) }
            if !first { code.extend(ls.iter().map(|l| Instruction::Label(*l))) }
            if self.yes(5) { code.push(Instruction::Conversion(NumberType::Long, NumberType::Long)) }
            if self.yes(5) { code.push(Instruction::ConvertInt(BitType::Int)) }
            if let Some(i) = it.next() { code.push(i) }
        }
        Ok(Code { max_stack: c.max_stack, max_locals: c.max_locals, code, catches, attrs })
    }

    fn class_attr(&mut self, a: &Attr) -> R<ClassAttribute> {
        use ClassAttribute as A;
        Ok(match a {
            Attr::Synthetic => A::Synthetic, Attr::Deprecated => A::Deprecated,
            Attr::Signature(s) => A::Signature(s.utf().as_deref().and_then(text::class_sig).ok_or_else(|| format!("model signature {s:?}"))?),
            Attr::SourceFile(s) => A::SourceFile(w(s)),
            Attr::InnerClasses(v) => A::InnerClasses(v.iter().map(|i| InnerClass {
                inner_fqname: w(&i.inner), outer_fqname: i.outer.as_ref().map(w), inner_name: i.name.as_ref().map(w),
                inner_access: flags::inner(i.flags),
            }).collect()),
            Attr::EnclosingMethod(c, nt) => A::EnclosingMethod(w(c), match nt { Some((n, d)) => Some((w(n), ty(d)?)), None => None }),
            Attr::SourceDebug(s) => A::SourceDebugExtension(SourceDebugExtension(w(s))),
            Attr::Bootstrap(v) => A::BootstrapMethods(v.iter().map(bsm).collect::<R<_>>()?),
            Attr::Module(x) => A::Module(md::Module {
                name: w(&x.name), flags: flags::module(x.flags), version: x.version.as_ref().map(w),
                requires: x.requires.iter().map(|(n, f, v)| md::Require { module: w(n), flags: flags::require(*f), version: v.as_ref().map(w) }).collect(),
                exports: x.exports.iter().map(|(p, f, t)| md::Export { package: w(p), flags: flags::exop(*f), to: t.iter().map(w).collect() }).collect(),
                opens: x.opens.iter().map(|(p, f, t)| md::Open { package: w(p), flags: flags::exop(*f), to: t.iter().map(w).collect() }).collect(),
                uses: x.uses.iter().map(w).collect(),
                provides: x.provides.iter().map(|(c, p)| md::Provide { class: w(c), with: p.iter().map(w).collect() }).collect(),
            }),
            Attr::ModulePackages(v) => A::ModulePackages(v.iter().map(w).collect()),
            Attr::ModuleMainClass(s) => A::ModuleMainClass(w(s)),
            Attr::NestHost(s) => A::NestHost(w(s)),
            Attr::NestMembers(v) => A::NestMembers(v.iter().map(w).collect()),
            Attr::Annots(true, v) => A::RuntimeVisibleAnnotations(self.annots(v)?),
            Attr::Annots(false, v) => A::RuntimeInvisibleAnnotations(self.annots(v)?),
            Attr::TypeAnnots(true, v) => A::RuntimeVisibleTypeAnnotations(self.class_tannots(v)?),
            Attr::TypeAnnots(false, v) => A::RuntimeInvisibleTypeAnnotations(self.class_tannots(v)?),
            Attr::Raw(n, b) => A::Raw(RawAttribute::new(w(n), b.clone())),
            o => return Err(format!("class attribute {o:?}")),
        })
    }
    fn field_attr(&mut self, a: &Attr) -> R<FieldAttribute> {
        use FieldAttribute as A;
        Ok(match a {
            Attr::Synthetic => A::Synthetic, Attr::Deprecated => A::Deprecated,
            Attr::Signature(s) => A::Signature(field_sig(s)?),
            Attr::ConstantValue(c) => A::ConstantValue(constant(c)?),
            Attr::Annots(true, v) => A::RuntimeVisibleAnnotations(self.annots(v)?),
            Attr::Annots(false, v) => A::RuntimeInvisibleAnnotations(self.annots(v)?),
            Attr::TypeAnnots(true, v) => A::RuntimeVisibleTypeAnnotations(self.field_tannots(v)?),
            Attr::TypeAnnots(false, v) => A::RuntimeInvisibleTypeAnnotations(self.field_tannots(v)?),
            Attr::Raw(n, b) => A::Raw(RawAttribute::new(w(n), b.clone())),
            o => return Err(format!("field attribute {o:?}")),
        })
    }
    fn method_attr(&mut self, a: &Attr) -> R<MethodAttribute> {
        use MethodAttribute as A;
        Ok(match a {
            Attr::Synthetic => A::Synthetic, Attr::Deprecated => A::Deprecated,
            Attr::Signature(s) => A::Signature(s.utf().as_deref().and_then(text::method_sig).ok_or_else(|| format!("model signature {s:?}"))?),
            Attr::Code(c) => A::Code(self.code(c)?),
            Attr::Annots(true, v) => A::RuntimeVisibleAnnotations(self.annots(v)?),
            Attr::Annots(false, v) => A::RuntimeInvisibleAnnotations(self.annots(v)?),
            Attr::TypeAnnots(true, v) => A::RuntimeVisibleTypeAnnotations(self.method_tannots(v)?),
            Attr::TypeAnnots(false, v) => A::RuntimeInvisibleTypeAnnotations(self.method_tannots(v)?),
            Attr::ParamAnnots(vis, v) => {
                let mut o = vec![];
                for l in v {
                    // the constructor is private: start from an empty list and fill it
                    let mut p: ParameterAnnotations = ConstantPoolReadWrite::read_from(&mut MapCp::new(), &mut &[0u8, 0][..]).map_err(|e| format!("{e:?}"))?;
                    p.extend(self.annots(l)?);
                    o.push(p);
                }
                if *vis { A::RuntimeVisibleParameterAnnotations(o) } else { A::RuntimeInvisibleParameterAnnotations(o) }
            }
            Attr::Exceptions(v) => A::Exceptions(v.iter().map(w).collect()),
            Attr::AnnotDefault(v) => A::AnnotationDefault(self.val(v)?),
            Attr::MethodParams(v) => A::MethodParameters(v.iter().map(|(n, f)| {
                let mut cp = MapCp::new();
                let mut b = vec![0u8, 0];
                if let Some(n) = n { cp.entries.insert(1, RawConstantEntry::WTF8(w(n))); b[1] = 1 }
                b.extend(f.to_be_bytes());
                ConstantPoolReadWrite::read_from(&mut cp, &mut &b[..]).map_err(|e| format!("{e:?}"))
            }).collect::<R<_>>()?),
            Attr::Raw(n, b) => A::Raw(RawAttribute::new(w(n), b.clone())),
            o => return Err(format!("method attribute {o:?}")),
        })
    }
}

fn class_type(s: &m::JStr) -> R<ClassType> {
    Ok(if s.starts(b'[') {
        match ty(s)? { Type::ArrayRef(d, t) => ClassType::Array(d, *t), _ => return Err("array".into()) }
    } else { ClassType::Object(w(s)) })
}
fn field_sig(s: &m::JStr) -> R<FieldSignature> {
    let t = s.utf().ok_or("signature text")?;
    text::field_sig(&t).ok_or_else(|| format!("model signature {s:?}"))?;
    t.parse().map_err(|e| format!("field signature {t}: {e:?}"))
}

pub fn version(minor: u16, major: u16) -> R<JavaVersion> {
    use MajorVersion::*;
    let v = [J1, J1_2, J1_3, J1_4, J5, J6, J7, J8, J9, J10, J11, J12, J13, J14, J15];
    Ok(JavaVersion { minor, major: *v.get((major as usize).wrapping_sub(45)).ok_or("major version")? })
}

pub fn class(c: &m::Class, style: u64) -> R<Class> {
    let mut b = B::new(style);
    Ok(Class {
        version: version(c.minor, c.major)?,
        access: flags::class(c.flags),
        name: w(&c.name), super_name: c.sup.as_ref().map(w), interfaces: c.itfs.iter().map(w).collect(),
        fields: c.fields.iter().map(|f| Ok(Field { access: flags::field(f.flags), name: w(&f.name), descriptor: ty(&f.desc)?, attrs: f.attrs.iter().map(|a| b.field_attr(a)).collect::<R<_>>()? })).collect::<R<_>>()?,
        methods: c.methods.iter().map(|f| Ok(Method { access: flags::method(f.flags), name: w(&f.name), descriptor: ty(&f.desc)?, attributes: f.attrs.iter().map(|a| b.method_attr(a)).collect::<R<_>>()? })).collect::<R<_>>()?,
        attributes: {
            let mut v = c.attrs.iter().map(|a| b.class_attr(a)).collect::<R<Vec<_>>>()?;
            // the table may be given in pieces
            if let Some(i) = v.iter().position(|a| matches!(a, ClassAttribute::BootstrapMethods(t) if t.len() > 1)) {
                if b.yes(300) {
                    let mut tail = vec![];
                    if let ClassAttribute::BootstrapMethods(t) = &mut v[i] { tail = t.split_off(1) }
                    v.push(ClassAttribute::BootstrapMethods(tail));
                }
            }
            v
        },
    })
}
