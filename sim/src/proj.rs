//! coffer values -> model: what a loaded class says.
use crate::model::{self as m, Attr, Cst, Insn, JStr, MKind, Target};
use crate::{flags, ops};
use crate::text::{self, j};
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::collections::{BTreeMap, HashMap};

pub type R<T> = Result<T, String>;

fn major(v: MajorVersion) -> u16 {
    use MajorVersion::*;
    match v { J1 => 45, J1_2 => 46, J1_3 => 47, J1_4 => 48, J5 => 49, J6 => 50, J7 => 51, J8 => 52, J9 => 53, J10 => 54, J11 => 55, J12 => 56, J13 => 57, J14 => 58, J15 => 59, #[allow(unreachable_patterns)] _ => 0 }
}
fn d(t: &Type) -> R<JStr> { text::desc(t) }
fn oj(s: &Option<text::W>) -> R<Option<JStr>> { s.as_ref().map(|s| j(s)).transpose() }
fn js(v: &[text::W]) -> R<Vec<JStr>> { v.iter().map(|s| j(s)).collect() }

fn member(x: &MemberRef) -> R<m::Member> {
    let kind = if x.descriptor.is_method() { if x.itfs { MKind::IMethod } else { MKind::Method } } else { MKind::Field };
    Ok(m::Member { kind, owner: j(&x.owner)?, name: j(&x.name)?, desc: d(&x.descriptor)? })
}
fn handle(h: &MethodHandle) -> R<m::Handle> { Ok(m::Handle { kind: (1..=9).find(|k| crate::build::kind(*k) == h.kind).ok_or("handle kind")?, member: member(&h.member)? }) }
fn bsm(b: &BootstrapMethod, depth: u32) -> R<m::Bsm> {
    if depth > 900 { return Err("bootstrap methods nested without end".into()) }
    Ok(m::Bsm { handle: handle(&b.handle)?, args: b.arguments.iter().map(|a| cst(a, depth + 1)).collect::<R<_>>()? })
}
fn dynamic(x: &Dynamic, depth: u32) -> R<m::Dyn> {
    let b = x.bsm.get().ok_or_else(|| format!("dynamic entry {:?} has no bootstrap method", x.name))?;
    Ok(m::Dyn { bsm: Box::new(bsm(b, depth)?), name: j(&x.name)?, desc: d(&x.descriptor)? })
}
fn constant(c: &Constant) -> R<Cst> {
    Ok(match c {
        Constant::I32(v) => Cst::Int(*v), Constant::F32(v) => Cst::Float(v.0.to_bits()), Constant::I64(v) => Cst::Long(*v), Constant::F64(v) => Cst::Double(v.0.to_bits()),
        Constant::String(s) => Cst::Str(j(s)?), Constant::Class(s) => Cst::Class(j(s)?), Constant::Member(x) => Cst::Member(member(x)?),
        Constant::MethodType(t) => Cst::MType(d(t)?), Constant::MethodHandle(h) => Cst::MHandle(handle(h)?),
    })
}
fn cst(c: &OrDynamic<Constant>, depth: u32) -> R<Cst> {
    match c { OrDynamic::Static(c) => constant(c), OrDynamic::Dynamic(x) => Ok(Cst::Dyn(dynamic(x, depth)?)) }
}
fn either<T>(x: &OrDynamic<T>, op: u8, k: u8, f: impl FnOnce(&T) -> R<Insn>) -> R<Insn> {
    match x { OrDynamic::Static(x) => f(x), OrDynamic::Dynamic(x) => Ok(Insn::Computed(op, dynamic(x, 0)?, k)) }
}

fn val(v: &AnnotationValue) -> R<m::AVal> {
    use m::AVal as V;
    Ok(match v {
        AnnotationValue::Byte(v) => V::Int(b'B', *v as i32), AnnotationValue::Char(v) => V::Int(b'C', *v as i32), AnnotationValue::Short(v) => V::Int(b'S', *v as i32),
        AnnotationValue::Boolean(v) => V::Int(b'Z', *v as i32), AnnotationValue::Int(v) => V::Int(b'I', *v), AnnotationValue::Long(v) => V::Long(*v),
        AnnotationValue::Float(v) => V::Float(v.0.to_bits()), AnnotationValue::Double(v) => V::Double(v.0.to_bits()), AnnotationValue::String(s) => V::Str(j(s)?),
        AnnotationValue::Enum(t, n) => V::Enum(d(t)?, j(n)?), AnnotationValue::Class(t) => V::Class(match t { Some(t) => d(t)?, None => JStr::new("V") }),
        AnnotationValue::Annotation(a) => V::Annot(annot(a)?), AnnotationValue::Array(v) => V::Array(v.iter().map(val).collect::<R<_>>()?),
    })
}
fn vals(h: &HashMap<text::W, AnnotationValue>) -> R<Vec<(JStr, m::AVal)>> {
    let mut v = h.iter().map(|(k, v)| Ok((j(k)?, val(v)?))).collect::<R<Vec<_>>>()?;
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Ok(v)
}
fn annot(a: &Annotation) -> R<m::Annot> { Ok(m::Annot { ty: d(&a.annotation_type)?, vals: vals(&a.element_values)? }) }
fn annots(v: &[Annotation]) -> R<Vec<m::Annot>> { v.iter().map(annot).collect() }
fn path(p: &[TypePath]) -> Vec<(u8, u8)> {
    p.iter().map(|p| match p { TypePath::Array(i) => (0, *i), TypePath::Nested(i) => (1, *i), TypePath::TypeBound(i) => (2, *i), TypePath::TypeArgument(i) => (3, *i) }).collect()
}
fn tannot(target: Target, p: &[TypePath], t: &Type, v: &HashMap<text::W, AnnotationValue>) -> R<m::TAnnot> {
    Ok(m::TAnnot { target, path: path(p), annot: m::Annot { ty: d(t)?, vals: vals(v)? } })
}
fn class_tannots(v: &[ClassTypeAnnotation]) -> R<Vec<m::TAnnot>> {
    use ClassTypeAnnotationTarget as T;
    v.iter().map(|t| tannot(match t.target {
        T::GenericTypeParameter(a) => Target::Plain(0, vec![a]), T::ExtendsImplementsClause(a) => Target::Plain(0x10, a.to_be_bytes().to_vec()),
        T::GenericTypeParameterBound(a, b) => Target::Plain(0x11, vec![a, b]),
    }, &t.type_path, &t.annotation_type, &t.element_values)).collect()
}
fn method_tannots(v: &[MethodTypeAnnotation]) -> R<Vec<m::TAnnot>> {
    use MethodTypeAnnotationTarget as T;
    v.iter().map(|t| tannot(match t.target {
        T::GenericTypeParameter(a) => Target::Plain(1, vec![a]), T::GenericTypeParameterBound(a, b) => Target::Plain(0x12, vec![a, b]),
        T::Return => Target::Plain(0x14, vec![]), T::Reciever => Target::Plain(0x15, vec![]), T::FormalParameter(a) => Target::Plain(0x16, vec![a]),
        T::Throws(a) => Target::Plain(0x17, a.to_be_bytes().to_vec()),
    }, &t.type_path, &t.annotation_type, &t.element_values)).collect()
}
fn field_tannots(v: &[FieldTypeAnnotation]) -> R<Vec<m::TAnnot>> {
    v.iter().map(|t| tannot(Target::Plain(0x13, vec![]), &t.type_path, &t.annotation_type, &t.element_values)).collect()
}
fn code_tannots(v: &[CodeTypeAnnotation], lab: &dyn Fn(Label) -> R<usize>, catches: &[Catch]) -> R<Vec<m::TAnnot>> {
    use CodeTypeAnnotationTarget as T;
    let vars = |k: u8, v: &[LocalVarTarget]| -> R<Target> { Ok(Target::Vars(k, v.iter().map(|x| Ok((lab(x.start)?, lab(x.end)?, x.idx))).collect::<R<_>>()?)) };
    v.iter().map(|t| tannot(match &t.target {
        T::LocalVariable(v) => vars(0x40, v)?, T::ResourceVariable(v) => vars(0x41, v)?,
        T::CatchParameter(c) => Target::Catch(catches.iter().position(|x| x == c).ok_or("catch target not in the table")? as u16),
        T::InstanceOf(l) => Target::Pos(0x43, lab(*l)?, None), T::Constructor(l) => Target::Pos(0x44, lab(*l)?, None),
        T::ConstructorRef(l) => Target::Pos(0x45, lab(*l)?, None), T::MethodRef(l) => Target::Pos(0x46, lab(*l)?, None),
        T::Cast(l, a) => Target::Pos(0x47, lab(*l)?, Some(*a)), T::GenericConstructor(l, a) => Target::Pos(0x48, lab(*l)?, Some(*a)),
        T::GenericMethod(l, a) => Target::Pos(0x49, lab(*l)?, Some(*a)), T::GenericConstructorRef(l, a) => Target::Pos(0x4A, lab(*l)?, Some(*a)),
        T::GenericMethodRef(l, a) => Target::Pos(0x4B, lab(*l)?, Some(*a)),
    }, &t.type_path, &t.annotation_type, &t.element_values)).collect()
}

fn class_name(x: &ClassType) -> R<JStr> {
    match x {
        ClassType::Object(s) => { let s = j(s)?; if s.starts(b'[') { return Err(format!("class type object named {s:?}")) } Ok(s) }
        ClassType::Array(n, t) => d(&Type::ArrayRef(*n, Box::new(t.clone()))),
    }
}

pub fn code(c: &Code) -> R<m::Code> {
    let mut at: BTreeMap<u32, usize> = BTreeMap::new();
    let mut n = 0;
    for i in &c.code {
        if let Instruction::Label(l) = i { at.insert(l.0, n); }
        if !ops::is_empty(i) { n += 1 }
    }
    let lab = |l: Label| -> R<usize> { at.get(&l.0).copied().ok_or_else(|| format!("label {} is not in the code", l.0)) };
    let mut insns = vec![];
    let mut lines = vec![];
    for i in &c.code {
        if let Instruction::LineNumber(l) = i { lines.push((insns.len(), *l)) }
        if ops::is_empty(i) { continue }
        insns.push(match i {
            Instruction::Push(x) => Insn::Push(cst(x, 0)?),
            Instruction::LocalVariable(ls, t, ix) => {
                let t = match t { LocalType::Int => 0, LocalType::Long => 1, LocalType::Float => 2, LocalType::Double => 3, LocalType::Reference => 4 };
                Insn::Local(t + if *ls == LoadOrStore::Load { 0x15 } else { 0x36 }, *ix)
            }
            Instruction::IntIncrement(a, b) => Insn::IInc(*a, *b),
            Instruction::Ret(a) => Insn::Ret(*a),
            Instruction::Jsr(l) => Insn::Jump(0xA8, lab(*l)?),
            Instruction::Jump(c, l) => Insn::Jump(ops::cond_op(*c), lab(*l)?),
            Instruction::TableSwitch { default, low, offsets } => Insn::TSwitch { def: lab(*default)?, low: *low, to: offsets.iter().map(|l| lab(*l)).collect::<R<_>>()? },
            Instruction::LookupSwitch { default, table } => Insn::LSwitch { def: lab(*default)?, to: table.iter().map(|(k, l)| Ok((*k, lab(*l)?))).collect::<R<_>>()? },
            Instruction::Field(g, s, x) => {
                let o = match (g, s) { (GetOrPut::Get, MemberType::Static) => 0xB2, (GetOrPut::Put, MemberType::Static) => 0xB3, (GetOrPut::Get, MemberType::Virtual) => 0xB4, (GetOrPut::Put, MemberType::Virtual) => 0xB5 };
                either(x, o, 0, |x| Ok(Insn::Field(o, member(x)?)))?
            }
            Instruction::InvokeExact(MemberType::Virtual, x) => either(x, 0xB6, 0, |x| Ok(Insn::Invoke(0xB6, member(x)?, 0)))?,
            Instruction::InvokeExact(MemberType::Static, x) => either(x, 0xB8, 0, |x| Ok(Insn::Invoke(0xB8, member(x)?, 0)))?,
            Instruction::InvokeSpecial(x) => either(x, 0xB7, 0, |x| Ok(Insn::Invoke(0xB7, member(x)?, 0)))?,
            Instruction::InvokeInterface(x, k) => either(x, 0xB9, *k, |x| Ok(Insn::Invoke(0xB9, member(x)?, *k)))?,
            Instruction::InvokeDynamic(x) => Insn::InvokeDyn(dynamic(x, 0)?),
            Instruction::New(x) => either(x, 0xBB, 0, |s| Ok(Insn::New(j(s)?)))?,
            Instruction::NewArray(x, 1) => either(x, 0xBD, 0, |t| { let mut v = vec![b'[' as u16]; v.extend(d(t)?.0); Ok(Insn::NewArray(JStr(v), 1)) })?,
            Instruction::NewArray(x, k) => either(x, 0xC5, *k, |t| Ok(Insn::NewArray(d(t)?, *k)))?,
            Instruction::CheckCast(x) => either(x, 0xC0, 0, |x| Ok(Insn::CheckCast(class_name(x)?)))?,
            Instruction::InstanceOf(x) => either(x, 0xC1, 0, |x| Ok(Insn::InstanceOf(class_name(x)?)))?,
            i => Insn::Op(ops::opcode(i).ok_or_else(|| format!("instruction {i:?} has no meaning"))?),
        })
    }
    let catches = c.catches.iter().map(|x| Ok((lab(x.start)?, lab(x.end)?, lab(x.handler)?, oj(&x.catch)?))).collect::<R<_>>()?;
    let mut attrs = vec![];
    let mut lvars = vec![];
    for a in &c.attrs {
        match a {
            CodeAttribute::VisibleTypeAnnotations(v) => attrs.push(Attr::TypeAnnots(true, code_tannots(v, &lab, &c.catches)?)),
            CodeAttribute::InvisibleTypeAnnotations(v) => attrs.push(Attr::TypeAnnots(false, code_tannots(v, &lab, &c.catches)?)),
            CodeAttribute::Raw(r) => attrs.push(Attr::Raw(j(&r.name)?, r.inner.to_vec())),
            CodeAttribute::LocalVariables(v) => for x in v {
                lvars.push(m::LVar { start: lab(x.start)?, end: lab(x.end)?, name: j(&x.name)?, index: x.index, desc: x.descriptor.as_ref().map(d).transpose()?, sig: x.signature.as_ref().map(text::field_sig_text) })
            },
        }
    }
    Ok(m::Code { max_stack: c.max_stack, max_locals: c.max_locals, insns, catches, lines, lvars, attrs })
}

/// Reads the private fields of a MethodParameter through its own writer.
#[derive(Default)]
struct Rec(Vec<RawConstantEntry>);
impl ConstantPoolWriter for Rec {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 { self.0.push(v); self.0.len() as u16 }
    fn insert_bsm(&mut self, _: BootstrapMethod) -> u16 { 0 }
}
fn param(p: &MethodParameter) -> R<(Option<JStr>, u16)> {
    let mut r = Rec::default();
    let mut b = vec![];
    p.write_to(&mut r, &mut b).map_err(|e| format!("{e:?}"))?;
    if b.len() != 4 { return Err(format!("method parameter written as {b:?}")) }
    let i = u16::from_be_bytes([b[0], b[1]]);
    let name = if i == 0 { None } else {
        match r.0.get(i as usize - 1) { Some(RawConstantEntry::WTF8(s)) => Some(j(s)?), o => return Err(format!("method parameter name {o:?}")) }
    };
    Ok((name, u16::from_be_bytes([b[2], b[3]])))
}

fn raw(r: &RawAttribute) -> R<Attr> { Ok(Attr::Raw(j(&r.name)?, r.inner.to_vec())) }

pub fn class(c: &Class) -> R<m::Class> {
    let fields = c.fields.iter().map(|f| Ok(m::MemberDecl { flags: flags::field_bits(f.access), name: j(&f.name)?, desc: d(&f.descriptor)?, attrs: f.attrs.iter().map(|a| {
        use FieldAttribute as A;
        Ok(match a {
            A::Synthetic => Attr::Synthetic, A::Deprecated => Attr::Deprecated, A::Signature(s) => Attr::Signature(text::field_sig_text(s)),
            A::ConstantValue(c) => Attr::ConstantValue(constant(c)?),
            A::RuntimeVisibleAnnotations(v) => Attr::Annots(true, annots(v)?), A::RuntimeInvisibleAnnotations(v) => Attr::Annots(false, annots(v)?),
            A::RuntimeVisibleTypeAnnotations(v) => Attr::TypeAnnots(true, field_tannots(v)?), A::RuntimeInvisibleTypeAnnotations(v) => Attr::TypeAnnots(false, field_tannots(v)?),
            A::Raw(r) => raw(r)?,
        })
    }).collect::<R<_>>()? })).collect::<R<_>>()?;
    let methods = c.methods.iter().map(|f| Ok(m::MemberDecl { flags: flags::method_bits(f.access), name: j(&f.name)?, desc: d(&f.descriptor)?, attrs: f.attributes.iter().map(|a| {
        use MethodAttribute as A;
        Ok(match a {
            A::Code(c) => Attr::Code(Box::new(code(c)?)),
            A::Synthetic => Attr::Synthetic, A::Deprecated => Attr::Deprecated, A::Signature(s) => Attr::Signature(text::method_sig_text(s)),
            A::RuntimeVisibleAnnotations(v) => Attr::Annots(true, annots(v)?), A::RuntimeInvisibleAnnotations(v) => Attr::Annots(false, annots(v)?),
            A::RuntimeVisibleTypeAnnotations(v) => Attr::TypeAnnots(true, method_tannots(v)?), A::RuntimeInvisibleTypeAnnotations(v) => Attr::TypeAnnots(false, method_tannots(v)?),
            A::RuntimeVisibleParameterAnnotations(v) => Attr::ParamAnnots(true, v.iter().map(|p| annots(p)).collect::<R<_>>()?),
            A::RuntimeInvisibleParameterAnnotations(v) => Attr::ParamAnnots(false, v.iter().map(|p| annots(p)).collect::<R<_>>()?),
            A::Exceptions(v) => Attr::Exceptions(js(v)?), A::AnnotationDefault(v) => Attr::AnnotDefault(val(v)?),
            A::MethodParameters(v) => Attr::MethodParams(v.iter().map(param).collect::<R<_>>()?),
            A::Raw(r) => raw(r)?,
        })
    }).collect::<R<_>>()? })).collect::<R<_>>()?;
    let attrs = c.attributes.iter().map(|a| {
        use ClassAttribute as A;
        Ok(match a {
            A::Synthetic => Attr::Synthetic, A::Deprecated => Attr::Deprecated, A::Signature(s) => Attr::Signature(text::class_sig_text(s)),
            A::SourceFile(s) => Attr::SourceFile(j(s)?),
            A::InnerClasses(v) => Attr::InnerClasses(v.iter().map(|i| Ok(m::Inner { inner: j(&i.inner_fqname)?, outer: oj(&i.outer_fqname)?, name: oj(&i.inner_name)?, flags: flags::inner_bits(i.inner_access) })).collect::<R<_>>()?),
            A::EnclosingMethod(c, nt) => Attr::EnclosingMethod(j(c)?, match nt { Some((n, t)) => Some((j(n)?, d(t)?)), None => None }),
            A::SourceDebugExtension(s) => Attr::SourceDebug(j(&s.0)?),
            A::BootstrapMethods(v) => Attr::Bootstrap(v.iter().map(|b| bsm(b, 0)).collect::<R<_>>()?),
            A::Module(x) => Attr::Module(m::Module {
                name: j(&x.name)?, flags: flags::module_bits(x.flags), version: oj(&x.version)?,
                requires: x.requires.iter().map(|r| Ok((j(&r.module)?, flags::require_bits(r.flags), oj(&r.version)?))).collect::<R<_>>()?,
                exports: x.exports.iter().map(|r| Ok((j(&r.package)?, flags::exop_bits(r.flags), js(&r.to)?))).collect::<R<_>>()?,
                opens: x.opens.iter().map(|r| Ok((j(&r.package)?, flags::exop_bits(r.flags), js(&r.to)?))).collect::<R<_>>()?,
                uses: js(&x.uses)?,
                provides: x.provides.iter().map(|r| Ok((j(&r.class)?, js(&r.with)?))).collect::<R<_>>()?,
            }),
            A::ModulePackages(v) => Attr::ModulePackages(js(v)?), A::ModuleMainClass(s) => Attr::ModuleMainClass(j(s)?),
            A::NestHost(s) => Attr::NestHost(j(s)?), A::NestMembers(v) => Attr::NestMembers(js(v)?),
            A::RuntimeVisibleAnnotations(v) => Attr::Annots(true, annots(v)?), A::RuntimeInvisibleAnnotations(v) => Attr::Annots(false, annots(v)?),
            A::RuntimeVisibleTypeAnnotations(v) => Attr::TypeAnnots(true, class_tannots(v)?), A::RuntimeInvisibleTypeAnnotations(v) => Attr::TypeAnnots(false, class_tannots(v)?),
            A::Raw(r) => raw(r)?,
        })
    }).collect::<R<_>>()?;
    Ok(m::Class {
        minor: c.version.minor, major: major(c.version.major), flags: flags::class_bits(c.access), name: j(&c.name)?, sup: oj(&c.super_name)?, itfs: js(&c.interfaces)?,
        fields, methods, attrs,
    })
}
