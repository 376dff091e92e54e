//! C20: parts of a class through constant pools and streams of the
//! caller's own. The pool is part of the environment: it numbers and shares entries as drawn.
use crate::gen;
use crate::model::{self, Attr};
use crate::scen;
use crate::sim::*;
use crate::stream::*;
use crate::tape::Rng;
use coffer::annotation::{Annotation, AnnotationValue, CodeTypeAnnotation, CodeTypeAnnotationTarget, ParameterAnnotations};
use coffer::attr::ClassAttribute;
use coffer::clazz::Class;
use coffer::cp::{MapCp, RawConstantEntry, VecCp};
use coffer::prelude::{BootstrapMethod, Catch, CodeAttribute, Constant, Dynamic, Field, FieldAttribute, InnerClass, Instruction, Label, MemberRef, Method, MethodAttribute, MethodHandle, Module, OrDynamic, Provide, RawFrame, Require, Export, Open, Type, VerificationType};
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
use once_cell::sync::OnceCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::sync::Arc;

#[derive(Clone)]
pub struct Pool {
    entries: BTreeMap<u16, RawConstantEntry>,
    known: HashMap<RawConstantEntry, u16>,
    rows: BTreeMap<u16, BootstrapMethod>,
    /// how new entries are numbered
    style: usize,
    /// per mille of equal entries that are shared
    share: u64,
    rng: Rng,
    last: u16,
    full: bool,
    catches: Vec<Catch>,
}
impl Pool {
    fn new(style: usize, share: u64, seed: u64) -> Pool {
        Pool { entries: BTreeMap::new(), known: HashMap::new(), rows: BTreeMap::new(), style, share, rng: Rng::new(seed), last: match style { 1 => 0, 3 => 230, _ => 0 }, full: false, catches: vec![] }
    }
    fn free(&mut self) -> u16 {
        let mut i = match self.style {
            0 | 3 | 6 => self.last.wrapping_add(1),
            1 => self.last.wrapping_sub(1),
            2 => self.rng.next() as u16,
            // next to round numbers
            5 => { let r = self.rng.next(); let k = 1u16 << (r % 8 + 8); ((r >> 8) as u16 / k).wrapping_mul(k).wrapping_add((r >> 32) as u16 % 3).wrapping_sub((r >> 33 & 1) as u16) }
            _ => self.last.wrapping_add(257),
        };
        while i == 0 || self.entries.contains_key(&i) { i = if self.style == 1 { i.wrapping_sub(1) } else { i.wrapping_add(1) } }
        self.last = i;
        i
    }
}
impl ConstantPoolWriter for Pool {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        if let Some(i) = self.known.get(&v) { if self.rng.next() % 1000 < self.share || self.entries.len() > 60000 { return *i } }
        if self.entries.len() > 65000 { self.full = true; return 0 }
        let i = self.free();
        // as in a file: the large ones take two numbers
        if self.style == 6 && matches!(v, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { self.last = i.wrapping_add(1) }
        self.entries.insert(i, v.clone());
        self.known.insert(v, i);
        i
    }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 {
        if self.rng.next() % 1000 < self.share { if let Some((i, _)) = self.rows.iter().find(|(_, x)| **x == b) { return *i } }
        if self.rows.len() > 60000 { self.full = true; return 0 }
        let mut i = if matches!(self.style, 0 | 6) { self.rows.len() as u16 } else { self.rng.next() as u16 };
        while self.rows.contains_key(&i) { i = i.wrapping_add(1) }
        self.rows.insert(i, b);
        i
    }
    // labels outside of a body are what the caller makes of them
    fn label(&mut self, l: &Label) -> coffer::Result<u16> { Ok(l.0 as u16) }
    fn catch(&mut self, c: &Catch) -> Option<u16> { Some(self.catches.iter().position(|x| x == c).unwrap_or_else(|| { self.catches.push(c.clone()); self.catches.len() - 1 }) as u16) }
}
impl ConstantPoolReader for Pool {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> { self.entries.get(&i).cloned() }
    fn resolve_later(&mut self, i: u16, cell: Arc<OnceCell<BootstrapMethod>>) { if let Some(b) = self.rows.get(&i) { let _ = cell.set(b.clone()); } }
    fn bootstrap_methods(&mut self, _: &[BootstrapMethod]) -> coffer::Result<()> { Ok(()) }
    fn get_label(&mut self, i: u32) -> Label { Label(i) }
    fn get_catch(&mut self, i: u16) -> Option<Catch> { self.catches.get(i as usize).cloned() }
}

type Text = std::borrow::Cow<'static, wtf_8::Wtf8Str>;
macro_rules! parts {
    ($($v:ident $t:ty, $name:literal;)*) => {
        #[derive(Clone, PartialEq)]
        enum Part { $($v($t)),* }
        impl Part {
            fn write<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, w: &mut W) -> Result<(), Error> {
                match self { $(Part::$v(x) => <$t as ConstantPoolReadWrite>::write_to(x, cp, w)),* }
            }
            fn read<C: ConstantPoolReader, R: Read>(&self, cp: &mut C, r: &mut R) -> Result<Part, Error> {
                Ok(match self { $(Part::$v(_) => Part::$v(<$t as ConstantPoolReadWrite>::read_from(cp, r)?)),* })
            }
            fn name(&self) -> &'static str { match self { $(Part::$v(_) => $name),* } }
        }
    };
}
parts! {
    F Field, "field"; M Method, "method"; A ClassAttribute, "class attribute";
    Fa FieldAttribute, "field attribute"; Ma MethodAttribute, "method attribute"; An Annotation, "annotation"; Av AnnotationValue, "annotation value"; Pa ParameterAnnotations, "parameter annotations";
    Row BootstrapMethod, "bootstrap method"; Han MethodHandle, "method handle"; Mem MemberRef, "member reference"; Con Constant, "constant"; Ty Type, "type"; Str Text, "string"; Opt Option<Text>, "optional string";
    Inn InnerClass, "inner class"; Mo Module, "module"; Req Require, "requirement"; Exp Export, "export"; Ope Open, "opening"; Pro Provide, "provision"; Nt Option<(Text, Type)>, "name and type";
    Fra RawFrame, "frame"; Ver VerificationType, "verification type"; Cta CodeTypeAnnotation, "code type annotation";
}
impl Part {
    /// Whether it needs labels, which only pools of the caller have.
    fn labelled(&self) -> bool { matches!(self, Part::Fra(_) | Part::Ver(_) | Part::Cta(_)) }
}

fn member(m: &MemberRef) -> MemberRef { let mut m = m.clone(); if !m.descriptor.is_method() { m.itfs = false } m }
fn constant(c: &Constant) -> Constant {
    match c { Constant::Member(m) => Constant::Member(member(m)), Constant::MethodHandle(h) => Constant::MethodHandle(handle(h)), c => c.clone() }
}
fn handle(h: &MethodHandle) -> MethodHandle { MethodHandle { kind: h.kind, member: member(&h.member) } }
/// The same annotation with labels that stand for offsets.
fn numbered(a: &CodeTypeAnnotation) -> CodeTypeAnnotation {
    use CodeTypeAnnotationTarget::*;
    let mut a = a.clone();
    match &mut a.target {
        LocalVariable(v) | ResourceVariable(v) => for r in v { let (x, y) = (r.start.0.wrapping_mul(40503) & 0xFFFF, r.end.0.wrapping_mul(30011) & 0xFFFF); r.start = Label(x.min(y)); r.end = Label(x.max(y)) },
        CatchParameter(_) => {}
        InstanceOf(l) | Constructor(l) | ConstructorRef(l) | MethodRef(l) | Cast(l, _) | GenericConstructor(l, _) | GenericMethod(l, _) | GenericConstructorRef(l, _) | GenericMethodRef(l, _) => l.0 = l.0.wrapping_mul(40503) & 0xFFFF,
    }
    a
}
/// The smaller parts a class is made of.
fn pieces(c: &Class) -> Vec<Part> {
    let mut v = vec![];
    fn value(v: &mut Vec<Part>, x: &AnnotationValue) {
        v.push(Part::Av(x.clone()));
        match x { AnnotationValue::Annotation(a) => annot(v, a), AnnotationValue::Array(a) => for x in a.iter().take(3) { value(v, x) }, AnnotationValue::Enum(t, n) => { v.push(Part::Ty(t.clone())); v.push(Part::Str(n.clone())) } _ => {} }
    }
    fn annot(v: &mut Vec<Part>, a: &Annotation) {
        v.push(Part::An(a.clone()));
        // in the order of the names: the map's own differs from run to run
        let mut e: Vec<_> = a.element_values.iter().collect();
        e.sort_by(|a, b| a.0.cmp(b.0));
        for (_, x) in e.into_iter().take(4) { value(v, x) }
    }
    fn cst(v: &mut Vec<Part>, x: &Constant) {
        v.push(Part::Con(constant(x)));
        match x { Constant::MethodHandle(h) => { if h.check().is_ok() { v.push(Part::Han(handle(h))) } v.push(Part::Mem(member(&h.member))) } Constant::Member(m) => v.push(Part::Mem(member(m))), Constant::MethodType(t) => v.push(Part::Ty(t.clone())), Constant::String(s) => v.push(Part::Str(s.clone())), _ => {} }
    }
    fn plain(b: &BootstrapMethod) -> bool {
        let m = |m: &MemberRef| m.descriptor.is_method() || !m.itfs;
        m(&b.handle.member) && b.arguments.iter().all(|x| match x { OrDynamic::Static(Constant::Member(x)) => m(x), OrDynamic::Static(Constant::MethodHandle(h)) => m(&h.member), OrDynamic::Dynamic(d) => plain(d.get_bsm()), _ => true })
    }
    fn dynamic(v: &mut Vec<Part>, d: &Dynamic) { if plain(d.get_bsm()) { v.push(Part::Row(d.get_bsm().clone())) } v.push(Part::Ty(d.descriptor.clone())); v.push(Part::Nt(Some((d.name.clone(), d.descriptor.clone())))) }
    for f in &c.fields {
        v.push(Part::Ty(f.descriptor.clone()));
        v.push(Part::Opt(Some(f.name.clone())));
        for a in &f.attrs {
            match a { FieldAttribute::ConstantValue(x) => cst(&mut v, x), FieldAttribute::RuntimeVisibleAnnotations(x) | FieldAttribute::RuntimeInvisibleAnnotations(x) => x.iter().for_each(|a| annot(&mut v, a)), _ => {} }
            if !matches!(a, FieldAttribute::ConstantValue(_)) { v.push(Part::Fa(a.clone())) }
        }
    }
    for m in &c.methods {
        v.push(Part::Ty(m.descriptor.clone()));
        for a in &m.attributes {
            match a {
                MethodAttribute::Code(k) => {
                    for i in &k.code {
                        match i {
                            Instruction::Push(OrDynamic::Static(x)) => cst(&mut v, x),
                            Instruction::Push(OrDynamic::Dynamic(d)) | Instruction::InvokeDynamic(d) => dynamic(&mut v, d),
                            Instruction::Field(_, _, OrDynamic::Static(m)) | Instruction::InvokeExact(_, OrDynamic::Static(m)) | Instruction::InvokeSpecial(OrDynamic::Static(m)) => v.push(Part::Mem(member(m))),
                            _ => {}
                        }
                    }
                    for a in &k.attrs {
                        if let CodeAttribute::VisibleTypeAnnotations(x) | CodeAttribute::InvisibleTypeAnnotations(x) = a { v.extend(x.iter().map(|a| Part::Cta(numbered(a)))) }
                    }
                    continue
                }
                MethodAttribute::RuntimeVisibleAnnotations(x) | MethodAttribute::RuntimeInvisibleAnnotations(x) => x.iter().for_each(|a| annot(&mut v, a)),
                MethodAttribute::RuntimeVisibleParameterAnnotations(x) | MethodAttribute::RuntimeInvisibleParameterAnnotations(x) => x.iter().for_each(|a| { v.push(Part::Pa(a.clone())); a.iter().for_each(|a| annot(&mut v, a)) }),
                MethodAttribute::AnnotationDefault(x) => value(&mut v, x),
                _ => {}
            }
            v.push(Part::Ma(a.clone()))
        }
    }
    for a in &c.attributes {
        match a {
            ClassAttribute::InnerClasses(x) => x.iter().for_each(|x| { v.push(Part::Inn(x.clone())); v.push(Part::Opt(x.inner_name.clone())) }),
            ClassAttribute::EnclosingMethod(_, x) => v.push(Part::Nt(x.clone())),
            ClassAttribute::BootstrapMethods(x) => x.iter().for_each(|b| { if plain(b) { v.push(Part::Row(b.clone())) } for a in &b.arguments { match a { OrDynamic::Static(x) => cst(&mut v, x), OrDynamic::Dynamic(d) => dynamic(&mut v, d) } } }),
            ClassAttribute::Module(m) => {
                v.push(Part::Mo(m.clone()));
                v.extend(m.requires.iter().cloned().map(Part::Req));
                v.extend(m.exports.iter().cloned().map(Part::Exp));
                v.extend(m.opens.iter().cloned().map(Part::Ope));
                v.extend(m.provides.iter().cloned().map(Part::Pro));
            }
            ClassAttribute::RuntimeVisibleAnnotations(x) | ClassAttribute::RuntimeInvisibleAnnotations(x) => x.iter().for_each(|a| annot(&mut v, a)),
            _ => {}
        }
    }
    v
}
fn verification(s: &mut Sim) -> VerificationType {
    use VerificationType::*;
    match s.t.n(9) { 0 => Top, 1 => Int, 2 => Float, 3 => Long, 4 => Double, 5 => Null, 6 => UninitializedThis, 7 => Object(Text::Borrowed(wtf_8::Wtf8Str::new(*s.t.pick(&["a/B", "[I", "[[La/B;", "java/lang/Object"])))), _ => UninitializedVariable(Label(offset(s) as u32)) }
}
fn offset(s: &mut Sim) -> u16 { match s.t.n(4) { 0 => s.t.n(64) as u16, 1 => *s.t.pick(&[0, 62, 63, 64, 65, 127, 128, 246, 247, 251, 255, 256, 0x7FFF, 0x8000, 0xFFFF]), 2 => s.t.n(400) as u16, _ => s.t.u16() } }
fn verifications(s: &mut Sim, least: usize, most: usize) -> Vec<VerificationType> { let n = s.t.range(least, most); (0..n).map(|_| verification(s)).collect() }
fn frame(s: &mut Sim) -> RawFrame {
    let o = offset(s);
    match s.t.n(5) {
        0 => RawFrame::Same(o),
        1 => RawFrame::SameLocalsOneStack(o, verification(s)),
        2 => RawFrame::Chop(o, s.t.range(1, 3) as u8),
        3 => RawFrame::Append(o, verifications(s, 1, 3)),
        _ => { let (a, b) = if s.t.chance(1, 12) { (0, 300) } else { (0, 5) }; RawFrame::Full(o, verifications(s, a, b), verifications(s, 0, 4)) }
    }
}

/// Writes all the parts; how far that came, and the error if there was one.
fn write_all<C: ConstantPoolWriter>(parts: &[(usize, Part)], cp: &mut C, w: &mut Writer, plan: Plan) -> Result<(Vec<usize>, Option<Error>), Viol> {
    let mut ends = vec![];
    for (_, p) in parts {
        let r = guard("writing a part", || p.write(cp, w));
        match unwound(r, plan, w.failed)? { Ok(()) => ends.push(w.out.len()), Err(e) => return Ok((ends, Some(e))) }
    }
    Ok((ends, None))
}
fn read_all<C: ConstantPoolReader>(parts: &[(usize, Part)], cp: &mut C, r: &mut Reader, plan: Plan, base: usize, ends: &[usize]) -> Result<(Vec<(usize, Part)>, Option<Error>), Viol> {
    let mut got = vec![];
    for (k, (i, p)) in parts.iter().enumerate() {
        let x = guard("reading a part", || p.read(cp, r));
        match unwound(x, plan, r.failed)? {
            Ok(x) => got.push((*i, x)),
            Err(e) => {
                if r.failed.is_none() && r.pos > base + ends[k] { return viol("overread", format!("the {} ends at byte {}, its refusal took {}", p.name(), base + ends[k], r.pos)) }
                return Ok((got, Some(e)))
            }
        }
        if r.pos != base + ends[k] { return viol("position", format!("the {} ends at byte {}, reading it ended at {}", p.name(), base + ends[k], r.pos)) }
    }
    Ok((got, None))
}

/// The arguments of a bootstrap method and of those it depends on, up to a limit.
fn flat(b: &BootstrapMethod, most: usize) -> usize {
    let mut n = b.arguments.len() + 1;
    for a in &b.arguments { if n >= most { break } if let OrDynamic::Dynamic(d) = a { n += flat(d.get_bsm(), most - n) } }
    n
}

pub fn run(s: &mut Sim) -> Check {
    let p = *s.t.pick(&[gen::SMALL, gen::CODE, gen::RICH, gen::DYNS, gen::SMALL, gen::RICH]);
    let m = scen::subject(s, p);
    let c = scen::built(s, &m)?;
    // every member and attribute, in any order
    let mut parts: Vec<(usize, Part)> = vec![];
    parts.extend(c.fields.iter().cloned().map(Part::F).enumerate());
    parts.extend(c.methods.iter().cloned().map(Part::M).enumerate());
    parts.extend(c.attributes.iter().cloned().map(Part::A).enumerate());
    for i in (1..parts.len()).rev() { let j = s.t.n(i + 1); parts.swap(i, j) }
    // the library's own pools have no labels
    let listed = m.attrs.iter().any(|a| matches!(a, Attr::Bootstrap(_)));
    let library = !listed && model::bound(&m, &[]).is_empty() && s.t.chance(1, 3);
    let mapped = !library && s.t.chance(1, 4);
    // what the parts are made of, and frames
    if s.t.chance(1, 2) {
        let mut small = pieces(&c);
        let most = *s.t.pick(&[8, 30, 200]);
        while small.len() > most { let i = s.t.n(small.len()); small.swap_remove(i); }
        for _ in 0..s.t.n(8) { small.push(if s.t.chance(1, 4) { Part::Ver(verification(s)) } else { Part::Fra(frame(s)) }) }
        small.retain(|p| !p.labelled() || !(library || mapped));
        for p in small { let i = s.t.n(parts.len() + 1); bump(&format!("probe:{} alone", p.name()), 1); parts.insert(i, (usize::MAX, p)) }
    }
    let assemble = |got: Vec<(usize, Part)>| {
        let mut got = got;
        got.sort_by_key(|x| x.0);
        let mut k = c.clone();
        k.fields.clear(); k.methods.clear(); k.attributes.clear();
        for (_, p) in got { match p { Part::F(x) => k.fields.push(x), Part::M(x) => k.methods.push(x), Part::A(x) => k.attributes.push(x), _ => {} } }
        k
    };
    let compare = |what: &str, got: Vec<(usize, Part)>| -> Check {
        for ((_, a), (i, b)) in parts.iter().zip(&got) { if *i == usize::MAX && a != b { return viol("changed", format!("{what}: a {} reads back as another", a.name())) } }
        match view_canon(&assemble(got))? {
            Ok(v) if v == m => Ok(()),
            Ok(v) => viol("changed", format!("{what}: {}", model::diff(&m, &v))),
            Err(e) => viol("unreadable", format!("{what}: {e}")),
        }
    };
    // the library's own pools, where nothing refers to a bootstrap method
    if library {
        let mut cp = VecCp::new();
        let mut mem = Writer::new(WHOLE);
        let (ends, e) = write_all(&parts, &mut cp, &mut mem, WHOLE)?;
        if let Some(e) = e { return viol("refused", format!("parts of a sound class are refused: {e:?}")) }
        let plan = Plan::draw(&mut s.t);
        let mut w = Writer::new(plan);
        if let Err(e) = guard("writing the pool", || cp.write_to(&mut w))? { return viol("refused", format!("the pool is refused: {e:?}")) }
        s.saw(w.log.0);
        let base = w.out.len();
        let mut file = std::mem::take(&mut w.out);
        file.extend(&mem.out);
        file.extend([0xAA; 9]);
        s.sig.u(scen::fp(&file));
        s.nontrivial = true;
        bump("probe:parts through the library's pools", parts.len() as u64);
        let plan = Plan::draw(&mut s.t);
        s.note(format!("{} parts, library pools, {} bytes", parts.len(), file.len()));
        let mut r = Reader::new(&file, plan);
        let mut cp = match guard("reading the pool", || MapCp::read_from(&mut r))? { Ok(cp) => cp, Err(e) => return viol("refused", format!("the pool does not read back: {e:?}")) };
        if r.pos != base { return viol("position", format!("the pool ends at byte {base}, reading it ended at {}", r.pos)) }
        let (got, e) = read_all(&parts, &mut cp, &mut r, plan, base, &ends)?;
        s.saw(r.log.0);
        if let Some(e) = e { return viol("refused", format!("a written part does not read back: {e:?}")) }
        return compare("library pools", got)
    }
    // a frame that does not fit its form is refused
    if !mapped && s.t.chance(1, 8) {
        let o = offset(s);
        let bad = match s.t.n(3) { 0 => RawFrame::Chop(o, *s.t.pick(&[0, 4, 5, 100, 250, 251, 255])), 1 => RawFrame::Append(o, verifications(s, 4, 9)), _ => RawFrame::Full(o, vec![VerificationType::Top; 65536 + s.t.n(3)], vec![]) };
        let mut w = Writer::new(WHOLE);
        if guard("writing a frame", || bad.write_to(&mut Pool::new(0, 1000, 1), &mut w))?.is_ok() { return viol("accepted", "a frame that its form cannot hold is written") }
    }
    let (style, share, seed) = (if mapped { 6 } else { s.t.n(6) }, *s.t.pick(&[1000, 1000, 900, 500, 0]), s.t.raw());
    let mut pool = Pool::new(style, share, seed);
    let mut mem = Writer::new(WHOLE);
    let (ends, e) = write_all(&parts, &mut pool, &mut mem, WHOLE)?;
    if pool.full { return Ok(()) }
    if let Some(e) = e { return viol("refused", format!("parts of a sound class are refused: {e:?}")) }
    let out = std::mem::take(&mut mem.out);
    let end = out.len();
    s.note(format!("{} parts of {end} bytes, numbering {style}, sharing {share}", parts.len()));
    s.sig.u(scen::fp(&out));
    s.nontrivial = !parts.is_empty();
    bump("probe:parts through a pool of the caller", parts.len() as u64);
    if parts.is_empty() { return Ok(()) }
    // as ever, and then under faults
    let tail = s.t.chance(1, 2);
    let mut file = out.clone();
    if tail { file.extend([0x55; 12]) }
    // the entries in the library's own reading pool, and the bootstrap methods given to it later
    if mapped {
        let rows: Vec<BootstrapMethod> = pool.rows.values().cloned().collect();
        let size: usize = rows.iter().map(|b| flat(b, 1 << 24)).fold(0, |a, n| a.saturating_add(n));
        if size.saturating_mul(end / 2) < 1 << 24 && pool.entries.len() < 30000 {
            let mut stored = (pool.last + 1).to_be_bytes().to_vec();
            for e in pool.entries.values() { if let Err(e) = guard("writing an entry", || e.write_to(&mut stored))? { return viol("refused", format!("a pool entry is refused: {e:?}")) } }
            let plan = Plan::draw(&mut s.t);
            let mut r = Reader::new(&stored, plan);
            let mut cp = match guard("reading the pool", || MapCp::read_from(&mut r))? { Ok(cp) => cp, Err(e) => return viol("refused", format!("the pool does not read back: {e:?}")) };
            let plan = Plan::draw(&mut s.t);
            let mut r = Reader::new(&file, plan);
            let (got, e) = read_all(&parts, &mut cp, &mut r, plan, 0, &ends)?;
            s.saw(r.log.0);
            if let Some(e) = e { return viol("refused", format!("a written part does not read back from a map: {e:?}")) }
            let lost = if rows.is_empty() || s.t.chance(2, 3) { 0 } else { s.t.range(1, rows.len()) };
            bump("probe:bootstrap methods given later", rows.len() as u64);
            match (guard("giving bootstrap methods", || cp.bootstrap_methods(&rows[..rows.len() - lost]))?, lost) {
                (Ok(()), 0) => compare("with bootstrap methods given later", got)?,
                (Err(e), 0) => return viol("refused", format!("{} bootstrap methods are refused: {e:?}", rows.len())),
                (Ok(()), _) => return viol("success", format!("{lost} of {} bootstrap methods are missing and that is not reported", rows.len())),
                (Err(_), _) => bump("bootstrap-rows-lost", 1),
            }
        }
    }
    let plan = Plan::draw(&mut s.t);
    let mut r = Reader::new(&file, plan);
    let (got, e) = read_all(&parts, &mut pool.clone(), &mut r, plan, 0, &ends)?;
    s.saw(r.log.0);
    if let Some(e) = e { return viol("refused", format!("a written part does not read back: {e:?}")) }
    // what was read can be written again, and gives the same
    if s.t.chance(1, 3) {
        let order: Vec<(usize, Part)> = got.clone();
        let mut again = Pool::new(s.t.n(6), *s.t.pick(&[1000, 700]), s.t.raw());
        let mut w = Writer::new(WHOLE);
        let (ends, e) = write_all(&order, &mut again, &mut w, WHOLE)?;
        if !again.full {
            if let Some(e) = e { return viol("refused", format!("a part that was read is refused: {e:?}")) }
            let mut r = Reader::new(&w.out, WHOLE);
            let (got, e) = read_all(&order, &mut again, &mut r, WHOLE, 0, &ends)?;
            if let Some(e) = e { return viol("refused", format!("a part written again does not read back: {e:?}")) }
            compare("second generation", got)?;
        }
    }
    compare("read back", got)?;
    for _ in 0..s.t.n(5) {
        let at = match s.t.n(3) { 0 => ends[s.t.n(ends.len())] - 1, 1 => s.t.n(end), _ => { let k = s.t.n(ends.len()); let from = if k == 0 { 0 } else { ends[k - 1] }; (from + s.t.n(12)).min(end - 1) } };
        let hit = ends.iter().position(|e| at < *e).unwrap();
        match s.t.n(4) {
            0 => {
                // the same writes to another stream
                let plan = Plan::draw(&mut s.t);
                let mut w = Writer::new(plan);
                let (_, e) = write_all(&parts, &mut Pool::new(style, share, seed), &mut w, plan)?;
                s.saw(w.log.0);
                if let Some(e) = e { return viol("refused", format!("parts are refused on a stream without a fault: {e:?}")) }
                if w.out != out { return viol("bytes", "the stream's portions change the bytes of a part") }
            }
            1 => {
                let f = draw_fault(&mut s.t);
                let plan = Plan::draw(&mut s.t).fail(at, f);
                s.note(format!("{} at byte {at} of {end}", fault_name(f, true)));
                let mut w = Writer::new(plan);
                let (done, e) = write_all(&parts, &mut Pool::new(style, share, seed), &mut w, plan)?;
                s.saw(w.log.0);
                if !out.starts_with(&w.out) { return viol("not-prefix", format!("{} at byte {at}: what was emitted is no prefix", fault_name(f, true))) }
                match e {
                    None => return viol("success", format!("{} at byte {at} of {end}, yet every part reports success", fault_name(f, true))),
                    Some(_) if done.len() != hit => return viol("success", format!("{} at byte {at} in part {hit}, yet {} parts report success", fault_name(f, true), done.len())),
                    Some(e) if !carries(&e, f, true) => return viol("wrong-error", format!("{} at byte {at}; reported as {e:?}", fault_name(f, true))),
                    _ => {}
                }
                if w.after > 0 { return viol("writes-on", format!("{} more writes after the failure", w.after)) }
            }
            2 => {
                let f = draw_fault(&mut s.t);
                let plan = Plan::draw(&mut s.t).fail(at, f);
                s.note(format!("{} at byte {at} of {end}", fault_name(f, false)));
                let mut r = Reader::new(&file, plan);
                let (got, e) = read_all(&parts, &mut pool.clone(), &mut r, plan, 0, &ends)?;
                s.saw(r.log.0);
                match e {
                    None => return viol("success", format!("{} at byte {at} of {end}, yet every part was read", fault_name(f, false))),
                    Some(_) if got.len() != hit => return viol("success", format!("{} at byte {at} in part {hit}, yet {} parts were read", fault_name(f, false), got.len())),
                    Some(e) if !carries(&e, f, false) => return viol("wrong-error", format!("{} at byte {at}; reported as {e:?}", fault_name(f, false))),
                    _ => {}
                }
                if r.after > 0 { return viol("reads-on", format!("{} more reads after the failure", r.after)) }
            }
            _ => {
                // the pool has lost an entry: the parts that need it cannot be read
                if pool.entries.is_empty() { continue }
                let k = s.t.n(pool.entries.len());
                let i = *pool.entries.keys().nth(k).unwrap();
                let mut less = pool.clone();
                less.entries.remove(&i);
                s.note(format!("entry {i} lost"));
                bump("pool-entry-lost", 1);
                let mut r = Reader::new(&file, WHOLE);
                let (got, e) = read_all(&parts, &mut less, &mut r, WHOLE, 0, &ends)?;
                if e.is_none() { compare("an entry was lost", got)? }
            }
        }
    }
    Ok(())
}
