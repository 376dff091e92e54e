//! Reference decoder: a strict class-file reader written from JVMS chapter 4. It refuses
//! anything that is not well formed, so success also certifies the bytes.
use crate::model::*;
use crate::mutf;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub enum E {
    Utf(JStr), Int(i32), Float(u32), Long(i64), Double(u64),
    Class(u16), Str(u16), Field(u16, u16), Method(u16, u16), IMethod(u16, u16), Nt(u16, u16),
    Handle(u8, u16), MType(u16), Dyn(u16, u16), Indy(u16, u16), Module(u16), Package(u16),
}

pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n { return Err(format!("unexpected end at {} (need {n})", self.p)) }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    fn u16(&mut self) -> R<u16> { let s = self.take(2)?; Ok(u16::from_be_bytes([s[0], s[1]])) }
    fn u32(&mut self) -> R<u32> { let s = self.take(4)?; Ok(u32::from_be_bytes(s.try_into().unwrap())) }
    fn u64(&mut self) -> R<u64> { let s = self.take(8)?; Ok(u64::from_be_bytes(s.try_into().unwrap())) }
}

pub struct Pool { pub e: Vec<Option<E>>, pub bsms: Option<Vec<(u16, Vec<u16>)>> }

impl Pool {
    fn get(&self, i: u16) -> R<&E> {
        self.e.get(i as usize).and_then(|x| x.as_ref()).ok_or_else(|| format!("pool index {i} is not an entry"))
    }
    pub fn utf(&self, i: u16) -> R<JStr> {
        match self.get(i)? { E::Utf(s) => Ok(s.clone()), o => Err(format!("pool {i}: expected Utf8, found {o:?}")) }
    }
    fn opt_utf(&self, i: u16) -> R<Option<JStr>> { if i == 0 { Ok(None) } else { self.utf(i).map(Some) } }
    pub fn class(&self, i: u16) -> R<JStr> {
        match self.get(i)? { E::Class(s) => self.utf(*s), o => Err(format!("pool {i}: expected Class, found {o:?}")) }
    }
    fn opt_class(&self, i: u16) -> R<Option<JStr>> { if i == 0 { Ok(None) } else { self.class(i).map(Some) } }
    fn module(&self, i: u16) -> R<JStr> {
        match self.get(i)? { E::Module(s) => self.utf(*s), o => Err(format!("pool {i}: expected Module, found {o:?}")) }
    }
    fn package(&self, i: u16) -> R<JStr> {
        match self.get(i)? { E::Package(s) => self.utf(*s), o => Err(format!("pool {i}: expected Package, found {o:?}")) }
    }
    fn nt(&self, i: u16) -> R<(JStr, JStr)> {
        match self.get(i)? { E::Nt(a, b) => Ok((self.utf(*a)?, self.utf(*b)?)), o => Err(format!("pool {i}: expected NameAndType, found {o:?}")) }
    }
    fn member(&self, i: u16) -> R<Member> {
        let (kind, o, n) = match self.get(i)? {
            E::Field(o, n) => (MKind::Field, *o, *n),
            E::Method(o, n) => (MKind::Method, *o, *n),
            E::IMethod(o, n) => (MKind::IMethod, *o, *n),
            o => return Err(format!("pool {i}: expected member reference, found {o:?}")),
        };
        let owner = self.class(o)?;
        let (name, desc) = self.nt(n)?;
        if desc.starts(b'(') == (kind == MKind::Field) { return Err(format!("pool {i}: {kind:?} with descriptor {desc:?}")) }
        Ok(Member { kind, owner, name, desc })
    }
    fn handle(&self, i: u16) -> R<Handle> {
        match self.get(i)? {
            E::Handle(k @ 1..=9, m) => Ok(Handle { kind: *k, member: self.member(*m)? }),
            o => Err(format!("pool {i}: expected MethodHandle, found {o:?}")),
        }
    }
    fn bsm(&self, i: u16, depth: u32) -> R<Bsm> {
        if depth > 900 { return Err("bootstrap methods nested too deeply or cyclic".into()) }
        let t = self.bsms.as_ref().ok_or("dynamic entry without BootstrapMethods")?;
        let (h, args) = t.get(i as usize).ok_or_else(|| format!("bootstrap index {i} of {}", t.len()))?;
        let mut a = vec![];
        for x in args { a.push(self.cst(*x, depth + 1)?) }
        Ok(Bsm { handle: self.handle(*h)?, args: a })
    }
    pub fn cst(&self, i: u16, depth: u32) -> R<Cst> {
        Ok(match self.get(i)? {
            E::Int(v) => Cst::Int(*v), E::Float(v) => Cst::Float(*v), E::Long(v) => Cst::Long(*v), E::Double(v) => Cst::Double(*v),
            E::Str(s) => Cst::Str(self.utf(*s)?), E::Class(s) => Cst::Class(self.utf(*s)?),
            E::MType(s) => Cst::MType(self.utf(*s)?), E::Handle(..) => Cst::MHandle(self.handle(i)?),
            E::Dyn(b, nt) => {
                let (name, desc) = self.nt(*nt)?;
                Cst::Dyn(Dyn { bsm: Box::new(self.bsm(*b, depth)?), name, desc })
            }
            o => return Err(format!("pool {i}: expected loadable constant, found {o:?}")),
        })
    }
    fn indy(&self, i: u16) -> R<Dyn> {
        match self.get(i)? {
            E::Indy(b, nt) => {
                let (name, desc) = self.nt(*nt)?;
                if !desc.starts(b'(') { return Err(format!("invokedynamic with descriptor {desc:?}")) }
                Ok(Dyn { bsm: Box::new(self.bsm(*b, 0)?), name, desc })
            }
            o => Err(format!("pool {i}: expected InvokeDynamic, found {o:?}")),
        }
    }
    fn int(&self, i: u16) -> R<i32> { match self.get(i)? { E::Int(v) => Ok(*v), o => Err(format!("pool {i}: expected Integer, found {o:?}")) } }
}

pub fn pool(r: &mut Rd) -> R<Pool> {
    let n = r.u16()?;
    if n == 0 { return Err("constant pool count 0".into()) }
    let mut e: Vec<Option<E>> = vec![None];
    while e.len() < n as usize {
        let at = e.len();
        let tag = r.u8()?;
        let x = match tag {
            1 => { let l = r.u16()?; let b = r.take(l as usize)?; E::Utf(mutf::decode(b).ok_or_else(|| format!("pool {at}: malformed modified UTF-8 {b:02x?}"))?) }
            3 => E::Int(r.u32()? as i32), 4 => E::Float(r.u32()?), 5 => E::Long(r.u64()? as i64), 6 => E::Double(r.u64()?),
            7 => E::Class(r.u16()?), 8 => E::Str(r.u16()?),
            9 => E::Field(r.u16()?, r.u16()?), 10 => E::Method(r.u16()?, r.u16()?), 11 => E::IMethod(r.u16()?, r.u16()?), 12 => E::Nt(r.u16()?, r.u16()?),
            15 => E::Handle(r.u8()?, r.u16()?), 16 => E::MType(r.u16()?), 17 => E::Dyn(r.u16()?, r.u16()?), 18 => E::Indy(r.u16()?, r.u16()?),
            19 => E::Module(r.u16()?), 20 => E::Package(r.u16()?),
            t => return Err(format!("pool {at}: tag {t}")),
        };
        let wide = matches!(x, E::Long(_) | E::Double(_));
        e.push(Some(x));
        if wide {
            if e.len() >= n as usize { return Err("two-slot constant past the end of the pool".into()) }
            e.push(None);
        }
    }
    Ok(Pool { e, bsms: None })
}

/// Checks that every pool entry refers to entries of the right kind.
fn check_pool(p: &Pool, strict: bool) -> R<()> {
    for (i, e) in p.e.iter().enumerate() {
        let Some(e) = e else { continue };
        let i = i as u16;
        match e {
            E::Class(s) | E::Str(s) | E::MType(s) | E::Module(s) | E::Package(s) => { p.utf(*s)?; }
            E::Field(..) | E::Method(..) | E::IMethod(..) => { p.member(i)?; }
            E::Nt(..) => { p.nt(i)?; }
            E::Handle(..) => { p.handle(i)?; }
            E::Dyn(b, nt) | E::Indy(b, nt) => {
                p.nt(*nt)?;
                if !strict { continue }
                let t = p.bsms.as_ref().ok_or("dynamic entry without BootstrapMethods")?;
                if *b as usize >= t.len() { return Err(format!("pool {i}: bootstrap index {b} of {}", t.len())) }
            }
            _ => {}
        }
    }
    Ok(())
}

fn aval(p: &Pool, r: &mut Rd, d: u32) -> R<AVal> {
    if d > 300 { return Err("annotation too deep".into()) }
    let tag = r.u8()?;
    Ok(match tag {
        b'B' | b'C' | b'I' | b'S' | b'Z' => AVal::Int(tag, p.int(r.u16()?)?),
        b'J' => match p.cst(r.u16()?, 0)? { Cst::Long(v) => AVal::Long(v), o => return Err(format!("J value {o:?}")) },
        b'F' => match p.cst(r.u16()?, 0)? { Cst::Float(v) => AVal::Float(v), o => return Err(format!("F value {o:?}")) },
        b'D' => match p.cst(r.u16()?, 0)? { Cst::Double(v) => AVal::Double(v), o => return Err(format!("D value {o:?}")) },
        b's' => AVal::Str(p.utf(r.u16()?)?),
        b'e' => AVal::Enum(p.utf(r.u16()?)?, p.utf(r.u16()?)?),
        b'c' => AVal::Class(p.utf(r.u16()?)?),
        b'@' => AVal::Annot(annot(p, r, d + 1)?),
        b'[' => { let n = r.u16()?; let mut v = vec![]; for _ in 0..n { v.push(aval(p, r, d + 1)?) } AVal::Array(v) }
        t => return Err(format!("element value tag {t}")),
    })
}
fn annot(p: &Pool, r: &mut Rd, d: u32) -> R<Annot> {
    let ty = p.utf(r.u16()?)?;
    annot_vals(p, r, ty, d)
}
fn annot_vals(p: &Pool, r: &mut Rd, ty: JStr, d: u32) -> R<Annot> {
    let n = r.u16()?;
    let mut vals = vec![];
    for _ in 0..n { vals.push((p.utf(r.u16()?)?, aval(p, r, d)?)) }
    Ok(Annot { ty, vals })
}
fn annots(p: &Pool, r: &mut Rd) -> R<Vec<Annot>> {
    let n = r.u16()?;
    (0..n).map(|_| annot(p, r, 0)).collect()
}

type PosMap = BTreeMap<usize, usize>;
fn pos(m: &PosMap, off: usize) -> R<usize> { m.get(&off).copied().ok_or_else(|| format!("code offset {off} is not an instruction")) }

fn tannots(p: &Pool, r: &mut Rd, place: Place, m: Option<&PosMap>, ncatch: usize) -> R<Vec<TAnnot>> {
    let n = r.u16()?;
    let mut out = vec![];
    for _ in 0..n {
        let t = r.u8()?;
        let ok = match place {
            Place::Class => matches!(t, 0x00 | 0x10 | 0x11),
            Place::Method => matches!(t, 0x01 | 0x12 | 0x14 | 0x15 | 0x16 | 0x17),
            Place::Field => t == 0x13,
            Place::Code => matches!(t, 0x40..=0x4B),
        };
        if !ok { return Err(format!("type annotation target {t:#x} in {place:?}")) }
        let target = match t {
            0x00 | 0x01 | 0x16 => Target::Plain(t, r.take(1)?.to_vec()),
            0x10 | 0x11 | 0x12 | 0x17 => Target::Plain(t, r.take(2)?.to_vec()),
            0x13 | 0x14 | 0x15 => Target::Plain(t, vec![]),
            0x40 | 0x41 => {
                let m = m.unwrap();
                let k = r.u16()?;
                let mut v = vec![];
                for _ in 0..k {
                    let (s, l, i) = (r.u16()? as usize, r.u16()? as usize, r.u16()?);
                    v.push((pos(m, s)?, pos(m, s + l)?, i));
                }
                Target::Vars(t, v)
            }
            0x42 => {
                let i = r.u16()?;
                if i as usize >= ncatch { return Err(format!("catch target {i} of {ncatch}")) }
                Target::Catch(i)
            }
            0x43..=0x46 => Target::Pos(t, pos(m.unwrap(), r.u16()? as usize)?, None),
            _ => { let o = pos(m.unwrap(), r.u16()? as usize)?; Target::Pos(t, o, Some(r.u8()?)) }
        };
        let k = r.u8()?;
        let mut path = vec![];
        for _ in 0..k {
            let (a, b) = (r.u8()?, r.u8()?);
            if a > 3 { return Err(format!("type path kind {a}")) }
            path.push((a, b));
        }
        let ty = p.utf(r.u16()?)?;
        out.push(TAnnot { target, path, annot: annot_vals(p, r, ty, 0)? });
    }
    Ok(out)
}

fn list<T>(r: &mut Rd, mut f: impl FnMut(&mut Rd) -> R<T>) -> R<Vec<T>> {
    let n = r.u16()?;
    (0..n).map(|_| f(r)).collect()
}

fn attrs(p: &Pool, r: &mut Rd, place: Place) -> R<Vec<Attr>> {
    let n = r.u16()?;
    let mut out = vec![];
    for _ in 0..n {
        let name = p.utf(r.u16()?)?;
        let len = r.u32()? as usize;
        let body = r.take(len)?;
        let mut b = Rd { b: body, p: 0 };
        let a = attr(p, &mut b, place, &name).map_err(|e| format!("{place:?} attribute {name:?}: {e}"))?;
        if b.p != body.len() { return Err(format!("{place:?} attribute {name:?}: {} bytes left of {len}", body.len() - b.p)) }
        out.push(a);
    }
    Ok(out)
}

fn attr(p: &Pool, b: &mut Rd, place: Place, name: &JStr) -> R<Attr> {
    use Place::*;
    let nm = name.utf().unwrap_or_default();
    let decl = place != Place::Code;
    Ok(match (nm.as_str(), place) {
        ("Synthetic", _) if decl => Attr::Synthetic,
        ("Deprecated", _) if decl => Attr::Deprecated,
        ("Signature", _) if decl => Attr::Signature(p.utf(b.u16()?)?),
        ("RuntimeVisibleAnnotations", _) if decl => Attr::Annots(true, annots(p, b)?),
        ("RuntimeInvisibleAnnotations", _) if decl => Attr::Annots(false, annots(p, b)?),
        ("RuntimeVisibleTypeAnnotations", _) if decl => Attr::TypeAnnots(true, tannots(p, b, place, None, 0)?),
        ("RuntimeInvisibleTypeAnnotations", _) if decl => Attr::TypeAnnots(false, tannots(p, b, place, None, 0)?),
        ("SourceFile", Class) => Attr::SourceFile(p.utf(b.u16()?)?),
        ("InnerClasses", Class) => Attr::InnerClasses(list(b, |b| Ok(Inner { inner: p.class(b.u16()?)?, outer: p.opt_class(b.u16()?)?, name: p.opt_utf(b.u16()?)?, flags: b.u16()? }))?),
        ("EnclosingMethod", Class) => { let c = p.class(b.u16()?)?; let i = b.u16()?; Attr::EnclosingMethod(c, if i == 0 { None } else { Some(p.nt(i)?) }) }
        ("SourceDebugExtension", Class) => { let l = b.b.len(); Attr::SourceDebug(mutf::decode(b.take(l)?).ok_or("malformed modified UTF-8")?) }
        ("BootstrapMethods", Class) => {
            let n = b.u16()?;
            let mut v = vec![];
            for i in 0..n { b.u16()?; let k = b.u16()?; b.take(k as usize * 2)?; v.push(p.bsm(i, 0)?) }
            Attr::Bootstrap(v)
        }
        ("Module", Class) => Attr::Module(Module {
            name: p.module(b.u16()?)?, flags: b.u16()?, version: p.opt_utf(b.u16()?)?,
            requires: list(b, |b| Ok((p.module(b.u16()?)?, b.u16()?, p.opt_utf(b.u16()?)?)))?,
            exports: list(b, |b| Ok((p.package(b.u16()?)?, b.u16()?, list(b, |b| p.module(b.u16()?))?)))?,
            opens: list(b, |b| Ok((p.package(b.u16()?)?, b.u16()?, list(b, |b| p.module(b.u16()?))?)))?,
            uses: list(b, |b| p.class(b.u16()?))?,
            provides: list(b, |b| Ok((p.class(b.u16()?)?, list(b, |b| p.class(b.u16()?))?)))?,
        }),
        ("ModulePackages", Class) => Attr::ModulePackages(list(b, |b| p.package(b.u16()?))?),
        ("ModuleMainClass", Class) => Attr::ModuleMainClass(p.class(b.u16()?)?),
        ("NestHost", Class) => Attr::NestHost(p.class(b.u16()?)?),
        ("NestMembers", Class) => Attr::NestMembers(list(b, |b| p.class(b.u16()?))?),
        ("ConstantValue", Field) => {
            let c = p.cst(b.u16()?, 0)?;
            if !matches!(c, Cst::Int(_) | Cst::Long(_) | Cst::Float(_) | Cst::Double(_) | Cst::Str(_)) { return Err(format!("constant value {c:?}")) }
            Attr::ConstantValue(c)
        }
        ("Code", Method) => Attr::Code(Box::new(code(p, b)?)),
        ("Exceptions", Method) => Attr::Exceptions(list(b, |b| p.class(b.u16()?))?),
        ("AnnotationDefault", Method) => Attr::AnnotDefault(aval(p, b, 0)?),
        ("MethodParameters", Method) => { let n = b.u8()?; let mut v = vec![]; for _ in 0..n { v.push((p.opt_utf(b.u16()?)?, b.u16()?)) } Attr::MethodParams(v) }
        ("RuntimeVisibleParameterAnnotations", Method) => { let n = b.u8()?; Attr::ParamAnnots(true, (0..n).map(|_| annots(p, b)).collect::<R<_>>()?) }
        ("RuntimeInvisibleParameterAnnotations", Method) => { let n = b.u8()?; Attr::ParamAnnots(false, (0..n).map(|_| annots(p, b)).collect::<R<_>>()?) }
        _ => { let l = b.b.len(); Attr::Raw(name.clone(), b.take(l)?.to_vec()) }
    })
}

fn frame_type(p: &Pool, b: &mut Rd, m: &PosMap) -> R<()> {
    match b.u8()? { 0..=6 => {} 7 => { p.class(b.u16()?)?; } 8 => { pos(m, b.u16()? as usize)?; } t => return Err(format!("verification type {t}")) }
    Ok(())
}

fn code(p: &Pool, r: &mut Rd) -> R<Code> {
    let max_stack = r.u16()?;
    let max_locals = r.u16()?;
    let len = r.u32()? as usize;
    if len == 0 || len > 65535 { return Err(format!("code length {len}")) }
    let bytes = r.take(len)?;
    // (instruction with absolute byte targets, its offset)
    let mut raw: Vec<Insn> = vec![];
    let mut at: PosMap = BTreeMap::new();
    let mut c = Rd { b: bytes, p: 0 };
    while c.p < len {
        at.insert(c.p, raw.len());
        let i = insn(p, &mut c).map_err(|e| format!("instruction {} : {e}", raw.len()))?;
        raw.push(i);
    }
    let n = raw.len();
    let tgt = |o: usize| -> R<usize> { pos(&at, o) };
    for i in &mut raw {
        match i {
            Insn::Jump(_, t) => *t = tgt(*t)?,
            Insn::TSwitch { def, to, .. } => { *def = tgt(*def)?; for t in to { *t = tgt(*t)? } }
            Insn::LSwitch { def, to } => { *def = tgt(*def)?; for t in to { t.1 = tgt(t.1)? } }
            _ => {}
        }
    }
    let mut all = at.clone();
    all.insert(len, n);
    let catches = list(r, |r| {
        let (s, e, h) = (r.u16()? as usize, r.u16()? as usize, r.u16()? as usize);
        Ok((pos(&at, s)?, pos(&all, e)?, pos(&at, h)?, p.opt_class(r.u16()?)?))
    })?;
    let mut out = Code { max_stack, max_locals, insns: raw, catches, lines: vec![], lvars: vec![], attrs: vec![] };
    let na = r.u16()?;
    let mut vars: BTreeMap<(usize, usize, u16, JStr), usize> = BTreeMap::new();
    for _ in 0..na {
        let name = p.utf(r.u16()?)?;
        let alen = r.u32()? as usize;
        let body = r.take(alen)?;
        let mut b = Rd { b: body, p: 0 };
        let nm = name.utf().unwrap_or_default();
        let res: R<()> = (|| {
            match nm.as_str() {
                "LineNumberTable" => for _ in 0..b.u16()? { let o = b.u16()? as usize; out.lines.push((pos(&all, o)?, b.u16()?)) },
                "LocalVariableTable" | "LocalVariableTypeTable" => {
                    let ty = nm.contains("Type");
                    for _ in 0..b.u16()? {
                        let (s, l) = (b.u16()? as usize, b.u16()? as usize);
                        let (start, end) = (pos(&all, s)?, pos(&all, s + l)?);
                        let (name, d, index) = (p.utf(b.u16()?)?, p.utf(b.u16()?)?, b.u16()?);
                        let (desc, sig) = if ty { (None, Some(d)) } else { (Some(d), None) };
                        let n = out.lvars.len();
                        let at = *vars.entry((start, end, index, name.clone())).or_insert(n);
                        if at < n { let x = &mut out.lvars[at]; if desc.is_some() { x.desc = desc } else { x.sig = sig } }
                        else { out.lvars.push(LVar { start, end, name, index, desc, sig }) }
                    }
                }
                "StackMapTable" => for _ in 0..b.u16()? {
                    match b.u8()? {
                        0..=63 => {}
                        64..=127 => frame_type(p, &mut b, &at)?,
                        247 => { b.u16()?; frame_type(p, &mut b, &at)? }
                        248..=251 => { b.u16()?; }
                        t @ 252..=254 => { b.u16()?; for _ in 251..t { frame_type(p, &mut b, &at)? } }
                        255 => { b.u16()?; for _ in 0..2 { for _ in 0..b.u16()? { frame_type(p, &mut b, &at)? } } }
                        t => return Err(format!("frame type {t}")),
                    }
                },
                "RuntimeVisibleTypeAnnotations" => out.attrs.push(Attr::TypeAnnots(true, tannots(p, &mut b, Place::Code, Some(&all), out.catches.len())?)),
                "RuntimeInvisibleTypeAnnotations" => out.attrs.push(Attr::TypeAnnots(false, tannots(p, &mut b, Place::Code, Some(&all), out.catches.len())?)),
                _ => out.attrs.push(Attr::Raw(name.clone(), b.take(alen)?.to_vec())),
            }
            Ok(())
        })();
        res.map_err(|e| format!("code attribute {nm}: {e}"))?;
        if b.p != alen { return Err(format!("code attribute {nm}: {} bytes left of {alen}", alen - b.p)) }
    }
    Ok(out)
}

fn jump_to(at: usize, off: i64) -> R<usize> {
    let t = at as i64 + off;
    if t < 0 { return Err(format!("jump target {t}")) }
    Ok(t as usize)
}

fn insn(p: &Pool, c: &mut Rd) -> R<Insn> {
    let at = c.p;
    let op = c.u8()?;
    let wide_cst = |x: &Cst| match x { Cst::Long(_) | Cst::Double(_) => true, Cst::Dyn(d) => d.desc.is("J") || d.desc.is("D"), _ => false };
    Ok(match op {
        0x00 | 0x01 => Insn::Op(op),
        0x02..=0x08 => Insn::Push(Cst::Int(op as i32 - 3)),
        0x09 | 0x0A => Insn::Push(Cst::Long(op as i64 - 9)),
        0x0B..=0x0D => Insn::Push(Cst::Float(((op - 0x0B) as f32).to_bits())),
        0x0E | 0x0F => Insn::Push(Cst::Double(((op - 0x0E) as f64).to_bits())),
        0x10 => Insn::Push(Cst::Int(c.u8()? as i8 as i32)),
        0x11 => Insn::Push(Cst::Int(c.u16()? as i16 as i32)),
        0x12 | 0x13 => { let i = if op == 0x12 { c.u8()? as u16 } else { c.u16()? }; let x = p.cst(i, 0)?; if wide_cst(&x) { return Err(format!("ldc of {x:?}")) } Insn::Push(x) }
        0x14 => { let x = p.cst(c.u16()?, 0)?; if !wide_cst(&x) { return Err(format!("ldc2_w of {x:?}")) } Insn::Push(x) }
        0x15..=0x19 => Insn::Local(op, c.u8()? as u16),
        0x1A..=0x2D => Insn::Local(0x15 + (op - 0x1A) / 4, ((op - 0x1A) % 4) as u16),
        0x2E..=0x35 => Insn::Op(op),
        0x36..=0x3A => Insn::Local(op, c.u8()? as u16),
        0x3B..=0x4E => Insn::Local(0x36 + (op - 0x3B) / 4, ((op - 0x3B) % 4) as u16),
        0x4F..=0x83 => Insn::Op(op),
        0x84 => Insn::IInc(c.u8()? as u16, c.u8()? as i8 as i16),
        0x85..=0x98 => Insn::Op(op),
        0x99..=0xA8 | 0xC6 | 0xC7 => Insn::Jump(op, jump_to(at, c.u16()? as i16 as i64)?),
        0xC8 => Insn::Jump(0xA7, jump_to(at, c.u32()? as i32 as i64)?),
        0xC9 => Insn::Jump(0xA8, jump_to(at, c.u32()? as i32 as i64)?),
        0xA9 => Insn::Ret(c.u8()? as u16),
        0xAA => {
            while c.p % 4 != 0 { c.u8()?; }
            let def = jump_to(at, c.u32()? as i32 as i64)?;
            let (low, high) = (c.u32()? as i32, c.u32()? as i32);
            if low > high { return Err(format!("tableswitch {low}..{high}")) }
            let n = high as i64 - low as i64 + 1;
            let mut to = vec![];
            for _ in 0..n { to.push(jump_to(at, c.u32()? as i32 as i64)?) }
            Insn::TSwitch { def, low, to }
        }
        0xAB => {
            while c.p % 4 != 0 { c.u8()?; }
            let def = jump_to(at, c.u32()? as i32 as i64)?;
            let n = c.u32()?;
            let mut to: Vec<(i32, usize)> = vec![];
            for _ in 0..n {
                let k = c.u32()? as i32;
                if to.last().map_or(false, |l| l.0 >= k) { return Err("lookupswitch keys not ascending".into()) }
                to.push((k, jump_to(at, c.u32()? as i32 as i64)?));
            }
            Insn::LSwitch { def, to }
        }
        0xAC..=0xB1 => Insn::Op(op),
        0xB2..=0xB9 | 0xBB | 0xBD | 0xC0 | 0xC1 | 0xC5 if c.b.get(c.p + 1).map_or(false, |l| matches!(p.get(u16::from_be_bytes([c.b[c.p], *l])), Ok(E::Dyn(..)))) => {
            let Cst::Dyn(d) = p.cst(c.u16()?, 0)? else { return Err("computed".into()) };
            let k = match op {
                0xB9 => { let k = c.u8()?; if c.u8()? != 0 { return Err("invokeinterface trailing byte".into()) } k }
                0xC5 => { let k = c.u8()?; if k < 2 { return Err(format!("multianewarray of something computed, {k}")) } k }
                _ => 0,
            };
            Insn::Computed(op, d, k)
        }
        0xB2..=0xB5 => { let m = p.member(c.u16()?)?; if m.kind != MKind::Field { return Err(format!("field access to {m:?}")) } Insn::Field(op, m) }
        0xB6 | 0xB7 | 0xB8 => {
            let m = p.member(c.u16()?)?;
            if m.kind == MKind::Field || (op == 0xB6 && m.kind != MKind::Method) { return Err(format!("invocation {op:#x} of {m:?}")) }
            Insn::Invoke(op, m, 0)
        }
        0xB9 => {
            let m = p.member(c.u16()?)?;
            if m.kind != MKind::IMethod { return Err(format!("invokeinterface of {m:?}")) }
            let n = c.u8()?;
            if c.u8()? != 0 { return Err("invokeinterface trailing byte".into()) }
            Insn::Invoke(op, m, n)
        }
        0xBA => { let d = p.indy(c.u16()?)?; if c.u16()? != 0 { return Err("invokedynamic trailing bytes".into()) } Insn::InvokeDyn(d) }
        0xBB => Insn::New(p.class(c.u16()?)?),
        0xBC => {
            let t = c.u8()?;
            if !(4..=11).contains(&t) { return Err(format!("newarray {t}")) }
            Insn::NewArray(JStr::new(&format!("[{}", b"ZCFDBSIJ"[t as usize - 4] as char)), 1)
        }
        0xBD => Insn::NewArray(array_of(&p.class(c.u16()?)?), 1),
        0xC5 => {
            let t = p.class(c.u16()?)?;
            let d = c.u8()?;
            let have = t.0.iter().take_while(|x| **x == b'[' as u16).count();
            if d == 0 || (d as usize) > have { return Err(format!("multianewarray {t:?} {d}")) }
            Insn::NewArray(t, d)
        }
        0xBE | 0xBF | 0xC2 | 0xC3 => Insn::Op(op),
        0xC0 => Insn::CheckCast(p.class(c.u16()?)?),
        0xC1 => Insn::InstanceOf(p.class(c.u16()?)?),
        0xC4 => match c.u8()? {
            o @ (0x15..=0x19 | 0x36..=0x3A) => Insn::Local(o, c.u16()?),
            0xA9 => Insn::Ret(c.u16()?),
            0x84 => Insn::IInc(c.u16()?, c.u16()? as i16),
            o => return Err(format!("wide {o:#x}")),
        },
        o => return Err(format!("opcode {o:#x}")),
    })
}

/// The descriptor of an array whose component is the class constant `c`.
pub fn array_of(c: &JStr) -> JStr {
    let mut v = vec![b'[' as u16];
    if c.starts(b'[') { v.extend(&c.0) } else { v.push(b'L' as u16); v.extend(&c.0); v.push(b';' as u16) }
    JStr(v)
}

fn skip_attrs(r: &mut Rd, mut f: impl FnMut(u16, &[u8])) -> R<()> {
    for _ in 0..r.u16()? { let n = r.u16()?; let l = r.u32()? as usize; f(n, r.take(l)?) }
    Ok(())
}

/// Decodes one class from the front of `bytes`; returns it and the number of bytes it takes.
pub fn class(bytes: &[u8]) -> R<(Class, usize)> { decode(bytes, true) }
/// The same, but a pool entry nothing refers to may name a bootstrap method that does not exist.
pub fn class_lax(bytes: &[u8]) -> R<(Class, usize)> { decode(bytes, false) }
fn decode(bytes: &[u8], strict: bool) -> R<(Class, usize)> {
    let mut r = Rd { b: bytes, p: 0 };
    if r.u32()? != 0xCAFE_BABE { return Err("magic".into()) }
    let minor = r.u16()?;
    let major = r.u16()?;
    let mut p = pool(&mut r).map_err(|e| format!("constant pool: {e}"))?;
    // first pass: find the bootstrap table
    {
        let mut s = Rd { b: bytes, p: r.p };
        s.take(6)?;
        let n = s.u16()?; s.take(n as usize * 2)?;
        for _ in 0..2 { for _ in 0..s.u16()? { s.take(6)?; skip_attrs(&mut s, |_, _| {})? } }
        let mut found: Vec<Vec<u8>> = vec![];
        skip_attrs(&mut s, |n, b| if p.utf(n).map_or(false, |x| x.is("BootstrapMethods")) { found.push(b.to_vec()) })?;
        if found.len() > 1 { return Err("more than one BootstrapMethods attribute".into()) }
        if let Some(b) = found.pop() {
            let mut b = Rd { b: &b, p: 0 };
            let n = b.u16()?;
            let mut t = vec![];
            for _ in 0..n { let h = b.u16()?; let k = b.u16()?; let mut a = vec![]; for _ in 0..k { a.push(b.u16()?) } t.push((h, a)) }
            p.bsms = Some(t);
        }
    }
    check_pool(&p, strict)?;
    let flags = r.u16()?;
    let name = p.class(r.u16()?).map_err(|e| format!("this class: {e}"))?;
    let sup = p.opt_class(r.u16()?).map_err(|e| format!("super class: {e}"))?;
    let itfs = list(&mut r, |r| p.class(r.u16()?))?;
    let mut mem = |r: &mut Rd, place| -> R<Vec<MemberDecl>> {
        list(r, |r| Ok(MemberDecl { flags: r.u16()?, name: p.utf(r.u16()?)?, desc: p.utf(r.u16()?)?, attrs: attrs(&p, r, place)? }))
    };
    let fields = mem(&mut r, Place::Field).map_err(|e| format!("fields: {e}"))?;
    let methods = mem(&mut r, Place::Method).map_err(|e| format!("methods: {e}"))?;
    let attrs = attrs(&p, &mut r, Place::Class)?;
    Ok((Class { minor, major, flags, name, sup, itfs, fields, methods, attrs }, r.p))
}

/// Offsets of interesting fields, for placing faults: (offset, length, what).
pub fn landmarks(bytes: &[u8]) -> Vec<(usize, usize, &'static str)> {
    let mut out = vec![(0, 4, "magic"), (4, 4, "version"), (8, 2, "pool-count")];
    let mut r = Rd { b: bytes, p: 8 };
    let _: R<()> = (|| {
        let n = r.u16()? as usize;
        let mut i = 1;
        let mut names = BTreeMap::new();
        while i < n {
            let at = r.p;
            let tag = r.u8()?;
            out.push((at, 1, "pool-tag"));
            match tag {
                1 => { out.push((r.p, 2, "utf-length")); let l = r.u16()? as usize; if l > 0 { out.push((r.p, l, "utf-bytes")) } names.insert(i, r.take(l)?.to_vec()); }
                3 | 4 => { r.take(4)?; }
                5 | 6 => { r.take(8)?; i += 1 }
                7 | 8 | 16 | 19 | 20 => { out.push((r.p, 2, "pool-ref")); r.take(2)?; }
                15 => { out.push((r.p + 1, 2, "pool-ref")); r.take(3)?; }
                _ => { out.push((r.p, 2, "pool-ref")); out.push((r.p + 2, 2, "pool-ref")); r.take(4)?; }
            }
            i += 1;
        }
        out.push((r.p, 6, "class-header"));
        r.take(6)?;
        out.push((r.p, 2, "count"));
        let k = r.u16()? as usize;
        r.take(k * 2)?;
        fn walk(r: &mut Rd, names: &BTreeMap<usize, Vec<u8>>, out: &mut Vec<(usize, usize, &'static str)>, not_code: bool) -> R<()> {
            out.push((r.p, 2, "count"));
            for _ in 0..r.u16()? {
                out.push((r.p, 2, "attr-name"));
                let nm = r.u16()? as usize;
                out.push((r.p, 4, "attr-length"));
                let l = r.u32()? as usize;
                let start = r.p;
                if l >= 2 { out.push((start, 2, "attr-head")) }
                if l > 0 { out.push((start, l, "attr-body")) }
                if !not_code && names.get(&nm).map_or(false, |n| n == b"Code") {
                    out.push((start + 4, 4, "code-length"));
                    r.take(4)?;
                    let cl = r.u32()? as usize;
                    out.push((r.p, cl, "code-bytes"));
                    r.take(cl)?;
                    out.push((r.p, 2, "count"));
                    let k = r.u16()? as usize;
                    if k > 0 { out.push((r.p, k * 8, "exception-table")) }
                    r.take(k * 8)?;
                    walk(r, names, out, true)?;
                } else { r.take(l)?; }
            }
            Ok(())
        }
        // only a method's attribute of that name is code
        for not_code in [true, false] {
            out.push((r.p, 2, "count"));
            for _ in 0..r.u16()? {
                out.push((r.p, 6, "member-header"));
                r.take(6)?;
                walk(&mut r, &names, &mut out, not_code)?;
            }
        }
        walk(&mut r, &names, &mut out, true)?;
        Ok(())
    })();
    out.retain(|m| m.1 > 0 && m.0 + m.1 <= bytes.len());
    out
}
