//! Reference encoder: model -> class-file bytes, with every layout freedom of the format
//! (pool order, duplicates, unused entries, instruction forms, table splits) chosen by `lay`.
use crate::model::*;
use crate::mutf;
use crate::tape::Rng;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum K {
    Utf(JStr), Int(i32), Float(u32), Long(i64), Double(u64),
    Class(JStr), Str(JStr), Nt(JStr, JStr), Member(Member), MType(JStr), Handle(Handle),
    Dyn(u16, JStr, JStr), Indy(u16, JStr, JStr), Module(JStr), Package(JStr),
    /// a distinct copy of an entry
    Copy(u32, Box<K>),
}

pub struct Enc {
    rng: Rng,
    plain: bool,
    order: Vec<K>,
    seen: BTreeMap<K, ()>,
    idx: Option<BTreeMap<K, Vec<u16>>>,
    table: Vec<Bsm>,
    p: Opts,
}
#[derive(Clone, Copy)]
struct Opts { dup: u64, junk: usize, wide: u64, frames: u64, split: u64, shuffle: bool }

fn p16(o: &mut Vec<u8>, v: u16) { o.extend(v.to_be_bytes()) }
fn p32(o: &mut Vec<u8>, v: u32) { o.extend(v.to_be_bytes()) }
fn len16(n: usize) -> R<u16> { u16::try_from(n).map_err(|_| format!("count {n}")) }

fn parts(k: &K) -> Vec<K> {
    match k {
        K::Class(s) | K::Str(s) | K::MType(s) | K::Module(s) | K::Package(s) => vec![K::Utf(s.clone())],
        K::Nt(a, b) => vec![K::Utf(a.clone()), K::Utf(b.clone())],
        K::Member(m) => vec![K::Class(m.owner.clone()), K::Nt(m.name.clone(), m.desc.clone())],
        K::Handle(h) => vec![K::Member(h.member.clone())],
        K::Dyn(_, a, b) | K::Indy(_, a, b) => vec![K::Nt(a.clone(), b.clone())],
        K::Copy(_, k) => parts(k),
        _ => vec![],
    }
}

impl Enc {
    fn below(&mut self, n: u64) -> u64 { if n <= 1 { return 0 } let v = self.rng.next() % n; if self.plain { 0 } else { v } }
    fn yes(&mut self, per_mille: u64) -> bool { let v = self.rng.next() % 1000; !self.plain && v < per_mille }

    fn add(&mut self, k: &K) {
        if self.seen.contains_key(k) { return }
        self.seen.insert(k.clone(), ());
        for p in parts(k) { self.add(&p) }
        self.order.push(k.clone());
    }
    fn ix(&mut self, k: K) -> u16 {
        let r = self.rng.next();
        match &self.idx {
            None => { self.add(&k); 1 }
            Some(m) => { let v = &m[&k]; v[(r % v.len() as u64) as usize] }
        }
    }
    fn utf(&mut self, s: &JStr) -> u16 { self.ix(K::Utf(s.clone())) }
    fn opt_utf(&mut self, s: &Option<JStr>) -> u16 { s.as_ref().map_or(0, |s| self.utf(s)) }
    fn class(&mut self, s: &JStr) -> u16 { self.ix(K::Class(s.clone())) }
    fn opt_class(&mut self, s: &Option<JStr>) -> u16 { s.as_ref().map_or(0, |s| self.class(s)) }
    fn bsm(&mut self, b: &Bsm) -> R<u16> {
        let hits: Vec<usize> = self.table.iter().enumerate().filter(|x| x.1 == b).map(|x| x.0).collect();
        if hits.is_empty() {
            // arguments first, so that nested ones are in the table too
            for a in &b.args { self.need(a)? }
            self.table.push(b.clone());
            return len16(self.table.len() - 1);
        }
        let i = self.below(hits.len() as u64) as usize;
        len16(hits[i])
    }
    fn need(&mut self, c: &Cst) -> R<()> {
        if let Cst::Dyn(d) = c { if !self.table.contains(&d.bsm) { for a in &d.bsm.args { self.need(a)? } self.table.push((*d.bsm).clone()) } }
        Ok(())
    }
    fn dyn_(&mut self, d: &Dyn, indy: bool) -> R<u16> {
        let b = self.bsm(&d.bsm)?;
        Ok(self.ix(if indy { K::Indy(b, d.name.clone(), d.desc.clone()) } else { K::Dyn(b, d.name.clone(), d.desc.clone()) }))
    }
    fn cst(&mut self, c: &Cst) -> R<u16> {
        Ok(match c {
            Cst::Int(v) => self.ix(K::Int(*v)), Cst::Float(v) => self.ix(K::Float(*v)),
            Cst::Long(v) => self.ix(K::Long(*v)), Cst::Double(v) => self.ix(K::Double(*v)),
            Cst::Str(s) => self.ix(K::Str(s.clone())), Cst::Class(s) => self.ix(K::Class(s.clone())),
            Cst::MType(s) => self.ix(K::MType(s.clone())), Cst::MHandle(h) => self.ix(K::Handle(h.clone())),
            Cst::Dyn(d) => self.dyn_(d, false)?,
            Cst::Member(m) => self.ix(K::Member(m.clone())),
        })
    }
    fn member(&mut self, m: &Member) -> u16 { self.ix(K::Member(m.clone())) }

    fn aval(&mut self, v: &AVal, o: &mut Vec<u8>) -> R<()> {
        match v {
            AVal::Int(t, i) => { o.push(*t); let x = self.ix(K::Int(*i)); p16(o, x) }
            AVal::Long(i) => { o.push(b'J'); let x = self.ix(K::Long(*i)); p16(o, x) }
            AVal::Float(i) => { o.push(b'F'); let x = self.ix(K::Float(*i)); p16(o, x) }
            AVal::Double(i) => { o.push(b'D'); let x = self.ix(K::Double(*i)); p16(o, x) }
            AVal::Str(s) => { o.push(b's'); let x = self.utf(s); p16(o, x) }
            AVal::Enum(t, n) => { o.push(b'e'); let x = self.utf(t); p16(o, x); let x = self.utf(n); p16(o, x) }
            AVal::Class(s) => { o.push(b'c'); let x = self.utf(s); p16(o, x) }
            AVal::Annot(a) => { o.push(b'@'); self.annot(a, o)? }
            AVal::Array(v) => { o.push(b'['); p16(o, len16(v.len())?); for x in v { self.aval(x, o)? } }
        }
        Ok(())
    }
    fn annot(&mut self, a: &Annot, o: &mut Vec<u8>) -> R<()> {
        let t = self.utf(&a.ty);
        p16(o, t);
        p16(o, len16(a.vals.len())?);
        // element order carries no meaning
        let n = a.vals.len();
        let rot = self.below(n.max(1) as u64) as usize;
        for i in 0..n { let (k, v) = &a.vals[(i + rot) % n]; let x = self.utf(k); p16(o, x); self.aval(v, o)? }
        Ok(())
    }
    fn annots(&mut self, v: &[Annot], o: &mut Vec<u8>) -> R<()> { p16(o, len16(v.len())?); for a in v { self.annot(a, o)? } Ok(()) }
    fn tannots(&mut self, v: &[TAnnot], o: &mut Vec<u8>, offs: &[usize]) -> R<()> {
        p16(o, len16(v.len())?);
        for t in v {
            match &t.target {
                Target::Plain(k, b) => { o.push(*k); o.extend(b) }
                Target::Vars(k, v) => {
                    o.push(*k); p16(o, len16(v.len())?);
                    for (s, e, i) in v { p16(o, len16(offs[*s])?); p16(o, len16(offs[*e] - offs[*s])?); p16(o, *i) }
                }
                Target::Catch(i) => { o.push(0x42); p16(o, *i) }
                Target::Pos(k, p, a) => { o.push(*k); p16(o, len16(offs[*p])?); if let Some(a) = a { o.push(*a) } }
            }
            o.push(u8::try_from(t.path.len()).map_err(|_| "type path")?);
            for (a, b) in &t.path { o.push(*a); o.push(*b) }
            self.annot(&t.annot, o)?;
        }
        Ok(())
    }
    fn attrs(&mut self, v: &[Attr], o: &mut Vec<u8>) -> R<()> {
        p16(o, len16(v.len())?);
        for a in v { self.attr(a, o)? }
        Ok(())
    }
    fn frame(&mut self, name: &str, body: Vec<u8>, o: &mut Vec<u8>) -> R<()> {
        let n = self.utf(&JStr::new(name));
        p16(o, n); p32(o, body.len() as u32); o.extend(body);
        Ok(())
    }
    fn attr(&mut self, a: &Attr, o: &mut Vec<u8>) -> R<()> {
        let mut b = vec![];
        let name = match a {
            Attr::Synthetic => "Synthetic", Attr::Deprecated => "Deprecated",
            Attr::Signature(s) => { let x = self.utf(s); p16(&mut b, x); "Signature" }
            Attr::SourceFile(s) => { let x = self.utf(s); p16(&mut b, x); "SourceFile" }
            Attr::InnerClasses(v) => {
                p16(&mut b, len16(v.len())?);
                for i in v {
                    let x = self.class(&i.inner); p16(&mut b, x);
                    let x = self.opt_class(&i.outer); p16(&mut b, x);
                    let x = self.opt_utf(&i.name); p16(&mut b, x);
                    p16(&mut b, i.flags);
                }
                "InnerClasses"
            }
            Attr::EnclosingMethod(c, nt) => {
                let x = self.class(c); p16(&mut b, x);
                let x = match nt { Some((n, t)) => self.ix(K::Nt(n.clone(), t.clone())), None => 0 };
                p16(&mut b, x);
                "EnclosingMethod"
            }
            Attr::SourceDebug(s) => { b = mutf::encode(s); "SourceDebugExtension" }
            Attr::Bootstrap(_) => { b = self.table_body()?; "BootstrapMethods" }
            Attr::Module(m) => {
                let x = self.ix(K::Module(m.name.clone())); p16(&mut b, x); p16(&mut b, m.flags);
                let x = self.opt_utf(&m.version); p16(&mut b, x);
                p16(&mut b, len16(m.requires.len())?);
                for (n, f, v) in &m.requires { let x = self.ix(K::Module(n.clone())); p16(&mut b, x); p16(&mut b, *f); let x = self.opt_utf(v); p16(&mut b, x) }
                for l in [&m.exports, &m.opens] {
                    p16(&mut b, len16(l.len())?);
                    for (n, f, to) in l {
                        let x = self.ix(K::Package(n.clone())); p16(&mut b, x); p16(&mut b, *f);
                        p16(&mut b, len16(to.len())?);
                        for t in to { let x = self.ix(K::Module(t.clone())); p16(&mut b, x) }
                    }
                }
                p16(&mut b, len16(m.uses.len())?);
                for u in &m.uses { let x = self.class(u); p16(&mut b, x) }
                p16(&mut b, len16(m.provides.len())?);
                for (c, w) in &m.provides { let x = self.class(c); p16(&mut b, x); p16(&mut b, len16(w.len())?); for t in w { let x = self.class(t); p16(&mut b, x) } }
                "Module"
            }
            Attr::ModulePackages(v) => { p16(&mut b, len16(v.len())?); for s in v { let x = self.ix(K::Package(s.clone())); p16(&mut b, x) } "ModulePackages" }
            Attr::ModuleMainClass(s) => { let x = self.class(s); p16(&mut b, x); "ModuleMainClass" }
            Attr::NestHost(s) => { let x = self.class(s); p16(&mut b, x); "NestHost" }
            Attr::NestMembers(v) => { p16(&mut b, len16(v.len())?); for s in v { let x = self.class(s); p16(&mut b, x) } "NestMembers" }
            Attr::Annots(vis, v) => { self.annots(v, &mut b)?; if *vis { "RuntimeVisibleAnnotations" } else { "RuntimeInvisibleAnnotations" } }
            Attr::TypeAnnots(vis, v) => { self.tannots(v, &mut b, &[])?; if *vis { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" } }
            Attr::ParamAnnots(vis, v) => {
                b.push(u8::try_from(v.len()).map_err(|_| "parameters")?);
                for x in v { self.annots(x, &mut b)? }
                if *vis { "RuntimeVisibleParameterAnnotations" } else { "RuntimeInvisibleParameterAnnotations" }
            }
            Attr::ConstantValue(c) => { let x = self.cst(c)?; p16(&mut b, x); "ConstantValue" }
            Attr::Code(c) => { self.code(c, &mut b)?; "Code" }
            Attr::Exceptions(v) => { p16(&mut b, len16(v.len())?); for s in v { let x = self.class(s); p16(&mut b, x) } "Exceptions" }
            Attr::AnnotDefault(v) => { self.aval(v, &mut b)?; "AnnotationDefault" }
            Attr::MethodParams(v) => {
                b.push(u8::try_from(v.len()).map_err(|_| "parameters")?);
                for (n, f) in v { let x = self.opt_utf(n); p16(&mut b, x); p16(&mut b, *f) }
                "MethodParameters"
            }
            Attr::Raw(n, d) => { let x = self.utf(n); p16(o, x); p32(o, d.len() as u32); o.extend(d); return Ok(()) }
        };
        self.frame(name, b, o)
    }
    fn table_body(&mut self) -> R<Vec<u8>> {
        let mut b = vec![];
        let mut i = 0;
        let mut rows = vec![];
        // encoding arguments may append to the table
        while i < self.table.len() {
            let bsm = self.table[i].clone();
            let mut row = vec![];
            let h = self.ix(K::Handle(bsm.handle.clone()));
            p16(&mut row, h);
            p16(&mut row, len16(bsm.args.len())?);
            for a in &bsm.args { let x = self.cst(a)?; p16(&mut row, x) }
            rows.push(row);
            i += 1;
        }
        p16(&mut b, len16(rows.len())?);
        for r in rows { b.extend(r) }
        Ok(b)
    }

    fn code(&mut self, c: &Code, o: &mut Vec<u8>) -> R<()> {
        p16(o, c.max_stack); p16(o, c.max_locals);
        let n = c.insns.len();
        // fixed parts; for jumps the chosen form
        #[derive(Clone)]
        enum P { Bytes(Vec<u8>), J { op: u8, to: usize, long: bool }, Sw(usize) }
        let mut ps: Vec<P> = Vec::with_capacity(n);
        let wide = self.p.wide;
        for (i, x) in c.insns.iter().enumerate() {
            let w = self.yes(wide);
            let mut b = vec![];
            match x {
                Insn::Op(op) => b.push(*op),
                Insn::Push(k) => match k {
                    Cst::Int(v @ -1..=5) if !w => b.push((*v + 3) as u8),
                    Cst::Int(v @ -128..=127) if !self.yes(wide) => { b.push(0x10); b.push(*v as u8) }
                    Cst::Int(v @ -32768..=32767) if !self.yes(wide) => { b.push(0x11); p16(&mut b, *v as u16) }
                    Cst::Long(v @ 0..=1) if !w => b.push(9 + *v as u8),
                    Cst::Float(v) if !w && [0f32, 1.0, 2.0].iter().any(|f| f.to_bits() == *v) => b.push(0x0B + f32::from_bits(*v) as u8),
                    Cst::Double(v) if !w && [0f64, 1.0].iter().any(|f| f.to_bits() == *v) => b.push(0x0E + f64::from_bits(*v) as u8),
                    k => {
                        let two = match k { Cst::Long(_) | Cst::Double(_) => true, Cst::Dyn(d) => d.desc.is("J") || d.desc.is("D"), _ => false };
                        let ix = self.cst(k)?;
                        if two { b.push(0x14); p16(&mut b, ix) }
                        else if ix < 256 && !w { b.push(0x12); b.push(ix as u8) }
                        else { b.push(0x13); p16(&mut b, ix) }
                    }
                },
                Insn::Local(op, v) => {
                    let base = if *op < 0x36 { 0x1A + (op - 0x15) * 4 } else { 0x3B + (op - 0x36) * 4 };
                    if *v < 4 && !w { b.push(base + *v as u8) }
                    else if *v < 256 && !self.yes(wide) { b.push(*op); b.push(*v as u8) }
                    else { b.push(0xC4); b.push(*op); p16(&mut b, *v) }
                }
                Insn::IInc(v, d) => {
                    if *v < 256 && (-128..128).contains(d) && !w { b.extend([0x84, *v as u8, *d as u8]) }
                    else { b.extend([0xC4, 0x84]); p16(&mut b, *v); p16(&mut b, *d as u16) }
                }
                Insn::Ret(v) => if *v < 256 && !w { b.extend([0xA9, *v as u8]) } else { b.extend([0xC4, 0xA9]); p16(&mut b, *v) },
                Insn::Jump(op, t) => { ps.push(P::J { op: *op, to: *t, long: w && matches!(op, 0xA7 | 0xA8) }); continue }
                Insn::TSwitch { .. } | Insn::LSwitch { .. } => { ps.push(P::Sw(i)); continue }
                Insn::Field(op, m) => { b.push(*op); let x = self.member(m); p16(&mut b, x) }
                Insn::Invoke(op, m, k) => { b.push(*op); let x = self.member(m); p16(&mut b, x); if *op == 0xB9 { b.extend([*k, 0]) } }
                Insn::InvokeDyn(d) => { b.push(0xBA); let x = self.dyn_(d, true)?; p16(&mut b, x); b.extend([0, 0]) }
                Insn::Computed(op, d, k) => { b.push(*op); let x = self.dyn_(d, false)?; p16(&mut b, x); match op { 0xB9 => b.extend([*k, 0]), 0xC5 => b.push(*k), _ => {} } }
                Insn::New(s) => { b.push(0xBB); let x = self.class(s); p16(&mut b, x) }
                Insn::CheckCast(s) => { b.push(0xC0); let x = self.class(s); p16(&mut b, x) }
                Insn::InstanceOf(s) => { b.push(0xC1); let x = self.class(s); p16(&mut b, x) }
                Insn::NewArray(d, dims) => {
                    let comp = JStr(d.0[1..].to_vec());
                    let prim = comp.0.len() == 1;
                    if *dims == 1 && !w {
                        if prim { b.push(0xBC); b.push(4 + b"ZCFDBSIJ".iter().position(|x| *x as u16 == comp.0[0]).ok_or("array type")? as u8) }
                        else {
                            let cls = if comp.starts(b'L') { JStr(comp.0[1..comp.0.len() - 1].to_vec()) } else { comp };
                            b.push(0xBD); let x = self.class(&cls); p16(&mut b, x)
                        }
                    } else { b.push(0xC5); let x = self.class(d); p16(&mut b, x); b.push(*dims) }
                }
            }
            ps.push(P::Bytes(b));
        }
        // lay out until stable
        let mut offs = vec![0usize; n + 1];
        loop {
            let mut at = 0usize;
            for (i, p) in ps.iter().enumerate() {
                offs[i] = at;
                at += match p {
                    P::Bytes(b) => b.len(),
                    P::J { op, long, .. } => if !*long { 3 } else if matches!(op, 0xA7 | 0xA8) { 5 } else { 8 },
                    P::Sw(k) => { let pad = 3 - at % 4; 1 + pad + match &c.insns[*k] { Insn::TSwitch { to, .. } => 12 + 4 * to.len(), Insn::LSwitch { to, .. } => 8 + 8 * to.len(), _ => 0 } }
                };
            }
            offs[n] = at;
            let mut changed = false;
            for i in 0..n {
                if let P::J { to, long, .. } = &mut ps[i] {
                    let d = offs[*to] as i64 - offs[i] as i64;
                    if !*long && i16::try_from(d).is_err() { *long = true; changed = true }
                }
            }
            if !changed { break }
        }
        if offs[n] == 0 || offs[n] > 65535 { return Err(format!("code length {}", offs[n])) }
        p32(o, offs[n] as u32);
        let start = o.len();
        for (i, p) in ps.iter().enumerate() {
            debug_assert_eq!(o.len() - start, offs[i]);
            let rel = |t: usize| (offs[t] as i64 - offs[i] as i64) as i32;
            match p {
                P::Bytes(b) => o.extend(b),
                P::J { op, to, long } => {
                    if !*long { o.push(*op); p16(o, rel(*to) as i16 as u16) }
                    else if *op == 0xA7 { o.push(0xC8); p32(o, rel(*to) as u32) }
                    else if *op == 0xA8 { o.push(0xC9); p32(o, rel(*to) as u32) }
                    else { o.push(invert(*op).ok_or("jump")?); p16(o, 8); o.push(0xC8); p32(o, (rel(*to) - 3) as u32) }
                }
                P::Sw(k) => {
                    let t = matches!(c.insns[*k], Insn::TSwitch { .. });
                    o.push(if t { 0xAA } else { 0xAB });
                    while (o.len() - start) % 4 != 0 { o.push(0) }
                    match &c.insns[*k] {
                        Insn::TSwitch { def, low, to } => {
                            p32(o, rel(*def) as u32); p32(o, *low as u32);
                            p32(o, i32::try_from(*low as i64 + to.len() as i64 - 1).map_err(|_| "switch")? as u32);
                            for x in to { p32(o, rel(*x) as u32) }
                        }
                        Insn::LSwitch { def, to } => {
                            p32(o, rel(*def) as u32); p32(o, to.len() as u32);
                            for (v, x) in to { p32(o, *v as u32); p32(o, rel(*x) as u32) }
                        }
                        _ => {}
                    }
                }
            }
        }
        p16(o, len16(c.catches.len())?);
        for (s, e, h, t) in &c.catches {
            p16(o, len16(offs[*s])?); p16(o, len16(offs[*e])?); p16(o, len16(offs[*h])?);
            let x = self.opt_class(t); p16(o, x);
        }
        // attributes: the tables may stand anywhere among the others
        let mut out: Vec<Vec<u8>> = vec![];
        for a in &c.attrs {
            let mut b = vec![];
            match a {
                Attr::TypeAnnots(v, l) => { let mut x = vec![]; self.tannots(l, &mut x, &offs)?; self.frame(if *v { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, x, &mut b)? }
                a => self.attr(a, &mut b)?,
            }
            out.push(b);
        }
        let mut tables: Vec<(&str, Vec<Vec<u8>>)> = vec![];
        if !c.lines.is_empty() {
            let mut rows: Vec<(usize, Vec<u8>)> = vec![];
            for (p, l) in &c.lines { let mut r = vec![]; p16(&mut r, len16(offs[*p])?); p16(&mut r, *l); rows.push((*p, r)) }
            // rows of different positions may come in any order
            if self.yes(self.p.split) && rows.len() > 1 {
                let k = self.below(rows.len() as u64) as usize;
                let cut = rows[k].0;
                let (a, b): (Vec<_>, Vec<_>) = rows.into_iter().partition(|r| r.0 >= cut);
                rows = a; rows.extend(b);
            }
            let mut rows: Vec<Vec<u8>> = rows.into_iter().map(|r| r.1).collect();
            if self.yes(self.p.split) && rows.len() > 1 {
                let k = 1 + self.below(rows.len() as u64 - 1) as usize;
                let tail = rows.split_off(k);
                tables.push(("LineNumberTable", rows));
                tables.push(("LineNumberTable", tail));
            } else { tables.push(("LineNumberTable", rows)) }
        }
        for ty in [false, true] {
            let mut rows = vec![];
            for v in &c.lvars {
                let Some(d) = (if ty { &v.sig } else { &v.desc }) else { continue };
                let mut r = vec![];
                p16(&mut r, len16(offs[v.start])?); p16(&mut r, len16(offs[v.end] - offs[v.start])?);
                let x = self.utf(&v.name); p16(&mut r, x);
                let x = self.utf(d); p16(&mut r, x);
                p16(&mut r, v.index);
                rows.push(r);
            }
            if rows.is_empty() { continue }
            let name = if ty { "LocalVariableTypeTable" } else { "LocalVariableTable" };
            if self.yes(self.p.split) && rows.len() > 1 {
                let k = 1 + self.below(rows.len() as u64 - 1) as usize;
                let tail = rows.split_off(k);
                tables.push((name, tail));
            }
            tables.push((name, rows));
        }
        for (name, rows) in tables {
            let mut b = vec![];
            p16(&mut b, len16(rows.len())?);
            for r in rows { b.extend(r) }
            let mut a = vec![];
            self.frame(name, b, &mut a)?;
            let at = if name == "LineNumberTable" { out.len() } else { out.len() - self.below(out.len() as u64 + 1) as usize };
            out.insert(at, a);
        }
        if self.yes(self.p.frames) {
            // what is drawn here depends on the layout, which later passes refine: keep it apart
            self.class(&JStr::new("java/lang/Object"));
            let own = Rng::new(self.rng.next());
            let rest = std::mem::replace(&mut self.rng, own);
            let mut b = vec![];
            let mut rows = 0u16;
            let mut last: i64 = -1;
            for i in 0..n {
                if !self.yes(200) { continue }
                let delta = (offs[i] as i64 - last - 1) as u16;
                last = offs[i] as i64;
                rows += 1;
                let k = self.below(7);
                let at = offs[(self.rng.next() % n as u64) as usize] as u16;
                let mut vt = |e: &mut Enc, b: &mut Vec<u8>| match e.rng.next() % 9 {
                    7 => { b.push(7); let x = e.class(&JStr::new("java/lang/Object")); p16(b, x) }
                    8 => { b.push(8); p16(b, at) }
                    t => b.push(t as u8),
                };
                match k {
                    0 if delta < 64 => b.push(delta as u8),
                    1 if delta < 64 => { b.push(64 + delta as u8); vt(self, &mut b) }
                    2 => { b.push(247); p16(&mut b, delta); vt(self, &mut b) }
                    3 => { let c = 248 + (self.rng.next() % 3) as u8; b.push(c); p16(&mut b, delta) }
                    4 => { let c = 1 + (self.rng.next() % 3) as u8; b.push(251 + c); p16(&mut b, delta); for _ in 0..c { vt(self, &mut b) } }
                    5 => { b.push(255); p16(&mut b, delta); for _ in 0..2 { let c = self.rng.next() % 4; p16(&mut b, c as u16); for _ in 0..c { vt(self, &mut b) } } }
                    _ => { b.push(251); p16(&mut b, delta) }
                }
            }
            let mut body = vec![];
            p16(&mut body, rows);
            body.extend(b);
            let mut a = vec![];
            self.rng = rest;
            self.frame("StackMapTable", body, &mut a)?;
            let at = self.below(out.len() as u64 + 1) as usize;
            out.insert(at, a);
        }
        p16(o, len16(out.len())?);
        for a in out { o.extend(a) }
        Ok(())
    }

    fn body(&mut self, c: &Class) -> R<Vec<u8>> {
        let mut o = vec![];
        p16(&mut o, c.flags);
        let x = self.class(&c.name); p16(&mut o, x);
        let x = self.opt_class(&c.sup); p16(&mut o, x);
        p16(&mut o, len16(c.itfs.len())?);
        for i in &c.itfs { let x = self.class(i); p16(&mut o, x) }
        for l in [&c.fields, &c.methods] {
            p16(&mut o, len16(l.len())?);
            for m in l {
                p16(&mut o, m.flags);
                let x = self.utf(&m.name); p16(&mut o, x);
                let x = self.utf(&m.desc); p16(&mut o, x);
                self.attrs(&m.attrs, &mut o)?;
            }
        }
        let has = c.attrs.iter().any(|a| matches!(a, Attr::Bootstrap(_)));
        // the table must come after everything that may extend it
        let mut attrs: Vec<&Attr> = c.attrs.iter().collect();
        let extra = Attr::Bootstrap(vec![]);
        if !has && !self.table.is_empty() { attrs.push(&extra) }
        p16(&mut o, len16(attrs.len())?);
        for a in attrs { self.attr(a, &mut o)? }
        Ok(o)
    }

    fn pool(&mut self, fresh: bool) -> R<Vec<u8>> {
        // add duplicates and unused entries, then fix the order
        if fresh {
            let mut list = self.order.clone();
            let dup = self.p.dup;
            let mut n = 0;
            for k in self.order.clone() {
                if self.yes(dup) && list.len() < 60000 { n += 1; list.push(K::Copy(n, Box::new(k))) }
            }
            for j in 0..self.p.junk as u32 {
                if list.len() > 60000 { break }
                let r = self.rng.next();
                let k = match r % 5 {
                    0 => K::Long(r as i64), 1 => K::Double(r), 2 => K::Int(r as i32),
                    3 => K::Float(r as u32), _ => K::Utf(JStr::new(&format!("unused{}", r % 100000))),
                };
                list.push(K::Copy(1_000_000 + j, Box::new(k)));
            }
            if self.p.shuffle {
                for i in (1..list.len()).rev() { let j = (self.rng.next() % (i as u64 + 1)) as usize; list.swap(i, j) }
            }
            let mut m: BTreeMap<K, Vec<u16>> = BTreeMap::new();
            let mut at: u32 = 1;
            for k in &list {
                if at > 65534 { return Err("pool full".into()) }
                let base = if let K::Copy(_, b) = k { (**b).clone() } else { k.clone() };
                at += if matches!(base, K::Long(_) | K::Double(_)) { 2 } else { 1 };
                if at > 65535 { return Err("pool full".into()) }
                let own = at - if matches!(base, K::Long(_) | K::Double(_)) { 2 } else { 1 };
                m.entry(base).or_default().push(own as u16);
            }
            self.order = list;
            self.idx = Some(m);
            return Ok(vec![]);
        }
        let mut o = vec![];
        let mut count: u32 = 1;
        for k in self.order.clone() {
            let base = if let K::Copy(_, b) = k { *b } else { k };
            count += if matches!(base, K::Long(_) | K::Double(_)) { 2 } else { 1 };
            let ps: Vec<u16> = parts(&base).into_iter().map(|p| self.ix(p)).collect();
            match &base {
                K::Utf(s) => { let b = mutf::encode(s); o.push(1); p16(&mut o, len16(b.len())?); o.extend(b) }
                K::Int(v) => { o.push(3); p32(&mut o, *v as u32) }
                K::Float(v) => { o.push(4); p32(&mut o, *v) }
                K::Long(v) => { o.push(5); o.extend(v.to_be_bytes()) }
                K::Double(v) => { o.push(6); o.extend(v.to_be_bytes()) }
                K::Class(_) => o.push(7), K::Str(_) => o.push(8),
                K::Member(m) => o.push(match m.kind { MKind::Field => 9, MKind::Method => 10, MKind::IMethod => 11 }),
                K::Nt(..) => o.push(12),
                K::Handle(h) => { o.push(15); o.push(h.kind) }
                K::MType(_) => o.push(16),
                K::Dyn(b, ..) => { o.push(17); p16(&mut o, *b) }
                K::Indy(b, ..) => { o.push(18); p16(&mut o, *b) }
                K::Module(_) => o.push(19), K::Package(_) => o.push(20),
                K::Copy(..) => {}
            }
            for p in ps { p16(&mut o, p) }
        }
        let mut r = vec![];
        p16(&mut r, count as u16);
        r.extend(o);
        Ok(r)
    }
}

/// `lay` 0 is the plainest layout; any other value selects one of many equivalent ones.
pub fn encode(c: &Class, lay: u64) -> R<Vec<u8>> {
    let mut pr = Rng::new(lay ^ 0xE4C);
    let pick = |pr: &mut Rng, v: &[u64]| v[(pr.next() % v.len() as u64) as usize];
    let plain = lay == 0;
    let p = if plain { Opts { dup: 0, junk: 0, wide: 0, frames: 0, split: 0, shuffle: false } } else { Opts {
        dup: pick(&mut pr, &[0, 0, 100, 500]), junk: pick(&mut pr, &[0, 0, 3, 30, 300]) as usize,
        wide: pick(&mut pr, &[0, 100, 500]), frames: pick(&mut pr, &[0, 0, 500, 1000]), split: pick(&mut pr, &[0, 0, 400]),
        shuffle: pr.next() % 2 == 0,
    } };
    let mut table = vec![];
    for a in &c.attrs { if let Attr::Bootstrap(t) = a { table.extend(t.iter().cloned()) } }
    let mut e = Enc { rng: Rng::new(lay), plain, order: vec![], seen: BTreeMap::new(), idx: None, table: table.clone(), p };
    // first pass discovers the table and the pool; repeat until the table is stable, because
    // which of several equal rows an entry names depends on it
    e.body(c)?;
    let table = e.table.clone();
    e.rng = Rng::new(lay); e.order.clear(); e.seen.clear();
    e.body(c)?;
    if e.table != table { return Err("table not stable".into()) }
    e.pool(true)?;
    e.rng = Rng::new(lay);
    let body = e.body(c)?;
    let pool = e.pool(false)?;
    let mut o = vec![];
    p32(&mut o, 0xCAFE_BABE);
    p16(&mut o, c.minor); p16(&mut o, c.major);
    o.extend(pool);
    o.extend(body);
    Ok(o)
}
