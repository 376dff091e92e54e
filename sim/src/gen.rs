//! Workload generator: classes of every shape the format allows, drawn from the tape.
use crate::model::*;
use crate::ops;
use crate::tape::Tape;

#[derive(Clone, Copy)]
pub struct Prof {
    /// per mille of awkward strings
    pub weird: u64,
    /// how many members and attributes at most
    pub members: usize,
    pub attrs: usize,
    /// instructions per body at most
    pub insns: usize,
    /// per mille of bodies with distances around the 16-bit limit
    pub far: u64,
    /// per mille of constants that are dynamic
    pub dynamic: u64,
}
pub const SMALL: Prof = Prof { weird: 80, members: 2, attrs: 2, insns: 8, far: 0, dynamic: 80 };
pub const RICH: Prof = Prof { weird: 100, members: 3, attrs: 5, insns: 16, far: 5, dynamic: 100 };
pub const DECL: Prof = Prof { weird: 100, members: 4, attrs: 8, insns: 3, far: 0, dynamic: 60 };
pub const CODE: Prof = Prof { weird: 30, members: 2, attrs: 1, insns: 40, far: 40, dynamic: 60 };
pub const TEXT: Prof = Prof { weird: 600, members: 3, attrs: 4, insns: 10, far: 0, dynamic: 60 };
pub const DYNS: Prof = Prof { weird: 60, members: 2, attrs: 1, insns: 12, far: 0, dynamic: 700 };

pub struct Gen<'a> { pub t: &'a mut Tape, pub p: Prof, bsms: Vec<Bsm>, spikes: usize, nest: usize, seen: Vec<Cst> }

const NAMES: &[&str] = &["a", "b", "foo", "run", "value", "x1", "<init>", "main", "java/lang/Object", "java/lang/String", "p/Q", "A", "Outer$Inner", "aNameThatIsLongerThanMostOthersAndBeginsLikeThem", "aNameThatIsLongerThanMostOthersAndBeginsLikeIt"];
const CLASSES: &[&str] = &["java/lang/Object", "A", "p/Q", "java/lang/String", "java/util/Map$Entry", "B"];

impl<'a> Gen<'a> {
    pub fn new(t: &'a mut Tape, p: Prof) -> Self { Gen { t, p, bsms: vec![], spikes: 1, nest: 0, seen: vec![] } }
    fn pm(&mut self, n: u64) -> bool { self.t.chance(n, 1000) }

    /// Length of a list: below `n` as a rule, now and then up to 11, and at most once in a class
    /// anything up to `max`, with the sizes around powers of two preferred.
    fn cnt(&mut self, n: usize, max: usize) -> usize {
        match self.t.below(240) {
            0..=229 => self.t.n(n),
            230..=237 => self.t.n(12).min(max),
            _ if self.spikes == 0 || self.nest > 2 => self.t.n(n),
            _ => {
                self.spikes -= 1;
                (match self.t.n(4) { 0 => self.t.range(12, 40), 1 => *self.t.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]), 2 => *self.t.pick(&[254, 255, 256, 257]), _ => self.t.range(40, 300) }).min(max)
            }
        }
    }
    /// A list as above.
    fn list<T>(&mut self, n: usize, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let k = self.cnt(n, max);
        self.nest += 1;
        let v = (0..k).map(|_| f(self)).collect();
        self.nest -= 1;
        v
    }

    /// Awkward text: NULs, unpaired surrogates, pairs, encoding boundaries. `ident` leaves out
    /// characters with a meaning in descriptors and signatures.
    fn weird(&mut self, ident: bool) -> JStr {
        const U: &[u16] = &[b'k' as u16, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xD7FF, 0xE000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFD, 1, 0xE9, 0x20, 0xFFFE];
        let n = self.t.range(1, 6);
        let mut v = vec![];
        for _ in 0..n {
            match self.t.n(6) {
                0 => v.push(b'z' as u16),
                1..=3 => v.push(*self.t.pick(U)),
                4 => { v.push(0xD800 + self.t.n(1024) as u16); v.push(0xDC00 + self.t.n(1024) as u16) }
                _ => { let u = self.t.u16(); v.push(u) }
            }
        }
        if ident {
            for u in &mut v { if *u < 128 && b";[/<>:.^()*+-TLV".contains(&(*u as u8)) { *u = b'q' as u16 } }
        }
        JStr(v)
    }
    pub fn name(&mut self) -> JStr {
        let w = self.p.weird;
        if self.pm(w) { return self.weird(true) }
        if self.t.chance(1, 4) { return JStr::new(&format!("n{}", self.t.n(50))) }
        JStr::new(self.t.pick(NAMES))
    }
    pub fn text(&mut self) -> JStr {
        let w = self.p.weird;
        if self.pm(w) { return self.weird(false) }
        match self.t.n(8) {
            0 => self.name(),
            1 => JStr::new(""),
            2 => JStr::new("hello, world"),
            3 => JStr::new(&"ab\u{e9}\u{1F600}".repeat(self.t.range(1, 40))),
            5 if self.t.chance(1, 60) => {
                // long and mixed: whatever works in blocks has to get the seams right
                let mut v = vec![];
                let n = *self.t.pick(&[60, 130, 520, 4100, 8200, 20000]);
                while v.len() < n {
                    if self.t.chance(1, 3) { v.extend(self.weird(false).0) } else { let k = self.t.range(1, n); let u = *self.t.pick(&[b'x' as u16, b'y' as u16, 0xE9]); v.extend(std::iter::repeat(u).take(k)) }
                }
                v.truncate(21000);
                JStr(v)
            }
            6 if self.t.chance(1, 100) => {
                // exactly as long as text can be, or nearly
                let u = *self.t.pick(&[b'x' as u16, b'y' as u16, 0x7FF, 0xFFFF]);
                let per = match u { 0x7FF => 2, 0xFFFF => 3, _ => 1 };
                let less = self.t.n(4);
                let mut v = vec![u; 65535 / per - less];
                if u == 0x7FF && less == 0 { v.push(b'z' as u16) }
                JStr(v)
            }
            4 if w > 300 && self.t.chance(1, 6) => { let u = *self.t.pick(&[b'x' as u16, 0x7FF, 0xFFFF, 0xD800]); JStr(vec![u; self.t.range(200, 21845)]) }
            _ => JStr::new(&format!("s{}", self.t.n(300))),
        }
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> { if self.t.chance(2, 3) { Some(f(self)) } else { None } }
    /// name of a class, never an array
    pub fn cname(&mut self) -> JStr {
        let w = self.p.weird / 2;
        if self.pm(w) { return self.weird(true) }
        if self.t.chance(1, 4) { return JStr::new(&format!("c/K{}", self.t.n(60))) }
        JStr::new(self.t.pick(CLASSES))
    }
    /// class constant, possibly an array
    fn cconst(&mut self) -> JStr { if self.t.chance(1, 6) { self.array() } else { self.cname() } }
    fn array(&mut self) -> JStr {
        let d = if self.t.chance(1, 40) { *self.t.pick(&[255usize, 254, 128, 127, 17, 9, 5]) } else { self.t.range(1, 3) };
        let mut v = vec![b'[' as u16; d];
        v.extend(self.elem().0);
        JStr(v)
    }
    fn elem(&mut self) -> JStr {
        if self.t.chance(1, 2) { let c = *self.t.pick(b"IJZBCSFD"); return JStr(vec![c as u16]) }
        let mut v = vec![b'L' as u16];
        v.extend(self.cname().0);
        v.push(b';' as u16);
        JStr(v)
    }
    pub fn fdesc(&mut self) -> JStr { if self.t.chance(1, 4) { self.array() } else { self.elem() } }
    fn refdesc(&mut self) -> JStr { let mut v = vec![b'L' as u16]; v.extend(self.cname().0); v.push(b';' as u16); JStr(v) }
    pub fn mdesc(&mut self) -> JStr {
        let mut v = vec![b'(' as u16];
        let n = if self.t.chance(1, 60) { 255 } else { self.cnt(4, 200) };
        for i in 0..n { if i < 12 || (n < 255 && self.t.n(8) == 0) { v.extend(self.fdesc().0) } else { v.push(b'I' as u16) } }
        v.push(b')' as u16);
        if self.t.chance(1, 2) { v.push(b'V' as u16) } else { v.extend(self.fdesc().0) }
        JStr(v)
    }
    // ---- signatures ----
    fn ident(&mut self) -> String {
        if self.t.chance(1, 10) { return self.t.pick(&["\u{e9}t\u{e9}", "x\u{1F600}y", "\u{0}n", "\u{FFFD}", "$", " T ", " ", "\tn", "n\n", "I", "L", "V", "*", "+x", "-", "^T", "a-b", "(", ")I", "\u{a0}E\u{2003}", "\u{7f}", "0"]).to_string() }
        self.t.pick(&["T", "U", "Foo", "java", "util", "List", "K1", "E"]).to_string()
    }
    /// How many levels to wrap something in: none as a rule, now and then up to a hundred.
    fn deep(&mut self) -> usize { if self.t.chance(1, 150) { self.t.range(5, 100) } else { 0 } }
    fn sig_ref(&mut self, d: usize) -> String {
        let mut s = self.sig_flat(d);
        if d == 0 { for _ in 0..self.deep() { let w = *self.t.pick(&["", "", "+", "-"]); s = format!("L{}<{w}{s}>;", self.ident()) } }
        s
    }
    fn sig_flat(&mut self, d: usize) -> String {
        match self.t.n(if d > 3 { 2 } else { 5 }) {
            0 => format!("T{};", self.ident()),
            1 => "Ljava/lang/Object;".into(),
            2 => { let n = if self.t.chance(1, 60) { self.t.range(200, 255) } else { self.t.range(1, 3) }; format!("{}{}", "[".repeat(n), self.sig_type(d + 1)) }
            _ => self.sig_class(d + 1),
        }
    }
    fn sig_type(&mut self, d: usize) -> String { if self.t.chance(1, 3) { (*self.t.pick(b"IJZBCSFD") as char).to_string() } else {
        // an array of arrays is one array
        let s = self.sig_ref(d); s.trim_start_matches('[').to_string() } }
    fn sig_any(&mut self, d: usize) -> String { if self.t.chance(1, 3) { (*self.t.pick(b"IJZBCSFD") as char).to_string() } else { self.sig_ref(d) } }
    fn sig_args(&mut self, d: usize) -> String {
        if d > 4 || self.t.chance(1, 2) { return String::new() }
        let mut s = String::from("<");
        for _ in 0..self.cnt(3, 20) + 1 {
            match self.t.n(4) { 0 => s.push('*'), 1 => { s.push('+'); s += &self.sig_ref(d + 1) } 2 => { s.push('-'); s += &self.sig_ref(d + 1) } _ => s += &self.sig_ref(d + 1) }
        }
        s + ">"
    }
    fn sig_class(&mut self, d: usize) -> String {
        let mut s = String::from("L");
        for _ in 0..self.cnt(3, 30) { s += &self.ident(); s.push('/') }
        s += &self.ident();
        s += &self.sig_args(d);
        for _ in 0..if self.t.chance(1, 4) { self.cnt(2, 12) + 1 } else { 0 } { s.push('.'); s += &self.ident(); s += &self.sig_args(d) }
        s + ";"
    }
    fn sig_params(&mut self) -> String {
        if self.t.chance(1, 2) { return String::new() }
        let mut s = String::from("<");
        for _ in 0..self.cnt(3, 40) + 1 {
            s += &self.ident(); s.push(':');
            let class = self.t.chance(2, 3);
            if class { s += &self.sig_ref(2) }
            let n = if class { self.cnt(3, 20) } else { self.cnt(2, 20) + 1 };
            for _ in 0..n { s.push(':'); s += &self.sig_ref(2) }
        }
        s + ">"
    }
    fn signature(&mut self, place: Place) -> JStr {
        let s = match place {
            Place::Class => { let mut s = self.sig_params(); s += &self.sig_class(0); for _ in 0..self.cnt(3, 60) { s += &self.sig_class(0) } s }
            Place::Method => {
                let mut s = self.sig_params();
                s.push('(');
                for _ in 0..self.cnt(4, 60) { s += &self.sig_any(0) }
                s.push(')');
                if self.t.chance(1, 3) { s.push('V') } else { s += &self.sig_any(0) }
                for _ in 0..self.cnt(3, 20) { s.push('^'); if self.t.chance(1, 2) { s += &format!("T{};", self.ident()) } else { s += &self.sig_class(2) } }
                s
            }
            _ => self.sig_ref(0),
        };
        JStr::new(&s)
    }
    // ---- constants ----
    fn f32(&mut self) -> u32 {
        match self.t.n(4) { 0 => *self.t.pick(&[0, 0x8000_0000, 0x3F80_0000, 0x4000_0000, 0x7FC0_0000, 0x7F80_0001, 0xFF80_0001, 0xFFC0_1234, 0x7F80_0000, 1, 0xBF80_0000]), 1 => (self.t.n(5) as f32).to_bits(), _ => self.t.below(1 << 32) as u32 }
    }
    fn f64(&mut self) -> u64 {
        match self.t.n(4) { 0 => *self.t.pick(&[0, 1 << 63, 0x3FF0_0000_0000_0000, 0x7FF8_0000_0000_0000, 0x7FF0_0000_0000_0001, 0xFFF0_0000_0000_0001, 0x7FF0_0000_0000_0000, 1, 0xBFF0_0000_0000_0000]), 1 => (self.t.n(4) as f64).to_bits(), _ => self.t.raw() }
    }
    fn i32(&mut self) -> i32 {
        match self.t.n(4) { 0 => self.t.n(9) as i32 - 2, 1 => *self.t.pick(&[127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX, i32::MIN, -1, -2, 6]), 2 => self.t.n(512) as i32 - 256, _ => self.t.below(1 << 32) as i32 }
    }
    fn i64(&mut self) -> i64 { match self.t.n(3) { 0 => self.t.n(5) as i64 - 1, 1 => *self.t.pick(&[i64::MAX, i64::MIN, 1 << 32, -(1 << 32), 0xFFFF_FFFF]), _ => self.t.raw() as i64 } }
    pub fn member(&mut self, kind: MKind) -> Member {
        let desc = if kind == MKind::Field { self.fdesc() } else { self.mdesc() };
        Member { kind, owner: self.cconst(), name: self.name(), desc }
    }
    pub fn handle(&mut self) -> Handle {
        let kind = self.t.range(1, 9) as u8;
        let mk = match kind { 1..=4 => MKind::Field, 9 => MKind::IMethod, 6 | 7 if self.t.chance(1, 3) => MKind::IMethod, _ => MKind::Method };
        Handle { kind, member: self.member(mk) }
    }
    fn bsm(&mut self, depth: usize) -> Bsm {
        if !self.bsms.is_empty() && self.t.chance(1, 2) { let i = self.t.n(self.bsms.len()); return self.bsms[i].clone() }
        let handle = self.handle();
        let args = self.list(4, 300, |g| g.cst_at(depth + 1, true));
        let b = Bsm { handle, args };
        if dyn_depth(&b) < 5 && self.bsms.len() < 12 { self.bsms.push(b.clone()) }
        b
    }
    pub fn dynamic(&mut self, depth: usize, method: bool) -> Dyn {
        if !self.bsms.is_empty() && self.t.chance(1, 6) {
            let i = self.t.n(self.bsms.len());
            let b = self.bsms[i].clone();
            let b = self.near_bsm(&b);
            if dyn_depth(&b) < 8 { return Dyn { bsm: Box::new(b), name: self.name(), desc: if method { self.mdesc() } else { self.fdesc() } } }
        }
        let mut bsm = self.bsm(depth);
        if depth == 0 && self.spikes > 0 {
            let k = self.deep();
            if k > 0 { self.spikes -= 1 }
            for _ in 0..k {
                let mut args = vec![Cst::Dyn(Dyn { bsm: Box::new(bsm), name: self.name(), desc: self.fdesc() })];
                if self.t.n(3) == 0 { let c = self.cst_at(9, false); let at = self.t.n(2); args.insert(at, c) }
                bsm = Bsm { handle: self.handle(), args };
            }
        }
        Dyn { bsm: Box::new(bsm), name: self.name(), desc: if method { self.mdesc() } else { self.fdesc() } }
    }
    /// The same text with one unit changed, added or removed: near enough to be mixed up.
    fn near_name(&mut self, s: &JStr) -> JStr {
        let mut v = s.0.clone();
        match self.t.n(5) {
            0 => v.push(b'x' as u16),
            1 if v.len() > 1 => { v.pop(); }
            2 if v.iter().any(|u| *u < 128 && (*u as u8).is_ascii_alphabetic()) => {
                // the same letters in another case
                let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] < 128 && (v[*i] as u8).is_ascii_alphabetic()).collect();
                let i = *self.t.pick(&at);
                v[i] ^= 0x20;
            }
            3 if v.len() > 1 => { let i = self.t.n(v.len() - 1); v.swap(i, i + 1) }
            _ => match v.last_mut() { Some(u) => *u = if *u == b'k' as u16 { b'j' as u16 } else { b'k' as u16 }, None => v.push(b'k' as u16) },
        }
        JStr(v)
    }
    fn near_member(&mut self, m: &Member) -> Member {
        let mut m = m.clone();
        match self.t.n(4) {
            0 => m.name = self.near_name(&m.name),
            1 if !m.owner.starts(b'[') => m.owner = self.near_name(&m.owner),
            2 => m.desc = if m.kind == MKind::Field { self.fdesc() } else { self.mdesc() },
            _ => m.kind = match m.kind { MKind::Method => MKind::IMethod, MKind::IMethod => MKind::Method, k => k },
        }
        m
    }
    fn near_handle(&mut self, h: &Handle) -> Handle {
        let mut h = h.clone();
        if self.t.n(2) == 0 {
            h.kind = match h.kind { 1..=4 => self.t.range(1, 4) as u8, 9 => 9, _ => self.t.range(5, 8) as u8 };
            if h.member.kind == MKind::IMethod && !matches!(h.kind, 6 | 7 | 9) { h.kind = 6 }
        } else {
            h.member = self.near_member(&h.member);
            match h.kind { 9 => h.member.kind = MKind::IMethod, 6 | 7 | 1..=4 => {} _ => h.member.kind = MKind::Method }
        }
        h
    }
    fn near_bsm(&mut self, b: &Bsm) -> Bsm {
        let mut b = b.clone();
        match self.t.n(5) {
            0 => b.handle = self.near_handle(&b.handle),
            1 => { let c = self.cst_at(9, false); b.args.push(c) }
            2 if !b.args.is_empty() => { b.args.pop(); }
            3 if b.args.len() > 1 => b.args.rotate_left(1),
            _ if !b.args.is_empty() => { let i = self.t.n(b.args.len()); b.args[i] = self.near(&b.args[i].clone()) }
            _ => b.handle = self.near_handle(&b.handle),
        }
        b
    }
    fn near_dyn(&mut self, d: &Dyn) -> Dyn {
        let mut d = d.clone();
        match self.t.n(4) {
            0 => d.name = self.near_name(&d.name),
            1 => d.desc = if d.desc.starts(b'(') { self.mdesc() } else { self.fdesc() },
            _ => { let b = self.near_bsm(&d.bsm); *d.bsm = b }
        }
        d
    }
    /// A constant that differs from the given one in a single respect, or only in its type.
    fn near(&mut self, c: &Cst) -> Cst {
        match c {
            Cst::Int(v) => match self.t.n(3) { 0 => Cst::Float(*v as u32), 1 => Cst::Long(*v as i64), _ => Cst::Int(v ^ (1 << self.t.n(32))) },
            Cst::Float(v) => if self.t.n(3) == 0 { Cst::Int(*v as i32) } else { Cst::Float(v ^ (1 << self.t.n(32))) },
            Cst::Long(v) => if self.t.n(3) == 0 { Cst::Double(*v as u64) } else { Cst::Long(v ^ (1 << self.t.n(64))) },
            Cst::Double(v) => if self.t.n(3) == 0 { Cst::Long(*v as i64) } else { Cst::Double(v ^ (1 << self.t.n(64))) },
            Cst::Str(s) => if self.t.n(3) == 0 && !s.starts(b'[') { Cst::Class(s.clone()) } else { Cst::Str(self.near_name(s)) },
            Cst::Class(s) => if self.t.n(3) == 0 || s.starts(b'[') { Cst::Str(s.clone()) } else { Cst::Class(self.near_name(s)) },
            Cst::MType(s) => if self.t.n(3) == 0 { Cst::Str(s.clone()) } else { Cst::MType(self.mdesc()) },
            Cst::MHandle(h) => Cst::MHandle(self.near_handle(h)),
            Cst::Dyn(d) => Cst::Dyn(self.near_dyn(d)),
            Cst::Member(m) => Cst::Member(self.near_member(m)),
        }
    }
    fn cst_at(&mut self, depth: usize, dynamic: bool) -> Cst {
        if depth < 4 && !self.seen.is_empty() && self.t.chance(1, 8) {
            let i = self.t.n(self.seen.len());
            let c = self.seen[i].clone();
            if dynamic || !matches!(c, Cst::Dyn(_)) { let c = self.near(&c); if cst_size(&c) < 200 { return c } }
        }
        let c = self.cst_new(depth, dynamic);
        if self.seen.len() < 24 && cst_size(&c) < 60 { self.seen.push(c.clone()) }
        c
    }
    fn cst_new(&mut self, depth: usize, dynamic: bool) -> Cst {
        let p = self.p.dynamic;
        if dynamic && depth < 4 && self.pm(p / (1 + depth as u64)) { return Cst::Dyn(self.dynamic(depth, false)) }
        match self.t.n(9) {
            0 | 8 => Cst::Int(self.i32()), 1 => Cst::Float(self.f32()), 2 => Cst::Long(self.i64()), 3 => Cst::Double(self.f64()),
            4 => Cst::Str(self.text()), 5 => Cst::Class(self.cconst()), 6 => Cst::MType(self.mdesc()), _ => Cst::MHandle(self.handle()),
        }
    }
    pub fn cst(&mut self) -> Cst { self.cst_at(0, true) }
    // ---- annotations ----
    fn aval(&mut self, d: usize) -> AVal {
        let mut v = self.aval_flat(d);
        if d == 0 {
            for _ in 0..self.deep() { v = if self.t.n(2) == 0 { AVal::Array(vec![v]) } else { AVal::Annot(Annot { ty: self.refdesc(), vals: vec![(self.name(), v)] }) } }
        }
        v
    }
    fn aval_flat(&mut self, d: usize) -> AVal {
        match self.t.n(if d > 3 { 11 } else { 13 }) {
            0 => AVal::Int(b'I', self.i32()), 1 => AVal::Int(b'B', self.t.n(256) as i32 - 128), 2 => AVal::Int(b'C', self.t.u16() as i32),
            3 => AVal::Int(b'S', self.t.n(65536) as i32 - 32768), 4 => AVal::Int(b'Z', self.t.n(2) as i32), 5 => AVal::Long(self.i64()),
            6 => AVal::Float(self.f32()), 7 => AVal::Double(self.f64()), 8 => AVal::Str(self.text()), 9 => AVal::Enum(self.refdesc(), self.name()),
            10 => AVal::Class(if self.t.chance(1, 4) { "V".into() } else { self.fdesc() }),
            11 => AVal::Annot(self.annot(d + 1)),
            _ => AVal::Array(self.list(4, 999, |g| g.aval(d + 1)))
        }
    }
    fn annot(&mut self, d: usize) -> Annot {
        let ty = self.refdesc();
        let n = self.cnt(5, 999);
        let mut vals: Vec<(JStr, AVal)> = vec![];
        for i in 0..n {
            let k = if i > 8 { JStr::new(&format!("e{i}")) } else if i > 0 && !vals.is_empty() && self.t.chance(1, 4) { let k = self.t.pick(&vals).0.clone(); self.near_name(&k) } else { self.name() };
            self.nest += 1;
            let v = self.aval(d);
            self.nest -= 1;
            if !vals.iter().any(|x| x.0 == k) { vals.push((k, v)) }
        }
        Annot { ty, vals }
    }
    fn annots(&mut self) -> Vec<Annot> { self.list(4, 999, |g| g.annot(0)) }
    fn tannots(&mut self, place: Place, n: usize, catches: usize) -> Vec<TAnnot> {
        let k = self.cnt(3, 999) + 1;
        (0..k).map(|_| {
            let b = |g: &mut Self| g.t.n(256) as u8;
            let plain = |g: &mut Self, t: u8, l: usize| Target::Plain(t, (0..l).map(|_| b(g)).collect());
            let target = match place {
                Place::Class => match self.t.n(3) { 0 => plain(self, 0, 1), 1 => plain(self, 0x10, 2), _ => plain(self, 0x11, 2) },
                Place::Field => Target::Plain(0x13, vec![]),
                Place::Method => match self.t.n(6) { 0 => plain(self, 1, 1), 1 => plain(self, 0x12, 2), 2 => plain(self, 0x14, 0), 3 => plain(self, 0x15, 0), 4 => plain(self, 0x16, 1), _ => plain(self, 0x17, 2) },
                Place::Code => match self.t.n(12) {
                    i @ (0 | 1) => {
                        let m = self.cnt(3, 999);
                        Target::Vars(0x40 + i as u8, (0..m).map(|_| { let s = self.t.n(n + 1); (s, s + self.t.n(n + 1 - s), self.t.u16()) }).collect())
                    }
                    2 if catches > 0 => Target::Catch(self.t.n(catches) as u16),
                    i @ 3..=6 => Target::Pos(0x40 + i as u8, self.t.n(n), None),
                    i => Target::Pos(0x47 + (i % 5) as u8, self.t.n(n), Some(b(self))),
                },
            };
            let m = self.cnt(3, 255);
            let path = (0..m).map(|_| (self.t.n(4) as u8, b(self))).collect();
            TAnnot { target, path, annot: self.annot(1) }
        }).collect()
    }
    pub fn raw(&mut self, place: Place) -> Attr {
        // names that mean something elsewhere, or nowhere
        let foreign: &[&str] = match place {
            Place::Class => &["Code", "ConstantValue", "LineNumberTable", "StackMapTable", "Record", "PermittedSubclasses", "MyAttr", "Exceptions", ""],
            Place::Field => &["Code", "SourceFile", "BootstrapMethods", "MyAttr", "Exceptions", "InnerClasses"],
            Place::Method => &["ConstantValue", "SourceFile", "BootstrapMethods", "MyAttr", "LineNumberTable", "NestHost"],
            Place::Code => &["Code", "Signature", "Synthetic", "Deprecated", "ConstantValue", "MyAttr", "BootstrapMethods", "RuntimeVisibleAnnotations"],
        };
        const KNOWN: &[&str] = &["Synthetic", "Deprecated", "Signature", "Code", "SourceFile", "ConstantValue", "Exceptions", "LineNumberTable", "LocalVariableTable", "RuntimeVisibleAnnotations", "NestHost", "Module", "BootstrapMethods", "InnerClasses", "StackMapTable", "AnnotationDefault", "MethodParameters", "RuntimeInvisibleTypeAnnotations"];
        let name = match self.t.n(8) {
            0 => self.weird(false),
            1 => {
                // close to a name that means something
                let k = *self.t.pick(KNOWN);
                JStr::new(&match self.t.n(11) {
                    8 => { let mut b = k.as_bytes().to_vec(); let i = self.t.n(b.len()); b[i] ^= *self.t.pick(&[0x20, 1, 2, 0x40]); String::from_utf8(b).unwrap() }
                    9 => { let mut b = k.to_string(); let i = self.t.n(b.len() + 1); b.insert(i, *self.t.pick(&['/', '.', '_', ' ', '\0', 'e', '$', '-', '\t', ':', '\u{feff}', '\u{200b}'])); b }
                    10 => { let mut b = k.to_string(); let i = self.t.n(b.len()); b.remove(i); b }
                    0 => k.to_lowercase(), 1 => k.to_uppercase(), 2 => format!("{k}{}", self.t.pick(&["s", " ", ".x", "\0", "2", "/", "$1", "\u{e9}"])), 3 => format!("{}{k}", self.t.pick(&[" ", "x", "org.", "\0", "_"])),
                    4 => k[1..].to_string(), 5 => k[..k.len() - 1].to_string(), 6 => format!("{k}{k}"), _ => k.replacen('e', "\u{435}", 1) + ".",
                })
            }
            2 | 3 => {
                const MORE: &[&str] = &["LocalVariableTypeTable", "EnclosingMethod", "ModulePackages", "ModuleMainClass", "NestMembers", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations", "SourceDebugExtension", "LocalVariables", "LineNumbers", "ModuleHashes", "Record"];
                let k = if self.t.chance(1, 2) { *self.t.pick(MORE) } else { *self.t.pick(KNOWN) };
                if crate::scen::known(place, k) || k == "SourceDebugExtension" && place == Place::Class { JStr::new("MyAttr") } else { JStr::new(k) }
            }
            _ => JStr::new(self.t.pick(foreign)),
        };
        let len = match self.t.n(6) { 0 => 0, 1 => 1, 2 if self.t.chance(1, 8) => self.t.range(60000, 90000), 3 if self.t.chance(1, 6) => self.t.range(200, 9000), _ => self.t.n(24) };
        let (a, b) = match self.t.n(5) { 0 => (0, 0), 1 => (*self.t.pick(&[0xFF, 0x20, 1, 0xCA]), 0), _ => (self.t.n(256) as u8, self.t.n(256) as u8) };
        Attr::Raw(name, (0..len).map(|i| a.wrapping_add((i as u8).wrapping_mul(b))).collect())
    }
    fn attrs(&mut self, place: Place) -> Vec<Attr> {
        let n = self.cnt(self.p.attrs + 1, 40);
        let mut out = vec![];
        let mut table = false;
        for _ in 0..n {
            let a = match self.t.n(8) {
                0 => Attr::Synthetic, 1 => Attr::Deprecated,
                2 => Attr::Signature(self.signature(place)),
                3 => Attr::Annots(self.t.n(2) == 0, self.annots()),
                4 => Attr::TypeAnnots(self.t.n(2) == 0, self.tannots(place, 0, 0)),
                5 => self.raw(place),
                _ => match place {
                    Place::Class => match self.t.n(10) {
                        0 => Attr::SourceFile(self.text()),
                        1 => Attr::InnerClasses(self.list(4, 999, |g| Inner { inner: g.cname(), outer: g.opt(|g| g.cname()), name: g.opt(|g| g.name()), flags: g.flags(flagbits::INNER) })),
                        2 => Attr::EnclosingMethod(self.cname(), self.opt(|g| (g.name(), g.mdesc()))),
                        3 => Attr::SourceDebug(self.text()),
                        4 if !table => { table = true; Attr::Bootstrap(self.list(4, 999, |g| g.bsm(0))) }
                        5 => Attr::Module(self.module()),
                        6 => Attr::ModulePackages(self.list(4, 999, |g| g.cname())),
                        7 => Attr::ModuleMainClass(self.cname()),
                        8 => Attr::NestHost(self.cname()),
                        _ => Attr::NestMembers(self.list(4, 999, |g| g.cname())),
                    },
                    Place::Field => Attr::ConstantValue(match self.t.n(5) { 0 => Cst::Int(self.i32()), 1 => Cst::Float(self.f32()), 2 => Cst::Long(self.i64()), 3 => Cst::Double(self.f64()), _ => Cst::Str(self.text()) }),
                    _ => match self.t.n(5) {
                        0 => Attr::Exceptions(self.list(4, 999, |g| g.cname())),
                        1 => Attr::AnnotDefault(self.aval(0)),
                        2 => Attr::MethodParams(self.list(4, 255, |g| (g.opt(|g| g.name()), g.flags(flagbits::PARAM)))),
                        _ => Attr::ParamAnnots(self.t.n(2) == 0, self.list(4, 255, |g| g.annots())),
                    },
                },
            };
            out.push(a);
        }
        out
    }
    fn flags(&mut self, mask: u16) -> u16 { let v = self.t.u16(); if self.t.chance(1, 20) { v } else { v & mask } }
    fn module(&mut self) -> Module {
        let list = |g: &mut Self| -> Vec<JStr> { g.list(3, 999, |g| g.cname()) };
        Module {
            name: self.name(), flags: self.flags(flagbits::MODULE), version: self.opt(|g| g.text()),
            requires: self.list(3, 999, |g| (g.name(), g.flags(flagbits::REQUIRE), g.opt(|g| g.text()))),
            exports: self.list(3, 999, |g| (g.cname(), g.flags(flagbits::EXOP), list(g))),
            opens: self.list(3, 999, |g| (g.cname(), g.flags(flagbits::EXOP), list(g))),
            uses: list(self),
            provides: self.list(3, 999, |g| (g.cname(), list(g))),
        }
    }
    // ---- code ----
    fn insn(&mut self) -> Insn {
        const M: usize = usize::MAX;
        match self.t.n(18) {
            0..=2 => { let all = ops::all(); Insn::Op(*self.t.pick(&all)) }
            3..=5 => Insn::Push(self.cst()),
            6 | 7 => {
                let op = *self.t.pick(&[0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A]);
                Insn::Local(op, self.local())
            }
            8 => Insn::IInc(self.local(), match self.t.n(3) { 0 => self.t.n(256) as i16 - 128, 1 => *self.t.pick(&[127, 128, -128, -129, 32767, -32768]), _ => self.t.u16() as i16 }),
            9 => if self.t.chance(1, 3) { Insn::Ret(self.local()) } else { Insn::Jump(0xA8, M) },
            10 | 11 => { let op = match self.t.n(19) { i @ 0..=14 => 0x99 + i as u8, 15 => 0xC6, 16 => 0xC7, _ => 0xA7 }; Insn::Jump(op, M) }
            12 => {
                if self.t.chance(1, 2) {
                    let n = self.cnt(6, 999) + 1;
                    let low = *self.t.pick(&[0, 1, -1, i32::MIN, 7, i32::MAX - (n as i32 - 1), -3]);
                    Insn::TSwitch { def: M, low, to: vec![M; n] }
                } else {
                    let n = self.cnt(6, 999);
                    let mut keys: Vec<i32> = (0..n).map(|_| self.i32()).collect();
                    keys.sort(); keys.dedup();
                    Insn::LSwitch { def: M, to: keys.into_iter().map(|k| (k, M)).collect() }
                }
            }
            13 => { let op = *self.t.pick(&[0xB2, 0xB3, 0xB4, 0xB5]); Insn::Field(op, self.member(MKind::Field)) }
            14 => match self.t.n(5) {
                0 => Insn::Invoke(0xB6, self.member(MKind::Method), 0),
                1 => { let k = if self.t.n(3) == 2 { MKind::IMethod } else { MKind::Method }; Insn::Invoke(0xB7, self.member(k), 0) }
                2 => { let k = if self.t.n(3) == 2 { MKind::IMethod } else { MKind::Method }; Insn::Invoke(0xB8, self.member(k), 0) }
                3 => Insn::Invoke(0xB9, self.member(MKind::IMethod), self.t.n(256) as u8),
                _ => Insn::InvokeDyn(self.dynamic(0, true)),
            },
            15 if { let p = self.p.dynamic; self.pm(p) && self.t.chance(1, 3) } => {
                let op = *self.t.pick(&[0xB2, 0xB3, 0xB4, 0xB5, 0xB6, 0xB7, 0xB8, 0xB9, 0xBB, 0xBD, 0xC0, 0xC1, 0xC5]);
                let k = match op { 0xB9 => self.t.n(256) as u8, 0xC5 => *self.t.pick(&[2, 3, 255]), _ => 0 };
                Insn::Computed(op, self.dynamic(0, false), k)
            }
            15 => { let p = self.p.dynamic; if self.pm(p) { Insn::InvokeDyn(self.dynamic(0, true)) } else { Insn::New(self.cname()) } }
            16 => {
                let dims = if self.t.chance(1, 2) { 1 } else { self.t.range(1, 3) };
                let total = dims + self.t.n(3);
                let total = if self.t.chance(1, 40) { 255 } else { total };
                let mut v = vec![b'[' as u16; total];
                v.extend(self.elem().0);
                Insn::NewArray(JStr(v), dims as u8)
            }
            _ => if self.t.n(2) == 0 { Insn::CheckCast(self.cconst()) } else { Insn::InstanceOf(self.cconst()) },
        }
    }
    fn local(&mut self) -> u16 { match self.t.n(4) { 0 => self.t.n(5) as u16, 1 => *self.t.pick(&[3, 4, 255, 256, 65535, 254]), 2 => self.t.n(256) as u16, _ => self.t.u16() } }
    pub fn code(&mut self) -> Code {
        let far = self.p.far;
        let far = self.pm(far);
        if far && self.t.chance(1, 4) { return self.cascade() }
        let n = self.t.range(1, self.p.insns.max(1));
        let mut insns: Vec<Insn> = vec![];
        let mut budget: usize = 64000;
        let max_jump = 400;
        let (gap_at, gap) = if far {
            (self.t.n(n), match self.t.n(4) { 0 => self.t.range(32700, 32800), 1 => self.t.range(32500, 32770), 2 => self.t.range(20000, 60000), _ => 32767 - self.t.n(40) })
        } else { (usize::MAX, 0) };
        let mut jumps = 0;
        // a pool crowded enough to need wide indices, filled one entry at a time
        if self.p.insns > 8 && self.t.chance(1, 40) {
            let k = *self.t.pick(&[120, 200, 260, 300]);
            let what = self.t.n(4);
            let base = self.i32().wrapping_mul(1000) & 0x7FF0_0000;
            let handle = if what == 3 { Some(self.handle()) } else { None };
            for i in 0..k {
                let v = base + 70000 + i;
                let c = match what {
                    0 => Cst::Int(v), 1 => Cst::Float(v as u32), 2 => if i % 3 == 0 { Cst::Long(v as i64) } else { Cst::Int(v) },
                    _ => Cst::Dyn(Dyn { bsm: Box::new(Bsm { handle: handle.clone().unwrap(), args: vec![Cst::Int(v)] }), name: "n".into(), desc: "I".into() }),
                };
                insns.push(Insn::Push(c));
                budget -= 6;
            }
        }
        for i in 0..n {
            if i == gap_at {
                let op = *self.t.pick(&[0x00, 0x57, 0x60]);
                let g = gap.min(budget.saturating_sub(2000));
                insns.extend(std::iter::repeat(Insn::Op(op)).take(g));
                budget -= g;
            }
            let x = if far && self.t.chance(1, 2) { Insn::Jump(*self.t.pick(&[0x99, 0xA7, 0xA8, 0x9A, 0xA3, 0xC6, 0xC7, 0xA6]), usize::MAX) } else { self.insn() };
            let size = match &x { Insn::TSwitch { to, .. } => 16 + 4 * to.len(), Insn::LSwitch { to, .. } => 12 + 8 * to.len(), Insn::Jump(..) => 8, _ => 6 };
            if matches!(x, Insn::Jump(..)) { jumps += 1; if jumps > max_jump { continue } }
            if size > budget { break }
            budget -= size;
            insns.push(x);
        }
        // control may not run off the end; a conditional jump could
        if !matches!(insns.last(), Some(Insn::Op(_))) { insns.push(Insn::Op(0xB1)) }
        let n = insns.len();
        for k in 0..n {
            let mut x = std::mem::replace(&mut insns[k], Insn::Op(0));
            let mut tg = |p: &mut usize| {
                *p = match self.t.n(6) {
                    0 => 0, 1 => n - 1, 2 => (k + 1).min(n - 1), 3 => k,
                    // the other side of the gap
                    4 if far => if k > n / 2 { self.t.n(n.min(12)) } else { n - 1 - self.t.n(n.min(12)) },
                    _ => self.t.n(n),
                }
            };
            match &mut x {
                Insn::Jump(_, t) => tg(t),
                Insn::TSwitch { def, to, .. } => { tg(def); to.iter_mut().for_each(tg) }
                Insn::LSwitch { def, to } => { tg(def); to.iter_mut().for_each(|t| tg(&mut t.1)) }
                _ => {}
            }
            insns[k] = x;
        }
        let pos = |g: &mut Self, hi: usize| match g.t.n(4) { 0 => 0, 1 => hi - 1, _ => g.t.n(hi) };
        let mut catches = vec![];
        for _ in 0..if self.t.chance(1, 2) { self.cnt(4, 300) } else { 0 } {
            let s = pos(self, n);
            let e = s + 1 + self.t.n(n - s);
            catches.push((s, e, pos(self, n), self.opt(|g| g.cconst())));
            if self.t.chance(1, 8) { let c = catches.last().unwrap().clone(); catches.push(c) }
        }
        let mut lines = vec![];
        if self.t.chance(2, 3) { for _ in 0..self.cnt(6, 400) { lines.push((pos(self, n), self.t.u16())) } }
        let mut lvars: Vec<LVar> = vec![];
        if self.t.chance(2, 3) {
            for _ in 0..self.cnt(6, 300) {
                let s = pos(self, n);
                let e = s + self.t.n(n + 1 - s);
                let which = self.t.n(3);
                let v = LVar { start: s, end: e, name: self.name(), index: self.local(), desc: if which != 1 { Some(self.fdesc()) } else { None }, sig: if which != 0 { Some(self.signature(Place::Field)) } else { None } };
                if !lvars.iter().any(|x| x.start == v.start && x.end == v.end && x.index == v.index && x.name == v.name) { lvars.push(v) }
            }
        }
        let mut attrs = vec![];
        for _ in 0..if self.t.chance(1, 2) { self.t.n(self.p.attrs + 1) } else { 0 } {
            attrs.push(if self.t.n(2) == 0 { self.raw(Place::Code) } else { Attr::TypeAnnots(self.t.n(2) == 0, self.tannots(Place::Code, n, catches.len())) })
        }
        Code { max_stack: self.t.u16(), max_locals: self.t.u16(), insns, catches, lines, lvars, attrs }
    }
    /// Jumps at the edge of their reach, each pushed over it only when the one behind it grows.
    fn cascade(&mut self) -> Code {
        let k = match self.t.n(4) { 0 => self.t.range(1, 4), 1 => self.t.range(4, 12), 2 => self.t.range(12, 60), _ => self.t.range(60, 200) };
        let ops: Vec<u8> = (0..k).map(|_| match self.t.n(4) { 0 => 0xA8, 1 => *self.t.pick(&[0x99, 0x9A, 0xA3, 0xC6, 0xC7, 0xA6]), _ => 0xA7 }).collect();
        let back = self.t.n(2) == 0;
        // which jump starts it, if any does
        let over = if self.t.chance(1, 5) { usize::MAX } else if self.t.chance(1, 3) { self.t.n(k) } else if back { 0 } else { k - 1 };
        let slack = if self.t.chance(1, 5) { self.t.n(3) } else { 0 };
        let mut insns: Vec<Insn> = vec![Insn::Op(0x00); if back { 0 } else { self.t.n(3) }];
        if back {
            // the targets first, 3 bytes apart, then the jumps; the later jump spans the earlier ones
            let reach = 32768;
            insns.extend(std::iter::repeat(Insn::Op(0x00)).take(reach + 1));
            let at = insns.len();
            for i in 0..k {
                let extra = if i == over { 1 } else { 0 };
                let pos = at + 3 * i;
                insns.push(Insn::Jump(ops[i], pos - reach - extra + if i == over { 0 } else { slack }));
            }
        } else {
            let reach = 32767;
            let first = insns.len();
            let code_pos = |i: usize| first + 3 * i;
            let total = code_pos(k - 1) + reach + 2;
            // one-byte filler: the index of a filler instruction at byte p is p - 2k
            for i in 0..k {
                let extra = if i == over { 1 } else { 0 };
                insns.push(Insn::Jump(ops[i], code_pos(i) + reach + extra - slack * (extra ^ 1) - 2 * k));
            }
            insns.extend(std::iter::repeat(Insn::Op(0x00)).take(total - code_pos(k) + 1));
        }
        insns.push(Insn::Op(0xB1));
        let n = insns.len();
        let lines = (0..self.t.n(4)).map(|_| (self.t.n(n), self.t.u16())).collect();
        Code { max_stack: self.t.u16(), max_locals: self.t.u16(), insns, catches: vec![], lines, lvars: vec![], attrs: vec![] }
    }
    fn decl(&mut self, place: Place) -> MemberDecl {
        let mut attrs = self.attrs(place);
        if place == Place::Method && self.t.chance(3, 4) {
            let at = self.t.n(attrs.len() + 1);
            let c = Attr::Code(Box::new(self.code()));
            attrs.insert(at, c);
        }
        let field = place == Place::Field;
        MemberDecl { flags: self.flags(if field { flagbits::FIELD } else { flagbits::METHOD }), name: self.name(), desc: if field { self.fdesc() } else { self.mdesc() }, attrs }
    }
    pub fn class(&mut self) -> Class {
        let nf = self.cnt(self.p.members + 1, 40);
        let nm = self.cnt(self.p.members + 1, 30);
        let nm = if self.p.insns > 10 { nm.max(1) } else { nm };
        Class {
            minor: if self.t.chance(1, 4) { self.t.u16() } else { 0 }, major: 45 + self.t.n(15) as u16,
            flags: self.flags(flagbits::CLASS), name: self.cname(), sup: if self.t.chance(1, 12) { None } else { Some(self.cname()) },
            itfs: self.list(4, 999, |g| g.cname()),
            fields: (0..nf).map(|_| self.decl(Place::Field)).collect(),
            methods: (0..nm).map(|_| self.decl(Place::Method)).collect(),
            attrs: self.attrs(Place::Class),
        }
    }
}

fn dyn_depth(b: &Bsm) -> usize {
    1 + b.args.iter().map(|a| if let Cst::Dyn(d) = a { dyn_depth(&d.bsm) } else { 0 }).max().unwrap_or(0)
}

fn cst_size(c: &Cst) -> usize {
    match c { Cst::Dyn(d) => 3 + d.bsm.args.iter().map(cst_size).sum::<usize>(), Cst::Str(s) | Cst::Class(s) | Cst::MType(s) => 1 + s.0.len() / 16, _ => 1 }
}

/// A class from the tape.
pub fn class(t: &mut Tape, p: Prof) -> Class { Gen::new(t, p).class() }
