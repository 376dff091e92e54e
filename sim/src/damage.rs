//! What storage and transmission do to class files, and hand-made hostile ones.
use crate::dec;
use crate::tape::Tape;

fn put16(b: &mut [u8], at: usize, v: u16) { if at + 2 <= b.len() { b[at..at + 2].copy_from_slice(&v.to_be_bytes()) } }
fn put32(b: &mut [u8], at: usize, v: u32) { if at + 4 <= b.len() { b[at..at + 4].copy_from_slice(&v.to_be_bytes()) } }
fn get16(b: &[u8], at: usize) -> u16 { if at + 2 <= b.len() { u16::from_be_bytes([b[at], b[at + 1]]) } else { 0 } }
fn get32(b: &[u8], at: usize) -> u32 { if at + 4 <= b.len() { u32::from_be_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) } else { 0 } }

/// An offset near a field that matters, or anywhere.
pub fn spot(t: &mut Tape, marks: &[(usize, usize, &'static str)], len: usize) -> usize {
    if t.chance(1, 5) || marks.is_empty() { return t.n(len + 1) }
    // fields after the pool are few: pick the class of field first
    let mut kinds: Vec<&str> = marks.iter().map(|m| m.2).collect();
    kinds.sort_unstable();
    kinds.dedup();
    let k = *t.pick(&kinds);
    let of: Vec<_> = marks.iter().filter(|m| m.2 == k).collect();
    let m = *t.pick(&of);
    match t.n(4) { 0 => m.0, 1 => m.0 + m.1, 2 => m.0 + m.1 - 1, _ => m.0 + t.n(m.1) }.min(len)
}

const B16: &[u16] = &[0, 1, 2, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 255, 256];
const B32: &[u32] = &[0, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF, 0x1_0000, 0x1000_0000];

/// Where jump distances and switch fields lie in a body, with their widths.
fn branches(c: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 0;
    while p < c.len() {
        let g = |at: usize| get32(c, at) as i32;
        let step = match c[p] {
            0x99..=0xA8 | 0xC6 | 0xC7 => { v.push((p + 1, 2)); 3 }
            0xC8 | 0xC9 => { v.push((p + 1, 4)); 5 }
            0xAA | 0xAB => {
                let a = (p + 4) / 4 * 4;
                let n = if c[p] == 0xAA { 3 + (g(a + 8).wrapping_sub(g(a + 4)) as i64 + 1).clamp(0, 70000) as usize } else { 2 + 2 * g(a + 4).clamp(0, 35000) as usize };
                for k in 0..n { if a + 4 * k + 4 <= c.len() { v.push((a + 4 * k, 4)) } }
                a + 4 * n - p
            }
            0x10 | 0x12 | 0x15..=0x19 | 0x36..=0x3A | 0xA9 | 0xBC => 2,
            0x11 | 0x13 | 0x14 | 0x84 | 0xB2..=0xB8 | 0xBB | 0xBD | 0xC0 | 0xC1 => 3,
            0xC5 => 4, 0xB9 | 0xBA => 5,
            0xC4 => if c.get(p + 1) == Some(&0x84) { 6 } else { 4 },
            _ => 1,
        };
        p += step;
    }
    v.retain(|x| x.0 + x.1 <= c.len());
    v
}

/// Text that was struck: a piece of it missing, doubled, replaced or foreign, down to bytes that are no text at all.
fn retext(t: &mut Tape, old: &[u8]) -> Vec<u8> {
    const BITS: &[&[u8]] = &[b";", b"[", b"L", b"(", b")", b"V", b"<", b">", b":", b"T", b"/", b".", b"*", b"+", b"-", b"^", b"I", b"J", b"", b"x", b"$", b"\xC3\xA9", b"\xE2\x82\xAC",
        b"\xED\xA0\x80", b"\xED\xB0\x80", b"\xED\xA0\x80\xED\xB0\x80", b"\xC0\x80", b"\xED", b"\xED\xA0", b"\xED\xA0\x80\xED", b"\xC3", b"\xE2\x82", b"\x80", b"\xFF", b"\0", b"\xF0\x9F\x98\x80", b"Ljava/lang/Object;", b"()V", b"Code", b"Synthetic"];
    let mut v = old.to_vec();
    for _ in 0..t.range(1, 2) {
        // at the ends as often as anywhere else
        let at = match t.n(3) { 0 => v.len(), 1 => 0, _ => t.n(v.len() + 1) };
        match t.n(4) {
            0 => { v.splice(at..at, t.pick(BITS).iter().copied()); }
            1 => { let e = (at + t.range(1, 3)).min(v.len()); v.splice(at..e, t.pick(BITS).iter().copied()); }
            2 => { let n = t.range(1, 3); let s = at.saturating_sub(n); v.drain(s..at); }
            _ => { let s = t.n(at + 1); let d = v[s..at].to_vec(); v.splice(at..at, d); }
        }
    }
    v.truncate(65535);
    v
}

/// Damages a file in one to three ways. `other`: what was stored there before.
pub fn damage(t: &mut Tape, bytes: &[u8], other: &[u8]) -> (Vec<u8>, String) {
    let mut b = bytes.to_vec();
    let mut what = vec![];
    for _ in 0..t.range(1, 3) {
        if b.len() < 12 { break }
        let marks = dec::landmarks(&b);
        let at = spot(t, &marks, b.len() - 1);
        let find = |t: &mut Tape, names: &[&str]| -> Option<(usize, usize, &'static str)> { let v: Vec<_> = marks.iter().filter(|m| names.contains(&m.2)).collect(); if v.is_empty() { None } else { Some(**t.pick(&v)) } };
        match t.n(19) {
            0 => { let bit = t.n(8); b[at] ^= 1 << bit; what.push(format!("bit {bit} of byte {at} flipped")) }
            1 => { let v = t.n(256) as u8; b[at] = v; what.push(format!("byte {at} = {v}")) }
            2 => { let v = *t.pick(B16); put16(&mut b, at, v); what.push(format!("u16 at {at} = {v}")) }
            3 => { let v = *t.pick(B32); put32(&mut b, at, v); what.push(format!("u32 at {at} = {v}")) }
            4 => { b.truncate(at); let n = t.n(40); for _ in 0..n { b.push(t.n(256) as u8) } what.push(format!("cut at {at}, {n} bytes of garbage")) }
            5 => {
                let size = *t.pick(&[1usize, 4, 16, 64, 512]);
                let s = at / size * size;
                let e = (s + size).min(b.len());
                b[s..e].fill(0);
                what.push(format!("sector {s}..{e} lost (zeros)"))
            }
            6 => {
                let size = *t.pick(&[8usize, 64, 512]);
                let s = at / size * size;
                for i in s..b.len() { if let Some(o) = other.get(i) { b[i] = *o } else { b.truncate(i.max(1)); break } if i - s > size * 3 && t.chance(1, 8) { break } }
                what.push(format!("old data shows through from {s}"))
            }
            7 => { let n = t.range(1, 8); let e = (at + n).min(b.len()); b.drain(at..e); what.push(format!("{} bytes at {at} missing", e - at)) }
            8 => { let n = t.range(1, 8); let v: Vec<u8> = (0..n).map(|_| t.n(256) as u8).collect(); b.splice(at..at, v); what.push(format!("{n} bytes inserted at {at}")) }
            9 | 10 => if let Some(m) = find(t, &["pool-ref", "attr-name", "member-header", "class-header", "attr-head"]) {
                let k = get16(&b, 8).max(1);
                let o = m.0 + 2 * t.n(m.1 / 2);
                let v = t.n(k as usize + 1) as u16;
                put16(&mut b, o, v);
                what.push(format!("{} at {o} now names pool entry {v}", m.2))
            },
            11 => if let Some(m) = find(t, &["attr-length", "code-length"]) {
                let old = get32(&b, m.0);
                let v = match t.n(4) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => old.wrapping_add(t.n(40) as u32), _ => *t.pick(B32) };
                put32(&mut b, m.0, v);
                what.push(format!("{} at {} {old} -> {v}", m.2, m.0))
            },
            12 => if let Some(m) = find(t, &["count", "pool-count", "utf-length", "attr-head"]) {
                let old = get16(&b, m.0);
                let v = match t.n(3) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), _ => *t.pick(B16) };
                put16(&mut b, m.0, v);
                what.push(format!("{} at {} {old} -> {v}", m.2, m.0))
            },
            13 => if let Some(m) = find(t, &["code-bytes"]) {
                let o = m.0 + t.n(m.1);
                let v = *t.pick(&[0xAA, 0xAB, 0xC4, 0xC5, 0xBD, 0x12, 0x13, 0x14, 0xBA, 0xB9, 0xA7, 0xC8, 0x99, 0xC6, 0xBC, 0xCA, 0xFF, 0xA9, 0x84, 0xC9]);
                b[o] = v;
                what.push(format!("opcode {v:#x} at {o}"))
            },
            15 | 16 => if let Some(m) = find(t, &["utf-length"]) {
                // text replaced by other text, in an intact frame
                let len = get16(&b, m.0) as usize;
                let (s, e) = (m.0 + 2, m.0 + 2 + len);
                if e <= b.len() && len < 2000 {
                    let old = b[s..e].to_vec();
                    let new = retext(t, &old);
                    put16(&mut b, m.0, new.len() as u16);
                    what.push(format!("text at {}: {:?} -> {:?}", m.0, String::from_utf8_lossy(&old), String::from_utf8_lossy(&new)));
                    b.splice(s..e, new);
                }
            },
            17 => if let Some(m) = find(t, &["code-bytes"]) {
                let v = branches(&b[m.0..m.0 + m.1]);
                if !v.is_empty() {
                    let (o, width) = *t.pick(&v);
                    let o = m.0 + o;
                    if width == 2 {
                        let old = get16(&b, o);
                        let v = match t.n(4) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => old.wrapping_add(t.n(9) as u16).wrapping_sub(4), _ => *t.pick(B16) };
                        put16(&mut b, o, v);
                        what.push(format!("jump operand at {o} {old} -> {v}"))
                    } else {
                        let old = get32(&b, o);
                        let v = match t.n(4) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => old.wrapping_add(t.n(9) as u32).wrapping_sub(4), _ => *t.pick(B32) };
                        put32(&mut b, o, v);
                        what.push(format!("jump operand at {o} {old} -> {v}"))
                    }
                }
            },
            18 => if let Some(m) = find(t, &["exception-table"]) {
                let o = m.0 + 2 * t.n(m.1 / 2);
                let old = get16(&b, o);
                let v = match t.n(4) { 0 => old.wrapping_add(1), 1 => old.wrapping_sub(1), 2 => t.n(40) as u16, _ => *t.pick(B16) };
                put16(&mut b, o, v);
                what.push(format!("exception table field at {o} {old} -> {v}"))
            },
            _ => {
                let body = find(t, &["attr-body", "exception-table", "code-bytes", "utf-bytes"]);
                if let Some(m) = body {
                    for _ in 0..t.range(1, 3) { let o = m.0 + t.n(m.1); b[o] = if t.chance(1, 2) { *t.pick(&[0, 0xFF, 1, 0x80]) } else { t.n(256) as u8 }; }
                    what.push(format!("bytes within {} at {}..{}", m.2, m.0, m.0 + m.1))
                }
            }
        }
    }
    (b, what.join(", "))
}

/// Changes that leave every frame where it was: bytes inside text and attribute bodies, pool references.
pub fn inside(t: &mut Tape, bytes: &[u8]) -> (Vec<u8>, String) {
    let mut b = bytes.to_vec();
    let marks = dec::landmarks(&b);
    // bodies of top-level attributes only: Code bodies hold frames of their own, inside the outer one
    let v: Vec<_> = marks.iter().filter(|m| ["attr-body", "utf-bytes", "pool-ref", "magic", "class-header", "attr-name"].contains(&m.2)).collect();
    let mut what = vec![];
    for _ in 0..t.range(1, 2) {
        let m = **t.pick(&v);
        let o = m.0 + t.n(m.1);
        let x = match t.n(3) { 0 => b[o] ^ (1 << t.n(8)), 1 => *t.pick(&[0, 1, 0xFF, 0x80]), _ => t.n(256) as u8 };
        what.push(format!("byte {o} in {}: {:#x} -> {x:#x}", m.2, b[o]));
        b[o] = x;
    }
    (b, what.join(", "))
}

/// A class file put together by hand, for content no encoder would produce.
pub struct Mini { pool: Vec<u8>, pub n: u32, pub this: u16, pub object: u16 }
pub type RawAttrs = Vec<(u16, Vec<u8>)>;
impl Mini {
    pub fn new() -> Self {
        let mut m = Mini { pool: vec![], n: 1, this: 0, object: 0 };
        let a = m.utf(b"M"); m.this = m.e(7, &[a]);
        let a = m.utf(b"java/lang/Object"); m.object = m.e(7, &[a]);
        m
    }
    pub fn utf(&mut self, b: &[u8]) -> u16 { self.pool.push(1); self.pool.extend((b.len() as u16).to_be_bytes()); self.pool.extend(b); self.next(1) }
    fn next(&mut self, k: u32) -> u16 { let i = self.n; self.n += k; i as u16 }
    pub fn e(&mut self, tag: u8, v: &[u16]) -> u16 { self.pool.push(tag); for x in v { self.pool.extend(x.to_be_bytes()) } self.next(1) }
    pub fn long(&mut self, v: u64) -> u16 { self.pool.push(5); self.pool.extend(v.to_be_bytes()); self.next(2) }
    pub fn handle(&mut self, kind: u8, r: u16) -> u16 { self.pool.push(15); self.pool.push(kind); self.pool.extend(r.to_be_bytes()); self.next(1) }
    pub fn class(&mut self, s: &str) -> u16 { let u = self.utf(s.as_bytes()); self.e(7, &[u]) }
    pub fn nt(&mut self, n: &str, d: &str) -> u16 { let (a, b) = (self.utf(n.as_bytes()), self.utf(d.as_bytes())); self.e(12, &[a, b]) }
    /// A handle usable as a bootstrap method.
    pub fn boot(&mut self) -> u16 { let c = self.class("B"); let nt = self.nt("bsm", "()V"); let m = self.e(10, &[c, nt]); self.handle(6, m) }
    pub fn attrs(v: &RawAttrs) -> Vec<u8> {
        let mut o = (v.len() as u16).to_be_bytes().to_vec();
        for (n, b) in v { o.extend(n.to_be_bytes()); o.extend((b.len() as u32).to_be_bytes()); o.extend(b) }
        o
    }
    /// fields and methods: (name, descriptor, attributes)
    pub fn file(&self, fields: &[(u16, u16, RawAttrs)], methods: &[(u16, u16, RawAttrs)], attrs: &RawAttrs) -> Vec<u8> {
        let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 55];
        o.extend((self.n as u16).to_be_bytes());
        o.extend(&self.pool);
        for v in [0x21, self.this, self.object, 0] { o.extend(v.to_be_bytes()) }
        for list in [fields, methods] {
            o.extend((list.len() as u16).to_be_bytes());
            for (n, d, a) in list { for v in [1, *n, *d] { o.extend(v.to_be_bytes()) } o.extend(Self::attrs(a)) }
        }
        o.extend(Self::attrs(attrs));
        o
    }
    pub fn code(body: &[u8], attrs: &RawAttrs) -> Vec<u8> {
        let mut o = vec![0, 1, 0, 1];
        o.extend((body.len() as u32).to_be_bytes());
        o.extend(body);
        o.extend([0, 0]);
        o.extend(Self::attrs(attrs));
        o
    }
}

fn depth(t: &mut Tape, max: usize) -> usize {
    (*t.pick(&[20, 100, 254, 255, 256, 257, 300, 1000, 2000, 5000, 20000, 65000, 250_000])).min(max)
}

/// Hostile files: deep nesting, self-reference, enormous counts and lengths.
pub fn hostile(t: &mut Tape) -> (Vec<u8>, String) {
    let mut m = Mini::new();
    let (x, i) = (m.utf(b"x"), m.utf(b"I"));
    let mv = m.utf(b"()V");
    let code_name = m.utf(b"Code");
    let rep = |s: &str, n: usize| s.repeat(n);
    match t.n(14) {
        0 => {
            // annotation values within values
            let a = m.utf(b"AnnotationDefault");
            let ty = m.utf(b"LA;");
            let d = depth(t, 250_000);
            let nest = t.n(2) == 0;
            let mut b = vec![];
            for _ in 0..d { if nest { b.extend([b'[', 0, 1]) } else { b.push(b'@'); b.extend(ty.to_be_bytes()); b.extend([0, 1]); b.extend(x.to_be_bytes()) } }
            b.extend([b'[', 0, 0]);
            (m.file(&[], &[(x, mv, vec![(a, b)])], &vec![]), format!("annotation values nested {d} deep"))
        }
        1 => {
            let a = m.utf(b"Signature");
            let place = t.n(3);
            let d = depth(t, 9000);
            let s = match t.n(6) {
                0 => format!("{}Lx;{}", rep("Lx<", d), rep(">;", d)),
                1 => format!("{}Lx;", rep("[", d * 7)),
                2 => format!("Lx{};", rep(".y<*>", d)),
                3 => format!("{}Lx;{}", rep("Lx<+", d), rep(">;", d)),
                4 => format!("{}Lx;{}", rep("Lx<[", d), rep(">;", d)),
                _ => format!("{}Lx;{}", rep("Lx.y<-", d), rep(">;", d)),
            };
            let s = match place { 0 => s, 1 => if t.n(2) == 0 { s } else { format!("<T:{s}>Lx;") }, _ => match t.n(4) { 0 => format!("({s})V"), 1 => format!("<T:{s}>()V"), 2 => format!("()V^{s}"), _ => format!("(){s}") } };
            let s: Vec<u8> = s.bytes().take(65535).collect();
            let n = s.len();
            let u = m.utf(&s);
            let at = vec![(a, u.to_be_bytes().to_vec())];
            let f = match place { 0 => m.file(&[(x, i, at)], &[], &vec![]), 1 => m.file(&[], &[], &at), _ => m.file(&[], &[(x, mv, at)], &vec![]) };
            (f, format!("signature of {n} bytes nested {d} deep, place {place}"))
        }
        2 => {
            let d = depth(t, 65000);
            let s = match t.n(7) {
                0 => rep("[", d) + "I", 1 => rep("(", d) + &rep(")V", d.min(20000)), 2 => rep("([", d / 2) + "I)V",
                3 => "(".to_string() + &rep("[", d) + "I)V", 4 => "()".to_string() + &rep("[", d) + "I", 5 => rep("()", d / 2) + "V", _ => rep("[", d),
            };
            let s: Vec<u8> = s.bytes().take(65535).collect();
            let u = m.utf(&s);
            let f = match t.n(4) {
                0 => m.file(&[(x, u, vec![])], &[], &vec![]),
                1 => m.file(&[], &[(x, u, vec![])], &vec![]),
                2 => { let c = m.e(7, &[u]); let a = m.utf(b"NestHost"); m.file(&[], &[], &vec![(a, c.to_be_bytes().to_vec())]) }
                _ => { let c = m.e(16, &[u]); let mut b = vec![0x13]; b.extend(c.to_be_bytes()); b.extend([0x57, 0xB1]); m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&b, &vec![]))])], &vec![]) }
            };
            (f, format!("descriptor of {} bytes", s.len()))
        }
        3 | 4 => {
            // dynamic constants that need each other, or a long chain of them
            let a = m.utf(b"BootstrapMethods");
            let h = m.boot();
            let nt = m.nt("k", "I");
            let kind = t.n(6);
            let n = if kind >= 3 { depth(t, 8000) } else { t.range(1, 4) };
            let dyns: Vec<u16> = (0..n).map(|k| m.e(17, &[k as u16, nt])).collect();
            let plain = m.e(8, &[x]);
            // harmless arguments beside the one that matters
            let (before, behind) = if t.n(2) == 0 { (0, 0) } else { (t.n(3), t.n(3)) };
            let shallow = t.n(3) == 0;
            let leaf = if kind == 4 { 0 } else { n - 1 };
            let mut b = (n as u16).to_be_bytes().to_vec();
            for k in 0..n {
                b.extend(h.to_be_bytes());
                let arg = match kind { 0 => Some(dyns[k]), 1 => Some(dyns[(k + 1) % n]), 2 => Some(dyns[t.n(n)]), 4 => if k > 0 { Some(dyns[k - 1]) } else { None }, _ => dyns.get(k + 1).copied() };
                match arg {
                    Some(g) => {
                        let beside = if shallow && kind >= 3 && k != leaf { dyns[leaf] } else { plain };
                        let args: Vec<u16> = (0..before).map(|_| beside).chain([g]).chain((0..behind).map(|_| beside)).collect();
                        b.extend((args.len() as u16).to_be_bytes());
                        for a in args { b.extend(a.to_be_bytes()) }
                    }
                    None => b.extend([0, 0]),
                }
            }
            let mut c = vec![0x13];
            c.extend(dyns[if kind == 4 { n - 1 } else if kind == 5 { t.n(n) } else { 0 }].to_be_bytes());
            c.extend([0x57, 0xB1]);
            let used = t.n(3) > 0;
            let me = if used { vec![(x, mv, vec![(code_name, Mini::code(&c, &vec![]))])] } else { vec![] };
            (m.file(&[], &me, &vec![(a, b)]), format!("dynamic constants: {} of {n}, used: {used}", ["self-reference", "ring", "random graph", "chain", "chain backwards", "chain entered anywhere"][kind]))
        }
        5 => {
            // switches
            let mut b = vec![if t.n(2) == 0 { 0xAA } else { 0xAB }, 0, 0, 0];
            b.extend(0u32.to_be_bytes());
            b.extend(t.pick(&[0u32, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1000_0000, 5]).to_be_bytes());
            b.extend(t.pick(&[0u32, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1000_0000, 6]).to_be_bytes());
            for _ in 0..t.n(4) { b.extend(t.pick(&[0u32, 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]).to_be_bytes()) }
            b.push(0xB1);
            (m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&b, &vec![]))])], &vec![]), "switch with extreme bounds".into())
        }
        6 => {
            // pool ends in the middle of a two-slot constant
            let target = *t.pick(&[65533u32, 65534, 65535]);
            while m.n + 2 < target { m.long(7); }
            while m.n < target - 1 { m.utf(b"q"); }
            if t.n(2) == 0 { m.long(1); }
            let f = m.file(&[(x, i, vec![])], &[], &vec![]);
            let mut f = f;
            if t.n(2) == 0 { put16(&mut f, 8, 65535) }
            (f, format!("pool of {} slots", m.n))
        }
        7 => {
            // enormous lengths in front of nothing
            let name = *t.pick(&["Code", "Unknown", "Signature", "RuntimeVisibleAnnotations", "SourceDebugExtension", "Synthetic", "Module", "BootstrapMethods", "Exceptions", "LineNumberTable", "StackMapTable"]);
            let a = m.utf(name.as_bytes());
            let mut f = match t.n(4) {
                0 => m.file(&[(x, i, vec![(a, vec![])])], &[], &vec![]),
                1 => m.file(&[], &[(x, mv, vec![(a, vec![0, 1, 0, 1, 0xFF, 0xFF, 0xFF, 0xFF])])], &vec![]),
                2 => m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&[0xB1], &vec![(a, vec![])]))])], &vec![]),
                _ => m.file(&[], &[], &vec![(a, vec![])]),
            };
            for l in dec::landmarks(&f) { if l.2 == "attr-length" || (l.2 == "code-length" && t.n(2) == 0) { let v = *t.pick(&[0xFFFF_FFFFu32, 0x7FFF_FFFF, 0x4000_0000, 0x0FFF_FFFF]); put32(&mut f, l.0, v) } }
            for _ in 0..t.n(30) { f.push(t.n(256) as u8) }
            (f, format!("enormous length of {name}"))
        }
        8 | 9 => {
            // enormous counts, nested
            let ty = m.utf(b"LA;");
            let (name, place) = *t.pick(&[("RuntimeVisibleAnnotations", 0), ("AnnotationDefault", 1), ("RuntimeInvisibleTypeAnnotations", 0), ("RuntimeVisibleParameterAnnotations", 1), ("Exceptions", 1), ("InnerClasses", 0), ("BootstrapMethods", 0), ("NestMembers", 0), ("MethodParameters", 1), ("ModulePackages", 0), ("LineNumberTable", 2), ("LocalVariableTable", 2), ("StackMapTable", 2), ("LocalVariableTypeTable", 2), ("RuntimeVisibleTypeAnnotations", 2)]);
            let a = m.utf(name.as_bytes());
            let mut b = vec![];
            let d = *t.pick(&[1usize, 10, 200, 250, 1000]);
            match name {
                "AnnotationDefault" => for _ in 0..d { b.extend([b'[', 0xFF, 0xFF]) },
                "RuntimeVisibleAnnotations" => { b.extend([0xFF, 0xFF]); b.extend(ty.to_be_bytes()); b.extend([0xFF, 0xFF]); b.extend(x.to_be_bytes()); for _ in 0..d { b.extend([b'[', 0xFF, 0xFF]) } }
                "StackMapTable" => { b.extend([0xFF, 0xFF]); for _ in 0..d { b.extend([255, 0, 0, 0, 0, 0, 0]) } b.extend([255, 0, 0, 0xFF, 0xFF]); b.extend(vec![1u8; d]) }
                "BootstrapMethods" => { b.extend([0xFF, 0xFF]); let h = m.boot(); for _ in 0..d { b.extend(h.to_be_bytes()); b.extend([0, 0]) } b.extend(h.to_be_bytes()); b.extend([0xFF, 0xFF]) }
                _ => { b.extend([0xFF, 0xFF]); for _ in 0..d { b.push(t.n(3) as u8 * 0x7F) } }
            }
            let at = vec![(a, b)];
            let f = match place { 0 => m.file(&[], &[], &at), 1 => m.file(&[], &[(x, mv, at)], &vec![]), _ => m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&[0xB1], &at))])], &vec![]) };
            (f, format!("enormous count in {name}"))
        }
        11 | 12 => {
            // text that is nearly a descriptor or a signature
            const BITS: &[&str] = &["L", ";", "x", "[", "I", "V", "(", ")", "<", ">", ":", "T", ".", "/", "*", "+", "-", "^", "\u{e9}", "\u{20AC}", "\u{1F600}", "\u{0}", "LA;", "TT;", "()V", "<T:LA;>", "::", "Q", " ", ""];
            let mut s = String::new();
            for _ in 0..t.range(1, 9) { s += *t.pick(BITS) }
            let u = { let v: Vec<u16> = s.encode_utf16().collect(); m.utf(&crate::mutf::encode(&crate::model::JStr(v))) };
            let at = u.to_be_bytes().to_vec();
            let f = match t.n(9) {
                0 => { let a = m.utf(b"Signature"); m.file(&[(x, i, vec![(a, at)])], &[], &vec![]) }
                1 => { let a = m.utf(b"Signature"); m.file(&[], &[(x, mv, vec![(a, at)])], &vec![]) }
                2 => { let a = m.utf(b"Signature"); m.file(&[], &[], &vec![(a, at)]) }
                3 => m.file(&[(x, u, vec![])], &[], &vec![]),
                4 => m.file(&[], &[(x, u, vec![])], &vec![]),
                5 => { let a = m.utf(b"LocalVariableTypeTable"); let mut b = vec![0, 1, 0, 0, 0, 1]; b.extend(x.to_be_bytes()); b.extend(at); b.extend([0, 0]); m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&[0xB1], &vec![(a, b)]))])], &vec![]) }
                6 => { let a = m.utf(b"RuntimeVisibleAnnotations"); let mut b = vec![0, 1]; b.extend(at); b.extend([0, 0]); m.file(&[], &[], &vec![(a, b)]) }
                7 => { let c = m.e(7, &[u]); let k = c.to_be_bytes(); m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&[1, *t.pick(&[0xC0, 0xC1, 0xBB, 0xBD, 0x13]), k[0], k[1], 0x57, 0xB1], &vec![]))])], &vec![]) }
                _ => { let c = m.e(16, &[u]); let k = c.to_be_bytes(); m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&[0x13, k[0], k[1], 0x57, 0xB1], &vec![]))])], &vec![]) }
            };
            (f, format!("text {s:?} as descriptor or signature"))
        }
        10 => {
            // debug tables that point nowhere
            let name = *t.pick(&["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "RuntimeVisibleTypeAnnotations"]);
            let a = m.utf(name.as_bytes());
            let e = |t: &mut Tape| *t.pick(&[0u16, 1, 2, 3, 4, 5, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]);
            let mut b = vec![];
            let n = t.range(1, 3) as u16;
            b.extend(n.to_be_bytes());
            for _ in 0..n {
                match name {
                    "LineNumberTable" => { b.extend(e(t).to_be_bytes()); b.extend(e(t).to_be_bytes()) }
                    "RuntimeVisibleTypeAnnotations" => {
                        b.push(*t.pick(&[0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x4B, 0x3F, 0x4C]));
                        for _ in 0..t.n(5) { b.extend(e(t).to_be_bytes()) }
                    }
                    "StackMapTable" => { b.push(t.n(256) as u8); for _ in 0..t.n(4) { b.extend(e(t).to_be_bytes()) } }
                    _ => { b.extend(e(t).to_be_bytes()); b.extend(e(t).to_be_bytes()); b.extend(x.to_be_bytes()); b.extend(i.to_be_bytes()); b.extend(e(t).to_be_bytes()) }
                }
            }
            let body: Vec<u8> = match t.n(3) { 0 => vec![0xB1], 1 => vec![0x10, 5, 0x57, 0xB1], _ => vec![0xA7, 0, 3, 0x11, 1, 2, 0x57, 0xB1] };
            (m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&body, &vec![(a, b)]))])], &vec![]), format!("{name} pointing nowhere"))
        }
        _ => {
            // random code
            let n = t.range(1, 30);
            let b: Vec<u8> = (0..n).map(|_| if t.chance(1, 3) { t.n(16) as u8 } else { t.n(256) as u8 }).collect();
            (m.file(&[], &[(x, mv, vec![(code_name, Mini::code(&b, &vec![]))])], &vec![]), format!("random code of {n} bytes"))
        }
    }
}
