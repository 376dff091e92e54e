//! Conversions between the model's text and coffer's values, written independently of coffer's
//! own parsers and printers: WTF-8, descriptors and generic signatures.
use crate::model::JStr;
use coffer::prelude::*;
use std::borrow::Cow;
use wtf_8::{Wtf8Str, Wtf8String};

pub type W = Cow<'static, Wtf8Str>;

pub fn wtf_bytes(s: &JStr) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.0.len());
    for c in char::decode_utf16(s.0.iter().copied()) {
        match c {
            Ok(c) => { let mut b = [0; 4]; o.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) }
            Err(e) => { let u = e.unpaired_surrogate() as u32; o.extend([0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3F) as u8, 0x80 | (u & 0x3F) as u8]) }
        }
    }
    o
}
pub fn w(s: &JStr) -> W { Cow::Owned(unsafe { Wtf8String::from_bytes_unchecked(wtf_bytes(s)) }) }
pub fn ws(s: &str) -> W { w(&JStr::new(s)) }

/// The UTF-16 units of a coffer string; Err if its bytes are not well-formed WTF-8.
pub fn j(s: &Wtf8Str) -> Result<JStr, String> {
    let b = s.as_bytes();
    let mut o: Vec<u16> = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let bad = || format!("string value {b:02x?} is not well-formed WTF-8");
        let l = match x { 0..=0x7F => 1, 0xC2..=0xDF => 2, 0xE0..=0xEF => 3, 0xF0..=0xF4 => 4, _ => return Err(bad()) };
        let s = b.get(i..i + l).ok_or_else(bad)?;
        if x == 0xED && s[1] >= 0xA0 {
            if s[1] & 0xC0 != 0x80 || s[2] & 0xC0 != 0x80 { return Err(bad()) }
            let u = 0xD000 | ((s[1] & 0x3F) as u16) << 6 | (s[2] & 0x3F) as u16;
            if u >= 0xDC00 && o.last().map_or(false, |p| (0xD800..0xDC00).contains(p)) {
                // an encoded pair must be joined in WTF-8
                return Err(bad());
            }
            o.push(u);
        } else {
            let c = std::str::from_utf8(s).map_err(|_| bad())?.chars().next().unwrap();
            let mut t = [0; 2];
            o.extend_from_slice(c.encode_utf16(&mut t));
        }
        i += l;
    }
    Ok(JStr(o))
}

// ---- descriptors ----
pub fn ty(d: &JStr) -> Option<Type> {
    let mut p = 0;
    let t = if d.starts(b'(') {
        p = 1;
        let mut parameters = vec![];
        while *d.0.get(p)? != b')' as u16 { parameters.push(fty(&d.0, &mut p)?) }
        p += 1;
        let ret = if *d.0.get(p)? == b'V' as u16 { p += 1; None } else { Some(Box::new(fty(&d.0, &mut p)?)) };
        Type::Method { parameters, ret }
    } else { fty(&d.0, &mut p)? };
    if p == d.0.len() { Some(t) } else { None }
}
fn fty(d: &[u16], p: &mut usize) -> Option<Type> {
    let mut dim = 0usize;
    while *d.get(*p)? == b'[' as u16 { dim += 1; *p += 1 }
    let c = u8::try_from(*d.get(*p)?).ok()?;
    *p += 1;
    let t = match c {
        b'B' => Type::Byte, b'C' => Type::Char, b'D' => Type::Double, b'F' => Type::Float, b'I' => Type::Int,
        b'J' => Type::Long, b'S' => Type::Short, b'Z' => Type::Boolean,
        b'L' => {
            let s = *p;
            while *d.get(*p)? != b';' as u16 { *p += 1 }
            *p += 1;
            Type::Ref(w(&JStr(d[s..*p - 1].to_vec())))
        }
        _ => return None,
    };
    Some(if dim == 0 { t } else { Type::ArrayRef(u8::try_from(dim).ok()?, Box::new(t)) })
}
pub fn desc(t: &Type) -> Result<JStr, String> {
    let mut o = vec![];
    put_ty(t, &mut o)?;
    let s = JStr(o);
    // a value whose text has another meaning is not a descriptor
    if ty(&s).as_ref() != Some(t) { return Err(format!("descriptor value {t:?} is not what {s:?} means")) }
    Ok(s)
}
fn put_ty(t: &Type, o: &mut Vec<u16>) -> Result<(), String> {
    let c = match t {
        Type::Byte => b'B', Type::Char => b'C', Type::Double => b'D', Type::Float => b'F', Type::Int => b'I',
        Type::Long => b'J', Type::Short => b'S', Type::Boolean => b'Z',
        Type::Ref(s) => { o.push(b'L' as u16); o.extend(j(s)?.0); b';' }
        Type::ArrayRef(n, t) => { for _ in 0..*n { o.push(b'[' as u16) } return put_ty(t, o) }
        Type::Method { parameters, ret } => {
            o.push(b'(' as u16);
            for p in parameters { put_ty(p, o)? }
            o.push(b')' as u16);
            match ret { Some(r) => return put_ty(r, o), None => b'V' }
        }
    };
    o.push(c as u16);
    Ok(())
}

// ---- generic signatures ----
struct P<'a> { c: &'a [char], p: usize }
impl<'a> P<'a> {
    fn peek(&self) -> Option<char> { self.c.get(self.p).copied() }
    fn eat(&mut self, c: char) -> Option<()> { if self.peek()? == c { self.p += 1; Some(()) } else { None } }
    fn ident(&mut self) -> Option<Cow<'static, str>> {
        let s = self.p;
        while !matches!(self.peek()?, '.' | ';' | '[' | '/' | '<' | '>' | ':') { self.p += 1 }
        if s == self.p { return None }
        Some(Cow::Owned(self.c[s..self.p].iter().collect()))
    }
    fn ref_(&mut self) -> Option<RefTypeSignature> {
        match self.peek()? {
            'T' => { self.p += 1; let n = self.ident()?; self.eat(';')?; Some(RefTypeSignature::TypeVariable(n)) }
            'L' => Some(RefTypeSignature::ClassType(self.class()?)),
            '[' => {
                let mut d = 0usize;
                while self.peek()? == '[' { d += 1; self.p += 1 }
                Some(RefTypeSignature::ArrayRef(u8::try_from(d).ok()?, Box::new(self.type_()?)))
            }
            _ => None,
        }
    }
    fn type_(&mut self) -> Option<TypeSignature> {
        let t = match self.peek()? {
            'B' => TypeSignature::Byte, 'C' => TypeSignature::Char, 'D' => TypeSignature::Double, 'F' => TypeSignature::Float,
            'I' => TypeSignature::Int, 'J' => TypeSignature::Long, 'S' => TypeSignature::Short, 'Z' => TypeSignature::Boolean,
            _ => return Some(TypeSignature::Ref(self.ref_()?)),
        };
        self.p += 1;
        Some(t)
    }
    fn class(&mut self) -> Option<ClassTypeSignature> {
        self.eat('L')?;
        let mut package = vec![];
        let mut id = self.ident()?;
        while self.peek()? == '/' { self.p += 1; package.push(id); id = self.ident()? }
        let name = SimpleClassTypeSignature { name: id, type_arguments: self.args()? };
        let mut suffix = vec![];
        while self.peek()? == '.' { self.p += 1; suffix.push(SimpleClassTypeSignature { name: self.ident()?, type_arguments: self.args()? }) }
        self.eat(';')?;
        Some(ClassTypeSignature { package, name, suffix })
    }
    fn args(&mut self) -> Option<Vec<TypeArgument>> {
        let mut v = vec![];
        if self.peek()? != '<' { return Some(v) }
        self.p += 1;
        while self.peek()? != '>' {
            v.push(match self.peek()? {
                '*' => { self.p += 1; TypeArgument::Any }
                '+' => { self.p += 1; TypeArgument::Extends(self.ref_()?) }
                '-' => { self.p += 1; TypeArgument::Super(self.ref_()?) }
                _ => TypeArgument::Exact(self.ref_()?),
            })
        }
        self.p += 1;
        if v.is_empty() { None } else { Some(v) }
    }
    fn params(&mut self) -> Option<Vec<TypeParameter>> {
        let mut v = vec![];
        if self.peek()? != '<' { return Some(v) }
        self.p += 1;
        while self.peek()? != '>' {
            let name = self.ident()?;
            self.eat(':')?;
            let class_bound = if matches!(self.peek()?, 'L' | 'T' | '[') { Some(self.ref_()?) } else { None };
            let mut interface_bounds = vec![];
            while self.peek()? == ':' { self.p += 1; interface_bounds.push(self.ref_()?) }
            v.push(TypeParameter { name, class_bound, interface_bounds });
        }
        self.p += 1;
        if v.is_empty() { None } else { Some(v) }
    }
}
fn parse<T>(s: &str, f: impl FnOnce(&mut P) -> Option<T>) -> Option<T> {
    let c: Vec<char> = s.chars().collect();
    let mut p = P { c: &c, p: 0 };
    let t = f(&mut p)?;
    if p.p == c.len() { Some(t) } else { None }
}
pub fn class_sig(s: &str) -> Option<ClassSignature> {
    parse(s, |p| {
        let type_parameters = p.params()?;
        let super_class = p.class()?;
        let mut interfaces = vec![];
        while p.peek().is_some() { interfaces.push(p.class()?) }
        Some(ClassSignature { type_parameters, super_class, interfaces })
    })
}
pub fn method_sig(s: &str) -> Option<MethodSignature> {
    parse(s, |p| {
        let type_parameters = p.params()?;
        p.eat('(')?;
        let mut parameters = vec![];
        while p.peek()? != ')' { parameters.push(p.type_()?) }
        p.p += 1;
        let return_type = if p.peek()? == 'V' { p.p += 1; None } else { Some(p.type_()?) };
        let mut throws = vec![];
        while p.peek().is_some() {
            p.eat('^')?;
            throws.push(if p.peek()? == 'T' { p.p += 1; let n = p.ident()?; p.eat(';')?; Throws::TypeParameter(n) } else { Throws::Class(p.class()?) });
        }
        Some(MethodSignature { type_parameters, parameters, return_type, throws })
    })
}
pub fn field_sig(s: &str) -> Option<RefTypeSignature> { parse(s, |p| p.ref_()) }

fn put_simple(s: &SimpleClassTypeSignature, o: &mut String) {
    o.push_str(&s.name);
    if !s.type_arguments.is_empty() {
        o.push('<');
        for a in &s.type_arguments {
            match a {
                TypeArgument::Any => o.push('*'),
                TypeArgument::Extends(r) => { o.push('+'); put_ref(r, o) }
                TypeArgument::Super(r) => { o.push('-'); put_ref(r, o) }
                TypeArgument::Exact(r) => put_ref(r, o),
            }
        }
        o.push('>');
    }
}
fn put_class(c: &ClassTypeSignature, o: &mut String) {
    o.push('L');
    for p in &c.package { o.push_str(p); o.push('/') }
    put_simple(&c.name, o);
    for s in &c.suffix { o.push('.'); put_simple(s, o) }
    o.push(';');
}
fn put_ref(r: &RefTypeSignature, o: &mut String) {
    match r {
        RefTypeSignature::TypeVariable(n) => { o.push('T'); o.push_str(n); o.push(';') }
        RefTypeSignature::ClassType(c) => put_class(c, o),
        RefTypeSignature::ArrayRef(d, t) => { for _ in 0..*d { o.push('[') } put_type(t, o) }
    }
}
fn put_type(t: &TypeSignature, o: &mut String) {
    o.push(match t {
        TypeSignature::Byte => 'B', TypeSignature::Char => 'C', TypeSignature::Double => 'D', TypeSignature::Float => 'F',
        TypeSignature::Int => 'I', TypeSignature::Long => 'J', TypeSignature::Short => 'S', TypeSignature::Boolean => 'Z',
        TypeSignature::Ref(r) => return put_ref(r, o),
    })
}
fn put_params(v: &[TypeParameter], o: &mut String) {
    if v.is_empty() { return }
    o.push('<');
    for p in v {
        o.push_str(&p.name);
        o.push(':');
        if let Some(b) = &p.class_bound { put_ref(b, o) }
        for b in &p.interface_bounds { o.push(':'); put_ref(b, o) }
    }
    o.push('>');
}
fn marked(text: String, same: bool) -> JStr { JStr::new(&if same { text } else { format!("MISPARSED {text}") }) }
pub fn class_sig_text(s: &ClassSignature) -> JStr {
    let mut o = String::new();
    put_params(&s.type_parameters, &mut o);
    put_class(&s.super_class, &mut o);
    for i in &s.interfaces { put_class(i, &mut o) }
    let same = class_sig(&o).as_ref() == Some(s);
    marked(o, same)
}
pub fn method_sig_text(s: &MethodSignature) -> JStr {
    let mut o = String::new();
    put_params(&s.type_parameters, &mut o);
    o.push('(');
    for p in &s.parameters { put_type(p, &mut o) }
    o.push(')');
    match &s.return_type { Some(t) => put_type(t, &mut o), None => o.push('V') }
    for t in &s.throws {
        o.push('^');
        match t { Throws::TypeParameter(n) => { o.push('T'); o.push_str(n); o.push(';') } Throws::Class(c) => put_class(c, &mut o) }
    }
    let same = method_sig(&o).as_ref() == Some(s);
    marked(o, same)
}
/// The value inside a FieldSignature is private: its text is coffer's, its structure is
/// compared through its debug form.
pub fn field_sig_text(s: &FieldSignature) -> JStr {
    let o = s.to_string();
    let same = field_sig(&o).map_or(false, |r| format!("{s:?}").contains(&format!("{r:?}")));
    marked(o, same)
}
