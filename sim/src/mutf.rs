//! Reference codec for modified UTF-8, written from JVMS 4.4.7.
use crate::model::JStr;

pub fn encode(s: &JStr) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.0.len());
    for &u in &s.0 {
        let u = u as u32;
        if u >= 1 && u <= 0x7F { o.push(u as u8) }
        else if u <= 0x7FF { o.push(0xC0 | (u >> 6) as u8); o.push(0x80 | (u & 0x3F) as u8) }
        else { o.push(0xE0 | (u >> 12) as u8); o.push(0x80 | ((u >> 6) & 0x3F) as u8); o.push(0x80 | (u & 0x3F) as u8) }
    }
    o
}

/// Strict decoder: None if the bytes are not what the encoder above produces.
pub fn decode(b: &[u8]) -> Option<JStr> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let x = b[i] as u32;
        let cont = |k: usize| b.get(i + k).filter(|c| **c & 0xC0 == 0x80).map(|c| (*c & 0x3F) as u32);
        match x {
            0x01..=0x7F => { o.push(x as u16); i += 1 }
            0xC0..=0xDF => {
                let v = (x & 0x1F) << 6 | cont(1)?;
                if v != 0 && v < 0x80 { return None }
                o.push(v as u16);
                i += 2
            }
            0xE0..=0xEF => {
                let v = (x & 0x0F) << 12 | cont(1)? << 6 | cont(2)?;
                if v < 0x800 { return None }
                o.push(v as u16);
                i += 3
            }
            _ => return None,
        }
    }
    Some(JStr(o))
}

/// What a tolerant reader may additionally accept: a raw NUL byte and four-byte sequences, both
/// of which have one unambiguous meaning. None if even that fails.
pub fn decode_tolerant(b: &[u8]) -> Option<JStr> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0 { o.push(0); i += 1; continue }
        if b[i] >= 0xF0 {
            let s = std::str::from_utf8(b.get(i..i + 4)?).ok()?;
            o.extend(s.encode_utf16());
            i += 4;
            continue;
        }
        let l = match b[i] { 0x01..=0x7F => 1, 0xC0..=0xDF => 2, 0xE0..=0xEF => 3, _ => return None };
        o.extend(decode(b.get(i..i + l)?)?.0);
        i += l;
    }
    Some(JStr(o))
}
