//! Literal values of every kind, boundaries included.
#![allow(unused)]
use mc::gram::V;
use parsel::ast::*;
use std::convert::TryFrom;

pub fn lit_of(v: &V) -> Lit {
    match v {
        V::Bool(b) => (*b).into(), V::Byte(b) => (*b).into(), V::Int(i) => if *i < 0 { i64::try_from(*i).unwrap().into() } else { u64::try_from(*i).unwrap().into() },
        V::Float(f) => Lit::try_from(*f).unwrap(), V::Char(c) => (*c).into(), V::Str(s) => (&**s).into(), V::ByteStr(b) => (&b[..]).into(),
    }
}

pub fn uints() -> Vec<u64> {
    let mut us: Vec<u64> = (0..70).collect();
    for k in 0..64 { us.extend([1u64 << k, (1u64 << k).wrapping_sub(1), (1 << k) + 1]) }
    for k in 0..20 { us.extend([10u64.pow(k), 10u64.pow(k) - 1]) }
    us.extend([u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1]);
    us.sort(); us.dedup();
    us
}

pub fn floats() -> Vec<f64> {
    let mut v = vec![];
    for m in [0.0, 1.0, 1.5, 0.1, 123456.789, 1e15, 1e16, 1e17, 1e21, 1e22, 9007199254740993.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-7, 1e-5, f64::EPSILON, f64::INFINITY] { v.extend([m, -m]) }
    for k in -1074..1024 { v.push(2f64.powi(k)); v.push(-2f64.powi(k) * 1.1) }
    v
}

pub fn strings() -> Vec<String> {
    let cs = ["a", "\"", "\\", "'", "\n", "\r", "\r\n", "\t", "\0", "0", "\u{7f}", "\u{80}", "é", "\u{301}", "\u{200d}", "\u{feff}", "😀", "{", "//", "/*", "#", "\\n", " ", "\u{2028}", "\u{10ffff}", "x41", "u{41}"];
    let mut v = vec![String::new()];
    for a in cs { v.push(a.into()); for b in cs { v.push(format!("{a}{b}")); for d in cs { v.push(format!("{a}{b}{d}")) } } }
    for n in [9, 31, 64, 65, 255, 256, 1000, 5000] { v.push("long ".repeat(n)) }
    v
}

pub fn byte_strings() -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for n in [9, 31, 64, 65, 255, 256, 1000, 5000] { v.push(vec![n as u8; n]); v.push((0..n).map(|x| x as u8).collect()) }
    for a in 0..=255u8 { v.push(vec![a]); for b in [0u8, b'0', b'7', b'"', b'\\', b'\n', b'\r', b'\'', b'a', b'x', 127, 128, 255] { v.push(vec![a, b]); v.push(vec![b, a]) } }
    v
}

pub fn some_chars() -> Vec<char> {
    (0..0x3000).chain(0xd780..0xd800).chain(0xe000..0xe080).chain(0xff00..0x10080).chain(0x1f600..0x1f640).chain(0xe0000..0xe0200).chain(0x10ff80..0x110000).map(|c| char::from_u32(c).unwrap()).collect()
}

pub fn values() -> Vec<V> {
    let mut v = vec![V::Bool(true), V::Bool(false)];
    v.extend((0..=255).map(V::Byte));
    v.extend(uints().into_iter().map(|u| V::Int(u as i128)));
    v.extend(uints().into_iter().filter(|u| *u > 0 && *u <= 1 << 63).map(|u| V::Int(-(u as i128))));
    v.extend(floats().into_iter().map(V::Float));
    v.extend(some_chars().into_iter().map(V::Char));
    v.extend(strings().into_iter().map(V::Str));
    v.extend(byte_strings().into_iter().map(V::ByteStr));
    v
}
