//! The same tokens laid out in many ways.
#![allow(unused)]
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use std::borrow::Cow;

pub const GAPS: &[&str] = &[" ", "\n", "\r\n", "\t", "/*é*/", " // ű\n", "\u{3000}", "\n\n  ", "/* /* 𝄞\r\n */ \n*/", "\u{2028}", "//\r\n\t", "\r", "\u{85}\n", "/*e\u{301}\u{fe0f}*/", "\t\t", "/* 👩\u{200d}👧 \u{202e}*/", "\u{200e}", "//\u{200b}\n\u{2003}", "/**/"];
pub const BOM: &str = "\u{feff}";

pub fn back(l: &[LTok]) -> Vec<Tok> { l.iter().map(|t| match &t.t { LT::I(s) => Tok::I(s.clone()), LT::L(s) => Tok::L(s.clone()), LT::P(c, j) => Tok::P(*c, *j), LT::G { d, inner, .. } => Tok::G(*d, back(inner)) }).collect() }

/// Gives names and texts other spellings, of several lengths in characters, bytes and lines.
pub fn dress(ts: &[Tok], n: &mut usize) -> Vec<Tok> {
    ts.iter().map(|t| {
        *n += 1;
        let pick = |v: &'static [&'static str]| -> Str { Cow::Borrowed(v[*n % v.len()]) };
        match t {
            Tok::I(s) if s.starts_with('a') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Tok::I(match *n % 5 { 0 => s.clone(), 1 => format!("é{}", *n % 100).into(), 2 => format!("名{}字", *n % 10).into(), 3 => format!("e\u{301}\u{308}{}𝔸", *n % 10).into(), _ => format!("x{}", "_".repeat(*n % 5)).into() }),
            Tok::L(s) if s.starts_with('"') => Tok::L(pick(&["\"s\"", "\"é\n𝄞\"", "\"\"", "\"\n\n\"", "\"ab\r\n  c\"", "\"x // y\"", "\"\u{feff}\"", "\"e\u{301} 👩\u{200d}👧 \u{200b}\t\"", "\"\u{2028}\u{85}\u{b}\"", "r\"\\ \n \"", "\"\\u{301}\\\n   x\""])),
            Tok::L(s) if s.starts_with('\'') => Tok::L(pick(&["'c'", "'é'", "'𝄞'", "'字'", "'\u{301}'", "'\\u{1F600}'"])),
            Tok::L(s) if s.starts_with("b\"") => Tok::L(pick(&["b\"s\"", "b\"s\n\ns\"", "b\"\""])),
            Tok::L(s) if s.bytes().all(|c| c.is_ascii_digit()) => Tok::L(pick(&["1", "0x1F", "1_000", "007"])),
            Tok::G(d, i) => Tok::G(*d, dress(i, n)),
            t => t.clone(),
        }
    }).collect()
}

/// Renders with the given gaps: one before everything, one at each place between tokens and
/// one after everything; `gap` is told which it is.
#[derive(Clone, Copy, PartialEq)]
pub enum At { Ends, Inside, Between }
pub fn lay(ts: &[Tok], gap: &mut dyn FnMut(At) -> Str) -> (String, Vec<LTok>) {
    let first = gap(At::Ends);
    let (out, l) = {
        let mut g = |inside: bool| gap(if inside { At::Inside } else { At::Between });
        let mut r = Renderer::new(&mut g);
        r.put(&first);
        let l = r.toks(ts, false);
        (r.out, l)
    };
    (out + &gap(At::Ends), l)
}

/// The `k`th layout, of many.
pub fn laid(ts: &[Tok], k: usize) -> (String, Vec<LTok>) {
    if k == 0 { return render(ts) }
    let ts = dress(ts, &mut { k });
    let mut n = k;
    lay(&ts, &mut |at| {
        n += 1;
        // a different walk through the gaps for every `k`
        let x = GAPS[(n * (1 + k % 7) + n / 3) % GAPS.len()];
        match at {
            At::Ends if n == k + 1 => match k % 3 { 0 => "".into(), 1 => BOM.into(), _ => format!("{}{}", if k % 2 == 0 { BOM } else { "" }, x).into() },
            At::Ends => if k % 2 == 0 { "".into() } else { x.into() },
            At::Inside if n % 3 == 0 => "".into(),
            _ => x.into(),
        }
    })
}
