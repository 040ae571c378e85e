//! C15: literals keep their exact value and kind.
use mc::{gram::V, run::*};
use parsel::ast::*;
use parsel::ToTokens;
use proc_macro2::{Literal, Span, TokenStream, TokenTree};
use std::borrow::{Borrow, Cow};
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use std::str::FromStr;
#[path = "../shared/values.rs"]
mod values;
use values::*;
#[path = "../shared/decode.rs"]
mod decode;
use decode::*;

/// value of a literal node
trait Val: parsel::Parse + ToTokens + FromStr<Err = syn::Error> + Display + Debug + Clone { const NAME: &'static str; fn v(&self) -> V; fn takes(v: &V, neg: bool) -> Option<bool>; fn tree(self) -> Option<TokenTree>; }
macro_rules! val { ($($t:ident $k:ident |$s:ident| $e:expr, |$v:ident, $n:ident| $takes:expr;)*) => { $(
    impl Val for $t { const NAME: &'static str = stringify!($t); fn v(&self) -> V { let $s = self; $e } fn takes($v: &V, $n: bool) -> Option<bool> { let _ = $n; $takes } fn tree(self) -> Option<TokenTree> { Some(self.into()) } }
)* } }
val! {
    LitBool Bool |s| V::Bool(s.value()), |v, n| Some(matches!(v, V::Bool(_)));
    LitByte Byte |s| V::Byte(s.value()), |v, n| Some(matches!(v, V::Byte(_)));
    LitInt Int |s| V::Int(s.value() as i128), |v, n| Some(matches!(v, V::Int(i) if i64::try_from(*i).is_ok()));
    // whether -0 is an unsigned literal is not specified
    LitUint Uint |s| V::Int(s.value() as i128), |v, n| if n && *v == V::Int(0) { None } else { Some(matches!(v, V::Int(i) if u64::try_from(*i).is_ok())) };
    LitFloat Float |s| V::Float(s.value().into_inner()), |v, n| Some(matches!(v, V::Float(_)));
    LitChar Char |s| V::Char(s.value()), |v, n| Some(matches!(v, V::Char(_)));
    LitStr Str |s| V::Str(s.value()), |v, n| Some(matches!(v, V::Str(_)));
    LitByteStr ByteStr |s| V::ByteStr(s.value()), |v, n| Some(matches!(v, V::ByteStr(_)));
}
impl Val for Lit {
    const NAME: &'static str = "Lit";
    fn v(&self) -> V { match self { Lit::Bool(x) => x.v(), Lit::Byte(x) => x.v(), Lit::Int(x) => x.v(), Lit::Uint(x) => x.v(), Lit::Float(x) => x.v(), Lit::Char(x) => x.v(), Lit::Str(x) => x.v(), Lit::ByteStr(x) => x.v() } }
    fn takes(v: &V, _: bool) -> Option<bool> { Some(match v { V::Int(i) => *i >= i64::MIN as i128 && *i <= u64::MAX as i128, _ => true }) }
    fn tree(self) -> Option<TokenTree> { None }
}

/// equal values of the same kind; floats bit for bit
fn same(a: &V, b: &V) -> bool { match (a, b) { (V::Float(x), V::Float(y)) => x.to_bits() == y.to_bits(), _ => a == b } }

fn printed(ts: TokenStream) -> Result<V, String> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    match &t[..] {
        [TokenTree::Literal(l)] => decode(&l.to_string()),
        [TokenTree::Punct(p), TokenTree::Literal(l)] if p.as_char() == '-' => decode(&format!("-{l}")),
        [TokenTree::Ident(i)] => decode(&i.to_string()),
        _ => Err(format!("{} tokens", t.len())),
    }
}

/// one type on one spelling; `want`: the value it denotes, if it is a literal of a known kind
fn spelled<T: Val>(c: &mut Ctx, src: &str, want: &Option<V>, neg: bool) { judge(c, src, parsel::parse_str::<T>(src), want, neg) }
fn judge<T: Val>(c: &mut Ctx, src: &str, r: syn::Result<T>, want: &Option<V>, neg: bool) {
    c.runs += 1;
    c.transitions += 1;
    let takes = match want { None => Some(false), Some(v) => T::takes(v, neg) };
    match (&r, takes) {
        (_, None) => {}
        (Ok(x), Some(false)) => { c.fail(format!("{} accepts `{src}` as {:?}", T::NAME, x.v())); return }
        (Err(_), Some(false)) => { c.outcome("rejected"); return }
        (Err(e), Some(true)) => { c.fail(format!("{} rejects `{src}`: {e}", T::NAME)); return }
        (Ok(_), Some(true)) => {}
    }
    let (Ok(x), Some(v)) = (r, want) else { return };
    c.outcome("accepted");
    if !same(&x.v(), v) { c.fail(format!("{} parses `{src}` as {:?}, not {v:?}", T::NAME, x.v())) }
    // what it prints denotes that value
    match printed(x.to_token_stream()) { Ok(p) if same(&p, v) => {} p => c.fail(format!("{} parsed from `{src}` prints as `{}`, which is {p:?}, not {v:?}", T::NAME, x.to_token_stream())) }
    match decode(&x.to_string()) { Ok(p) if same(&p, v) => {} p => c.fail(format!("{} parsed from `{src}` displays as `{x}`, which is {p:?}, not {v:?}", T::NAME)) }
}

/// a token made in code rather than by a lexer
fn made(c: &mut Ctx, l: Literal, v: &V) {
    let want = Some(v.clone());
    let src = format!("token {l}");
    let neg = l.to_string().starts_with('-');
    macro_rules! each { ($($t:ident)*) => { $( judge::<$t>(c, &src, parsel::parse2(l.to_token_stream()), &want, neg); judge::<$t>(c, &src, parsel::parse2(TokenTree::from(l.clone()).into()), &want, neg); )* } }
    each!(LitBool LitByte LitInt LitUint LitFloat LitChar LitStr LitByteStr Lit);
}

fn spell_all(c: &mut Ctx, src: &str, want: Option<V>) {
    c.states += 1;
    let neg = src.trim_start().starts_with('-');
    macro_rules! each { ($($t:ident)*) => { $( spelled::<$t>(c, src, &want, neg); )* } }
    each!(LitBool LitByte LitInt LitUint LitFloat LitChar LitStr LitByteStr Lit);
    // Lit tells negative integers from others
    if let (Ok(l), Some(V::Int(i))) = (parsel::parse_str::<Lit>(src), &want) {
        let kind = matches!(l, Lit::Int(_));
        if kind != (*i < 0) || !matches!(l, Lit::Int(_) | Lit::Uint(_)) { c.fail(format!("Lit parses `{src}` as {l:?}")) }
    }
    // and through syn's own literals
    let Some(v) = &want else { return };
    if let Ok(s) = syn::parse_str::<syn::Lit>(src) {
        c.runs += 1;
        let l = Lit::try_from(s.clone());
        if Lit::takes(v, neg) == Some(true) { match &l { Ok(x) if same(&x.v(), v) => {} x => c.fail(format!("syn's `{src}` converts to {x:?}")) } } else if let Ok(x) = &l { c.fail(format!("syn's `{src}` converts to {x:?}")) }
        match s {
            syn::Lit::Int(s) => {
                let (a, b) = (LitInt::try_from(s.clone()), LitUint::try_from(s));
                if a.as_ref().ok().map(Val::v) != Some(v.clone()).filter(|v| LitInt::takes(v, neg) == Some(true)) { c.fail(format!("syn's `{src}` converts to {a:?}")) }
                if LitUint::takes(v, neg).is_some() && b.as_ref().ok().map(Val::v) != Some(v.clone()).filter(|v| LitUint::takes(v, neg) == Some(true)) { c.fail(format!("syn's `{src}` converts to {b:?}")) }
            }
            syn::Lit::Float(s) => match LitFloat::try_from(s) { Ok(x) if same(&x.v(), v) => {} x => c.fail(format!("syn's `{src}` converts to {x:?}")) },
            syn::Lit::Bool(s) => if !same(&LitBool::from(s).v(), v) { c.fail(format!("syn's `{src}` converts to another value")) },
            syn::Lit::Byte(s) => if !same(&LitByte::from(s).v(), v) { c.fail(format!("syn's `{src}` converts to another value")) },
            syn::Lit::Char(s) => if !same(&LitChar::from(s).v(), v) { c.fail(format!("syn's `{src}` converts to another value")) },
            syn::Lit::Str(s) => if !same(&LitStr::from(s).v(), v) { c.fail(format!("syn's `{src}` converts to another value")) },
            syn::Lit::ByteStr(s) => if !same(&LitByteStr::from(s).v(), v) { c.fail(format!("syn's `{src}` converts to another value")) },
            _ => {}
        }
    }
    c.sample(|| format!("`{src}` is {want:?} to every literal type that takes it"));
}

fn int_spellings() -> Vec<String> {
    let mut out = vec![];
    let mut vals: Vec<u128> = uints().into_iter().map(u128::from).collect();
    for d in 0..4 { vals.extend([(1u128 << 63) + d, (1 << 63) - d, (1 << 64) + d, (1 << 64) - 1 - d, (1 << 65) + d, (1 << 127) - d - 1, 10u128.pow(20) + d, 10u128.pow(19) + d]) }
    // many digits, many zeros, many underscores
    for n in [20, 30, 31, 32, 39, 40, 63, 64, 65, 100, 127, 128, 129, 256, 300, 1000] {
        for z in ["0".repeat(n), "_".repeat(n), "0_".repeat(n)] { for (r, d) in [("", "7"), ("", "9223372036854775808"), ("", "18446744073709551615"), ("", "18446744073709551616"), ("0x", "8000000000000000"), ("0xF", "F"), ("0b", "101"), ("0o", "1777777777777777777777"), ("0o2", "000000000000000000000")] { for sign in ["", "-"] { for suf in ["", "u64", "_i8"] {
            let lead = if r.is_empty() { "0" } else { r };
            out.push(format!("{sign}{lead}{z}{d}{suf}"));
        } } } }
        for d in ["1", "9", "8"] { for sign in ["", "-"] { out.push(format!("{sign}{}", d.repeat(n))) } }
    }
    vals.extend([255, 256, 65535, 65536, 0xdead_beef, 1234567890123]);
    vals.sort(); vals.dedup();
    let group = |s: &str, k: usize| -> String { match k {
        0 => s.to_string(),
        1 => { let mut o = String::new(); for (i, c) in s.chars().enumerate() { if i > 0 { o.push('_') } o.push(c) } o }
        2 => format!("{s}_"),
        3 => { let mut o = String::new(); for (i, c) in s.chars().enumerate() { if i > 0 && (s.len() - i) % 3 == 0 { o.push_str("__") } o.push(c) } o }
        _ => format!("00{s}"),
    } };
    for v in vals {
        for (r, s) in [("", format!("{v}")), ("0x", format!("{v:x}")), ("0x", format!("{v:X}")), ("0x_", format!("{v:x}")), ("0o", format!("{v:o}")), ("0b", format!("{v:b}"))] {
            for k in 0..5 { for suf in ["", "u8", "i64", "_u64", "usize", "i128"] { for sign in ["", "-", "- ", "-/**/"] {
                if k != 0 && suf != "" && sign.len() > 1 { continue }
                out.push(format!("{sign}{r}{}{suf}", group(&s, k)))
            } } }
        }
    }
    for big in ["340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999999999", "0xffffffffffffffffffffffffffffffffffffffff"] { for sign in ["", "-"] { out.push(format!("{sign}{big}")) } }
    out
}

/// all strings of digits and underscores, plain and in every radix
fn digit_strings(max: usize) -> Vec<String> {
    let mut out = vec![];
    let mut level = vec![String::new()];
    for n in 0..=max {
        for s in &level { for (p, ok) in [("", "017"), ("0x", "017af"), ("0o", "017"), ("0b", "01")] {
            if !s.chars().any(|c| c != '_') || p == "" && s.starts_with('_') || s.chars().any(|c| c != '_' && !ok.contains(c)) { continue }
            for (pre, suf) in [("", ""), ("-", ""), ("", "i32"), ("", "_u8"), ("- ", "usize")] { out.push(format!("{pre}{p}{s}{suf}")) }
        } }
        if n < max { level = level.iter().flat_map(|s| "017af_".chars().map(move |c| format!("{s}{c}"))).collect() }
    }
    out
}

fn float_spellings() -> Vec<String> {
    let mut out = vec![];
    for i in ["0", "1", "7", "12", "00", "0_1", "1_000", "9007199254740993", "9007199254740992", "123456789012345678901234567890", "179769313486231570000000000000000000000000", "340282346638528859811704183484516925440"] {
        for f in ["", ".", ".0", ".5", ".1_2", ".000_001", ".99999999999999999999", ".3333333333333333", ".1", ".500000000000000000000000000000000000000000000000000000000001", ".25_"] {
            for e in ["", "e0", "E5", "e+3", "e-7", "e1_0", "e22", "e23", "e308", "e309", "e292", "e-323", "e-324", "e-325", "e-400", "e999", "e00", "E-0"] {
                for s in ["", "f32", "f64", "_f64"] {
                    // (`1f32` is lexically an integer: its kind is left open)
                    if f == "" && e == "" { continue }
                    if f == "." && (e != "" || s != "") { continue }
                    for sign in ["", "-", "- "] { out.push(format!("{sign}{i}{f}{e}{s}")) }
                }
            }
        }
    }
    out
}

const STR_PARTS: &[&str] = &["a", "0", "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "'", "\\\"", "\\x41", "\\x7F", "\\x00", "\\u{e9}", "\\u{1F600}", "\\u{10_FF_FF}", "\\u{0}", "é", "😀", "\n", "\r\n", " ", "\\\n", "\\\n  \t", "\\\r\n ", "//", "/*", "#", "{", "\u{feff}", "\t"];
const RAW_PARTS: &[&str] = &["a", "\\", "\\n", "\\x41", "'", "é", "😀", "\n", " ", "#", "//", "\"a", "\\u{41}", "0", "\t"];
const BSTR_PARTS: &[&str] = &["a", "0", "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "'", "\\\"", "\\x41", "\\x7F", "\\x80", "\\xff", "\\xFf", "\n", "\r\n", " ", "\\\n", "\\\n \t", "//", "#"];

fn seq(parts: &[&str], mut i: u64, max: usize) -> Option<String> {
    let b = parts.len() as u64;
    for n in 0..=max { let c = b.pow(n as u32); if i < c { let mut v = vec![]; for _ in 0..n { v.push(parts[(i % b) as usize]); i /= b } return Some(v.concat()) } i -= c }
    None
}
fn seqs(parts: &[&str], max: usize) -> u64 { (0..=max).map(|n| (parts.len() as u64).pow(n as u32)).sum() }

fn check_val<T: Val + PartialEq>(c: &mut Ctx, v: &V, x: T, how: &str) {
    c.runs += 1;
    c.transitions += 1;
    if !same(&x.v(), v) { c.fail(format!("{} from {v:?} ({how}) holds {:?}", T::NAME, x.v())); return }
    let ts = x.to_token_stream();
    match printed(ts.clone()) { Ok(p) if same(&p, v) => {} p => c.fail(format!("{} from {v:?} ({how}) prints as `{ts}`, which is {p:?}", T::NAME)) }
    match decode(&x.to_string()) { Ok(p) if same(&p, v) => {} p => c.fail(format!("{} from {v:?} ({how}) displays as `{x}`, which is {p:?}", T::NAME)) }
    if let Some(t) = x.clone().tree() { match decode(&t.to_string()) { Ok(p) if same(&p, v) => {} p => c.fail(format!("{} from {v:?} ({how}) converts to the token `{t}`, which is {p:?}", T::NAME)) } }
    match parsel::parse2::<T>(ts.clone()) { Ok(y) if same(&y.v(), v) && y == x => {} y => c.fail(format!("{} from {v:?} ({how}) printed as `{ts}` parses as {:?}", T::NAME, y.map(|y| y.v()))) }
}

/// everything a literal node of a raw value can be made from and made into
macro_rules! convert { ($c:ident, $v:ident, $t:ident, $raw:expr, $rawty:ty, $syn:ty) => {{
    let raw: $rawty = $raw;
    check_val($c, $v, $t::from(raw.clone()), "From");
    check_val($c, $v, $t::new(raw.clone(), Span::call_site()), "new");
    let mut x = $t::new(raw.clone(), Span::mixed_site());
    x.set_span(Span::call_site());
    check_val($c, $v, x.clone(), "set_span");
    let back: $rawty = x.clone().into();
    let bor: &$rawty = x.borrow();
    if back != raw || x.clone().into_inner() != raw || x.value() != raw || *bor != raw || x != raw { $c.fail(format!("{} from {:?} gives back {back:?}", stringify!($t), $v)) }
    let s: $syn = x.clone().into();
    check_val($c, $v, $t::try_from(s.clone()).map_err(|e| e.to_string()).expect("conversion from syn's own literal"), "through syn");
    match syn_value(&s.to_token_stream()) { Ok(p) if same(&p, $v) => {} p => $c.fail(format!("{} from {:?} converts to syn's `{}`, which is {p:?}", stringify!($t), $v, s.to_token_stream())) }
    let l: Lit = x.into();
    check_lit($c, $v, l);
    check_lit($c, $v, Lit::from(raw));
}} }
fn syn_value(ts: &TokenStream) -> Result<V, String> { printed(ts.clone()) }
fn check_lit(c: &mut Ctx, v: &V, l: Lit) {
    // a signed literal that is not negative prints as an unsigned one
    let reparses = !matches!(&l, Lit::Int(i) if i.value() >= 0);
    if !same(&l.v(), v) { c.fail(format!("Lit from {v:?} holds {:?}", l.v())) }
    if reparses { check_val(c, v, l.clone(), "Lit") }
    let s: syn::Lit = l.clone().into();
    match Lit::try_from(s) { Ok(m) if same(&m.v(), v) && (m == l || !reparses) => {} m => c.fail(format!("{l:?} through syn's Lit becomes {m:?}")) }
}

fn built(c: &mut Ctx, v: &V) {
    c.states += 1;
    match v {
        V::Bool(_) => {}
        V::Byte(b) => made(c, Literal::byte_character(*b), v),
        V::Int(i) => {
            made(c, Literal::i128_unsuffixed(*i), v);
            made(c, Literal::i128_suffixed(*i), v);
            if let Ok(i) = i64::try_from(*i) { made(c, Literal::i64_suffixed(i), v); made(c, Literal::i64_unsuffixed(i), v) }
            if let Ok(i) = u64::try_from(*i) { made(c, Literal::u64_suffixed(i), v); made(c, Literal::usize_unsuffixed(i as usize), v) }
            if let Ok(i) = i8::try_from(*i) { made(c, Literal::i8_suffixed(i), v) }
        }
        V::Float(f) => if f.is_finite() { made(c, Literal::f64_unsuffixed(*f), v); if f.fract() != 0.0 { made(c, Literal::f64_suffixed(*f), v) } }
        V::Char(x) => made(c, Literal::character(*x), v),
        V::Str(s) => made(c, Literal::string(s), v),
        V::ByteStr(s) => made(c, Literal::byte_string(s), v),
    }
    match v {
        V::Bool(b) => convert!(c, v, LitBool, *b, bool, syn::LitBool),
        V::Byte(b) => convert!(c, v, LitByte, *b, u8, syn::LitByte),
        V::Int(i) => {
            if let Ok(i) = i64::try_from(*i) { convert!(c, v, LitInt, i, i64, syn::LitInt) }
            if let Ok(i) = u64::try_from(*i) { convert!(c, v, LitUint, i, u64, syn::LitInt) }
        }
        V::Float(f) => {
            let x = LitFloat::try_from(*f).unwrap();
            let n = x.value();
            convert!(c, v, LitFloat, n, ordered_float_notnan, syn::LitFloat);
            check_val(c, v, x, "TryFrom<f64>");
            let l = Lit::try_from(*f).unwrap();
            check_val(c, v, l, "Lit: TryFrom<f64>");
            if f64::from(x).to_bits() != f.to_bits() { c.fail(format!("LitFloat from {f} gives back {}", f64::from(x))) }
        }
        V::Char(x) => convert!(c, v, LitChar, *x, char, syn::LitChar),
        V::Str(s) => {
            convert!(c, v, LitStr, s.clone(), String, syn::LitStr);
            for (how, x) in [("&str", LitStr::from(&**s)), ("Box<str>", LitStr::from(s.clone().into_boxed_str())), ("borrowed Cow", LitStr::from(Cow::Borrowed(&**s))), ("owned Cow", LitStr::from(Cow::<str>::Owned(s.clone())))] { check_val(c, v, x, how) }
            for (how, x) in [("&str", Lit::from(&**s)), ("Box<str>", Lit::from(s.clone().into_boxed_str())), ("borrowed Cow", Lit::from(Cow::Borrowed(&**s))), ("owned Cow", Lit::from(Cow::<str>::Owned(s.clone()))), ("String", Lit::from(s.clone()))] { check_val(c, v, x, how) }
            let x = LitStr::from(&**s);
            let (a, b): (&str, &str) = (x.as_ref(), x.borrow());
            let (p, q): (Box<str>, Cow<str>) = (x.clone().into(), x.clone().into());
            if a != s || b != s || *x != **s || &*p != s || q != **s { c.fail(format!("LitStr from {s:?} gives back another text")) }
        }
        V::ByteStr(s) => {
            convert!(c, v, LitByteStr, s.clone(), Vec<u8>, syn::LitByteStr);
            for (how, x) in [("&[u8]", LitByteStr::from(&s[..])), ("Box<[u8]>", LitByteStr::from(s.clone().into_boxed_slice())), ("borrowed Cow", LitByteStr::from(Cow::Borrowed(&s[..]))), ("owned Cow", LitByteStr::from(Cow::<[u8]>::Owned(s.clone())))] { check_val(c, v, x, how) }
            for (how, x) in [("&[u8]", Lit::from(&s[..])), ("Box<[u8]>", Lit::from(s.clone().into_boxed_slice())), ("borrowed Cow", Lit::from(Cow::Borrowed(&s[..]))), ("owned Cow", Lit::from(Cow::<[u8]>::Owned(s.clone()))), ("Vec", Lit::from(s.clone()))] { check_val(c, v, x, how) }
            let mut x = LitByteStr::from(&s[..]);
            let (a, b): (&[u8], &[u8]) = (x.as_ref(), x.borrow());
            let (p, q): (Box<[u8]>, Cow<[u8]>) = (x.clone().into(), x.clone().into());
            if a != s || b != s || *x != s[..] || p[..] != s[..] || *q != s[..] { c.fail(format!("LitByteStr from {s:?} gives back other bytes")) }
            // changing the bytes in place
            let mut w = s.clone();
            for i in 0..w.len().min(3) { w[i] ^= 0x55; match i { 0 => x[i] ^= 0x55, 1 => AsMut::<[u8]>::as_mut(&mut x)[i] ^= 0x55, _ => std::borrow::BorrowMut::<[u8]>::borrow_mut(&mut x)[i] ^= 0x55 } }
            check_val(c, &V::ByteStr(w), x, "changed in place");
        }
    }
    c.outcome("built");
    c.sample(|| format!("{v:?} through every conversion"));
}
#[allow(non_camel_case_types)]
type ordered_float_notnan = <LitFloat as Inner>::T;
trait Inner { type T; }
impl Inner for LitFloat { type T = ordered_float::NotNan<f64>; }

fn main() {
    let q = !thorough();
    let spelled = |name: &str, v: Vec<String>, must: &[&'static str]| suite(name, v.len() as u64, must, move |i, c| { let s = &v[i as usize]; spell_all(c, s, decode(&s.replace("-/**/", "-")).ok()) });
    let both = ["accepted", "rejected"];
    let mut s = vec![spelled("integer spellings", int_spellings(), &both), spelled("all strings of digits", digit_strings(if q { 5 } else { 7 }), &both), spelled("float spellings", float_spellings(), &both)];
    let mut cs: Vec<String> = vec!["true".into(), "false".into()];
    for b in 0..=255u32 { for x in [format!("\\x{b:02x}"), format!("\\x{b:02X}")] { cs.push(format!("b'{x}'")); if b < 128 { cs.push(format!("'{x}'")) } } }
    for b in 0x20u8..0x7f { let ch = b as char; if ch != '\'' && ch != '\\' { cs.push(format!("'{ch}'")); cs.push(format!("b'{ch}'")) } }
    for e in ["\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "\\\"", "\""] { cs.push(format!("'{e}'")); cs.push(format!("b'{e}'")) }
    for u in ["0", "41", "00041", "e9", "E9", "1F600", "1_F_600", "10FFFF", "10_ffff_", "d7ff", "E000", "7f", "80"] { cs.push(format!("'\\u{{{u}}}'")) }
    for ch in ['é', '😀', '漢', '\u{301}', '\u{feff}', '\u{200d}', '\t', '\u{a0}'] { cs.push(format!("'{ch}'")) }
    s.push(spelled("characters, bytes and booleans", cs, &both));
    // tokens that are no literals of a known kind
    let none = ["c\"s\"", "cr\"s\"", "a", "_", "r#true", "True", "fn", "'a", "+", "- -1", "-\"s\"", "-'c'", "-b'c'", "-true", "+1", "(1)", "[1]", "{}", "1 2", "1 + 1", "", "-", "- a", "\"a\" \"b\"", "1 .5", "--1", "-b\"s\"", "-(1)"];
    s.push(suite("no literals", none.len() as u64, &["rejected"], move |i, c| spell_all(c, none[i as usize], None)));
    let n = if q { 4 } else { 5 };
    s.push(suite("string spellings", seqs(STR_PARTS, n), &["accepted", "rejected"], move |i, c| { let src = format!("\"{}\"", seq(STR_PARTS, i, n).unwrap()); if let Ok(v) = decode(&src) { spell_all(c, &src, Some(v)) } }));
    s.push(suite("raw string spellings", seqs(RAW_PARTS, n) * 3, &["accepted"], move |i, c| {
        let (body, h) = (seq(RAW_PARTS, i / 3, n).unwrap(), "#".repeat(i as usize % 3));
        if body.contains(&format!("\"{h}")) || body.ends_with('"') { return }
        for p in ["r", "br"] { if p == "br" && !body.is_ascii() { continue } let src = format!("{p}{h}\"{body}\"{h}"); let v = decode(&src).unwrap(); spell_all(c, &src, Some(v)) }
    }));
    s.push(suite("byte string spellings", seqs(BSTR_PARTS, n), &["accepted", "rejected"], move |i, c| { let src = format!("b\"{}\"", seq(BSTR_PARTS, i, n).unwrap()); if let Ok(v) = decode(&src) { spell_all(c, &src, Some(v)) } }));
    let lens = [1usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000];
    s.push(suite("long strings with one part somewhere", (lens.len() * (STR_PARTS.len() + BSTR_PARTS.len()) * 3) as u64, &["accepted"], move |i, c| {
        let (k, i) = (i as usize % 3, i as usize / 3);
        let (n, p) = (lens[i % lens.len()], i / lens.len());
        let at = [0, n / 2, n][k];
        let (pre, part) = if p < STR_PARTS.len() { ("", STR_PARTS[p]) } else { ("b", BSTR_PARTS[p - STR_PARTS.len()]) };
        let src = format!("{pre}\"{}{part}{}\"", "x".repeat(at), "y".repeat(n - at));
        if let Ok(v) = decode(&src) { spell_all(c, &src, Some(v)) }
    }));
    let vs = values();
    s.push(suite("values of every kind, built and converted", vs.len() as u64, &["built"], move |i, c| built(c, &vs[i as usize])));
    s.push(suite("every character", 0x110000, &["built"], |i, c| if let Some(ch) = char::from_u32(i as u32) {
        c.states += 1;
        let v = V::Char(ch);
        check_val(c, &v, LitChar::from(ch), "From");
        check_val(c, &V::Str(ch.to_string()), LitStr::from(ch.to_string()), "From");
        c.outcome("built");
    }));
    // floats: every exponent with mantissas that are hard to print or to read
    let mants: Vec<u64> = { let mut m = vec![0u64, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) + 1, 0x5_5555_5555_5555, 0xA_AAAA_AAAA_AAAA, 0x9_21FB_5444_2D18]; { for k in (0..52).step_by(if q { 4 } else { 1 }) { m.extend([1 << k, (1 << k) - 1, (1u64 << 52) - (1 << k)]) } } m.sort(); m.dedup(); m };
    let nm = mants.len() as u64;
    s.push(suite("floats of every exponent", 2047 * nm * 2, &["built"], move |i, c| {
        let (m, e, sg) = (mants[(i % nm) as usize], i / nm % 2047, i / nm / 2047);
        let f = f64::from_bits(sg << 63 | e << 52 | m);
        c.states += 1;
        let v = V::Float(f);
        check_val(c, &v, LitFloat::try_from(f).unwrap(), "TryFrom");
        check_val(c, &v, Lit::try_from(f).unwrap(), "TryFrom");
        c.outcome("built");
    }));
    s.push(suite("values that are refused", 1, &[], |_, c| {
        c.states += 1;
        for n in [f64::NAN, -f64::NAN] { if LitFloat::try_from(n).is_ok() || Lit::try_from(n).is_ok() { c.fail("a NaN is accepted") } }
        let v = syn::Lit::new(Literal::c_string(std::ffi::CStr::from_bytes_with_nul(b"s\0").unwrap()));
        if let Ok(x) = Lit::try_from(v) { c.fail(format!("a C string is accepted as {x:?}")) }
        for d in [LitBool::default().v(), LitByte::default().v(), LitInt::default().v(), LitUint::default().v(), LitFloat::default().v(), LitStr::default().v(), LitByteStr::default().v()].iter().zip([V::Bool(false), V::Byte(0), V::Int(0), V::Int(0), V::Float(0.0), V::Str(String::new()), V::ByteStr(vec![])]) { if *d.0 != d.1 { c.fail(format!("default literal holds {:?}", d.0)) } }
    }));
    main_("C15", s)
}
