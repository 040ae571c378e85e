//! C13: printing then parsing gives back the same syntax tree.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::ToTokens;
use proc_macro2::TokenStream;
use std::convert::TryFrom;
use std::fmt::Display;
use std::str::FromStr;
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../shared/values.rs"]
mod values;
use values::*;

fn tree<T: Spec>(v: &T) -> String { let mut o = String::new(); v.tree(&mut o); o }

/// the value survives printing, through tokens and through text
fn survives<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, name: &str, what: &dyn Fn() -> String, v: &T) {
    let mut check = |how: &str, r: syn::Result<T>, printed: String| {
        c.runs += 1;
        c.transitions += 1;
        match r {
            Err(e) => c.fail(format!("{name}, {}: printed as {how} `{printed}`, which does not parse: {e}", what())),
            Ok(w) => if !(w == *v && *v == w) || tree(&w) != tree(v) { c.fail(format!("{name}, {}: printed as {how} `{printed}`, which parses as{}, not as{}", what(), tree(&w), tree(v))) }
        }
    };
    let p = v.to_token_stream();
    check("tokens", parsel::parse2(p.clone()), p.to_string());
    let mut q = TokenStream::new();
    v.to_tokens(&mut q);
    check("tokens", parsel::parse2(q.clone()), q.to_string());
    check("tokens", parsel::parse2(v.into_token_stream_ref()), p.to_string());
    let s = format!("{v}");
    check("text", s.parse::<T>(), s.clone());
    let s = format!("{v:#}");
    check("short text", s.parse::<T>(), s.clone());
}
trait IntoRef { fn into_token_stream_ref(&self) -> TokenStream; }
impl<T: ToTokens> IntoRef for T { fn into_token_stream_ref(&self) -> TokenStream { self.into_token_stream() } }

fn round<T: Spec + FromStr<Err = syn::Error> + Display>(c: &mut Ctx, t: &Ty, _: &G, src: &str, _: &[LTok]) {
    c.states += 1;
    c.runs += 1;
    let v: T = match parsel::parse_str(src) { Ok(v) => v, Err(_) => { c.outcome("rejected"); return } };
    c.outcome("accepted");
    survives(c, t.name, &|| format!("parsed from `{src}`"), &v);
    for how in 0..HOWS { survives(c, t.name, &|| format!("the value of `{src}` assembled in code (way {how})"), &v.rebuild(how)) }
    c.sample(|| format!("{} from `{src}` survives tokens and both texts", t.name));
}

macro_rules! round_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: round::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(round_tys);
    let mut s = explore("every type", tys.clone(), ALPHA, &[D::Par], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, ext, &["accepted", "rejected"]);
    s.extend(explore("every type", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 8 } else { 10 }, sent2: if q { 3 } else { 5 } }, ext, &["accepted", "rejected"]));
    s.extend(explore("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, ext, &[]));
    for p in PERIODS { s.push(long(&format!("very often repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![4099, 4100] } else { vec![2050, 4095, 4096, 4097, 4098, 4099, 4100, 4101, 8194] }, &[], 0, ext, &[])) }
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 33, 64, 65, 129, 257] } else { (1..70).chain([127, 128, 129, 255, 256, 257, 511, 513, 1025]).collect() }, &[], 0, ext, &["accepted"])) }
    // deep nesting
    let tys2 = tys.clone();
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let depths: Vec<usize> = if q { vec![1, 2, 5, 17, 40] } else { vec![1, 2, 5, 17, 33, 65, 90] };
    let cores = ["", "a", "1", "a ;", "alpha 1", "-1", "a = 1 ;", "[ ] ;"];
    let n = depths.len() as u64 * cores.len() as u64 * 3;
    s.push(suite("deep nesting", n, &["accepted"], move |i, c| {
        let (d, r) = ((i / 3) as usize % depths.len(), i as usize / 3 / depths.len());
        let mut v = toks(cores[r]);
        for _ in 0..depths[d] { v = vec![Tok::G(D::ALL[i as usize % 3], v)] }
        let (src, l) = render(&v);
        for (t, g) in tys2.iter().zip(&gs) { ext(c, t, g, &src, &l) }
    }));
    // literals assembled in code, alone and inside every helper
    let ls = values();
    s.push(suite("literals assembled in code", ls.len() as u64, &[], move |i, c| {
        c.states += 1;
        let l = &lit_of(&ls[i as usize]);
        let w = || format!("assembled from {l:?}");
        survives(c, "Lit", &w, l);
        match l.clone() {
            Lit::Bool(x) => survives(c, "LitBool", &w, &x), Lit::Byte(x) => survives(c, "LitByte", &w, &x), Lit::Int(x) => survives(c, "LitInt", &w, &x), Lit::Uint(x) => survives(c, "LitUint", &w, &x),
            Lit::Float(x) => survives(c, "LitFloat", &w, &x), Lit::Char(x) => survives(c, "LitChar", &w, &x), Lit::Str(x) => survives(c, "LitStr", &w, &x), Lit::ByteStr(x) => survives(c, "LitByteStr", &w, &x),
        }
        let l = || l.clone();
        survives(c, "Paren<Lit>", &w, &Paren::from(l()));
        survives(c, "Brace<Any<Lit>>", &w, &Brace::from(Any::from(vec![l(), l()])));
        survives(c, "Maybe<Plus, Lit>", &w, &Maybe::<Plus, Lit>::from((Default::default(), l())));
        survives(c, "Punctuated<Lit, Comma>", &w, &[l(), l()].into_iter().collect::<Punctuated<Lit, Comma>>());
        survives(c, "LeftAssoc<Arrow, Lit>", &w, &LeftAssoc::<Arrow, Lit>::Binary { lhs: Box::new(l().into()), op: Default::default(), rhs: l() });
        survives(c, "Two<Plus, Lit>", &w, &Two(Plus::default(), l()));
        survives(c, "Many<Lit>", &w, &[l(), Lit::from(-1i64), l()].into_iter().collect::<Many<Lit>>());
        survives(c, "Either<Lit, Word>", &w, &Either::<Lit, Word>::Left(l()));
        c.outcome("survives");
    }));
    // words assembled in code
    let words: Vec<String> = RUST_KEYWORDS.iter().map(|s| s.to_string()).chain(["a", "alpha", "union", "é", "漢字", "_x", "__", "a1", "b", "r", "br", "c", "u8"].map(String::from)).collect();
    s.push(suite("words assembled in code", words.len() as u64, &[], move |i, c| {
        c.states += 1;
        let s = &*words[i as usize];
        let w = || format!("assembled from {s:?}");
        survives(c, "Word", &w, &word(s));
        if let Ok(k) = Kid::try_from(ident(s)) { survives(c, "CustomIdent", &w, &k); c.outcome("identifier") } else { c.outcome("keyword") }
        survives(c, "Any<Word>", &w, &Any::from(vec![word(s), word("x"), word(s)]));
        survives(c, "Separated<Word, Path2>", &w, &Separated::<Word, Path2>::try_from([word(s), word(s)].into_iter().collect::<syn::punctuated::Punctuated<_, _>>()).unwrap());
        if let Ok(r) = syn::parse_str::<Ident>(&format!("r#{s}")) { survives(c, "Word", &w, &Word::try_from(r).unwrap()) }
    }));
    main_("C13", s)
}
