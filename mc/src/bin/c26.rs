//! C26: parsing, printing and formatting end, and sub-productions are not tried again and again.
use mc::{explore::*, gram::*, grammar, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::util::*;
use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::HashMap;
use std::str::FromStr;
use syn::parse::{ParseStream, Parser};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;

// ---- work

/// the most tries of one production that are linear in the input
fn most(tokens: usize) -> u64 { 3 * tokens as u64 + 6 }

fn work<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) { measure::<T>(c, t, g, src, l, false) }
/// alternations try every alternative at most as often as they are parsed
fn once<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) { measure::<T>(c, t, g, src, l, true) }

fn measure<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok], strict: bool) {
    c.states += 1;
    c.runs += 1;
    let m = model(g, l, false);
    let ts: TokenStream = src.parse().unwrap();
    let mut ok = false;
    let (_, real) = tried(|| (|i: ParseStream| { ok = T::parse(i).is_ok(); i.parse::<TokenStream>().map(|_| ()) }).parse2(ts));
    c.transitions += real.values().sum::<u64>();
    c.outcome(match ok { true => "accepted", false => "rejected" });
    let shown: String = if src.chars().count() > 120 { src.chars().take(120).chain("...".chars()).collect() } else { src.to_string() };
    let sum = |t: &Tries| { let mut s: HashMap<usize, u64> = HashMap::new(); for ((n, _), k) in t { *s.entry(*n).or_insert(0) += k } s };
    let (a, b) = (sum(&real), sum(&m.tries));
    for (n, k) in &a {
        let want = b.get(n).copied().unwrap_or(0);
        // no more than the grammar itself calls for, up to a factor that repeated doubling exceeds
        if *k > 3 * want + 3 { c.fail(format!("{} on `{shown}` ({} tokens): sub-production {n} is tried {k} times, the grammar calls for {want}", t.name, l.len())) }
    }
    if strict { for ((n, p), k) in &real { let want = m.tries.get(&(*n, *p)).copied().unwrap_or(0); if *k > want { c.fail(format!("{} on `{shown}`: alternative {n} is tried {k} times at {p:?}, where the alternation is parsed {want} times", t.name)) } } }
    c.sample(|| format!("{} on `{shown}`: tries {a:?}", t.name));
}
macro_rules! work_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: work::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }
macro_rules! once_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: once::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

/// and, on long or deep inputs, no more than linear in their size
fn linear(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    (t.ext)(c, t, g, src, l);
    fn size(l: &[LTok]) -> usize { l.iter().map(|t| match &t.t { LT::G { inner, .. } => 2 + size(inner), _ => 1 }).sum() }
    let n = size(l);
    // the bound is about grammars that are linear themselves
    let ts: TokenStream = src.parse().unwrap();
    let (_, real) = tried(|| (t.full)(ts).is_ok());
    let mut s: HashMap<usize, u64> = HashMap::new();
    for ((n, _), k) in &real { *s.entry(*n).or_insert(0) += k }
    for (p, k) in s { if k > most(n) { c.fail(format!("{} on an input of {n} tokens: sub-production {p} is tried {k} times", t.name)) } }
}

type W = Tr<0, Word>;
type Pl = Tr<1, Plus>;
grammar! {
    struct Tw<A, B>(0: A, 1: B);
    enum Al<A, B, C> { A(0 a: A), B { b: B }, C(0 c: C), }
    enum Pre { A(0 a: Tr<0, Word>, 1 b: Tr<1, Plus>), B(0 a: Tr<2, Word>, 1 b: Tr<3, Minus>), C { a: Tr<4, Word> }, D(0 a: Tr<5, Lit>), }
    struct Rec { head: Tr<0, Word>, #[parsel(recursive)] tail: Maybe<Tr<1, Plus>, Box<Rec>> }
    struct RecGrp { head: Tr<0, Word>, #[parsel(recursive)] tail: Any<Paren<Box<RecGrp>>> }
    enum RecAlt { Name(0 n: Tr<0, Word>), Lit(0 l: Tr<1, Lit>), Par(0 p: #[parsel(recursive)] Tr<2, Paren<Punctuated<Box<RecAlt>, Comma>>>), Brk(0 p: #[parsel(recursive)] Tr<3, Bracket<LeftAssoc<Plus, Box<RecAlt>>>>), Neg(0 m: Tr<4, Minus>, 1 r: #[parsel(recursive)] Box<RecAlt>), }
    struct RecEither(0: #[parsel(recursive)] Either<Tr<0, Word>, Either<Tr<1, Lit>, Either<Tr<2, Paren<Separated<Box<RecEither>, Comma>>>, Tr<3, Brace<RightAssoc<Plus, Box<RecEither>>>>>>>);
    struct RecMaybe { a: Tr<0, Word>, #[parsel(recursive)] b: Maybe<Tr<1, Plus>, Paren<Maybe<Tr<2, Minus>, Box<RecMaybe>>>> }
    struct RecList(0: Tr<0, Word>, 1: #[parsel(recursive)] Maybe<Tr<1, Bracket<Many<Box<RecList>>>>>);
    struct RecPre { #[parsel(recursive)] a: Maybe<Paren<Box<RecPre>>, Tr<0, Word>>, b: Tr<1, Word> }
}

/// every combination of helpers nested to a fixed depth
struct Z;
struct S<D>(std::marker::PhantomData<D>);
trait Nest<T> { fn all(name: String, out: &mut Vec<Ty>); }
impl<T: Spec> Nest<T> for Z {
    fn all(name: String, out: &mut Vec<Ty>) { out.push(Ty { ext: work::<T>, g: T::g, ..ty::<Word>(Box::leak(name.into_boxed_str())) }) }
}
type H1<T> = Paren<T>;
type H2<T> = Maybe<Pl, T>;
type H3<T> = Maybe<Tw<Tr<2, Minus>, T>, Tr<3, Word>>;
type H4<T> = Any<Tw<Tr<4, Semi>, T>>;
type H5<T> = Separated<Tw<Tr<5, Bracket<Empty>>, T>, Pl>;
type H6<T> = LeftAssoc<Pl, Tw<Tr<6, kw::Fn>, T>>;
type H7<T> = Tw<Either<Tr<7, Lit>, T>, Tr<8, Word>>;
type H8<T> = RightAssoc<Tw<Tr<9, Comma>, T>, W>;
impl<T: Spec, D> Nest<T> for S<D> where D: Nest<H1<T>> + Nest<H2<T>> + Nest<H3<T>> + Nest<H4<T>> + Nest<H5<T>> + Nest<H6<T>> + Nest<H7<T>> + Nest<H8<T>> {
    fn all(n: String, out: &mut Vec<Ty>) {
        <D as Nest<H1<T>>>::all(format!("Paren({n})"), out);
        <D as Nest<H2<T>>>::all(format!("Maybe(+, {n})"), out);
        <D as Nest<H3<T>>>::all(format!("Maybe(- {n}, word)"), out);
        <D as Nest<H4<T>>>::all(format!("Any(; {n})"), out);
        <D as Nest<H5<T>>>::all(format!("Separated([] {n}, +)"), out);
        <D as Nest<H6<T>>>::all(format!("LeftAssoc(+, fn {n})"), out);
        <D as Nest<H7<T>>>::all(format!("(Either(literal, {n}) word)"), out);
        <D as Nest<H8<T>>>::all(format!("RightAssoc(, {n}, word)"), out);
    }
}
fn nested() -> Vec<Ty> {
    let mut v = vec![];
    <S<Z> as Nest<W>>::all("word".into(), &mut v);
    <S<S<Z>> as Nest<W>>::all("word".into(), &mut v);
    <S<S<S<Z>>> as Nest<W>>::all("word".into(), &mut v);
    v
}
/// one or two helpers nested in turn, ten deep
macro_rules! deep { ($($a:ident $b:ident;)*) => { vec![$(Ty { ext: work::<$a<$b<$a<$b<$a<$b<$a<$b<$a<$b<W>>>>>>>>>>>, g: <$a<$b<$a<$b<$a<$b<$a<$b<$a<$b<W>>>>>>>>>> as Spec>::g, ..ty::<Word>(concat!(stringify!($a), " and ", stringify!($b), ", ten deep")) }),*] } }
fn deep() -> Vec<Ty> {
    deep! {
        H1 H1; H1 H2; H1 H3; H1 H4; H1 H5; H1 H6; H1 H7; H1 H8;
        H2 H2; H2 H3; H2 H4; H2 H5; H2 H6; H2 H7; H2 H8;
        H3 H3; H3 H4; H3 H5; H3 H6; H3 H7; H3 H8;
        H4 H4; H4 H5; H4 H6; H4 H7; H4 H8;
        H5 H5; H5 H6; H5 H7; H5 H8; H6 H6; H6 H7; H6 H8; H7 H7; H7 H8; H8 H8;
    }
}
/// a shortest sentence of each, edited at every place
fn some_sentences(name: &str, tys: Vec<Ty>, n: usize, max: usize) -> Suite {
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let cases: Vec<Vec<Vec<Tok>>> = gs.iter().map(|g| {
        let mut base = vec![];
        for k in 0..=n { let mut s = sentences_some(g, k, max); if s.len() > max { s.truncate(max); base = s; break } base = s }
        let atoms = alphabet("a + - 1 ; ,");
        let mut out = base.clone();
        for s in base.iter().take(40) { edits(s, &atoms, &mut out) }
        for o in &mut out { normalise(o) }
        out
    }).collect();
    let n: Vec<u64> = cases.iter().scan(0, |a, c| { let s = *a; *a += c.len() as u64; Some(s) }).collect();
    let total = n.last().unwrap() + cases.last().unwrap().len() as u64;
    suite(name, total, &["accepted", "rejected"], move |i, c| {
        let k = n.partition_point(|s| *s <= i) - 1;
        let toks = fresh_names(&cases[k][(i - n[k]) as usize]);
        let (src, l) = render(&toks);
        (tys[k].ext)(c, &tys[k], &gs[k], &src, &l)
    })
}
fn sentences_some(g: &G, n: usize, max: usize) -> Vec<Vec<Tok>> { let _ = max; sentences(g, n) }

// ---- totality

/// Everything one can do with a type on some tokens; a panic or hang is noticed by the driver.
fn through<T: Spec + std::fmt::Display + FromStr<Err = syn::Error>>(c: &mut Ctx, ts: TokenStream) {
    c.runs += 1;
    match parsel::parse2::<T>(ts.clone()) {
        Err(e) => { c.outcome("rejected"); let _ = (e.to_string(), e.to_compile_error().to_string(), e.span().start()); }
        Ok(v) => {
            c.outcome("accepted");
            let p = v.to_token_stream();
            let mut o = String::new();
            format_ast_node_pretty(&v, &mut o).unwrap();
            format_ast_node_compact(&v, &mut o).unwrap();
            format_tokens_pretty(p.clone(), &mut o).unwrap();
            format_tokens_compact(p.clone(), &mut o).unwrap();
            o.push_str(&format!("{v} {v:#} {v:?} {p}"));
            let r = parsel::parse2::<T>(p);
            let _ = (r.is_ok(), o, v.format_span().to_string(), v == v);
            // at every length
            let n = ts.clone().into_iter().count();
            for k in 0..n { c.runs += 1; let _ = parsel::parse2::<T>(ts.clone().into_iter().take(k).collect()).map_err(|e| e.to_string()); }
        }
    }
}
fn total<T: Spec + std::fmt::Display + FromStr<Err = syn::Error>>(c: &mut Ctx, _: &Ty, _: &G, src: &str, _: &[LTok]) {
    c.states += 1;
    c.runs += 1;
    match src.parse::<TokenStream>() {
        Ok(ts) => { through::<T>(c, ts.clone()); if !ts.is_empty() { invisible::<T>(c, ts) } }
        Err(_) => c.outcome("not lexed"),
    }
    let a = T::from_str(src).map(|v| v.to_string()).map_err(|e| e.to_string());
    c.sample(|| format!("{} on {src:?}: {a:?}", std::any::type_name::<T>()));
}
/// the tokens with invisible groups around all, the first, and the last of them, and empty ones
fn invisible<T: Spec + std::fmt::Display + FromStr<Err = syn::Error>>(c: &mut Ctx, ts: TokenStream) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let none = |ts: TokenStream| TokenTree::Group(Group::new(Delimiter::None, ts));
    let (f, l) = (v[..v.len() - 1].iter().cloned().collect::<TokenStream>(), v[1..].iter().cloned().collect::<TokenStream>());
    for x in [
        vec![none(ts.clone())], vec![none(none(ts).into())],
        [vec![none(v[0].clone().into())], v[1..].to_vec()].concat(), [v[..v.len() - 1].to_vec(), vec![none(v[v.len() - 1].clone().into())]].concat(),
        [vec![none(f)], v[v.len() - 1..].to_vec()].concat(), [v[..1].to_vec(), vec![none(l)]].concat(),
        [vec![none(TokenStream::new())], v.clone()].concat(), [v, vec![none(TokenStream::new())]].concat(),
    ] { through::<T>(c, x.into_iter().collect()) }
}
macro_rules! total_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: total::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }
macro_rules! fns { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), through::<$t> as fn(&mut Ctx, TokenStream))),*] } }

const PIECES: &[&str] = &["a", "'a", "r#fn", "fn", "c\"x\"", "1u8", "1.0f32", "1e999", "0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF", "99999999999999999999", "'x'", "b'x'", "b\"\\xff\"", "\"s\"", "-", "+", "->", "#", "!", "$", "@", "()", "{}", "(", ")", "]", "é", "/*", "//x\n", "/// doc\n", "\\", "🦀", "_", "1_suffix", "0b", "1.", "..", "=", "<", "\0", "''", "\"", "true", "alpha", ",", ";", "::", "\u{feff}", "1e", "-1", "'\\u{110000}'"];

/// tokens no lexer gives
fn odd() -> Vec<TokenTree> {
    let lit = |l: Literal| TokenTree::Literal(l);
    let p = |c, s| TokenTree::Punct(Punct::new(c, s));
    let mut v = vec![
        lit(Literal::i64_unsuffixed(-1)), lit(Literal::i64_unsuffixed(i64::MIN)), lit(Literal::i128_suffixed(i128::MIN)), lit(Literal::u128_unsuffixed(u128::MAX)), lit(Literal::f64_unsuffixed(-0.5)), lit(Literal::f32_suffixed(-1.0)), lit(Literal::f64_unsuffixed(-0.0)),
        lit(Literal::byte_string(&[0, 255, b'"'])), lit(Literal::string("\u{feff}\0\"")), lit(Literal::character('\'')), lit(Literal::c_string(c"x")), lit(Literal::u8_suffixed(7)),
        p('+', Spacing::Joint), p('-', Spacing::Joint), p('-', Spacing::Alone), p('>', Spacing::Joint), p('\'', Spacing::Joint), p('\'', Spacing::Alone), p(',', Spacing::Joint), p(':', Spacing::Joint), p('=', Spacing::Joint), p('.', Spacing::Joint),
        TokenTree::Ident(proc_macro2::Ident::new_raw("fn", Span::call_site())), TokenTree::Ident(proc_macro2::Ident::new("a", Span::mixed_site())), TokenTree::Ident(proc_macro2::Ident::new("true", Span::call_site())), TokenTree::Ident(proc_macro2::Ident::new("_", Span::call_site())),
    ];
    for d in [Delimiter::None, Delimiter::Parenthesis, Delimiter::Bracket, Delimiter::Brace] { v.push(TokenTree::Group(Group::new(d, TokenStream::new()))); v.push(TokenTree::Group(Group::new(d, TokenTree::Literal(Literal::i64_unsuffixed(-3)).into()))); v.push(TokenTree::Group(Group::new(d, "a".parse().unwrap()))) }
    v
}

fn main() {
    let q = !thorough();
    let mut s = vec![];
    // each helper, each sub-production counted
    type Ln = Tr<2, Lit>;
    let flat: Vec<Ty> = work_tys![
        Any<W>, Any<Tw<W, Pl>>, Any<Paren<W>>, Many<W>, Many<Tw<W, Ln>>, Punctuated<W, Pl>, Punctuated<Ln, W>, Separated<W, Pl>, Separated<Ln, Tr<3, Paren<W>>>, Maybe<Pl, W>, Maybe<W>, Maybe<Tw<W, Pl>, Ln>,
        LeftAssoc<Pl, W>, RightAssoc<Pl, W>, LeftAssoc<W, Ln>, RightAssoc<Tw<Pl, Ln>, W>, Paren<W>, Bracket<Any<W>>, Brace<Many<W>>, Tw<W, Pl>, Any<Maybe2>, LeftAssoc<Pl, RightAssoc<Tr<2, Minus>, W>>, RightAssoc<Pl, LeftAssoc<Tr<2, Minus>, W>>,
        Separated<Separated<W, Pl>, Tr<2, Minus>>, Paren<Paren<Paren<Any<W>>>>, Maybe<Maybe2, W>, Maybe<Paren<Maybe<Paren<W>, Pl>>, Ln>, Any<Tw<Any<Tw<W, Pl>>, Ln>>,
    ];
    s.extend(explore("each helper", flat.clone(), "a + - 1", &[D::Par], Bounds { forest: if q { 5 } else { 7 }, sent: if q { 6 } else { 8 }, sent2: if q { 3 } else { 4 } }, ext, &["accepted", "rejected"]));
    let lens = if q { vec![1, 2, 5, 33, 100, 400, 1500] } else { vec![1, 2, 5, 33, 100, 400, 1500, 5000, 20000] };
    let linears: Vec<Ty> = flat.iter().cloned().chain(work_tys![Rec, RecGrp, RecAlt, RecEither, RecMaybe, RecList, Many<Rec>, Punctuated<RecAlt, Semi>, Any<RecEither>, LeftAssoc<Tr<9, Minus>, RecAlt>]).collect();
    for p in [&["a"][..], &["a", "+"], &["a", "1"], &["a", "+", "a", "-"], &["+ a"], &["(a)"], &["a +", "1"], &["1", "a"], &["1", "(a)"], &["+ 1", "a"], &["- a"], &["a", ";"], &["a [ a ]"], &["- 1", ";"]] {
        let l = if p == ["a", "+"] || p == ["a", "+", "a", "-"] { lens.iter().copied().filter(|n| *n <= 1500).collect() } else { lens.clone() };
        s.push(long(&format!("long: `{}`", p.join(" ")), linears.clone(), p, l, &[], 0, linear, &[]));
        s.push(long(&format!("long and edited: `{}`", p.join(" ")), linears.clone(), p, vec![5, 60], &["+", "@", "1"], 1, linear, &["rejected"]));
    }
    // deep inputs of recursive grammars
    let recs: Vec<Ty> = work_tys![Rec, RecGrp, RecAlt, RecEither, RecMaybe, RecList];
    let rg: Vec<G> = recs.iter().map(|t| (t.g)()).collect();
    type Wrap = (&'static str, &'static str, &'static str);
    const WRAPS: &[Wrap] = &[("(", "a", ")"), ("[", "1", "]"), ("a ( ", "a", ")"), ("{", "a", "}"), ("(1, ", "a", ", a)"), ("[ a + ", "1", "]"), ("{ a + ", "a", "}"), ("- ", "a", ""), ("a + ( - ", "a", ")"), ("a [ ", "a", "]"), ("a + ", "a", ""), ("( [ ", "a", " ] )"), ("(a, ", "", ")"), ("[", "@", "]"), ("a [ a ", "+", "]"), ("a + (", "1", ")")];
    let depth = if q { 60 } else { 200 };
    s.push(suite("deep inputs", WRAPS.len() as u64 * depth, &["accepted", "rejected"], move |i, c| {
        let (o, m, e) = WRAPS[i as usize / depth as usize];
        let d = i as usize % depth as usize + 1;
        let src = format!("{}{m}{}", o.repeat(d), e.repeat(d));
        let (src, l) = render(&toks(&src));
        for (t, g) in recs.iter().zip(&rg) { linear(c, t, g, &src, &l) }
    }));
    s.push(some_sentences("helpers nested in every way, up to three deep", nested(), if q { 8 } else { 10 }, if q { 300 } else { 1500 }));
    // (the sequences of a nesting this deep are long: a path through it and its edits)
    let deeps = deep();
    let dg: Vec<G> = deeps.iter().map(|t| (t.g)()).collect();
    s.push(suite("helpers nested ten deep", deeps.len() as u64, &["accepted", "rejected"], move |i, c| {
        let (t, g) = (&deeps[i as usize], &dg[i as usize]);
        let atoms = alphabet("a + - 1 ; , fn");
        for pick in 0..10 {
            let Some(base) = path(g, pick, 0) else { continue };
            assert!(size(&base) < 200, "harness: {} has a sentence of {}", t.name, size(&base));
            let mut all = vec![base.clone()];
            edits(&base, &atoms, &mut all);
            for mut ts in all {
                normalise(&mut ts);
                let (src, l) = render(&fresh_names(&ts));
                (t.ext)(c, t, g, &src, &l)
            }
        }
    }));
    // alternations
    let alts: Vec<Ty> = once_tys![
        Either<Tr<0, Word>, Tr<1, Lit>>, Either<Tr<0, Tw<Word, Plus>>, Tr<1, Tw<Word, Minus>>>, Al<Tr<0, Word>, Tr<1, Lit>, Tr<2, Plus>>, Al<Tr<0, Tw<Word, Tw<Plus, Word>>>, Tr<1, Tw<Word, Plus>>, Tr<2, Word>>, Pre, Any<Pre>, Many<Pre>, Punctuated<Pre, Comma>, Paren<Pre>, Paren<Any<Pre>>,
        Either<Tr<0, Either<Tr<1, Tw<Word, Plus>>, Tr<2, Tw<Word, Minus>>>>, Tr<3, Word>>, Al<Tr<0, Al<Tr<1, Lit>, Tr<2, Tw<Word, Plus>>, Tr<3, Minus>>>, Tr<4, Paren<Pre2>>, Tr<8, Tw<Word, Either<Tr<9, Lit>, Tr<10, Plus>>>>>, Any<Al<Tr<0, Word>, Tr<1, Paren<Any<Either<Tr<2, Word>, Tr<3, Lit>>>>>, Tr<4, Lit>>>,
        RecAlt, RecEither, LeftAssoc<Either<Tr<10, Plus>, Tr<11, Minus>>, Pre>, Maybe<Either<Tr<10, Plus>, Tr<11, Minus>>, Pre>, Separated<Al<Tr<10, Word>, Tr<11, Lit>, Tr<12, Paren<Pre>>>, Comma>,
    ];
    s.extend(explore("alternations", alts, "a + - 1 ,", &[D::Par], Bounds { forest: if q { 5 } else { 7 }, sent: if q { 6 } else { 8 }, sent2: if q { 3 } else { 4 } }, ext, &["accepted", "rejected"]));
    // totality
    let tys: Vec<Ty> = zoo!(total_tys);
    let tg: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let (b, n) = (PIECES.len() as u64, if q { 2u32 } else { 3 });
    let (t2, g2) = (tys.clone(), tg.clone());
    s.push(suite(format!("any text of up to {n} pieces"), (1..=n).map(|k| 2 * b.pow(k)).sum(), &["accepted", "rejected", "not lexed"], move |mut i, c| {
        let glue = i % 2 == 0;
        i /= 2;
        let mut v = vec![];
        for k in 1..=n { let cnt = b.pow(k); if i < cnt { for _ in 0..k { v.push(PIECES[(i % b) as usize]); i /= b } break } i -= cnt }
        let src = v.join(if glue { "" } else { " " });
        for (t, g) in t2.iter().zip(&g2) { ext(c, t, g, &src, &[]) }
    }));
    s.extend(explore("every type", tys.clone(), ALPHA, &[D::Brk], Bounds { forest: 3, sent: 0, sent2: 0 }, ext, &["accepted", "rejected"]));
    s.extend(explore("every type", tys.clone(), "a 1 + ,", &D::ALL, Bounds { forest: 0, sent: if q { 5 } else { 8 }, sent2: if q { 2 } else { 3 } }, ext, &["accepted", "rejected"]));
    for p in PERIODS { s.push(long(&format!("any type on long `{}`", p.join(" ")), tys.clone(), p, if q { vec![40] } else { vec![40, 100, 200] }, &[], 0, ext, &["rejected"])) }
    let fs: Vec<(&str, fn(&mut Ctx, TokenStream))> = zoo!(fns);
    let o = odd().len() as u64;
    let m = if q { 2u32 } else { 3 };
    s.push(suite(format!("up to {m} tokens no lexer gives"), (1..=m).map(|k| o.pow(k)).sum(), &["accepted", "rejected"], move |mut i, c| {
        let odd = odd();
        let mut v: Vec<TokenTree> = vec![];
        for k in 1..=m { let cnt = o.pow(k); if i < cnt { for _ in 0..k { v.push(odd[(i % o) as usize].clone()); i /= o } break } i -= cnt }
        c.states += 1;
        for (_, f) in &fs { f(c, v.iter().cloned().collect()) }
    }));
    let deep: Vec<Ty> = total_tys![Json, Expr, Block, Shapes, Any<Item>];
    s.push(suite("every type on deep inputs", if q { 40 } else { 100 }, &["accepted", "rejected"], move |i, c| {
        // (a value of an alternation is tried anew by each alternative that starts with it; those of these grammars start differently)
        for (o, m, e) in [("(", "a", ")"), ("[", "1", "]"), ("{", "a;", "}"), ("{ \"k\" : ", "1", "}"), ("a [", "a", "]"), ("(", "_", ")"), ("1 + (", "a", ")"), ("[", "", "]"), ("[ 1, ", "2", "]")] {
            let d = 1 + i as usize;
            let src = format!("{}{m}{}", o.repeat(d), e.repeat(d));
            for t in &deep { (t.ext)(c, t, &G::Struct("", vec![]), &src, &[]) }
        }
    }));
    main_("C26", s)
}
type Maybe2 = Tw<W, Maybe<Pl, Tr<2, Lit>>>;
type Pre2 = Al<Tr<5, Word>, Tr<6, Lit>, Tr<7, Plus>>;

/// one sentence of a grammar, of those that use everything optional; `pick` varies the choices
fn path(g: &G, pick: usize, depth: usize) -> Option<Vec<Tok>> {
    let sub = |g: &G| path(g, pick, depth + 1);
    // two items at one level only, else sentences grow exponentially
    let reps = if depth / 4 == pick { 2 } else { 1 };
    Some(match g {
        G::Leaf(_) => sentences(g, 2).into_iter().next()?,
        G::Count(_, g) => path(g, pick, depth)?,
        G::Ref(f) => sub(&f())?,
        G::Maybe(p, t) => [sub(p)?, sub(t)?].concat(),
        G::Grp(d, g) => vec![Tok::G(*d, sub(g)?)],
        G::Any(t) => { let x = sub(t)?; let mut v = vec![]; for _ in 0..reps { v.extend(x.clone()) } v }
        G::Punct(t, p) | G::Sep(t, p) | G::Left(p, t) | G::Right(p, t) => { let (x, o) = (sub(t)?, sub(p)?); let mut v = x.clone(); for _ in 1..reps { v.extend(o.clone()); v.extend(x.clone()) } v }
        G::Either(_, r) => sub(r)?,
        G::Struct(_, fs) => { let mut v = vec![]; for (_, g) in fs { v.extend(sub(g)?) } v }
        G::Enum(_, vs) => { let mut v = vec![]; for (_, g) in &vs[(depth + pick) % vs.len()].1 { v.extend(sub(g)?) } v }
    })
}
