//! C30: copies and default values are faithful.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use parsel::ToTokens;
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../shared/values.rs"]
mod values;
use values::*;

/// everything there is to see of a value
#[derive(PartialEq, Debug, Clone)]
struct Look { tree: String, tokens: String, places: Vec<Lc>, joint: Vec<bool>, text: String, short: String, debug: String, long: String, hash: u64, notes: Vec<Note> }
fn joints(ts: TokenStream, v: &mut Vec<bool>) { for t in ts { match t { TokenTree::Group(g) => joints(g.stream(), v), TokenTree::Punct(p) => v.push(p.spacing() == proc_macro2::Spacing::Joint), _ => {} } } }
fn look<T: Spec + Display>(v: &T, src: &str) -> Look {
    let mut tree = String::new();
    v.tree(&mut tree);
    let ts = v.to_token_stream();
    let mut p = vec![];
    places(ts.clone(), &mut p);
    let mut j = vec![];
    joints(ts.clone(), &mut j);
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    Look { tree, tokens: ts.to_string(), places: p, joint: j, text: format!("{v}"), short: format!("{v:#}"), debug: format!("{v:?}"), long: format!("{v:#?}"), hash: h.finish(), notes: if src.is_empty() { vec![] } else { notes(v, src) } }
}
fn differ(a: &Look, b: &Look) -> String {
    for (n, x, y) in [("holds", &a.tree, &b.tree), ("prints", &a.tokens, &b.tokens), ("displays", &a.text, &b.text), ("displays with #", &a.short, &b.short), ("debugs", &a.debug, &b.debug), ("debugs with #", &a.long, &b.long)] { if x != y { return format!("{n} `{x}`, not `{y}`") } }
    if a.places != b.places { return format!("prints at {:?}, not {:?}", a.places, b.places) }
    if a.notes != b.notes { return format!("is located differently: {:?}, not {:?}", a.notes, b.notes) }
    format!("differs: {a:?}, not {b:?}")
}

fn copied<T: Spec + FromStr<Err = syn::Error> + Display + Clone>(c: &mut Ctx, t: &Ty, _: &G, src: &str, _: &[LTok]) {
    c.states += 1;
    c.runs += 1;
    let v: T = match parsel::parse_str(src) { Ok(v) => v, Err(_) => { c.outcome("rejected"); return } };
    c.outcome("accepted");
    let want = look(&v, src);
    let mut same = |how: &str, x: &T| {
        c.runs += 1;
        c.transitions += 1;
        if !(*x == v && v == *x) || *x != v { c.fail(format!("{}: {how} of the value of `{src}` is unequal to it", t.name)) }
        let l = look(x, src);
        if l != want { c.fail(format!("{}: {how} of the value of `{src}` {}", t.name, differ(&l, &want))) }
    };
    let a = v.clone();
    same("a clone", &a);
    same("a clone of a clone", &a.clone());
    // over other values
    for h in 0..2 {
        let mut b = v.rebuild(h);
        let w = b.clone();
        b.clone_from(&v);
        same("an overwriting clone", &b);
        b.clone_from(&w);
        b.clone_from(&a);
        same("an overwriting clone of a clone", &b);
    }
    let k = vec![v.clone(), a.clone()];
    let k2 = k.clone();
    drop(k);
    same("a clone in a cloned list", &k2[1]);
    same("the original, later,", &v);
    drop(v.clone());
    same("the original, after a copy is gone,", &v);
    // a copy of what has no location has none either
    let w = v.rebuild(1);
    let (l, m) = (look(&w, ""), look(&w.clone(), ""));
    if l != m { c.fail(format!("{}: a clone of the value of `{src}` assembled in code {}", t.name, differ(&m, &l))) }
    c.sample(|| format!("{} from `{src}` copied", t.name));
}
/// the values of a type: of its sentences, every other one further into a source
fn some<T: Spec>(max: usize, most: usize) -> Vec<(T, String)> {
    let g = T::g();
    let mut srcs: Vec<String> = vec![];
    // each of them twice, the second one elsewhere and with other names
    for s in sentences_upto(&g, max, 100 * most) { srcs.push(render(&s).0); srcs.push(format!("\n /**/ {}", render(&fresh_names(&s)).0)) }
    let step = srcs.len().div_ceil(most).max(1) | 1;
    srcs.into_iter().step_by(step).filter_map(|s| parsel::parse_str::<T>(&s).ok().map(|v| (v, s))).collect()
}
/// every value cloned over every other
fn over<T: Spec + Display + Clone>(c: &mut Ctx, name: &str, max: usize, most: usize) {
    let vs = some::<T>(max, most);
    let looks: Vec<Look> = vs.iter().map(|(v, s)| look(v, s)).collect();
    for (i, (old, olds)) in vs.iter().enumerate() {
        for (j, (new, src)) in vs.iter().enumerate() {
            c.states += 1;
            c.runs += 3;
            c.transitions += 3;
            let mut a = old.clone();
            a.clone_from(new);
            let l = look(&a, src);
            if l != looks[j] || a != *new { c.fail(format!("{name}: the value of `{olds}`, overwritten with a clone of the value of `{src}`, {}", differ(&l, &looks[j]))) }
            // and back, within a list
            let mut k = vec![a, new.clone()];
            k.clone_from(&vec![old.clone()]);
            k.push(new.clone());
            let (x, y) = (look(&k[0], olds), look(&k[1], src));
            if x != looks[i] { c.fail(format!("{name}: the value of `{src}`, overwritten with a clone of the value of `{olds}`, {}", differ(&x, &looks[i]))) }
            if y != looks[j] { c.fail(format!("{name}: the value of `{src}`, cloned into a list that shrunk, {}", differ(&y, &looks[j]))) }
        }
    }
    c.outcome(if vs.len() > 1 { "overwritten" } else { "a single value" });
    c.sample(|| format!("{name}: {} values over one another", vs.len()));
}
macro_rules! over_tys { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), over::<$t> as fn(&mut Ctx, &str, usize, usize))),*] } }
macro_rules! copy_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: copied::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

/// a default value: what it prints, and that it is the same however it is made
fn default<T: Spec + Display + Clone + Default>(c: &mut Ctx, name: &str, prints: &str, same: &[T]) {
    c.states += 1;
    let d = T::default();
    let l = look(&d, "");
    if l.tokens != prints { c.fail(format!("the default {name} prints `{}`, should print `{prints}`", l.tokens)) }
    if l.places.iter().any(|p| *p != Lc::of(Span::call_site())) { c.fail(format!("the default {name} is located at {:?}", l.places)) }
    for (i, x) in same.iter().enumerate() { c.runs += 1; c.transitions += 1; let m = look(x, ""); if d != *x || m != l { c.fail(format!("the default {name} and its equivalent {i}: {}", differ(&l, &m))) } }
    match parsel::parse_str::<T>(prints) { Ok(p) if p == d => {} p => c.fail(format!("the default {name} is unequal to {p:?}, parsed from `{prints}`")) }
    let mut x = d.clone();
    x.clone_from(&T::default());
    if x != d { c.fail(format!("the default {name} and a clone of it are unequal")) }
    c.outcome("default");
}
/// defaults that do not parse by themselves
fn default_lit<T: Default + PartialEq + Debug + ToTokens>(c: &mut Ctx, name: &str, prints: &str, same: T) { c.states += 1; let d = T::default(); if d != same || d.to_token_stream().to_string() != prints { c.fail(format!("the default {name} is {d:?}")) } }

/// changing a copy leaves the original alone, and the other way round
fn apart<T: Spec + Display + Clone>(c: &mut Ctx, name: &str, v: &T, change: &dyn Fn(&mut T)) {
    c.states += 1;
    c.runs += 3;
    c.transitions += 3;
    let before = look(v, "");
    let mut a = v.clone();
    change(&mut a);
    let l = look(v, "");
    if l != before { c.fail(format!("{name}: changing a copy changes the original, which {}", differ(&l, &before))) }
    let changed = look(&a, "");
    if changed.tree == before.tree && changed.places == before.places { c.fail(format!("{name}: nothing changed")) }
    let mut b = a.clone();
    a.clone_from(v);
    let l = look(&a, "");
    if l != before { c.fail(format!("{name}: overwritten with the original, a changed copy {}", differ(&l, &before))) }
    if look(&b, "") != changed { c.fail(format!("{name}: a copy of a changed copy {}", differ(&look(&b, ""), &changed))) }
    // the original changes, copies stay
    let mut o = v.clone();
    b.clone_from(&o);
    let keep = o.clone();
    change(&mut o);
    if look(&keep, "") != before || look(&b, "") != before { c.fail(format!("{name}: changing the original changes a copy")) }
    if look(&o, "") != changed { c.fail(format!("{name}: the same change has different effects on a value and its copy: {}", differ(&look(&o, ""), &changed))) }
    c.outcome("apart");
}

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(copy_tys);
    let mut s = explore("every type", tys.clone(), ALPHA, &[D::Par], Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, ext, &["accepted", "rejected"]);
    s.extend(explore("every type", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 6 } else { 9 }, sent2: if q { 0 } else { 3 } }, ext, &["accepted", "rejected"]));
    s.extend(explore("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, ext, &[]));
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { vec![1, 2, 3, 5, 9, 33, 70] } else { (1..40).chain([65, 129, 257]).collect() }, &[], 0, ext, &["accepted"])) }
    let os: Vec<(&'static str, fn(&mut Ctx, &str, usize, usize))> = zoo!(over_tys);
    let os: Vec<_> = os.into_iter().chain(over_tys![Either<Word, Lit>, Either<Paren<Word>, Any<Lit>>, Either<Either<kw::Alpha, Lit>, Either<kw::Fn, Paren<Word>>>]).collect();
    s.push(suite("every value of a type over every other", os.len() as u64, &["overwritten"], move |i, c| { let (n, f) = os[i as usize]; f(c, n, if q { 9 } else { 11 }, if q { 60 } else { 200 }) }));
    let ls = values();
    s.push(suite("literals of every value", ls.len() as u64, &[], move |i, c| {
        c.states += 1;
        let l = lit_of(&ls[i as usize]);
        let sp = "  \n é x".parse::<TokenStream>().unwrap().into_iter().last().unwrap().span();
        for at in [None, Some(sp)] {
            let mut l = l.clone();
            if let Some(s) = at { l.set_span(s) }
            let w = look(&l, "");
            let k = l.clone();
            let mut o = Lit::from(1u64);
            o.clone_from(&l);
            let mut p = Lit::from("s");
            p.clone_from(&k);
            for x in [&k, &o, &p] { c.runs += 1; let g = look(x, ""); if g != w || *x != l { c.fail(format!("a clone of {l:?} {}", differ(&g, &w))) } if Lc::of(x.span()) != Lc::of(l.span()) { c.fail(format!("a clone of {l:?} is located at {:?}", Lc::of(x.span()))) } }
            apart(c, "Lit", &l, &|x| x.set_span(if at.is_some() { Span::call_site() } else { sp }));
        }
        c.outcome("copied");
    }));
    s.push(suite("default values", 1, &["default"], |_, c| {
        default::<Empty>(c, "Empty", "", &[Empty, Empty::new()]);
        default::<Eof>(c, "Eof", "", &[Eof, Eof::new()]);
        default_lit::<NotEof>(c, "NotEof", "", NotEof);
        default_lit::<LitBool>(c, "LitBool", "false", LitBool::from(false));
        default_lit::<LitByte>(c, "LitByte", &LitByte::from(0).to_token_stream().to_string(), LitByte::from(0));
        default_lit::<LitInt>(c, "LitInt", "0", LitInt::from(0));
        default_lit::<LitUint>(c, "LitUint", "0", LitUint::from(0));
        default_lit::<LitFloat>(c, "LitFloat", "0.0", LitFloat::try_from(0.0).unwrap());
        default_lit::<LitStr>(c, "LitStr", "\"\"", LitStr::from(""));
        default_lit::<LitByteStr>(c, "LitByteStr", "b\"\"", LitByteStr::from(&b""[..]));
        default(c, "kw::Alpha", "alpha", &[kw::Alpha::new(Span::call_site())]);
        default(c, "kw::Fn", "fn", &[kw::Fn::new(Span::call_site())]);
        default(c, "kw::Under", "_", &[kw::Under::new(Span::call_site())]);
        default(c, "Maybe<Plus>", "", &[Maybe::<Plus>::new(), Maybe::from(None::<(Plus, Empty)>)]);
        default(c, "Maybe<Plus, Word>", "", &[Maybe::<Plus, Word>::new(), Maybe::from(None::<Word>), Maybe::from(None::<(Plus, Word)>)]);
        default(c, "Any<Word>", "", &[Any::<Word>::new(), Any::from(vec![]), Any::from(Vec::with_capacity(9)), std::iter::empty().collect(), { let mut a = Any::from(vec![word("x")]); a.clear(); a }]);
        default(c, "Any<Any<Word>>", "", &[Any::<Two<Word, Any<Word>>>::new()]);
        default(c, "Punctuated<Word, Comma>", "", &[Punctuated::<Word, Comma>::new(), std::iter::empty::<Word>().collect(), Punctuated::from(syn::punctuated::Punctuated::new()), { let mut a: Punctuated<Word, Comma> = parsel::parse_str("a,").unwrap(); a.clear(); a }]);
        default(c, "Many<Lit>", "", &[Many::<Lit>::new()]);
        for (x, w) in [(Paren::<Maybe<Plus>>::default().to_token_stream(), "()"), (Bracket::<Any<Word>>::default().to_token_stream(), "[]"), (Brace::<Punctuated<Word, Comma>>::default().to_token_stream(), "{}")] {
            c.runs += 1;
            if x.to_string().replace(' ', "") != w { c.fail(format!("a default delimited node prints as `{x}`, should print as `{w}`")) }
        }
        if Paren::<Maybe<Plus>>::default() != parsel::parse_str("()").unwrap() || Bracket::<Any<Word>>::default() != parsel::parse_str("[]").unwrap() || Brace::<Punctuated<Word, Comma>>::default() != parsel::parse_str("{}").unwrap() || Paren::<LitInt>::default() != parsel::parse_str("(0)").unwrap() { c.fail("a default delimited node differs from a parsed one") }
        c.sample(|| "default values of every type that has one".into());
    }));
    // copies and originals are apart
    let srcs = ["a", "a, b", "a, b, c", "a, b, c, d, e, f, g, h, i"];
    s.push(suite("copies and originals change separately", srcs.len() as u64, &["apart"], move |i, c| {
        let src = srcs[i as usize];
        let words = src.replace(',', "");
        let x: Word = word("x");
        let sp = Span::call_site();
        fn p<T: parsel::Parse>(s: &str) -> T { parsel::parse_str(s).unwrap() }
        apart(c, "Any", &p::<Any<Word>>(&words), &|a| a.push(x.clone()));
        apart(c, "Any", &p::<Any<Word>>(&words), &|a| a[0] = x.clone());
        apart(c, "Any", &p::<Any<Word>>(&words), &|a| a.iter_mut().for_each(|w| w.set_span(sp)));
        apart(c, "Any", &p::<Any<Word>>(&words), &|a| a.clear());
        apart(c, "Many", &p::<Many<Word>>(&words), &|a| { a.pop(); });
        apart(c, "Many", &p::<Many<Word>>(&words), &|a| a.extend([x.clone()]));
        apart(c, "Separated", &p::<Separated<Word, Comma>>(src), &|a| a.push_value(x.clone()));
        apart(c, "Separated", &p::<Separated<Word, Comma>>(src), &|a| a.insert(0, x.clone()));
        apart(c, "Separated", &p::<Separated<Word, Comma>>(src), &|a| *a.last_mut() = x.clone());
        apart(c, "Separated", &p::<Separated<Word, Comma>>(src), &|a| { if a.len().get() == 1 { a.first_mut().set_span(sp) } a.pairs_mut().for_each(|p| if let Some(s) = p.into_tuple().1 { s.spans = [sp] }) });
        apart(c, "Punctuated", &p::<Punctuated<Word, Comma>>(src), &|a| { a.pop(); });
        apart(c, "Punctuated", &p::<Punctuated<Word, Comma>>(src), &|a| a[0] = x.clone());
        apart(c, "Maybe", &p::<Maybe<Word, Any<Two<Comma, Word>>>>(src), &|a| *a.as_prefix_mut().unwrap() = x.clone());
        apart(c, "Maybe", &p::<Maybe<Word, Any<Two<Comma, Word>>>>(src), &|a| { a.take(); });
        apart(c, "Maybe", &p::<Maybe<Word, Any<Two<Comma, Word>>>>(src), &|a| a.as_mut().unwrap().push(Two(Default::default(), x.clone())));
        apart(c, "Paren", &p::<Paren<Any<Word>>>(&format!("({words})")), &|a| a.push(x.clone()));
        apart(c, "Bracket", &p::<Bracket<Any<Word>>>(&format!("[{words}]")), &|a| { a.swap_remove(0); });
        apart(c, "Brace", &p::<Brace<Punctuated<Word, Comma>>>(&format!("{{{src}}}")), &|a| { a.pop(); });
        apart(c, "LeftAssoc", &p::<LeftAssoc<Comma, Word>>(src), &|a| match a { LeftAssoc::Binary { rhs, .. } => *rhs = x.clone(), LeftAssoc::Rhs(r) => *r = x.clone() });
        apart(c, "LeftAssoc", &p::<LeftAssoc<Comma, Word>>(src), &|mut a| { while let LeftAssoc::Binary { lhs, .. } = a { a = lhs } *a = LeftAssoc::Rhs(x.clone()) });
        apart(c, "RightAssoc", &p::<RightAssoc<Comma, Word>>(src), &|mut a| { while let RightAssoc::Binary { rhs, .. } = a { a = rhs } *a = RightAssoc::Lhs(x.clone()) });
        apart(c, "RightAssoc", &p::<RightAssoc<Comma, Word>>(src), &|a| match a { RightAssoc::Binary { lhs, .. } => *lhs = x.clone(), RightAssoc::Lhs(r) => *r = x.clone() });
        apart(c, "Either", &p::<Either<Any<Two<Word, Comma>>, Word>>(&format!("{src},")), &|a| match a { Either::Left(l) => { l.pop(); } Either::Right(r) => *r = x.clone() });
        apart(c, "Word", &p::<Word>("a"), &|a| a.set_span(sp));
        apart(c, "Kid", &p::<Kid>("\n a"), &|a| a.set_span(sp));
        apart(c, "kw::Alpha", &p::<kw::Alpha>("\n alpha"), &|a| a.set_span(sp));
        apart(c, "LitByteStr", &p::<LitByteStr>("b\"abc\""), &|a| a[1] = b'x');
        apart(c, "LitStr", &p::<LitStr>("\"abc\""), &|a| a.set_span(sp));
        apart(c, "Json", &p::<Json>(&format!("[{}]", words.replace(' ', "").len())), &|a| if let Either::Right(Either::Left(l)) = &mut a.0 { l.clear() });
        c.sample(|| src.into());
    }));
    main_("C30", s)
}
