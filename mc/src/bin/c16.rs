//! C16: comparison and hashing of tokens follow the value and ignore location.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use ordered_float::NotNan;
use parsel::ast::*;
use proc_macro2::Span;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{hash_map::DefaultHasher, BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../shared/values.rs"]
mod values;

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } }
}
fn hashes<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
    let (mut a, mut b) = (DefaultHasher::new(), Fnv(0xcbf29ce484222325));
    x.hash(&mut a);
    x.hash(&mut b);
    (a.finish(), b.finish())
}

/// some real locations
fn spans() -> Vec<Span> {
    let ts: proc_macro2::TokenStream = "a b /* é */ c\n\n (d) \"e\nf\"".parse().unwrap();
    let mut v: Vec<Span> = ts.into_iter().map(|t| t.span()).collect();
    v.push(Span::call_site());
    v.push(Span::mixed_site());
    v
}

/// every way to compare gives the same answer, which is `want`
fn cmp_all<A: PartialEq<B> + PartialOrd<B> + ?Sized, B: ?Sized>(c: &mut Ctx, what: &dyn Fn() -> String, a: &A, b: &B, want: Ordering) {
    c.transitions += 1;
    let got = [a == b, a != b, a < b, a <= b, a > b, a >= b];
    let exp = [want.is_eq(), want.is_ne(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()];
    if got != exp || a.partial_cmp(b) != Some(want) { c.fail(format!("{}: [==, !=, <, <=, >, >=] gives {got:?}, partial_cmp {:?}, but the values compare {want:?}", what(), a.partial_cmp(b))) }
}

/// two literals of one type: `cmp` compares the raw values, `bor` are the other types it can be borrowed as
fn pair<L, R>(c: &mut Ctx, name: &str, ra: &R, rb: &R, cmp: fn(&R, &R) -> Ordering, sp: &[Span], new: fn(R, Span) -> L, extra: fn(&mut Ctx, &L, &R, Ordering))
where L: PartialEq + Eq + PartialOrd + Ord + Hash + Clone + Debug + PartialEq<R> + PartialOrd<R> + Borrow<R> + From<R>, R: Clone + Debug + Hash {
    let want = cmp(ra, rb);
    let w = || format!("{name} of {ra:?} and of {rb:?}");
    for (k, s) in sp.iter().enumerate() {
        let (a, b) = (new(ra.clone(), *s), if k % 3 == 0 { L::from(rb.clone()) } else { new(rb.clone(), sp[(k * 5 + 1) % sp.len()]) });
        c.runs += 2;
        cmp_all(c, &w, &a, &b, want);
        if a.cmp(&b) != want { c.fail(format!("{}: cmp gives {:?}, the values compare {want:?}", w(), a.cmp(&b))) }
        if (a.clone().max(b.clone()) == a) != want.is_ge() || (a.clone().min(b.clone()) == a) != want.is_le() { c.fail(format!("{}: max or min is wrong", w())) }
        cmp_all(c, &|| format!("{name} of {ra:?} and the value {rb:?}"), &a, rb, want);
        if want.is_eq() && hashes(&a) != hashes(&b) { c.fail(format!("{}: equal, but different hashes", w())) }
        let r: &R = a.borrow();
        if hashes(&a) != hashes(r) || cmp(r, ra).is_ne() { c.fail(format!("{name} of {ra:?} hashes differently from the value it is borrowed as, or is borrowed as another: {r:?}")) }
        extra(c, &a, rb, want);
        c.outcome(match want { Ordering::Less => "less", Ordering::Equal => "equal", Ordering::Greater => "greater" });
    }
    c.sample(|| format!("{} compare {want:?} in every way", w()));
}

/// all pairs of a domain, and maps from all its values
fn all_pairs<L, R>(name: &'static str, dom: Vec<R>, cmp: fn(&R, &R) -> Ordering, new: fn(R, Span) -> L, extra: fn(&mut Ctx, &L, &R, Ordering), out: &mut Vec<Suite>)
where L: PartialEq + Eq + PartialOrd + Ord + Hash + Clone + Debug + PartialEq<R> + PartialOrd<R> + Borrow<R> + From<R> + 'static, R: Clone + Debug + Hash + Eq + Ord + Sync + Send + 'static {
    let n = dom.len() as u64;
    let d2 = dom.clone();
    out.push(suite(format!("{name}: all pairs of values"), n, &["less", "equal", "greater"], move |i, c| {
        let sp = spans();
        for j in 0..n { c.states += 1; let k = (i + j) as usize; pair(c, name, &dom[i as usize], &dom[j as usize], cmp, &[sp[k % sp.len()], sp[(k * 3 + 1) % sp.len()]], new, extra) }
    }));
    out.push(suite(format!("{name}: maps from all values"), 1, &[], move |_, c| {
        let sp = spans();
        let mut h: HashMap<L, R> = HashMap::new();
        let mut b: BTreeMap<L, R> = BTreeMap::new();
        let (mut rh, mut rb): (HashMap<R, R>, BTreeMap<R, R>) = Default::default();
        for (i, r) in d2.iter().enumerate() { let l = new(r.clone(), sp[i % sp.len()]); h.insert(l.clone(), r.clone()); b.insert(l, r.clone()); rh.insert(r.clone(), r.clone()); rb.insert(r.clone(), r.clone()); c.states += 1; }
        if h.len() != rh.len() || b.len() != rb.len() { c.fail(format!("{name}: maps hold {} and {} keys, maps of the values hold {}", h.len(), b.len(), rb.len())) }
        for (i, r) in d2.iter().enumerate() {
            c.runs += 4;
            c.transitions += 4;
            let l = new(r.clone(), sp[(i + 1) % sp.len()]);
            let got = [h.get::<R>(r), h.get::<L>(&l), b.get::<R>(r), b.get::<L>(&l)];
            if got != [rh.get(r); 4] { c.fail(format!("{name}: lookups of {r:?} by value and by literal give {got:?}")) }
        }
        if !b.values().eq(rb.values()) { c.fail(format!("{name}: a sorted map has another order than one of the values")) }
        let mut v: Vec<L> = d2.iter().rev().map(|r| new(r.clone(), sp[0])).collect();
        let mut w: Vec<R> = d2.iter().rev().cloned().collect();
        v.sort();
        w.sort();
        if !v.iter().map(|l| Borrow::<R>::borrow(l)).eq(w.iter()) { c.fail(format!("{name}: literals sort differently from their values")) }
    }));
}

fn boundary(us: Vec<u64>) -> Vec<i64> { let mut v: Vec<i64> = us.iter().flat_map(|u| [*u as i64, (*u as i64).wrapping_neg(), !(*u as i64)]).collect(); v.extend([i64::MIN, i64::MAX]); v.sort(); v.dedup(); v }

fn none<L, R>(_: &mut Ctx, _: &L, _: &R, _: Ordering) {}

/// all pairs of inputs a type accepts
fn trees<T: Spec + Clone>(c: &mut Ctx, name: &str, srcs: &[String], lo: usize, hi: usize) {
    let tree = |v: &T| { let mut o = String::new(); v.tree(&mut o); o };
    let all: Vec<(T, String)> = srcs.iter().map(|s| { let v = parsel::parse_str::<T>(s).expect("harness: parses"); let t = tree(&v); (v, t) }).collect();
    let hs: Vec<(u64, u64)> = all.iter().map(|x| hashes(&x.0)).collect();
    for i in lo..hi {
        c.states += 1;
        // the same text somewhere else, and once without any location
        let other = [parsel::parse_str::<T>(&format!("\n /* é */ {}", srcs[i])).expect("harness: parses"), all[i].0.rebuild(0), all[i].0.clone()];
        for o in &other {
            c.runs += 1;
            if *o != all[i].0 || !(all[i].0 == *o) || hashes(o) != hs[i] { c.fail(format!("{name}: two values of `{}` that differ only in location compare unequal or hash differently", srcs[i])) }
        }
        let o = &other[0];
        for j in 0..all.len() {
            c.transitions += 1;
            c.runs += 1;
            let want = all[i].1 == all[j].1;
            if (*o == all[j].0) != want || (all[j].0 != *o) == want { c.fail(format!("{name}: `{}` and `{}` compare equal: {}, but their contents are equal: {want}", srcs[i], srcs[j], *o == all[j].0)) }
            if want && hs[i] != hs[j] { c.fail(format!("{name}: `{}` and `{}` are equal, but hash differently", srcs[i], srcs[j])) }
            c.outcome(if want { "equal trees" } else { "different trees" });
        }
        c.sample(|| format!("{name}: `{}` against {} other inputs", srcs[i], all.len()));
    }
}

type Trees = (fn(&mut Ctx, &str, &[String], usize, usize), fn(&str) -> bool);
macro_rules! tree_tys { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), <$t as Spec>::g(), (trees::<$t> as fn(&mut Ctx, &str, &[String], usize, usize), (|s: &str| parsel::parse_str::<$t>(s).is_ok()) as fn(&str) -> bool))),*] } }

fn main() {
    let q = !thorough();
    let mut s = vec![];
    let nn = |f: f64| NotNan::new(f).unwrap();
    all_pairs("LitBool", vec![false, true], Ord::cmp, LitBool::new, none, &mut s);
    all_pairs("LitByte", (0..=255).collect(), Ord::cmp, LitByte::new, none, &mut s);
    all_pairs("LitInt", boundary(values::uints()), Ord::cmp, LitInt::new, none, &mut s);
    all_pairs("LitUint", values::uints(), Ord::cmp, LitUint::new, none, &mut s);
    let mut fs: Vec<f64> = values::floats().into_iter().enumerate().filter(|(i, _)| *i < 36 || !q || i % 5 == 0).map(|x| x.1).collect();
    fs.extend([0.1 + 0.2, 0.3, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, -f64::MAX, 1e308, 2.0, 10.0, 9.0, 1e1]);
    all_pairs("LitFloat", fs.into_iter().map(nn).collect(), |a, b| a.into_inner().partial_cmp(&b.into_inner()).unwrap(), LitFloat::new, none, &mut s);
    let mut cs: Vec<char> = (0..0x180).map(|c| char::from_u32(c).unwrap()).collect();
    cs.extend(['\u{301}', '漢', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', 'ſ', 'K']);
    all_pairs("LitChar", cs, Ord::cmp, LitChar::new, none, &mut s);
    let parts = ["a", "b", "A", "é", "\0", "\n", "\\", "\"", "😀", "\u{ffff}", "aa"];
    let mut ss = vec![String::new()];
    for a in parts { ss.push(a.into()); for b in parts { ss.push(format!("{a}{b}")); for d in &parts[..if q { 4 } else { 11 }] { ss.push(format!("{a}{b}{d}")) } } }
    for n in [7, 8, 9, 15, 16, 17, 31, 32, 64, 255, 256, 1000] { ss.push("x".repeat(n)); ss.push(format!("{}y", "x".repeat(n - 1))); ss.push(format!("y{}", "x".repeat(n - 1))) }
    ss.sort(); ss.dedup();
    let bs: Vec<Vec<u8>> = { let mut v: Vec<Vec<u8>> = ss.iter().map(|s| s.bytes().collect()).collect(); v.extend((0..=255).map(|b| vec![b])); v.extend((120..136u8).flat_map(|b| [vec![b, 0], vec![0, b], vec![b, 255]])); v.sort(); v.dedup(); v };
    all_pairs("LitStr", ss, Ord::cmp, LitStr::new, |c, a, rb, want| {
        cmp_all(c, &|| format!("{a:?} and the text {rb:?}"), a, &rb[..], want);
        let b: &str = a.borrow();
        if hashes(a) != hashes(b) || b.cmp(&rb[..]) != want { c.fail(format!("{a:?} hashes or compares differently from the text it is borrowed as")) }
    }, &mut s);
    all_pairs("LitByteStr", bs, Ord::cmp, LitByteStr::new, |c, a, rb, want| {
        cmp_all(c, &|| format!("{a:?} and the bytes {rb:?}"), a, &rb[..], want);
        let b: &[u8] = a.borrow();
        if hashes(a) != hashes(b) || b.cmp(&rb[..]) != want { c.fail(format!("{a:?} hashes or compares differently from the bytes it is borrowed as")) }
    }, &mut s);

    // literals of any kind, as parsed from any spelling
    let lits = ["true", "false", "b'a'", "b'\\x61'", "b'b'", "b'\\n'", "0", "1", "0x1", "1u8", "-1", "- 1", "-0x1", "97", "9_7", "0x61", "0b1100001", "-97", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0xFFFF_FFFF_FFFF_FFFF", "1.0", "1.", "1e0", "0.1e1", "-1.0", "0.0", "97.0", "1.5", "15e-1", "1e999", "-1e999", "1e308",
        "'a'", "'\\x61'", "'\\u{61}'", "'1'", "'\\''", "'b'", "\"a\"", "r\"a\"", "r#\"a\"#", "\"\\x61\"", "\"\"", "\"1\"", "\"true\"", "\"-1\"", "\"ab\"", "b\"a\"", "br\"a\"", "b\"\\x61\"", "b\"\"", "b\"ab\"", "\"\\\n  a\"", "\"\\n\"", "\"\n\"", "\"a\\0\""];
    #[path = "../shared/decode.rs"]
    mod decode;
    s.push(suite("Lit: all pairs of spellings", (lits.len() * lits.len()) as u64, &["equal", "different"], move |i, c| {
        let (x, y) = (lits[i as usize / lits.len()], lits[i as usize % lits.len()]);
        let (a, b): (Lit, Lit) = (parsel::parse_str(x).expect("harness: parses"), parsel::parse_str(&format!("\n  {y}")).expect("harness: parses"));
        let want = decode::decode(x).unwrap() == decode::decode(y).unwrap();
        c.states += 1; c.transitions += 1; c.runs += 2;
        if (a == b) != want || (a != b) == want { c.fail(format!("`{x}` and `{y}` compare equal: {}, but denote the same: {want}", a == b)) }
        if want && hashes(&a) != hashes(&b) { c.fail(format!("`{x}` and `{y}` are equal, but hash differently")) }
        let mut b2 = b.clone();
        b2.set_span(a.span());
        if b2 != b || hashes(&b2) != hashes(&b) || (a == b2) != want { c.fail(format!("setting the location of `{y}` changes how it compares")) }
        c.outcome(if want { "equal" } else { "different" });
    }));
    let vs: Vec<V> = { let all = values::values(); let n = all.len(); let step = if q { 97 } else { 41 }; all.into_iter().enumerate().filter(|(i, v)| i % step == 0 || matches!(v, V::Bool(_)) || (*i < 300 && i % 7 == 0) || *i + 3 > n).map(|x| x.1).collect() };
    let n = vs.len();
    s.push(suite("Lit: all pairs of values built in code", n as u64, &["equal", "different"], move |i, c| for j in 0..n {
        let (x, y) = (&vs[i as usize], &vs[j]);
        let (a, mut b) = (values::lit_of(x), values::lit_of(y));
        b.set_span(Span::mixed_site());
        let want = x == y;
        c.states += 1; c.transitions += 1; c.runs += 2;
        if (a == b) != want || (a != b) == want { c.fail(format!("{x:?} and {y:?} compare equal: {}", a == b)) }
        if want && hashes(&a) != hashes(&b) { c.fail(format!("Lit of {x:?} twice: equal, but different hashes")) }
        c.outcome(if want { "equal" } else { "different" });
    }));

    // words
    let ws: Vec<String> = { let mut v: Vec<String> = RUST_KEYWORDS.iter().map(|s| s.to_string()).collect(); for a in ["a", "b", "A", "_", "é", "alpha", "alphabet", "alph"] { for b in ["", "a", "1", "_", "é"] { v.push(format!("{a}{b}")); v.push(format!("r#{a}{b}")) } } v.push("r#fn".into()); v.retain(|s| s != "r#_"); v.sort(); v.dedup(); v };
    let n = ws.len();
    s.push(suite("words: all pairs", (n * n) as u64, &["equal", "different"], move |i, c| {
        let (x, y) = (&ws[i as usize / n], &ws[i as usize % n]);
        let want = x == y;
        c.states += 1; c.transitions += 1; c.runs += 2;
        fn words<T: Spec + Ord + PartialEq<String> + Clone>(c: &mut Ctx, name: &str, x: &String, y: &String) {
            let (Ok(a), Ok(b)) = (parsel::parse_str::<T>(x), parsel::parse_str::<T>(&format!("\n {y} "))) else { return };
            let want = x == y;
            if (a == b) != want || (a != b) == want || (a.cmp(&b) == Ordering::Equal) != want || (a.partial_cmp(&b) == Some(Ordering::Equal)) != want || a.cmp(&b) != b.cmp(&a).reverse() { c.fail(format!("{name}: `{x}` and `{y}` compare equal: {}, ordered {:?}", a == b, a.cmp(&b))) }
            if want && hashes(&a) != hashes(&b) { c.fail(format!("{name}: two `{x}` hash differently")) }
            if (a == *y) != want { c.fail(format!("{name}: `{x}` compares equal to the text {y:?}: {}", a == *y)) }
        }
        words::<Word>(c, "Word", x, y);
        words::<Kid>(c, "CustomIdent", x, y);
        macro_rules! kws { ($($k:ident)*) => { $( if parsel::parse_str::<kw::$k>(x).is_ok() {
            let a: kw::$k = parsel::parse_str(x).unwrap();
            cmp_all(c, &|| format!("the keyword `{x}` and the text {y:?}"), &a, y, x.cmp(y));
            cmp_all(c, &|| format!("the keyword `{x}` and the text {y:?}"), &a, &&**y, x.cmp(y));
            if let Ok(b) = parsel::parse_str::<kw::$k>(&format!("\n {y}")) {
                cmp_all(c, &|| format!("two keywords `{x}`"), &a, &b, Ordering::Equal);
                if a.cmp(&b) != Ordering::Equal || hashes(&a) != hashes(&b) { c.fail(format!("two keywords `{x}` compare unequal or hash differently")) }
            }
            c.outcome("keyword");
            // different keywords
            cmp_all(c, &|| format!("the keywords `{x}` and `fn`"), &a, &kw::Fn::default(), x[..].cmp("fn"));
            cmp_all(c, &|| format!("the keywords `{x}` and `alphabet`"), &a, &kw::Alphabet::default(), x[..].cmp("alphabet"));
        } )* } }
        kws!(Alpha Fn Alphabet Under);
        c.outcome(if want { "equal" } else { "different" });
    }));

    // whole trees
    let tys: Vec<(&'static str, G, Trees)> = zoo!(tree_tys);
    let atoms = alphabet("a b alpha 1 2 -1 1.5 \"s\" + -");
    let max = if q { 250 } else { 1200 };
    let gs: Vec<G> = tys.iter().map(|t| t.1.clone()).collect();
    let mut srcs: Vec<Vec<String>> = build_near(&gs, if q { 5 } else { 7 }, 2, &atoms).into_iter().zip(&tys).map(|(l, t)| {
        let mut l: Vec<&Vec<Tok>> = l.iter().collect();
        l.sort_by_key(|t| size(t));
        l.into_iter().map(|t| render(t).0).filter(|s| (t.2.1)(s)).take(max).collect()
    }).collect();
    for (l, t) in srcs.iter_mut().zip(&tys) {
        // and long ones that differ in one place only
        for p in PERIODS { for n in [9usize, 40] { let mut one = vec![]; for k in 0..=n { let v: Vec<Tok> = (0..n).flat_map(|u| toks(p[u % p.len()])).enumerate().map(|(i, t)| if i == k * 3 { match t { Tok::I(_) => Tok::I("zz".into()), t => t } } else { t }).collect(); let src = render(&v).0; if (t.2.1)(&src) { one.push(src) } } one.dedup(); one.truncate(6); l.extend(one) } }
    }
    const BLOCK: usize = 25;
    let mut starts = vec![0usize];
    for l in &srcs { starts.push(starts.last().unwrap() + (l.len() + BLOCK - 1) / BLOCK) }
    let n = *starts.last().unwrap() as u64;
    s.push(suite("every type: all pairs of accepted inputs", n, &["equal trees", "different trees"], move |i, c| {
        let i = i as usize;
        let k = starts.partition_point(|s| *s <= i) - 1;
        let lo = (i - starts[k]) * BLOCK;
        (tys[k].2.0)(c, tys[k].0, &srcs[k], lo, (lo + BLOCK).min(srcs[k].len()))
    }));
    main_("C16", s)
}
