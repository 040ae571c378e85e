//! C08: a Separated is never empty and never ends in a separator.
#[path = "../shared/items.rs"] mod items;
use items::*;
use mc::run::*;
use parsel::ast::{Punctuated, Separated};
use quote::ToTokens;
use std::borrow::Borrow;
use std::convert::TryFrom;
use syn::punctuated::Pair;

type S = Separated<It, Sep>;
type Raw = syn::punctuated::Punctuated<It, Sep>;

/// everything observable about a Separated, against the list it should be
fn observe(c: &mut Ctx, s: &S, m: &ListModel, h: &str) {
    let n = m.t.len();
    macro_rules! eq { ($what:expr, $got:expr, $want:expr) => { { let (g, w) = (&$got, &$want); c.transitions += 1; if g != w { c.fail(format!("after {h}: {} gives {:?}, should give {:?}", $what, g, w)) } } } }
    c.states += 1;
    c.runs += 1;
    assert!(n > 0 && m.p.len() == n - 1, "harness: model");
    eq!("len", s.len().get(), n);
    eq!("first", *s.first(), m.t[0]);
    eq!("last", *s.last(), m.t[n - 1]);
    eq!("iter", s.iter().copied().collect::<Vec<_>>(), m.t);
    eq!("iter from the back", s.iter().rev().copied().collect::<Vec<_>>(), m.t.iter().rev().copied().collect::<Vec<_>>());
    eq!("iter.len", s.iter().len(), n);
    eq!("pairs", s.pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("pairs from the back", s.pairs().rev().map(upair).collect::<Vec<_>>(), m.pairs().into_iter().rev().collect::<Vec<_>>());
    eq!("iteration by reference", s.into_iter().copied().collect::<Vec<_>>(), m.t);
    eq!("iteration by value", s.clone().into_iter().collect::<Vec<_>>(), m.t);
    eq!("iteration by value from the back", s.clone().into_iter().rev().collect::<Vec<_>>(), m.t.iter().rev().copied().collect::<Vec<_>>());
    eq!("into_pairs", s.clone().into_pairs().map(|p| p.into_tuple()).collect::<Vec<_>>(), m.pairs());
    eq!("indexing", (0..n).map(|i| s[i]).collect::<Vec<_>>(), m.t);
    eq!("deref", s.iter().copied().collect::<Vec<_>>(), (**s).iter().copied().collect::<Vec<_>>());
    eq!("deref len/is_empty/trailing", ((**s).len(), (**s).is_empty(), (**s).trailing_punct(), (**s).empty_or_trailing()), (n, false, false, false));
    let r: &Raw = s.as_ref();
    eq!("as_ref", r.pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    let r: &Raw = s.borrow();
    eq!("borrow", r.pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("into_inner", s.clone().into_inner().pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("conversion to the raw list", Raw::from(s.clone()).pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    let (f, rest) = s.clone().into_first_rest();
    eq!("into_first_rest", (f, rest), (m.t[0], m.p.iter().copied().zip(m.t[1..].iter().copied()).collect::<Vec<_>>()));
    let (l, rest) = s.clone().into_last_rest();
    eq!("into_last_rest", (l, rest), (m.t[n - 1], m.t[..n - 1].iter().copied().zip(m.p.iter().copied()).collect::<Vec<_>>()));
    let mut k = s.clone();
    eq!("first_mut", *k.first_mut(), m.t[0]);
    eq!("last_mut", *k.last_mut(), m.t[n - 1]);
    eq!("iter_mut", k.iter_mut().map(|x| *x).collect::<Vec<_>>(), m.t);
    eq!("pairs_mut", k.pairs_mut().map(upair_mut).collect::<Vec<_>>(), m.pairs());
    eq!("iteration by mutable reference", (&mut k).into_iter().map(|x| *x).collect::<Vec<_>>(), m.t);
    eq!("index_mut", (0..n).map(|i| *(&mut k[i])).collect::<Vec<_>>(), m.t);
    eq!("printing", words(s.to_token_stream()), words(m.text().parse().unwrap()));
    let other = S::try_from(m.raw());
    match other { Err(e) => c.fail(format!("after {h}: a raw list with the same content is refused: {e}")), Ok(o) => {
        eq!("equality with the same content", (*s == o, o == *s, hash_of(s) == hash_of(&o)), (true, true, true));
        eq!("display", format!("{s} {s:#}"), format!("{o} {o:#}"));
    } }
    let mut more = m.clone(); more.p.push(Sep(1)); more.t.push(It(1));
    eq!("equality with longer content", *s == S::try_from(more.raw()).unwrap(), false);
    let mut diff = m.clone(); diff.t[n / 2].0 += 100_000;
    eq!("equality with other content", *s == S::try_from(diff.raw()).unwrap(), false);
    if n > 1 { let mut diff = m.clone(); diff.p[(n - 1) / 2].0 += 1; eq!("equality with other separators", *s == S::try_from(diff.raw()).unwrap(), false) }
}

const OPS: &[&str] = &[
    "push", "push_value", "insert at 0", "insert at 1", "insert before the last", "insert at len", "insert in the middle", "extend with no item", "extend with 1 item", "extend with 2 items", "extend with 5 items",
    "extend with no pair", "extend with 1 pair", "extend with 3 pairs", "iter_mut", "first_mut", "last_mut", "index_mut", "pairs_mut", "to raw and back", "through into_pairs", "through into_first_rest", "through into_last_rest", "through printing and parsing", "clone", "in-order for &mut",
];

/// applies an operation to both; false if it does not apply here
fn apply(op: usize, s: &mut S, m: &mut ListModel, fresh: &mut u32) -> bool {
    let mut new = || { *fresh += 1; *fresh };
    let n = m.t.len();
    match OPS[op] {
        "push" => { let (p, t) = (Sep(new()), It(new())); s.push(p, t); m.p.push(p); m.t.push(t) }
        "push_value" => { let t = It(new()); s.push_value(t); m.push(t) }
        o if o.starts_with("insert") => {
            let i = match op { 2 => 0, 3 => 1, 4 => n - 1, 5 => n, _ => n / 2 };
            if i > n || (op == 4 && n < 3) || (op == 6 && n < 4) { return false }
            let t = It(new());
            s.insert(i, t);
            if i == n { m.push(t) } else { m.t.insert(i, t); m.p.insert(i, Sep::default()) }
        }
        o if o.starts_with("extend") && o.contains("item") => { let k = [0, 1, 2, 5][op - 7]; let v: Vec<It> = (0..k).map(|_| It(new())).collect(); for t in &v { m.push(*t) } s.extend(feed(v, n + k)) }
        o if o.starts_with("extend") => { let k = [0, 1, 3][op - 11]; let v: Vec<(Sep, It)> = (0..k).map(|_| (Sep(new()), It(new()))).collect(); for (p, t) in &v { m.p.push(*p); m.t.push(*t) } s.extend(feed(v, n + k)) }
        "iter_mut" => { for x in s.iter_mut() { x.0 += 10_000 } for x in &mut m.t { x.0 += 10_000 } }
        "first_mut" => { let x = It(new()); *s.first_mut() = x; m.t[0] = x }
        "last_mut" => { let x = It(new()); *s.last_mut() = x; m.t[n - 1] = x }
        "index_mut" => { for i in 0..n { let x = It(new()); s[i] = x; m.t[i] = x } }
        "pairs_mut" => { for mut p in s.pairs_mut() { p.value_mut().0 += 20_000; if let Some(q) = p.punct_mut() { q.0 += 1_000_000 } } for x in &mut m.t { x.0 += 20_000 } for x in &mut m.p { x.0 += 1_000_000 } }
        "to raw and back" => *s = S::try_from(Raw::from(s.clone())).expect("conversion back from the raw list"),
        "through into_pairs" => *s = S::try_from(s.clone().into_pairs().collect::<Punctuated<It, Sep>>().into_inner()).expect("conversion back from pairs"),
        "through into_first_rest" => { let (f, r) = s.clone().into_first_rest(); *s = S::try_from(std::iter::once(Pair::new(f, None)).collect::<Raw>()).expect("single item"); s.extend(r) }
        "through into_last_rest" => { let (l, r) = s.clone().into_last_rest(); let mut raw = Raw::new(); for (t, p) in r { raw.push_value(t); raw.push_punct(p) } raw.push_value(l); *s = S::try_from(raw).expect("conversion back from the last item and the rest") }
        "through printing and parsing" => *s = parsel::parse2(s.to_token_stream()).expect("parsing back"),
        "clone" => *s = s.clone(),
        _ => { for x in &mut *s { x.0 += 30_000 } for x in &mut m.t { x.0 += 30_000 } }
    }
    true
}

fn start(kind: usize, n: usize, fresh: &mut u32) -> (S, ListModel) {
    let m = ListModel::of(n, false, fresh);
    let s = match kind { 0 => parsel::parse_str::<S>(&m.text()).expect("parsing a separated list"), _ => S::try_from(m.raw()).expect("converting a valid raw list") };
    (s, m)
}

fn histories(depth: usize, lens: Vec<usize>) -> Suite {
    let k = OPS.len() as u64;
    let per: u64 = (0..=depth as u32).map(|d| k.pow(d)).sum();
    let starts = lens.len() as u64 * 2;
    suite(format!("all histories of up to {depth} operations"), per * starts, &["history"], move |i, c| {
        let (st, mut j) = (i / per, i % per);
        let mut d = 0;
        while j >= k.pow(d) { j -= k.pow(d); d += 1 }
        let mut ops = vec![0; d as usize];
        for o in ops.iter_mut().rev() { *o = (j % k) as usize; j /= k }
        let mut fresh = 0;
        let (mut s, mut m) = start((st % 2) as usize, lens[(st / 2) as usize], &mut fresh);
        let mut h = format!("a {} list of {} items", if st % 2 == 0 { "parsed" } else { "converted" }, m.t.len());
        for o in &ops { if !apply(*o, &mut s, &mut m, &mut fresh) { c.outcome("operation does not apply"); return } h.push_str(", "); h.push_str(OPS[*o]); c.transitions += 1 }
        c.outcome("history");
        observe(c, &s, &m, &h);
        c.sample(|| format!("{h}: {}", m.text()));
    })
}

fn main() {
    let q = !thorough();
    let mut v = vec![histories(if q { 4 } else { 5 }, vec![1, 2, 3])];
    // every raw list, however it came about
    v.push(suite("conversion of every raw list up to 6 items", 7 * 2 * 4, &["refused", "converted"], |i, c| {
        let (n, trailing, how) = ((i / 8) as usize, i % 8 / 4 == 1, i % 4);
        if n == 0 && trailing { return }
        let mut fresh = 0;
        let m = ListModel::of(n, trailing, &mut fresh);
        let raw = match how {
            0 => m.raw(),
            1 => m.pairs().into_iter().map(|(t, p)| Pair::new(t, p)).collect(),
            2 => parsel::parse_str::<Punctuated<It, Sep>>(&m.text()).expect("parsing a list").into_inner(),
            // with a removal and a re-insertion
            _ => { let mut r = m.raw(); if let Some(p) = r.pop() { let (t, p) = p.into_tuple(); r.push_value(t); if let Some(p) = p { r.push_punct(p) } } r }
        };
        c.runs += 1;
        c.states += 1;
        let bad = n == 0 || trailing;
        match S::try_from(raw) {
            Ok(s) => { if bad { c.fail(format!("the raw list {:?} is accepted as a Separated", m.text())) } else { c.outcome("converted"); observe(c, &s, &m, "conversion") } }
            Err(e) => { if !bad { c.fail(format!("the raw list {:?} is refused: {e}", m.text())) } c.outcome("refused") }
        }
    }));
    // long lists: every operation, every position
    let lens: Vec<usize> = if q { (4..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() } else { (4..140).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025]).collect() };
    let k = OPS.len() as u64;
    let l2 = lens.clone();
    v.push(suite("one or two operations on long lists", lens.len() as u64 * 2 * k * k, &["history"], move |i, c| {
        let (st, o1, o2) = (i / (k * k), (i / k % k) as usize, (i % k) as usize);
        let mut fresh = 0;
        let (mut s, mut m) = start((st % 2) as usize, l2[(st / 2) as usize], &mut fresh);
        let h = format!("a list of {} items, {}, {}", m.t.len(), OPS[o1], OPS[o2]);
        if !apply(o1, &mut s, &mut m, &mut fresh) || !apply(o2, &mut s, &mut m, &mut fresh) { c.outcome("operation does not apply"); return }
        c.outcome("history");
        observe(c, &s, &m, &h);
    }));
    const FAR: [usize; 8] = [513, 1024, 1025, 2049, 4095, 4096, 4097, 5001];
    v.push(suite("an operation on very long lists", (FAR.len() * 2) as u64 * k, &["history"], move |i, c| {
        let (st, o) = ((i / k) as usize, (i % k) as usize);
        let mut fresh = 0;
        let (mut s, mut m) = start(st % 2, FAR[st / 2], &mut fresh);
        let h = format!("a list of {} items, {}", m.t.len(), OPS[o]);
        if !apply(o, &mut s, &mut m, &mut fresh) { c.outcome("operation does not apply"); return }
        c.outcome("history");
        observe(c, &s, &m, &h);
    }));
    let per: Vec<u64> = lens.iter().map(|n| *n as u64 + 1).collect();
    v.push(suite("insertion at every position of long lists", per.iter().sum(), &["history"], move |mut i, c| {
        let mut k = 0;
        while i >= per[k] { i -= per[k]; k += 1 }
        let mut fresh = 0;
        let (mut s, mut m) = start(0, lens[k], &mut fresh);
        let (n, at, t) = (m.t.len(), i as usize, It(77_777));
        s.insert(at, t);
        if at == n { m.push(t) } else { m.t.insert(at, t); m.p.insert(at, Sep::default()) }
        c.outcome("history");
        observe(c, &s, &m, &format!("inserting at {at} of {n}"));
    }));
    // many operations in a row: lists grown one by one
    v.push(suite("lists grown step by step by one operation, observed after each", (k - 14 + 14) * 2, &["history"], move |i, c| {
        let (op, kind) = ((i / 2) as usize, (i % 2) as usize);
        let mut fresh = 0;
        let (mut s, mut m) = start(kind, 1, &mut fresh);
        for step in 0..70 { if apply(op, &mut s, &mut m, &mut fresh) { observe(c, &s, &m, &format!("{} times {}", step + 1, OPS[op])) } if !c.fails.is_empty() { return } }
        c.outcome("history");
    }));
    main_("C08", v)
}
