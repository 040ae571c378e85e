//! C24: the containers behave like the plain containers they wrap.
#[path = "../shared/items.rs"] mod items;
use items::*;
use mc::run::*;
use parsel::ast::{Any, Brace, Bracket, Empty, Many, Maybe, NotEof, Paren, Punctuated};
use parsel::syn::token;
use proc_macro2::Span;
use quote::ToTokens;
use std::borrow::{Borrow, BorrowMut};
use std::collections::VecDeque;
use syn::punctuated::Pair;

type P = Punctuated<It, Sep>;
type Raw = syn::punctuated::Punctuated<It, Sep>;

fn unrank(mut i: u64, b: u64, max: u32) -> Vec<usize> {
    for d in 0..=max { let n = b.pow(d); if i < n { let mut v = vec![0; d as usize]; for x in v.iter_mut().rev() { *x = (i % b) as usize; i /= b } return v } i -= n }
    panic!("rank")
}
fn ranks(b: u64, max: u32) -> u64 { (0..=max).map(|d| b.pow(d)).sum() }

macro_rules! eqs { ($c:ident, $h:ident) => { macro_rules! eq { ($what:expr, $got:expr, $want:expr) => { { let (g, w) = (&$got, &$want); $c.transitions += 1; if g != w { $c.fail(format!("{}: {} gives {:?}, should give {:?}", $h, $what, g, w)) } } } } } }

/// both ends of a double-ended iterator, alternately
fn both<I: DoubleEndedIterator>(mut i: I) -> Vec<I::Item> {
    let (mut a, mut b) = (vec![], vec![]);
    loop { match i.next() { Some(x) => a.push(x), None => break } match i.next_back() { Some(x) => b.push(x), None => break } }
    b.reverse();
    a.extend(b);
    a
}

// ---------------------------------------------------------------- Punctuated

fn see_punct(c: &mut Ctx, s: &P, m: &ListModel, h: &str) {
    eqs!(c, h);
    c.states += 1; c.runs += 1;
    let n = m.t.len();
    let rev = |v: &[It]| v.iter().rev().copied().collect::<Vec<_>>();
    eq!("len, is_empty", (s.len(), s.is_empty()), (n, n == 0));
    eq!("iter", s.iter().copied().collect::<Vec<_>>(), m.t);
    eq!("iter from the back", s.iter().rev().copied().collect::<Vec<_>>(), rev(&m.t));
    eq!("iter from both ends", both(s.iter().copied()), m.t);
    eq!("iter length", (s.iter().len(), s.pairs().len(), s.clone().into_iter().len(), s.clone().into_pairs().len()), (n, n, n, n));
    eq!("pairs", s.pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("pairs from both ends", both(s.pairs().map(upair)), m.pairs());
    eq!("into_pairs", s.clone().into_pairs().map(|p| p.into_tuple()).collect::<Vec<_>>(), m.pairs());
    eq!("into_pairs from both ends", both(s.clone().into_pairs().map(|p| p.into_tuple())), m.pairs());
    eq!("iteration by value", s.clone().into_iter().collect::<Vec<_>>(), m.t);
    eq!("iteration by value from both ends", both(s.clone().into_iter()), m.t);
    eq!("iteration by reference", { let mut v = vec![]; for x in s { v.push(*x) } v }, m.t);
    eq!("indexing", (0..n).map(|i| s[i]).collect::<Vec<_>>(), m.t);
    eq!("indexing past the end panics", panics(|| s[n]).is_none(), true);
    eq!("deref", ((**s).len(), (**s).trailing_punct(), (**s).empty_or_trailing(), (**s).first().copied(), (**s).last().copied(), (**s).get(n).copied(), (**s).get(n / 2).copied()), (n, m.trailing(), n == 0 || m.trailing(), m.t.first().copied(), m.t.last().copied(), None, m.t.get(n / 2).copied()));
    let (d, a, b): (&Raw, &Raw, &Raw) = (s, s.as_ref(), s.borrow());
    eq!("views are the same list", (d as *const Raw == a, a as *const Raw == b), (true, true));
    eq!("view", a.pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("into_inner", s.clone().into_inner().pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    eq!("conversion to the raw list", Raw::from(s.clone()).pairs().map(upair).collect::<Vec<_>>(), m.pairs());
    let mut k = s.clone();
    eq!("iter_mut", k.iter_mut().map(|x| *x).collect::<Vec<_>>(), m.t);
    eq!("iter_mut from both ends", both(k.iter_mut()).into_iter().map(|x| *x).collect::<Vec<_>>(), m.t);
    eq!("pairs_mut", k.pairs_mut().map(upair_mut).collect::<Vec<_>>(), m.pairs());
    eq!("iteration by mutable reference", { let mut v = vec![]; for x in &mut k { v.push(*x) } v }, m.t);
    eq!("index_mut", (0..n).map(|i| *(&mut k[i])).collect::<Vec<_>>(), m.t);
    let (d, a) = ({ let r: &mut Raw = &mut k; r as *const Raw }, { let r: &mut Raw = k.as_mut(); r as *const Raw });
    let b = { let r: &mut Raw = k.borrow_mut(); r as *const Raw };
    eq!("mutable views are the same list", (d == a, a == b), (true, true));
    eq!("printing", words(s.to_token_stream()), words(m.text().parse().unwrap()));
    let o = P::from(m.raw());
    eq!("equality with the same content", (*s == o, o == *s, hash_of(s) == hash_of(&o), hash_of(s) == hash_of(&m.raw())), (true, true, true, true));
    let mut more = m.raw(); more.push(It(1));
    eq!("equality with longer content", *s == P::from(more), false);
    if n > 0 {
        let mut d = m.raw(); if d.trailing_punct() { d.pop_punct(); } else { d.push_punct(Sep(1)) }
        eq!("equality with the other trailing separator", *s == P::from(d), false);
        let mut d = m.clone(); d.t[n / 2].0 += 500_000;
        eq!("equality with other content", *s == P::from(d.raw()), false);
    }
    if n > 1 { let mut d = m.clone(); d.p[(n - 1) / 2].0 += 1; eq!("equality with other separators", *s == P::from(d.raw()), false) }
}

const POPS: &[&str] = &[
    "push", "push_value and push_punct", "push_punct", "insert at 0", "insert in the middle", "insert at len", "pop", "pop_punct", "clear", "extend with no item", "extend with 1 item", "extend with 3 items", "extend with 1 pair", "extend with 2 pairs",
    "extend with 3 pairs, the last without separator", "iter_mut", "pairs_mut", "index_mut", "for in &mut", "first_mut and last_mut", "AsMut", "BorrowMut", "to raw and back", "collected from its pairs", "collected from its items", "clone", "through printing and parsing", "swapped with a new list",
];

fn do_punct(op: usize, s: &mut P, m: &mut ListModel, fresh: &mut u32) -> bool {
    let mut new = || { *fresh += 1; *fresh };
    let n = m.t.len();
    match POPS[op] {
        "push" => { let t = It(new()); s.push(t); m.push(t) }
        "push_value and push_punct" => { if n > 0 && !m.trailing() { return false } let (t, p) = (It(new()), Sep(new())); s.push_value(t); s.push_punct(p); m.t.push(t); m.p.push(p) }
        "push_punct" => { if n == 0 || m.trailing() { return false } let p = Sep(new()); s.push_punct(p); m.p.push(p) }
        "insert at 0" => { let t = It(new()); s.insert(0, t); if n == 0 { m.push(t) } else { m.t.insert(0, t); m.p.insert(0, Sep::default()) } }
        "insert in the middle" => { if n < 2 { return false } let t = It(new()); s.insert(n / 2, t); m.t.insert(n / 2, t); m.p.insert(n / 2, Sep::default()) }
        "insert at len" => { let t = It(new()); s.insert(n, t); m.push(t) }
        "pop" => { let r = s.pop().map(|p| p.into_tuple()); let t = m.trailing(); let w = m.t.pop().map(|x| (x, if t { m.p.pop() } else { None })); assert_eq!(r, w, "pop") }
        "pop_punct" => { let r = s.pop_punct(); let w = if m.trailing() { m.p.pop() } else { None }; assert_eq!(r, w, "pop_punct") }
        "clear" => { s.clear(); *m = ListModel::default() }
        o if o.starts_with("extend") && o.contains("item") => { let k = [0, 1, 3][op - 9]; let v: Vec<It> = (0..k).map(|_| It(new())).collect(); for t in &v { m.push(*t) } Extend::<It>::extend(s, feed(v, n + k)) }
        o if o.starts_with("extend") => {
            let k = op - 11;
            if n > 0 && !m.trailing() { m.p.push(Sep::default()) }
            let v: Vec<Pair<It, Sep>> = (0..k).map(|j| Pair::new(It(new()), if k == 3 && j == 2 { None } else { Some(Sep(new())) })).collect();
            for p in &v { let (t, p) = p.clone().into_tuple(); m.t.push(t); m.p.extend(p) }
            Extend::<Pair<It, Sep>>::extend(s, feed(v, n + k))
        }
        "iter_mut" => { for x in s.iter_mut() { x.0 += 10_000 } for x in &mut m.t { x.0 += 10_000 } }
        "for in &mut" => { for x in &mut *s { x.0 += 30_000 } for x in &mut m.t { x.0 += 30_000 } }
        "pairs_mut" => { for mut p in s.pairs_mut() { p.value_mut().0 += 20_000; if let Some(q) = p.punct_mut() { q.0 += 1_000_000 } } for x in &mut m.t { x.0 += 20_000 } for x in &mut m.p { x.0 += 1_000_000 } }
        "index_mut" => { for i in 0..n { let x = It(new()); s[i] = x; m.t[i] = x } }
        "first_mut and last_mut" => { if let Some(x) = s.first_mut() { x.0 += 7 } if let Some(x) = s.last_mut() { x.0 += 40_000 } if let Some(x) = m.t.first_mut() { x.0 += 7 } if let Some(x) = m.t.last_mut() { x.0 += 40_000 } }
        "AsMut" => { let t = It(new()); let r: &mut Raw = s.as_mut(); r.push(t); m.push(t) }
        "BorrowMut" => { let t = It(new()); let r: &mut Raw = s.borrow_mut(); r.push(t); m.push(t) }
        "to raw and back" => *s = P::from(Raw::from(s.clone())),
        "collected from its pairs" => *s = feed(s.clone().into_pairs().collect::<Vec<_>>(), n).collect(),
        "collected from its items" => { *s = feed(s.clone().into_iter().collect::<Vec<_>>(), n).collect(); m.p = vec![Sep::default(); n.saturating_sub(1)] }
        "clone" => *s = s.clone(),
        "through printing and parsing" => *s = parsel::parse2(s.to_token_stream()).expect("parsing back"),
        _ => { let mut o = if n % 2 == 0 { P::new() } else { P::default() }; let t = It(new()); o.push(t); std::mem::swap(&mut o, s); assert_eq!(o.len(), n, "swapped list"); *m = ListModel { t: vec![t], p: vec![] } }
    }
    true
}

fn start_punct(st: u64, fresh: &mut u32) -> (P, ListModel) {
    let n = (st / 2) as usize;
    let m = ListModel::of(n, st % 2 == 1, fresh);
    let s: P = match n % 4 { 0 => P::from(m.raw()), 1 => parsel::parse_str(&m.text()).expect("parsing"), 2 => m.pairs().into_iter().map(|(t, p)| Pair::new(t, p)).collect(), _ => { let mut s = P::new(); Extend::<Pair<It, Sep>>::extend(&mut s, m.pairs().into_iter().map(|(t, p)| Pair::new(t, p))); s } };
    (s, m)
}

// ---------------------------------------------------------------- Any

fn see_any(c: &mut Ctx, s: &Any<It>, m: &Vec<It>, h: &str) {
    eqs!(c, h);
    c.states += 1; c.runs += 1;
    let n = m.len();
    eq!("len, is_empty", (s.len(), s.is_empty()), (n, n == 0));
    eq!("iter", s.iter().copied().collect::<Vec<_>>(), *m);
    eq!("iter from both ends", both(s.iter().copied()), *m);
    eq!("iteration by value from both ends", both(s.clone().into_iter()), *m);
    eq!("iteration by reference", { let mut v = vec![]; for x in s { v.push(*x) } v }, *m);
    eq!("iterator lengths", (s.iter().len(), s.clone().into_iter().len(), s.into_iter().len()), (n, n, n));
    let mut k = s.clone();
    eq!("iter_mut from both ends", both(k.iter_mut()).into_iter().map(|x| *x).collect::<Vec<_>>(), *m);
    eq!("iteration by mutable reference", { let mut v = vec![]; for x in &mut k { v.push(*x) } v }, *m);
    for i in 0..n + 1 {
        eq!("get", (s.get(i), k.get_mut(i).map(|x| *x)), (m.get(i), m.get(i).copied()));
        eq!("indexing", panics(|| s[i]), m.get(i).copied());
        eq!("index_mut", panics(|| *(&mut k[i])), m.get(i).copied());
        for j in i..n + 1 {
            eq!("get range", (s.get(i..j), k.get_mut(i..j).map(|x| x.to_vec())), (m.get(i..j), m.get(i..j).map(|x| x.to_vec())));
            eq!("range", (&s[i..j], (&mut k[i..j]).to_vec()), (&m[i..j], m[i..j].to_vec()));
            if j < n { eq!("inclusive range", (&s[i..=j], s.get(i..=j), &s[(std::ops::Bound::Excluded(i), std::ops::Bound::Included(j))]), (&m[i..=j], m.get(i..=j), &m[(std::ops::Bound::Excluded(i), std::ops::Bound::Included(j))])) }
        }
        eq!("range from", (&s[i..], s.get(i..)), (&m[i..], m.get(i..)));
        eq!("range to", (&s[..i], s.get(..i)), (&m[..i], m.get(..i)));
        eq!("range past the end", (s.get(i..n + 1), panics(|| s[i..n + 1].len()), s.get(..n + 2), s.get(n + 1..)), (None, None, None, None));
        if i < n { eq!("range to inclusive", (&s[..=i], s.get(..=i)), (&m[..=i], m.get(..=i))) }
    }
    eq!("full range", (&s[..], s.get(..)), (&m[..], m.get(..)));
    let d: &Vec<It> = s;
    let (a, b): (&Vec<It>, &Vec<It>) = (s.as_ref(), s.borrow());
    let (e, f): (&[It], &[It]) = (s.as_ref(), s.borrow());
    eq!("deref", d, m);
    eq!("views are the same list", (d as *const _ == a as *const _, a as *const _ == b as *const _, e.as_ptr() == d.as_ptr() && e.len() == n, f.as_ptr() == d.as_ptr() && f.len() == n), (true, true, true, true));
    let d: *const Vec<It> = { let r: &mut Vec<It> = &mut k; r };
    let a: *const Vec<It> = { let r: &mut Vec<It> = k.as_mut(); r };
    let b: *const Vec<It> = { let r: &mut Vec<It> = k.borrow_mut(); r };
    let e: (*const It, usize) = { let r: &mut [It] = k.as_mut(); (r.as_ptr(), r.len()) };
    let f: (*const It, usize) = { let r: &mut [It] = k.borrow_mut(); (r.as_ptr(), r.len()) };
    eq!("mutable views are the same list", (d == a, a == b, e == (k.as_ptr(), n), f == e), (true, true, true, true));
    eq!("into_inner", s.clone().into_inner(), *m);
    eq!("conversion to a Vec", Vec::from(s.clone()), *m);
    eq!("printing", words(s.to_token_stream()), m.iter().map(|x| x.0.to_string()).collect::<Vec<_>>());
    let o = Any::from(m.clone());
    eq!("equality with the same content", (*s == o, o == *s, hash_of(s) == hash_of(m), hash_of(s) == hash_of(&m[..])), (true, true, true, true));
    let mut more = m.clone(); more.push(It(1));
    eq!("equality with longer content", *s == Any::from(more), false);
    if n > 0 { let mut d = m.clone(); d[n / 2].0 += 1; eq!("equality with other content", *s == Any::from(d), false) }
}

const AOPS: &[&str] = &["push", "insert at 0", "insert in the middle", "insert at len", "remove the first", "remove the middle", "pop", "clear", "extend with nothing", "extend with 1", "extend with 3", "iter_mut", "for in &mut", "index_mut", "range index_mut", "get_mut", "get_mut of a range", "AsMut<Vec>", "AsMut<[]>", "BorrowMut<Vec>", "BorrowMut<[]>", "into_inner and From", "Vec::from and collect", "clone", "through printing and parsing", "mem::take and extend", "drain and collect"];

fn do_any(op: usize, s: &mut Any<It>, m: &mut Vec<It>, fresh: &mut u32) -> bool {
    let mut new = || { *fresh += 1; It(*fresh) };
    let n = m.len();
    match AOPS[op] {
        "push" => { let t = new(); s.push(t); m.push(t) }
        "insert at 0" => { let t = new(); s.insert(0, t); m.insert(0, t) }
        "insert in the middle" => { if n < 2 { return false } let t = new(); s.insert(n / 2, t); m.insert(n / 2, t) }
        "insert at len" => { let t = new(); s.insert(n, t); m.insert(n, t) }
        "remove the first" => { if n == 0 { return false } assert_eq!(s.remove(0), m.remove(0)) }
        "remove the middle" => { if n < 3 { return false } assert_eq!(s.remove(n / 2), m.remove(n / 2)) }
        "pop" => assert_eq!(s.pop(), m.pop()),
        "clear" => { s.clear(); m.clear() }
        o if o.starts_with("extend") => { let k = [0, 1, 3][op - 8]; let v: Vec<It> = (0..k).map(|_| new()).collect(); m.extend(v.iter().copied()); s.extend(feed(v, n + k)) }
        "iter_mut" => { for x in s.iter_mut() { x.0 += 10_000 } for x in m { x.0 += 10_000 } }
        "for in &mut" => { for x in &mut *s { x.0 += 20_000 } for x in m { x.0 += 20_000 } }
        "index_mut" => for i in 0..n { let t = new(); s[i] = t; m[i] = t },
        "range index_mut" => { if n < 2 { return false } s[1..].reverse(); m[1..].reverse(); s[..2].swap(0, 1); m[..2].swap(0, 1) }
        "get_mut" => { if let Some(x) = s.get_mut(n / 2) { x.0 += 3 } if let Some(x) = m.get_mut(n / 2) { x.0 += 3 } assert!(s.get_mut(n).is_none()) }
        "get_mut of a range" => { if let Some(x) = s.get_mut(..n / 2) { x.reverse() } if let Some(x) = m.get_mut(..n / 2) { x.reverse() } }
        "AsMut<Vec>" => { let t = new(); AsMut::<Vec<It>>::as_mut(s).push(t); m.push(t) }
        "AsMut<[]>" => { AsMut::<[It]>::as_mut(s).reverse(); m.reverse() }
        "BorrowMut<Vec>" => { let t = new(); BorrowMut::<Vec<It>>::borrow_mut(s).insert(0, t); m.insert(0, t) }
        "BorrowMut<[]>" => { if n > 0 { BorrowMut::<[It]>::borrow_mut(s).rotate_left(1); m.rotate_left(1) } }
        "into_inner and From" => *s = Any::from(s.clone().into_inner()),
        "Vec::from and collect" => *s = feed(Vec::from(s.clone()), n).collect(),
        "clone" => *s = s.clone(),
        "through printing and parsing" => *s = parsel::parse2(s.to_token_stream()).expect("parsing back"),
        "mem::take and extend" => { let o = std::mem::take(s); assert!(s.is_empty()); s.extend(feed(o.into_inner(), n)) }
        _ => { let v: VecDeque<It> = s.drain(..).collect(); assert!(s.is_empty()); *s = v.into_iter().collect() }
    }
    true
}

// ---------------------------------------------------------------- Maybe

type M = Maybe<Sep, It>;

fn see_maybe(c: &mut Ctx, s: &M, m: &Option<(Sep, It)>, h: &str) {
    eqs!(c, h);
    c.states += 1; c.runs += 1;
    let (p, t) = (m.map(|x| x.0), m.map(|x| x.1));
    let mut k = *s;
    eq!("as_prefix", s.as_prefix().copied(), p);
    eq!("as_prefix_mut", k.as_prefix_mut().copied(), p);
    eq!("into_prefix", s.into_prefix(), p);
    eq!("as_ref", s.as_ref().copied(), t);
    eq!("as_mut", k.as_mut().copied(), t);
    eq!("into_inner", s.into_inner(), t);
    eq!("as_parts", s.as_parts().copied(), *m);
    eq!("as_parts_mut", k.as_parts_mut().copied(), *m);
    eq!("into_parts", s.into_parts(), *m);
    eq!("into_prefix_iter", s.into_prefix_iter().collect::<Vec<_>>(), Vec::from_iter(p));
    eq!("prefix_iter", s.prefix_iter().copied().collect::<Vec<_>>(), Vec::from_iter(p));
    eq!("prefix_iter_mut", k.prefix_iter_mut().map(|x| *x).collect::<Vec<_>>(), Vec::from_iter(p));
    eq!("iter", s.iter().copied().collect::<Vec<_>>(), Vec::from_iter(t));
    eq!("iter_mut", k.iter_mut().map(|x| *x).collect::<Vec<_>>(), Vec::from_iter(t));
    eq!("into_parts_iter", s.into_parts_iter().collect::<Vec<_>>(), Vec::from_iter(*m));
    eq!("parts_iter", s.parts_iter().copied().collect::<Vec<_>>(), Vec::from_iter(*m));
    eq!("parts_iter_mut", k.parts_iter_mut().map(|x| *x).collect::<Vec<_>>(), Vec::from_iter(*m));
    eq!("iteration by value", IntoIterator::into_iter(*s).rev().collect::<Vec<_>>(), Vec::from_iter(t));
    eq!("iteration by reference", { let mut v = vec![]; for x in s { v.push(*x) } v }, Vec::from_iter(t));
    eq!("iteration by mutable reference", { let mut v = vec![]; for x in &mut k { v.push(*x) } v }, Vec::from_iter(t));
    eq!("iterator lengths", (s.iter().len(), s.prefix_iter().len(), s.parts_iter().len()), (m.is_some() as usize, m.is_some() as usize, m.is_some() as usize));
    eq!("deref", (**s, s.is_some(), s.is_none()), (*m, m.is_some(), m.is_none()));
    let d: *const Option<(Sep, It)> = &**s;
    eq!("views are of the same pair", s.as_parts().map(|x| (x as *const _, &x.0 as *const _, &x.1 as *const _)), s.as_ref().map(|t| (unsafe { (*d).as_ref().unwrap() as *const _ }, s.as_prefix().unwrap() as *const _, t as *const _)));
    eq!("printing", words(s.to_token_stream()), m.map_or(vec![], |(p, t)| vec![format!("s{}", p.0), t.0.to_string()]));
    let o = M::from(*m);
    eq!("equality with the same content", (*s == o, hash_of(s) == hash_of(&o)), (true, true));
    eq!("equality with other content", (*s == M::from(Some((Sep(1), t.unwrap_or_default()))), *s == M::from(Some((p.unwrap_or_default(), It(1)))), m.is_some() && *s == M::new(), m.is_none() && *s == M::from((Sep::default(), It(0)))), (false, false, false, false));
}

const MOPS: &[&str] = &["set through deref", "clear through deref", "take", "replace", "insert", "get_or_insert_with", "as_mut, then change", "as_prefix_mut, then change", "as_parts_mut, then swap in new parts", "iter_mut, then change", "prefix_iter_mut, then change", "parts_iter_mut, then change", "for in &mut", "From<(P, T)>", "From<Option<(P, T)>>", "From<Option<T>>", "From<T>", "into_parts and back", "new", "clone", "through printing and parsing", "mem::take and back"];

fn do_maybe(op: usize, s: &mut M, m: &mut Option<(Sep, It)>, fresh: &mut u32) -> bool {
    let mut new = || { *fresh += 2; (Sep(*fresh), It(*fresh + 1)) };
    match MOPS[op] {
        "set through deref" => { let x = new(); **s = Some(x); *m = Some(x) }
        "clear through deref" => { **s = None; *m = None }
        "take" => assert_eq!(s.take(), m.take()),
        "replace" => { let x = new(); assert_eq!(s.replace(x), m.replace(x)) }
        "insert" => { let x = new(); s.insert(x).1.0 += 1; m.insert(x).1.0 += 1 }
        "get_or_insert_with" => { let x = new(); assert_eq!(*s.get_or_insert_with(|| x), *m.get_or_insert_with(|| x)) }
        "as_mut, then change" => { if let Some(t) = s.as_mut() { t.0 += 1000 } if let Some(x) = m { x.1.0 += 1000 } }
        "as_prefix_mut, then change" => { if let Some(t) = s.as_prefix_mut() { t.0 += 2000 } if let Some(x) = m { x.0.0 += 2000 } }
        "as_parts_mut, then swap in new parts" => { let n = new(); if let Some(x) = s.as_parts_mut() { *x = n } if let Some(x) = m { *x = n } }
        "iter_mut, then change" => { for x in s.iter_mut() { x.0 += 3000 } if let Some(x) = m { x.1.0 += 3000 } }
        "prefix_iter_mut, then change" => { for x in s.prefix_iter_mut() { x.0 += 4000 } if let Some(x) = m { x.0.0 += 4000 } }
        "parts_iter_mut, then change" => { for x in s.parts_iter_mut() { x.0.0 += 1; x.1.0 += 2 } if let Some(x) = m { x.0.0 += 1; x.1.0 += 2 } }
        "for in &mut" => { for x in &mut *s { x.0 += 5000 } if let Some(x) = m { x.1.0 += 5000 } }
        "From<(P, T)>" => { let x = new(); *s = <M as From<(Sep, It)>>::from(x); *m = Some(x) }
        "From<Option<(P, T)>>" => { let x = if m.is_some() { None } else { Some(new()) }; *s = <M as From<Option<(Sep, It)>>>::from(x); *m = x }
        "From<Option<T>>" => { let x = if m.is_some() && fresh_odd(m) { None } else { Some(new().1) }; *s = <M as From<Option<It>>>::from(x); *m = x.map(|t| (Sep::default(), t)) }
        "From<T>" => { let x = new().1; *s = <M as From<It>>::from(x); *m = Some((Sep::default(), x)) }
        "into_parts and back" => *s = <M as From<Option<(Sep, It)>>>::from(s.into_parts()),
        "new" => { *s = if m.is_some() { M::new() } else { M::default() }; *m = None }
        "clone" => *s = s.clone(),
        "through printing and parsing" => *s = parsel::parse2(s.to_token_stream()).expect("parsing back"),
        _ => { let o = std::mem::take(s); assert!(s.is_none()); *s = o }
    }
    true
}
fn fresh_odd(m: &Option<(Sep, It)>) -> bool { m.is_some_and(|x| x.1.0 % 2 == 1) }

// ---------------------------------------------------------------- delimited

/// the three delimited containers
macro_rules! delimited { ($m:ident, $T:ident, $as_tok:ident, $into_tok:ident, $open:literal, $close:literal) => { mod $m {
    use super::*;
    type G = $T<Vec2>;
    const OPS: &[&str] = &["new", "From<(token, T)>", "DerefMut, push", "AsMut, replace", "into_parts and back", "into_inner and new", "as_parts and back", "clone", "default", "through printing and parsing", "index_mut through deref", "parts taken apart"];
    fn see(c: &mut Ctx, s: &G, m: &Vec2, at: usize, h: &str) {
        eqs!(c, h);
        c.states += 1; c.runs += 1;
        let place = |t: &token::$T| t.span.join().start().column;
        let places = |t: &token::$T| (t.span.open().start().column, t.span.close().start().column);
        eq!("deref", **s, *m);
        eq!("as_ref", *s.as_ref(), *m);
        let mut k = s.clone();
        eq!("as_mut", *k.as_mut(), *m);
        eq!("deref_mut", *(&mut *k), *m);
        eq!("into_inner", s.clone().into_inner(), *m);
        eq!("as_parts", (place(s.as_parts().0), s.as_parts().1), (at, m));
        eq!("into_parts", { let (t, i) = s.clone().into_parts(); (place(&t), i) }, (at, m.clone()));
        eq!("delimiter", (place(s.$as_tok()), places(s.$as_tok()), places(&s.clone().$into_tok()), places(&s.clone().into_parts().0)), (at, places(s.as_parts().0), places(s.as_parts().0), places(s.as_parts().0)));
        let p: *const Vec2 = &**s;
        eq!("views are of the same value", (s.as_ref() as *const Vec2 == p, s.as_parts().1 as *const Vec2 == p, s.as_parts().0 as *const _ == s.$as_tok() as *const _), (true, true, true));
        let p: *const Vec2 = { let r: &mut Vec2 = &mut k; r };
        eq!("mutable views are of the same value", k.as_mut() as *const Vec2 == p, true);
        eq!("printing", s.to_token_stream().to_string().replace(' ', ""), format!("{}{}{}", $open, m.0.iter().map(|x| format!("{},", x.0)).collect::<String>().trim_end_matches(',').to_string() + if m.0.is_empty() { "" } else { "," }, $close));
        let o = G::new(m.clone(), Span::call_site());
        eq!("equality with the same content", (*s == o, hash_of(s) == hash_of(&o)), (true, true));
        let mut d = m.clone(); d.0.push(It(1));
        eq!("equality with other content", *s == G::new(d, Span::call_site()), false);
    }
    fn apply(op: usize, s: &mut G, m: &mut Vec2, at: &mut usize, fresh: &mut u32, spans: &[Span]) -> bool {
        let sp = spans[(*fresh as usize) % spans.len()];
        let mut new = || { *fresh += 1; It(*fresh) };
        match OPS[op] {
            "new" => { m.0 = vec![new(), new()]; *s = $T::new(m.clone(), sp); *at = sp.start().column }
            "From<(token, T)>" => { m.0 = vec![new()]; *s = $T::from((token::$T(sp), m.clone())); *at = sp.start().column }
            "DerefMut, push" => { let t = new(); s.0.push(t); m.0.push(t) }
            "AsMut, replace" => { let t = Vec2(vec![new(), new()]); *s.as_mut() = t.clone(); *m = t }
            "into_parts and back" => *s = $T::from(s.clone().into_parts()),
            "into_inner and new" => { *s = $T::new(s.clone().into_inner(), sp); *at = sp.start().column }
            "as_parts and back" => { let (t, i) = s.as_parts(); *s = $T::from((*t, i.clone())) }
            "clone" => *s = s.clone(),
            "default" => { *s = G::default(); *m = Vec2::default(); *at = 0 }
            "through printing and parsing" => { *s = parsel::parse2(s.to_token_stream()).expect("parsing back") }
            "index_mut through deref" => { for x in s.0.iter_mut() { x.0 += 1000 } for x in &mut m.0 { x.0 += 1000 } }
            _ => { let t = s.clone().$into_tok(); let i = s.clone().into_inner(); *s = $T::from((t, i)) }
        }
        true
    }
    pub fn suites(depth: u32) -> Suite {
        let k = OPS.len() as u64;
        let per = ranks(k, depth);
        suite(format!("{}: all histories of up to {depth} operations", stringify!($T)), per * 3, &["history"], move |i, c| {
            let spans: Vec<Span> = "aa bb cc dd ee".parse::<proc_macro2::TokenStream>().unwrap().into_iter().map(|t| t.span()).collect();
            let base = 0;
            let (st, ops) = (i / per, unrank(i % per, k, depth));
            let mut fresh = 10;
            let src = format!("{}{}{}", $open, ["", "1, ", "1, 2, "][st as usize], $close);
            let mut s: G = parsel::parse_str(&src).expect("parsing");
            let mut at = s.as_parts().0.span.join().start().column - base;
            let mut m = Vec2((1..=st as u32).map(It).collect());
            let mut h = format!("{} parsed from {src}", stringify!($T));
            for o in ops { if !apply(o, &mut s, &mut m, &mut at, &mut fresh, &spans) { return } h.push_str(", "); h.push_str(OPS[o]); c.transitions += 1 }
            c.outcome("history");
            see(c, &s, &m, at, &h);
            c.sample(|| h.clone());
        })
    }
} } }
/// a list printed with a comma after each item
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Vec2(Vec<It>);
impl ToTokens for Vec2 { fn to_tokens(&self, t: &mut proc_macro2::TokenStream) { for x in &self.0 { x.to_tokens(t); <syn::Token![,]>::default().to_tokens(t) } } }
impl syn::parse::Parse for Vec2 { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let mut v = vec![]; while !i.is_empty() { v.push(i.parse()?); i.parse::<syn::Token![,]>()?; } Ok(Vec2(v)) } }
delimited!(paren, Paren, as_parens, into_parens, "(", ")");
delimited!(bracket, Bracket, as_brackets, into_brackets, "[", "]");
delimited!(brace, Brace, as_braces, into_braces, "{", "}");

// ----------------------------------------------------------------

macro_rules! histories { ($name:literal, $depth:expr, $starts:expr, $ops:ident, |$st:ident, $fresh:ident| $start:expr, $apply:ident, $see:ident) => { {
    let (depth, k): (u32, u64) = ($depth, $ops.len() as u64);
    let per = ranks(k, depth);
    suite(format!("{}: all histories of up to {depth} operations", $name), per * $starts, &["history"], move |i, c| {
        let ($st, ops) = (i / per, unrank(i % per, k, depth));
        let mut fresh = 0;
        let $fresh = &mut fresh;
        let (mut s, mut m) = $start;
        let mut h = format!("{} {s:?}", $name);
        for o in ops { if !$apply(o, &mut s, &mut m, &mut fresh) { c.outcome("operation does not apply"); return } h.push_str(", "); h.push_str($ops[o]); c.transitions += 1 }
        c.outcome("history");
        $see(c, &s, &m, &h);
        c.sample(|| format!("{h}: {m:?}"));
    })
} } }

// ---------------------------------------------------------------- elements of other shapes

trait Shape: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Default { fn nth(n: u32) -> Self; const NAME: &'static str; }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)] struct Zst;
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)] struct Big([u64; 17], String);
macro_rules! shapes { ($($t:ty, $n:literal, |$i:ident| $e:expr;)*) => { $( impl Shape for $t { fn nth($i: u32) -> Self { let _ = $i; $e } const NAME: &'static str = $n; } )* } }
shapes! {
    Zst, "nothing", |i| Zst; Empty, "Empty", |i| Empty; NotEof, "NotEof", |i| NotEof; (), "()", |i| ();
    Big, "large", |i| Big([i as u64; 17], i.to_string()); bool, "bool", |i| i % 2 == 1; Box<u32>, "box", |i| Box::new(i); Option<bool>, "nested option", |i| [None, Some(false), Some(true)][i as usize % 3]; Vec<Zst>, "list of nothing", |i| vec![Zst; i as usize % 4];
    It, "item", |i| It(i);
}
macro_rules! cross { ($c:ident; $f:ident; [$($a:ty),*] $b:tt) => { $( cross!(@ $c; $f; $a; $b); )* }; (@ $c:ident; $f:ident; $a:ty; [$($b:ty),*]) => { $( $f::<$a, $b>(&mut $c); )* } }

fn options_of<P: Shape, T: Shape>(v: &mut Vec<(String, Box<dyn Fn(&mut Ctx) + Sync>)>) {
    v.push((format!("option of {} and {}", P::NAME, T::NAME), Box::new(|c| for n in 0..4u32 {
        let (p, t) = (P::nth(n), T::nth(n + 1));
        let full = Some((p.clone(), t.clone()));
        let h = format!("Maybe<{}, {}> of {full:?}", P::NAME, T::NAME);
        let h = &h;
        eqs!(c, h);
        let mut made: Vec<(&str, Maybe<P, T>, Option<(P, T)>)> = vec![
            ("From<Option<(P, T)>>", <Maybe<P, T> as From<Option<(P, T)>>>::from(full.clone()), full.clone()), ("From<(P, T)>", <Maybe<P, T> as From<(P, T)>>::from((p.clone(), t.clone())), full.clone()),
            ("From<T>", <Maybe<P, T> as From<T>>::from(t.clone()), Some((P::default(), t.clone()))), ("From<Option<T>>", <Maybe<P, T> as From<Option<T>>>::from(Some(t.clone())), Some((P::default(), t.clone()))),
            ("new", Maybe::new(), None), ("default", Maybe::default(), None), ("From<Option<(P, T)>> of none", <Maybe<P, T> as From<Option<(P, T)>>>::from(None), None), ("From<Option<T>> of none", <Maybe<P, T> as From<Option<T>>>::from(None), None),
        ];
        let mut d = Maybe::new(); *d = full.clone(); made.push(("set through deref", d, full.clone()));
        let mut d = Maybe::new(); d.insert((p.clone(), t.clone())); made.push(("insert", d, full.clone()));
        let (a, b) = (made[0].1.clone(), made[4].1.clone());
        made.push(("clone", a, full.clone())); made.push(("clone of none", b, None));
        for (how, mut s, m) in made {
            c.states += 1; c.runs += 1; c.transitions += 1;
            eq!(how, *s, m);
            eq!(how, (s.is_some(), s.as_prefix().cloned(), s.as_ref().cloned(), s.as_parts().cloned()), (m.is_some(), m.clone().map(|x| x.0), m.clone().map(|x| x.1), m.clone()));
            eq!(how, (s.as_prefix_mut().cloned(), s.as_mut().cloned(), s.as_parts_mut().cloned()), (m.clone().map(|x| x.0), m.clone().map(|x| x.1), m.clone()));
            eq!(how, (s.clone().into_prefix(), s.clone().into_inner(), s.clone().into_parts()), (m.clone().map(|x| x.0), m.clone().map(|x| x.1), m.clone()));
            eq!(how, (s.iter().count(), s.iter_mut().count(), s.prefix_iter().count(), s.prefix_iter_mut().count(), s.parts_iter().count(), s.parts_iter_mut().count(), IntoIterator::into_iter(&s).count(), s.clone().into_prefix_iter().count(), s.clone().into_parts_iter().count(), IntoIterator::into_iter(s.clone()).count()), { let n = m.is_some() as usize; (n, n, n, n, n, n, n, n, n, n) });
            eq!(how, (s == Maybe::from(m.clone()), hash_of(&s) == hash_of(&Maybe::<P, T>::from(m.clone())), s == Maybe::new()), (true, true, m.is_none()));
        }
        c.outcome("history");
    })));
}
fn lists_of<T: Shape, S: Shape>(v: &mut Vec<(String, Box<dyn Fn(&mut Ctx) + Sync>)>) {
    v.push((format!("list of {} separated by {}", T::NAME, S::NAME), Box::new(|c| for n in 0..70usize {
        if n > 12 && ![31, 32, 33, 64, 65].contains(&n) { continue }
        let ts: Vec<T> = (0..n as u32).map(T::nth).collect();
        let h = format!("Punctuated<{}, {}> / Any<{}> of {n}", T::NAME, S::NAME, T::NAME);
        let h = &h;
        eqs!(c, h);
        for trailing in [false, true] {
            c.states += 1; c.runs += 1;
            let ps: Vec<(T, Option<S>)> = ts.iter().enumerate().map(|(i, t)| (t.clone(), (i + 1 < n || trailing).then(|| S::nth(i as u32 + 3)))).collect();
            let pairs = || ps.iter().cloned().map(|(t, s)| Pair::new(t, s));
            let raw: syn::punctuated::Punctuated<T, S> = pairs().collect();
            let mut e = Punctuated::new(); Extend::<Pair<T, S>>::extend(&mut e, pairs());
            let mut w = Punctuated::new(); for (t, s) in ps.clone() { w.push_value(t); if let Some(s) = s { w.push_punct(s) } }
            for (how, s) in [("from pairs", pairs().collect::<Punctuated<T, S>>()), ("From", Punctuated::from(raw.clone())), ("extend", e), ("pushed", w)] {
                let mut s = s;
                eq!(how, (s.len(), s.is_empty(), s.iter().len(), s.pairs().len(), s.clone().into_pairs().len(), s.trailing_punct()), (n, n == 0, n, n, n, n > 0 && trailing));
                eq!(how, (s.iter().cloned().collect::<Vec<_>>(), s.clone().into_iter().collect::<Vec<_>>(), s.iter_mut().map(|x| x.clone()).collect::<Vec<_>>(), (&s).into_iter().cloned().collect::<Vec<_>>()), (ts.clone(), ts.clone(), ts.clone(), ts.clone()));
                eq!(how, s.pairs().map(|p| { let (a, b) = p.into_tuple(); (a.clone(), b.cloned()) }).collect::<Vec<_>>(), ps);
                eq!(how, s.clone().into_pairs().map(|p| p.into_tuple()).collect::<Vec<_>>(), ps);
                eq!(how, s.pairs_mut().map(|p| { let (a, b) = p.into_tuple(); (a.clone(), b.cloned()) }).collect::<Vec<_>>(), ps);
                eq!(how, s.clone().into_inner(), raw);
                eq!(how, (0..n).map(|i| s[i].clone()).collect::<Vec<_>>(), ts);
                for k in 0..n { if k < 3 || k + 3 > n { eq!("first items", both(s.iter().cloned())[k], ts[k]) } }
            }
        }
        let items: Punctuated<T, S> = ts.iter().cloned().collect();
        eq!("from items", (items.iter().cloned().collect::<Vec<_>>(), items.pairs().filter_map(|p| p.punct().map(|p| (*p).clone())).collect::<Vec<_>>()), (ts.clone(), vec![S::default(); n.saturating_sub(1)]));
        let mut x = Any::new(); x.extend(ts.iter().cloned());
        for (how, s) in [("From<Vec>", Any::from(ts.clone())), ("collected", ts.iter().cloned().collect()), ("extended", x)] {
            let mut s: Any<T> = s;
            eq!(how, (s.len(), s.is_empty(), s.iter().len(), s.get(n).is_none(), s.get(..).map(|x| x.len())), (n, n == 0, n, true, Some(n)));
            eq!(how, (s.iter().cloned().collect::<Vec<_>>(), s.clone().into_iter().collect::<Vec<_>>(), s.iter_mut().map(|x| x.clone()).collect::<Vec<_>>(), s.clone().into_inner(), (&s).into_iter().cloned().collect::<Vec<_>>()), (ts.clone(), ts.clone(), ts.clone(), ts.clone(), ts.clone()));
            eq!(how, (0..n).map(|i| s[i].clone()).collect::<Vec<_>>(), ts);
        }
        c.outcome("history");
    })));
}
fn groups_of<T: Shape, S: Shape>(v: &mut Vec<(String, Box<dyn Fn(&mut Ctx) + Sync>)>) {
    v.push((format!("groups of {} and {}", T::NAME, S::NAME), Box::new(|c| for n in 0..4u32 {
        let x = (T::nth(n), S::nth(n + 1));
        let h = format!("group of {x:?}");
        let h = &h;
        eqs!(c, h);
        macro_rules! one { ($($g:ident),*) => { $( {
            c.states += 1; c.runs += 1;
            for s in [$g::new(x.clone(), Span::call_site()), $g::from((token::$g::default(), x.clone())), $g::from($g::new(x.clone(), Span::call_site()).into_parts())] {
                let mut s: $g<(T, S)> = s;
                eq!(stringify!($g), (&*s, s.as_ref(), s.as_parts().1, &s.clone().into_inner(), &s.clone().into_parts().1), (&x, &x, &x, &x, &x));
                eq!(stringify!($g), (s.as_mut().clone(), (*s).clone()), (x.clone(), x.clone()));
            }
        } )* } }
        one!(Paren, Bracket, Brace);
        c.outcome("history");
    })));
}

fn main() {
    let q = !thorough();
    let d = if q { 4 } else { 5 };
    let mut v = vec![
        histories!("Punctuated", d, if q { 7 } else { 8 }, POPS, |st, f| start_punct(if st > 0 { st + 1 } else { 0 }, f), do_punct, see_punct),
        histories!("Any", d, if q { 4 } else { 6 }, AOPS, |st, f| { let m: Vec<It> = (0..st as u32).map(|x| It(x + 1)).collect(); *f = 20; (match st % 3 { 0 => Any::from(m.clone()), 1 => m.iter().copied().collect(), _ => parsel::parse_str(&m.iter().map(|x| x.0.to_string() + " ").collect::<String>()).expect("parsing") }, m) }, do_any, see_any),
        histories!("Maybe", d, 4, MOPS, |st, f| { *f = 20; match st { 0 => (M::new(), None), 1 => (parsel::parse_str("s3 4").expect("parsing"), Some((Sep(3), It(4)))), 2 => (parsel::parse_str("").expect("parsing"), None), _ => (<M as From<It>>::from(It(9)), Some((Sep::default(), It(9)))) } }, do_maybe, see_maybe),
        paren::suites(d + 1), bracket::suites(d + 1), brace::suites(d + 1),
    ];
    // long lists: two operations in a row
    let lens: Vec<usize> = if q { (4..36).chain([63, 64, 65, 128, 129]).collect() } else { (4..80).chain([127, 128, 129, 255, 256, 257, 511, 512, 513]).collect() };
    let k = POPS.len() as u64;
    let l = lens.clone();
    v.push(suite("Punctuated: one or two operations on long lists", lens.len() as u64 * 2 * k * k, &["history"], move |i, c| {
        let (st, a, b) = (i / (k * k), (i / k % k) as usize, (i % k) as usize);
        let mut fresh = 0;
        let (mut s, mut m) = start_punct(l[(st / 2) as usize] as u64 * 2 + st % 2, &mut fresh);
        let h = format!("list of {} items, {}, {}", m.t.len(), POPS[a], POPS[b]);
        if !do_punct(a, &mut s, &mut m, &mut fresh) || !do_punct(b, &mut s, &mut m, &mut fresh) { return }
        c.outcome("history");
        see_punct(c, &s, &m, &h);
    }));
    const FAR: [u64; 6] = [513, 1024, 1025, 4095, 4097, 5001];
    v.push(suite("Punctuated: an operation on very long lists", (FAR.len() * 2) as u64 * k, &["history"], move |i, c| {
        let (st, a) = (i / k, (i % k) as usize);
        let mut fresh = 0;
        let (mut s, mut m) = start_punct(FAR[(st / 2) as usize] * 2 + st % 2, &mut fresh);
        let h = format!("list of {} items, {}", m.t.len(), POPS[a]);
        if !do_punct(a, &mut s, &mut m, &mut fresh) { return }
        c.outcome("history");
        see_punct(c, &s, &m, &h);
    }));
    let k = AOPS.len() as u64;
    const FAR_ANY: [u64; 3] = [257, 513, 1025];
    v.push(suite("Any: an operation on very long lists", FAR_ANY.len() as u64 * k, &["history"], move |i, c| {
        let (n, a) = (FAR_ANY[(i / k) as usize] as u32, (i % k) as usize);
        let mut fresh = 10_000;
        let mut m: Vec<It> = (0..n).map(It).collect();
        let mut s: Any<It> = Any::from(m.clone());
        let h = format!("list of {n} items, {}", AOPS[a]);
        if !do_any(a, &mut s, &mut m, &mut fresh) { return }
        c.outcome("history");
        see_any(c, &s, &m, &h);
    }));
    let lens: Vec<usize> = if q { (4..20).chain([33]).collect() } else { (4..34).chain([64, 65]).collect() };
    let l = lens.clone();
    v.push(suite("Any: one or two operations on long lists", lens.len() as u64 * k * k, &["history"], move |i, c| {
        let (n, a, b) = (l[(i / (k * k)) as usize], (i / k % k) as usize, (i % k) as usize);
        let mut fresh = 1000;
        let mut m: Vec<It> = (0..n as u32).map(It).collect();
        let mut s: Any<It> = if n % 2 == 0 { m.iter().copied().collect() } else { Any::from(m.clone()) };
        let h = format!("list of {n} items, {}, {}", AOPS[a], AOPS[b]);
        if !do_any(a, &mut s, &mut m, &mut fresh) || !do_any(b, &mut s, &mut m, &mut fresh) { return }
        c.outcome("history");
        see_any(c, &s, &m, &h);
    }));
    // collecting and extending: every length, from each kind of iterator
    v.push(suite("collecting and extending lists of every length", 300 * 4, &["history"], |i, c| {
        let (n, kind) = ((i / 4) as usize, (i % 4) as usize);
        let ts: Vec<It> = (0..n as u32).map(It).collect();
        let h = format!("{n} items through iterator kind {kind}");
        c.outcome("history");
        let m = ListModel { t: ts.clone(), p: vec![Sep::default(); n.saturating_sub(1)] };
        let s: P = feed(ts.clone(), kind).collect();
        see_punct(c, &s, &m, &h);
        let mut s = P::new(); Extend::<It>::extend(&mut s, feed(ts[..n / 3].to_vec(), kind)); Extend::<It>::extend(&mut s, feed(ts[n / 3..].to_vec(), kind + 1));
        see_punct(c, &s, &m, &h);
        let ps: Vec<Pair<It, Sep>> = ts.iter().enumerate().map(|(i, t)| Pair::new(*t, (i + 1 < n || n % 2 == 0).then(|| Sep(5000 + i as u32)))).collect();
        let m2 = ListModel { t: ts.clone(), p: ps.iter().filter_map(|p| p.punct().copied()).collect() };
        let s: P = feed(ps.clone(), kind).collect();
        see_punct(c, &s, &m2, &h);
        // separators that are nothing
        let s: Many<It> = feed(ts.clone(), kind).collect();
        c.eq(|| format!("{h}: Many"), (s.len(), s.iter().copied().collect::<Vec<_>>(), words(s.to_token_stream())), (n, ts.clone(), ts.iter().map(|x| x.0.to_string()).collect()));
        let s2: Many<It> = ts.iter().map(|t| Pair::Punctuated(*t, NotEof)).collect();
        c.eq(|| format!("{h}: Many from pairs"), (s2.len(), s2.iter().copied().collect::<Vec<_>>()), (n, ts.clone()));
        if n < 40 { see_any(c, &feed(ts.clone(), kind).collect(), &ts, &h) }
        let mut a = Any::new(); a.extend(feed(ts[..n / 2].to_vec(), kind)); a.extend(feed(ts[n / 2..].to_vec(), kind + 2));
        c.eq(|| format!("{h}: Any extended"), a.into_inner(), ts.clone());
        let e: Maybe<It, Empty> = Maybe::from((It(n as u32), Empty));
        c.eq(|| "Maybe without tail".into(), (e.into_prefix(), e.into_inner().is_some(), words(e.to_token_stream())), (Some(It(n as u32)), true, vec![n.to_string()]));
    }));
    let mut w = vec![];
    cross!(w; options_of; [Zst, Empty, NotEof, (), Big, bool, Box<u32>, Option<bool>, Vec<Zst>, It] [Zst, Empty, NotEof, (), Big, bool, Box<u32>, Option<bool>, Vec<Zst>, It]);
    cross!(w; lists_of; [Zst, Empty, Big, bool, Box<u32>, Vec<Zst>] [Zst, NotEof, Big, bool, Option<bool>]);
    cross!(w; groups_of; [Zst, Big, Box<u32>] [(), NotEof, Option<bool>, Vec<Zst>]);
    v.push(suite("elements of every size and shape", w.len() as u64, &["history"], move |i, c| { let (name, f) = &w[i as usize]; f(c); c.sample(|| name.clone()) }));
    main_("C24", v)
}
