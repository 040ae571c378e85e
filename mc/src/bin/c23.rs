//! C23: Either behaves as its active side.
use mc::run::*;
use parsel::ast::Either::{self, Left, Right};
use std::borrow::{Borrow, BorrowMut};
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap, LinkedList, VecDeque};
use std::fmt::Debug;
use std::iter::FusedIterator;

// ---------------------------------------------------------------- iterators

/// Yields, then ends, then yields again: what happens after the first end is the
/// iterator's own business, and an Either must not hide it.
#[derive(Clone)]
struct Stutter { lo: u32, hi: u32 }
impl Iterator for Stutter {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { self.lo += 1; if self.lo % 3 == 0 || self.lo > self.hi { None } else { Some(self.lo) } }
}
/// Knows nothing about its length.
#[derive(Clone)]
struct Blind(std::ops::Range<u32>);
impl Iterator for Blind { type Item = u32; fn next(&mut self) -> Option<u32> { self.0.next() } }
impl DoubleEndedIterator for Blind { fn next_back(&mut self) -> Option<u32> { self.0.next_back() } }
/// Bounds that are correct but neither tight nor equal.
#[derive(Clone)]
struct Loose(std::ops::Range<u32>);
impl Iterator for Loose { type Item = u32; fn next(&mut self) -> Option<u32> { self.0.next() } fn size_hint(&self) -> (usize, Option<usize>) { (self.0.len() / 2, Some(self.0.len() * 3 + 1)) } }
impl DoubleEndedIterator for Loose { fn next_back(&mut self) -> Option<u32> { self.0.next_back() } }
/// Overrides everything, consistently.
#[derive(Clone)]
struct Own(Vec<u32>, usize, usize);
impl Own { fn new(n: usize) -> Own { Own((0..n as u32).map(|x| x * 7).collect(), 0, n) } }
impl Iterator for Own {
    type Item = u32;
    fn next(&mut self) -> Option<u32> { if self.1 < self.2 { self.1 += 1; Some(self.0[self.1 - 1]) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.2 - self.1; (n, Some(n)) }
    fn count(self) -> usize { self.2 - self.1 }
    fn last(self) -> Option<u32> { if self.1 < self.2 { Some(self.0[self.2 - 1]) } else { None } }
    fn nth(&mut self, n: usize) -> Option<u32> { self.1 = self.2.min(self.1.saturating_add(n)); self.next() }
}
impl DoubleEndedIterator for Own { fn next_back(&mut self) -> Option<u32> { if self.1 < self.2 { self.2 -= 1; Some(self.0[self.2]) } else { None } } }
impl ExactSizeIterator for Own {}
impl FusedIterator for Own {}

thread_local! { static EFFECTS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// Something an iterator does on the side: part of what is observed of it.
fn effect(x: impl Debug) { EFFECTS.with(|e| e.borrow_mut().push(format!("effect {x:?}"))) }

/// Yields at the calls its scripts say, for either direction; the calls are numbered together.
struct Script { fwd: u64, back: u64, at: u32, hint: (usize, Option<usize>) }
impl Script { fn step(&mut self, script: u64) -> Option<u32> { self.at += 1; if self.at <= 4 && script >> (self.at - 1) & 1 > 0 { Some(self.at * 10) } else { None } } }
impl Iterator for Script { type Item = u32; fn next(&mut self) -> Option<u32> { let s = self.fwd; self.step(s) } fn size_hint(&self) -> (usize, Option<usize>) { self.hint } }
impl DoubleEndedIterator for Script { fn next_back(&mut self) -> Option<u32> { let s = self.back; self.step(s).map(|x| x + 1) } }

const FWD: &[&str] = &["next", "nth(0)", "nth(1)", "nth(2)", "nth(usize::MAX)", "size_hint"];
const DE: &[&str] = &["next_back", "nth_back(0)", "nth_back(1)", "len"];
const FWD_END: &[&str] = &["collect", "count", "last", "fold", "take(2), then collect", "skip(1)", "step_by(2)", "for_each", "position", "try_fold", "min", "peekable", "extend a list", "chain", "size after collect"];
const DE_END: &[&str] = &["rev, collect", "rfold", "rev, last", "rfind", "rev, nth(1)"];

type Tag<'a, T> = &'a dyn Fn(T) -> String;

fn fwd<I: Iterator>(it: &mut I, op: usize, tag: Tag<I::Item>, log: &mut Vec<String>) {
    log.push(match op {
        0 => format!("{:?}", it.next().map(tag)),
        1 => format!("{:?}", it.nth(0).map(tag)),
        2 => format!("{:?}", it.nth(1).map(tag)),
        3 => format!("{:?}", it.nth(2).map(tag)),
        4 => format!("{:?}", it.nth(usize::MAX).map(tag)),
        _ => format!("{:?}", it.size_hint()),
    })
}
fn de<I: DoubleEndedIterator>(it: &mut I, op: usize, tag: Tag<I::Item>, log: &mut Vec<String>) {
    log.push(match op {
        0 => format!("{:?}", it.next_back().map(tag)),
        1 => format!("{:?}", it.nth_back(0).map(tag)),
        _ => format!("{:?}", it.nth_back(1).map(tag)),
    })
}
fn fwd_end<I: Iterator>(mut it: I, op: usize, tag: Tag<I::Item>, log: &mut Vec<String>) {
    match op {
        0 => log.extend(it.map(tag).collect::<Vec<_>>()),
        1 => log.push(it.count().to_string()),
        2 => log.push(format!("{:?}", it.last().map(tag))),
        3 => log.push(it.fold(String::new(), |a, x| a + "," + &tag(x))),
        4 => { log.extend(it.by_ref().take(2).map(tag).collect::<Vec<_>>()); log.push("rest".into()); log.extend(it.map(tag)) }
        5 => log.extend(it.skip(1).map(tag)),
        6 => log.extend(it.step_by(2).map(tag)),
        7 => it.for_each(|x| log.push(tag(x))),
        8 => { let p = it.position(|x| tag(x).contains('2')); log.push(format!("{p:?}")); log.push(format!("{:?}", it.next().map(tag))) }
        9 => { let r = it.try_fold(0usize, |a, x| if a > 1 { Err(tag(x)) } else { Ok(a + 1) }); log.push(format!("{r:?}")); log.push(format!("{:?}", it.next().map(tag))) }
        10 => log.push(format!("{:?}", it.map(tag).min())),
        11 => { let mut p = it.peekable(); p.peek(); log.push(format!("{:?}", p.next().map(tag))); p.peek(); log.push(format!("{:?}", p.size_hint())); log.extend(p.map(tag)) }
        12 => { let mut l = LinkedList::new(); l.extend(it); log.push(l.len().to_string()); log.extend(l.into_iter().map(tag)) }
        13 => { let (a, b) = it.size_hint(); log.push(format!("{a} {b:?}")); let k = it.by_ref().count(); log.push(k.to_string()); log.extend(it.map(tag)) }
        _ => { let v: VecDeque<_> = it.by_ref().collect(); log.push(v.len().to_string()); log.push(format!("{:?}", it.size_hint())); log.push(format!("{:?}", it.next().map(tag))) }
    }
}
fn de_end<I: DoubleEndedIterator>(mut it: I, op: usize, tag: Tag<I::Item>, log: &mut Vec<String>) {
    match op {
        0 => log.extend(it.rev().map(tag)),
        1 => log.push(it.rfold(String::new(), |a, x| a + "," + &tag(x))),
        2 => log.push(format!("{:?}", it.rev().last().map(tag))),
        3 => { let mut s = String::new(); let _ = it.rfind(|_| { s.push('x'); s.len() > 1 }).map(|x| s = tag(x)); log.push(s); log.push(format!("{:?}", it.next().map(tag))) }
        _ => { let mut r = it.rev(); log.push(format!("{:?}", r.nth(1).map(tag))); log.push(format!("{:?}", r.size_hint())); log.extend(r.map(tag)) }
    }
}

/// operation sequences: number by length, then digits
fn unrank(mut i: u64, b: u64, max: u32) -> Vec<usize> {
    for d in 0..=max { let n = b.pow(d); if i < n { let mut v = vec![0; d as usize]; for x in v.iter_mut().rev() { *x = (i % b) as usize; i /= b } return v } i -= n }
    panic!("rank")
}
fn ranks(b: u64, max: u32) -> u64 { (0..=max).map(|d| b.pow(d)).sum() }

/// one iterator construction: its name, the levels it supports, and a runner that gives the raw
/// iterator's log and the two Eithers' logs
struct Kind { name: &'static str, nops: usize, nends: usize, run: fn(usize, &[usize], usize) -> [Vec<String>; 3] }

fn left_tag<A: Debug, B: Debug>(e: Either<A, B>) -> String { match e { Left(x) => format!("{x:?} on the left"), Right(x) => format!("{x:?} on the right") } }

macro_rules! kind {
    (@fwd $log:ident $it:ident $op:ident $tag:expr) => { fwd(&mut $it, *$op, $tag, &mut $log) };
    (@de $log:ident $it:ident $op:ident $tag:expr) => { if *$op < FWD.len() { fwd(&mut $it, *$op, $tag, &mut $log) } else if *$op < FWD.len() + 3 { de(&mut $it, *$op - FWD.len(), $tag, &mut $log) } };
    (@exact $log:ident $it:ident $op:ident $tag:expr) => { if *$op < FWD.len() { fwd(&mut $it, *$op, $tag, &mut $log) } else if *$op < FWD.len() + 3 { de(&mut $it, *$op - FWD.len(), $tag, &mut $log) } else { $log.push(format!("len {}", $it.len())) } };
    (@endfwd $log:ident $it:ident $end:ident $tag:expr) => { fwd_end($it, $end, $tag, &mut $log) };
    (@endde $log:ident $it:ident $end:ident $tag:expr) => { if $end < FWD_END.len() { fwd_end($it, $end, $tag, &mut $log) } else { de_end($it, $end - FWD_END.len(), $tag, &mut $log) } };
    (@endexact $log:ident $it:ident $end:ident $tag:expr) => { kind!(@endde $log $it $end $tag) };
    (@n fwd) => { FWD.len() }; (@n de) => { FWD.len() + 3 }; (@n exact) => { FWD.len() + 4 };
    (@ne fwd) => { FWD_END.len() }; (@ne de) => { FWD_END.len() + DE_END.len() }; (@ne exact) => { FWD_END.len() + DE_END.len() };
    ($level:ident, $name:literal, $other:ty, |$n:ident| $mk:expr) => { Kind { name: $name, nops: kind!(@n $level), nends: kind!(@ne $level), run: |$n, ops, end| {
        #[allow(unused_macros)] macro_rules! go { ($it:ident, $tag:expr) => { { let mut log = Vec::new(); for op in ops { kind!(@$level log $it op $tag) } kind!(paste_end $level log $it end $tag); log.extend(EFFECTS.with(|e| e.take())); log } } }
        let mut raw = { $mk };
        let rawlog = go!(raw, &|x| format!("{x:?}"));
        fn l<A, B>(a: A) -> Either<A, B> { Left(a) }
        fn r<A, B>(b: B) -> Either<A, B> { Right(b) }
        let mut e = l::<_, $other>({ $mk });
        let ll = go!(e, &left_tag);
        let mut e = r::<$other, _>({ $mk });
        let rl = go!(e, &left_tag);
        [rawlog, ll, rl]
    } } };
    (paste_end fwd $($t:tt)*) => { kind!(@endfwd $($t)*) }; (paste_end de $($t:tt)*) => { kind!(@endde $($t)*) }; (paste_end exact $($t:tt)*) => { kind!(@endexact $($t)*) };
}

type Oth = std::vec::IntoIter<char>;
type OthS = std::slice::Iter<'static, (u8, u8)>;
static DATA: [u16; 8] = [100, 101, 102, 103, 104, 105, 106, 107];

fn kinds() -> Vec<Kind> {
    vec![
        kind!(exact, "Vec by value", Oth, |n| (0..n as u32).map(|x| x * x).collect::<Vec<_>>().into_iter()),
        kind!(exact, "slice by reference", Oth, |n| DATA[..n].iter()),
        kind!(exact, "range", OthS, |n| 10..10 + n as u32),
        kind!(exact, "VecDeque", Oth, |n| { let mut v: VecDeque<u32> = (0..n as u32).collect(); v.rotate_left(n / 2); v.into_iter() }),
        kind!(exact, "everything overridden", Own, |n| Own::new(n)),
        kind!(exact, "nested Either", Either<Oth, OthS>, |n| if n % 2 == 0 { Left::<_, std::ops::Range<u8>>((0..n as u32).collect::<Vec<_>>().into_iter()) } else { Right(0..n as u8) }),
        kind!(exact, "reversed", Oth, |n| (0..n as u32).rev()),
        kind!(exact, "boxed items", OthS, |n| (0..n).map(|x| vec![x; x]).collect::<LinkedList<_>>().into_iter()),
        kind!(de, "chars of multibyte text", Oth, |n| { let t = "aé2漢𝔸b€c"; t[..t.char_indices().nth(n).map_or(t.len(), |x| x.0)].chars() }),
        kind!(de, "filtered", Oth, |n| (0..2 * n as u32).filter(|x| x % 2 == 0)),
        kind!(de, "inclusive range", OthS, |n| 1..=n as u64),
        kind!(de, "chained", Oth, |n| (0..n as u32 / 2).chain(20..20 + (n as u32 + 1) / 2)),
        kind!(de, "without size hint", Blind, |n| Blind(0..n as u32)),
        kind!(de, "loose size hint", Blind, |n| Loose(0..n as u32)),
        kind!(de, "flattened", Oth, |n| (0..n as u32).map(|x| if x == 1 { vec![] } else { vec![x] }).collect::<Vec<_>>().into_iter().flatten()),
        kind!(exact, "watched", Oth, |n| (0..n as u32).collect::<Vec<_>>().into_iter().inspect(|x| effect(x))),
        kind!(exact, "mapped with effects", OthS, |n| DATA[..n.min(8)].iter().map(|x| { effect(x); *x })),
        kind!(de, "filtered with effects", Oth, |n| (0..n as u32).filter(|x| { effect(x); x % 3 != 1 })),
        kind!(fwd, "made up with effects", Oth, |n| { let mut k = 0; std::iter::from_fn(move || { k += 1; effect(k); (k <= n).then_some(k) }) }),
        kind!(fwd, "not fused", Stutter, |n| Stutter { lo: 0, hi: n as u32 }),
        kind!(fwd, "scan", Stutter, |n| (0..n as u32).scan(0, |a, x| { *a += x; Some(*a) })),
        kind!(fwd, "skip_while and take_while", Oth, |n| (0..n as u32 + 2).skip_while(|x| *x < 2).take_while(|x| *x < 7)),
    ]
}

// ---------------------------------------------------------------- values

#[derive(Clone, PartialEq, Debug)]
struct W(u32);

/// what an Either should be
#[derive(Clone, PartialEq, Debug)]
struct EM { left: bool, v: Vec<u32> }
type EV = Either<Vec<u32>, Vec<u32>>;
fn is(e: &EV, m: &EM) -> bool { matches!(e, Left(v) if m.left && *v == m.v) || matches!(e, Right(v) if !m.left && *v == m.v) }
const OPS: &[&str] = &["flip", "map", "as_mut, then change", "DerefMut", "AsMut", "extend", "extend by reference", "transpose Option", "transpose Result", "left or right", "as_ref, then map clone", "inherent into_iter, collect items", "BorrowMut-like reborrow", "into_inner", "clone", "as_mut, flip, change"];

fn apply(op: usize, e: EV, m: &mut EM, k: u32, c: &mut Ctx) -> EV {
    let calls = (Cell::new(0), Cell::new(0));
    match OPS[op] {
        "flip" => { m.left = !m.left; e.flip() }
        "map" => {
            let e = e.map(|mut v| { calls.0.set(calls.0.get() + 1); v.push(k); v }, |mut v| { calls.1.set(calls.1.get() + 1); v.insert(0, k + 1); v });
            c.check(calls == if m.left { (Cell::new(1), Cell::new(0)) } else { (Cell::new(0), Cell::new(1)) }, || format!("map calls its functions {calls:?} times"));
            if m.left { m.v.push(k) } else { m.v.insert(0, k + 1) }
            e
        }
        "as_mut, then change" => { let mut e = e; match e.as_mut() { Left(v) => v.push(k), Right(v) => v.push(k + 1) } m.v.push(if m.left { k } else { k + 1 }); e }
        "as_mut, flip, change" => { let mut e = e; match e.as_mut().flip() { Left(v) => v.push(k), Right(v) => v.push(k + 1) } m.v.push(if m.left { k + 1 } else { k }); e }
        "DerefMut" => { let mut e = e; e.push(k); e.reverse(); m.v.push(k); m.v.reverse(); e }
        "AsMut" => { let mut e = e; AsMut::<Vec<u32>>::as_mut(&mut e).push(k); m.v.push(k); e }
        "extend" => { let mut e = e; e.extend(vec![k, k + 1]); e.extend(std::iter::empty::<u32>()); m.v.extend([k, k + 1]); e }
        "extend by reference" => { let mut e = e; Extend::<&u32>::extend(&mut e, &[k, 5, 6]); m.v.extend([k, 5, 6]); e }
        "transpose Option" => {
            let o: Option<EV> = e.map(Some, Some).transpose();
            let none: Either<Option<W>, Option<W>> = if m.left { Left(None) } else { Right(None) };
            c.check(none.transpose().is_none(), || "transposing None gives something".into());
            o.expect("transposing Some gives None")
        }
        "transpose Result" => {
            let bad: Either<syn::Result<u8>, syn::Result<u16>> = if m.left { Left(Err(syn::Error::new(proc_macro2::Span::call_site(), format!("no {k}")))) } else { Right(Err(syn::Error::new(proc_macro2::Span::call_site(), format!("no {k}")))) };
            match bad.transpose() { Err(x) => c.check(x.to_string() == format!("no {k}"), || format!("transposed error is {x}")), Ok(_) => c.fail("transposing an error gives a value") }
            e.map(Ok, Ok).transpose().expect("transposing Ok gives an error")
        }
        "left or right" => {
            let (l, r) = (e.clone().left(), e.clone().right());
            c.check(l.is_some() == m.left && r.is_some() != m.left, || format!("left() is {l:?}, right() is {r:?} for {m:?}"));
            l.map(Left).or(r.map(Right)).expect("neither side")
        }
        "as_ref, then map clone" => { let r: Either<&Vec<u32>, &Vec<u32>> = Either::as_ref(&e); r.map(|x| x.clone(), |x| x.clone()) }
        "inherent into_iter, collect items" => {
            let mut l = vec![]; let mut r = vec![];
            for x in e.into_iter() { match x { Left(x) => l.push(x), Right(x) => r.push(x) } }
            c.check(if m.left { r.is_empty() } else { l.is_empty() }, || "items of the other side".into());
            if m.left { Left(l) } else { Right(r) }
        }
        "BorrowMut-like reborrow" => { let mut e = e; { let b: &mut EV = e.borrow_mut(); b.push(k) } m.v.push(k); e }
        "into_inner" => { let v: Vec<u32> = e.into_inner(); if m.left { Left(v) } else { Right(v) } }
        _ => e.clone(),
    }
}

fn views(c: &mut Ctx, e: &EV, m: &EM, h: &str) {
    c.states += 1;
    c.runs += 1;
    c.check(is(e, m), || format!("{h}: is {} {e:?}, should be {m:?}", if e.is_left() { "left" } else { "right" }));
    c.check(e.is_left() == m.left && e.is_right() != m.left, || format!("{h}: is_left {} is_right {} for {m:?}", e.is_left(), e.is_right()));
    let inner: *const Vec<u32> = match e { Left(v) => v, Right(v) => v };
    let d: &Vec<u32> = e;
    let a: &Vec<u32> = AsRef::as_ref(e);
    let i: &Vec<u32> = Either::as_ref(e).into_inner();
    let l: Option<&Vec<u32>> = Either::as_ref(e).left();
    let r: Option<&Vec<u32>> = Either::as_ref(e).right();
    for (n, p) in [("deref", d as *const _), ("AsRef", a as *const _), ("as_ref().into_inner()", i as *const _), ("as_ref().left()/right()", l.or(r).map_or(std::ptr::null(), |x| x as *const _))] { c.check(p == inner, || format!("{h}: {n} is not a reference to the active value")) }
    c.check(l.is_some() == m.left && r.is_some() != m.left, || format!("{h}: as_ref() is on the wrong side"));
    let mut k = e.clone();
    let inner: *const Vec<u32> = match &k { Left(v) => v, Right(v) => v };
    let d = { let x: &mut Vec<u32> = &mut k; x as *const Vec<u32> };
    let a = AsMut::<Vec<u32>>::as_mut(&mut k) as *const Vec<u32>;
    let (side, i) = match k.as_mut() { Left(x) => (true, x as *const Vec<u32>), Right(x) => (false, x as *const Vec<u32>) };
    c.check(d == inner && a == inner && i == inner && side == m.left, || format!("{h}: mutable views differ (deref {}, AsMut {}, as_mut {} side {side})", d == inner, a == inner, i == inner));
    let b: &EV = e.borrow();
    c.check(is(b, m), || format!("{h}: borrow differs"));
    c.check(e.as_slice() == &m.v[..] && e.len() == m.v.len(), || format!("{h}: methods through deref differ"));
    let it = Either::as_ref(e).into_iter();
    c.check(it.len() == m.v.len() && it.size_hint() == (m.v.len(), Some(m.v.len())), || format!("{h}: length of the iterator differs"));
}

/// (the inherent `map` of Either is another function)
fn all_of<I: Iterator, B>(i: I, f: impl FnMut(I::Item) -> B) -> Vec<B> { Iterator::map(i, f).collect() }

fn main() {
    let q = !thorough();
    let (depth, sizes) = if q { (4, 7u64) } else { (5, 8) };
    let mut v = vec![];
    for (ki, k) in kinds().into_iter().enumerate() {
        let _ = ki;
        let (ops, ends) = (k.nops as u64, k.nends as u64);
        let per = ranks(ops, depth);
        v.push(suite(format!("iterator {}: all sequences of up to {depth} calls and one finishing call", k.name), sizes * per * ends, &["run"], move |i, c| {
            let (n, s, end) = (i / (per * ends), i / ends % per, (i % ends) as usize);
            let ops = unrank(s, ops, depth);
            let [raw, l, r] = (k.run)(n as usize, &ops, end);
            c.states += 1; c.runs += 3; c.transitions += ops.len() as u64 + 1;
            c.outcome("run");
            let name = |o: &usize| if *o < FWD.len() { FWD[*o] } else { DE[*o - FWD.len()] };
            let calls = || ops.iter().map(name).chain([if end < FWD_END.len() { FWD_END[end] } else { DE_END[end - FWD_END.len()] }]).collect::<Vec<_>>().join(", ");
            for (side, log) in [("left", &l), ("right", &r)] {
                // (None of the calls logs a bare item without its side)
                let want: Vec<String> = raw.clone();
                let got: Vec<String> = log.iter().map(|x| x.replace(&format!(" on the {side}"), "")).collect();
                if got != want || log.iter().any(|x| x.contains(if side == "left" { "on the right" } else { "on the left" })) {
                    c.fail(format!("{} of {n} items as {side} of an Either: {} gives {log:?}, the iterator itself {raw:?}", k.name, calls()))
                }
            }
            c.sample(|| format!("{} of {n}: {} -> {raw:?}", k.name, calls()));
        }));
    }
    // long iterators: jumping to every place, from either end
    for k in kinds() {
        let ends = k.nends as u64;
        let lens: [usize; 6] = [8, 9, 16, 31, 33, 70];
        if matches!(k.name, "slice by reference" | "chars of multibyte text") { continue }
        v.push(suite(format!("iterator {}: long", k.name), 6 * 40 * 4 * ends, &["run"], move |i, c| {
            let (n, a, b, end) = (lens[(i / (160 * ends)) as usize], (i / (4 * ends) % 40) as usize, i / ends % 4, (i % ends) as usize);
            // a calls of next, then b calls of next_back (or next), then a size, then the end
            let back = if k.nops > FWD.len() { FWD.len() } else { 0 };
            let mut ops = vec![0; a];
            ops.extend(vec![back; [0, 1, 7, 20][b as usize]]);
            ops.push(5);
            let [raw, l, r] = (k.run)(n, &ops, end);
            c.states += 1; c.runs += 3; c.transitions += ops.len() as u64 + 1;
            c.outcome("run");
            for (side, log) in [("left", &l), ("right", &r)] {
                let got: Vec<String> = log.iter().map(|x| x.replace(&format!(" on the {side}"), "")).collect();
                if got != raw { c.fail(format!("{} of {n} items as {side} of an Either: {ops:?}, then end {end} gives {log:?}, the iterator itself {raw:?}", k.name)) }
            }
        }));
    }
    // an iterator that does whatever its script says, call by call
    let hints: [(usize, Option<usize>); 8] = [(0, None), (3, None), (usize::MAX, None), (0, Some(0)), (1, Some(1)), (2, Some(5)), (0, Some(usize::MAX)), (usize::MAX, Some(usize::MAX))];
    let nops = 6u64;
    let depth = if q { 4 } else { 5 };
    let per = ranks(nops, depth);
    v.push(suite(format!("scripted iterators, all sequences of up to {depth} calls"), per * 16 * 16 * 8 * 5, &["run"], move |i, c| {
        let (s, i) = (i % per, i / per);
        let (fwd, back, h, end) = (i % 16, i / 16 % 16, hints[(i / 256 % 8) as usize], i / 2048);
        let ops = unrank(s, nops, depth);
        let mk = || Script { fwd, back, at: 0, hint: h };
        fn run<I: DoubleEndedIterator>(mut it: I, ops: &[usize], end: u64, tag: Tag<I::Item>) -> Vec<String> {
            let mut log = vec![];
            for op in ops { log.push(match op { 0 => format!("{:?}", it.next().map(tag)), 1 => format!("{:?}", it.next_back().map(tag)), 2 => format!("{:?}", it.size_hint()), 3 => format!("{:?}", it.nth(1).map(tag)), 4 => format!("{:?}", it.nth_back(1).map(tag)), _ => format!("{:?}", it.by_ref().find(|_| true).map(tag)) }) }
            match end { 0 => log.extend(it.map(tag)), 1 => log.extend(it.rev().map(tag)), 2 => { log.push(format!("{:?}", it.by_ref().last().map(tag))); log.push(format!("{:?}", it.next().map(tag))) } 3 => log.push(it.count().to_string()), _ => log.push(format!("{:?}", it.last().map(tag))) }
            log
        }
        // collecting asks for the hint: not with one that is not true
        let end = if end == 0 || end == 1 { if h.0 > 0 { 2 } else { end } } else { end };
        let raw = run(mk(), &ops, end, &|x| format!("{x:?}"));
        let l = run(Left::<_, Oth>(mk()), &ops, end, &left_tag);
        let r = run(Right::<Oth, _>(mk()), &ops, end, &left_tag);
        c.states += 1; c.runs += 3; c.transitions += ops.len() as u64 + 1;
        c.outcome("run");
        for (side, log) in [("left", &l), ("right", &r)] {
            let got: Vec<String> = log.iter().map(|x| x.replace(&format!(" on the {side}"), "")).collect();
            if got.iter().map(|x| x.replace('"', "")).ne(raw.iter().map(|x| x.replace('"', ""))) { c.fail(format!("an iterator that yields by {fwd:04b} and {back:04b} from the back, with the hint {h:?}, as {side} of an Either: {ops:?}, then end {end} gives {log:?}, the iterator itself {raw:?}")) }
        }
    }));
    let n = OPS.len() as u64;
    let depth = if q { 4 } else { 5 };
    let per = ranks(n, depth);
    v.push(suite(format!("all histories of up to {depth} adaptor calls"), per * 6, &["history"], move |i, c| {
        let (st, s) = (i / per, i % per);
        let mut m = EM { left: st % 2 == 0, v: (0..st as u32 / 2).collect() };
        let mut e: EV = if m.left { Left(m.v.clone()) } else { Right(m.v.clone()) };
        let mut h = format!("{m:?}");
        let ops = unrank(s, n, depth);
        for (k, o) in ops.iter().enumerate() { e = apply(*o, e, &mut m, 100 * (k as u32 + 1), c); h.push_str(", "); h.push_str(OPS[*o]); c.transitions += 1 }
        c.outcome("history");
        views(c, &e, &m, &h);
        c.sample(|| h.clone());
    }));
    // sides of different types
    v.push(suite("sides of different types", 2 * 6 * 6, &["run"], |i, c| {
        let (left, n, k) = (i % 2 == 0, i / 2 % 6, i / 12);
        let items: Vec<char> = "xbxaé".chars().cycle().take(n as usize).collect();
        let more: Vec<char> = "zyx漢".chars().cycle().take(k as usize).collect();
        c.outcome("run"); c.states += 1; c.runs += 9;
        // extending
        let mut e: Either<Vec<char>, String> = if left { Left(items.clone()) } else { Right(items.iter().collect()) };
        e.extend(more.iter().copied());
        let all: Vec<char> = items.iter().chain(&more).copied().collect();
        c.eq(|| "extended Vec or String".into(), e.clone().left(), left.then(|| all.clone()));
        c.eq(|| "extended Vec or String".into(), e.right(), (!left).then(|| all.iter().collect()));
        let mut e: Either<BTreeSet<char>, VecDeque<char>> = if left { Left(items.iter().copied().collect()) } else { Right(items.iter().copied().collect()) };
        e.extend(more.iter().copied());
        c.eq(|| "extended set or deque".into(), e.clone().left(), left.then(|| all.iter().copied().collect()));
        c.eq(|| "extended set or deque".into(), e.right(), (!left).then(|| all.iter().copied().collect()));
        let mut e: Either<HashMap<char, usize>, Vec<(char, usize)>> = if left { Left(HashMap::new()) } else { Right(vec![]) };
        e.extend(all.iter().copied().zip(0..));
        c.eq(|| "extended map or list".into(), e.clone().left(), left.then(|| all.iter().copied().zip(0..).collect()));
        c.eq(|| "extended map or list".into(), e.right(), (!left).then(|| all.iter().copied().zip(0..).collect()));
        // map to different types, flip, transpose
        let e: Either<Vec<char>, String> = if left { Left(all.clone()) } else { Right(all.iter().collect()) };
        let f: Either<usize, Vec<u8>> = e.clone().map(|v| v.len(), |s| s.into_bytes());
        c.eq(|| "mapped".into(), (f.clone().left(), f.clone().right()), (left.then(|| all.len()), (!left).then(|| all.iter().collect::<String>().into_bytes())));
        let g: Either<Vec<u8>, usize> = f.clone().flip();
        c.eq(|| "flipped".into(), (g.clone().right(), g.clone().left(), g.is_left(), g.is_right()), (f.clone().left(), f.clone().right(), !left, left));
        let t: Either<Option<char>, Option<u8>> = f.map(|_| all.last().copied(), |b| b.last().copied());
        let want: (Option<char>, Option<u8>) = if left { (all.last().copied(), None) } else { (None, all.iter().collect::<String>().bytes().last()) };
        match t.transpose() { None => c.check(all.is_empty(), || "transpose loses a value".into()), Some(x) => c.eq(|| "transposed".into(), (x.left(), x.right()), want) }
        // items of either side, by value and by reference, in both directions
        let e: Either<Vec<char>, VecDeque<u32>> = if left { Left(all.clone()) } else { Right((0..all.len() as u32).collect()) };
        let show = |x: Either<char, u32>| left_tag(x);
        let want: Vec<String> = if left { all.iter().map(|x| show(Left(*x))).collect() } else { (0..all.len() as u32).map(|x| show(Right(x))).collect() };
        c.eq(|| "items by value".into(), all_of(e.clone().into_iter(), show), want.clone());
        c.eq(|| "items by reference".into(), all_of(Either::as_ref(&e).into_iter(), |x| show(x.map(|x| *x, |x| *x))), want.clone());
        let mut e2 = e.clone();
        c.eq(|| "items by mutable reference".into(), all_of(e2.as_mut().into_iter(), |x| show(x.map(|x| *x, |x| *x))), want.clone());
        c.eq(|| "items in a for loop from the back".into(), { let mut v = vec![]; for x in e.into_iter().rev() { v.insert(0, show(x)) } v }, want.clone());
        c.sample(|| format!("{want:?}"));
    }));
    main_("C23", v)
}
