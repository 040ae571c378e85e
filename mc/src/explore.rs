//! Standard explorations of a list of grammar types.
use crate::gram::*;
use crate::run::*;
use crate::spec::*;
use crate::tok::*;
use std::collections::HashSet;

/// All token sequences of at most `n` symbols that a grammar can derive
/// (over one or two representative tokens per leaf); context conditions
/// such as Eof are ignored, the model decides what each sequence really is.
pub fn sentences(g: &G, n: usize) -> Vec<Vec<Tok>> {
    let mut seen = HashSet::new();
    let mut out: Vec<Vec<Tok>> = gen(g, n, 0).into_iter().filter(|s| seen.insert(s.clone())).collect();
    out.sort_by_key(|s| size(s));
    out
}

/// most derivable sequences (and sequences edited twice) taken of one grammar: the length bound is
/// lowered for grammars that have more
pub const BASE: usize = 3000;

/// `sentences` for the largest bound up to `n` that gives no more than `max`
pub fn sentences_upto(g: &G, n: usize, max: usize) -> Vec<Vec<Tok>> {
    let mut best = vec![];
    for k in 0..=n { let s = sentences(g, k); if s.len() > max { break } best = s }
    best
}

pub fn size(ts: &[Tok]) -> usize { ts.iter().map(|t| match t { Tok::G(_, i) => 1 + size(i), _ => 1 }).sum() }

fn cat(a: &[Vec<Tok>], b: &dyn Fn(usize) -> Vec<Vec<Tok>>, n: usize) -> Vec<Vec<Tok>> {
    let mut out = Vec::new();
    let mut memo: Vec<Option<Vec<Vec<Tok>>>> = vec![None; n + 1];
    for x in a {
        let s = size(x);
        if s > n { continue }
        let bs = memo[n - s].get_or_insert_with(|| b(n - s)).clone();
        for y in bs { let mut v = x.clone(); v.extend(y); out.push(v) }
    }
    out
}

fn dedup(v: Vec<Vec<Tok>>) -> Vec<Vec<Tok>> { let mut s = HashSet::new(); v.into_iter().filter(|x| s.insert(x.clone())).collect() }

/// repetition: item (sep item)* [sep]; `sep` none: item*
fn rep(item: &dyn Fn(usize) -> Vec<Vec<Tok>>, sep: &dyn Fn(usize) -> Vec<Vec<Tok>>, trailing: bool, n: usize) -> Vec<Vec<Tok>> {
    let mut out = Vec::new();
    let mut cur = item(n);
    let mut rounds = 0;
    while !cur.is_empty() && rounds < n + 1 {
        out.extend(cur.iter().cloned());
        let with = cat(&cur, sep, n);
        if trailing { out.extend(with.iter().cloned()) }
        let next = dedup(cat(&with, item, n).into_iter().filter(|x| !x.is_empty()).collect());
        if next.iter().all(|x| cur.contains(x)) { break }
        cur = next;
        rounds += 1;
    }
    dedup(out)
}

fn gen(g: &G, n: usize, depth: usize) -> Vec<Vec<Tok>> {
    let f = |v: Vec<Vec<Tok>>| v.into_iter().filter(|x| size(x) <= n).collect::<Vec<_>>();
    if depth > 24 { return vec![] }
    match g {
        G::Leaf(l) => f(match l.k {
            K::Ident => vec![id("a")],
            K::Word(list) => { let mut v = vec![id("a"), id("fn")]; v.extend(list.iter().take(1).map(|w| id(w))); v }
            K::Kw(k) | K::RKw(k) => vec![id(k)],
            K::Op(o) => vec![op(o)],
            K::Bool => vec![id("true")], K::Byte => vec![lit("b'x'")],
            K::Int => vec![lit("7"), vec![Tok::P('-', false), Tok::L("7".into())]],
            K::Uint => vec![lit("7")], K::Float => vec![lit("1.5")], K::Char => vec![lit("'c'")], K::Str => vec![lit("\"s\"")],
            K::ByteStr => vec![lit("b\"s\"")],
            K::Lit => vec![lit("7"), id("true"), lit("\"s\""), vec![Tok::P('-', false), Tok::L("7".into())]],
            K::Life => vec![vec![Tok::P('\'', true), Tok::I("a".into())]],
            K::Empty | K::Eof | K::NotEof => vec![vec![]],
        }),
        G::Count(_, g) => gen(g, n, depth),
        G::Ref(r) => { if n == 0 { return vec![] } gen(&r(), n, depth + 1) }
        G::Grp(d, g) => { if n == 0 { return vec![] } gen(g, n - 1, depth + 1).into_iter().map(|i| vec![Tok::G(*d, i)]).collect() }
        G::Maybe(p, t) => { let mut v = vec![vec![]]; v.extend(cat(&gen(p, n, depth + 1), &|m| gen(t, m, depth + 1), n)); dedup(v) }
        G::Punct(t, p) => { let mut v = vec![vec![]]; v.extend(rep(&|m| gen(t, m, depth + 1), &|m| gen(p, m, depth + 1), true, n)); dedup(v) }
        G::Any(t) => { let mut v = vec![vec![]]; v.extend(rep(&|m| gen(t, m, depth + 1), &|_| vec![vec![]], false, n)); dedup(v) }
        G::Sep(t, p) | G::Left(p, t) | G::Right(p, t) => rep(&|m| gen(t, m, depth + 1), &|m| gen(p, m, depth + 1), false, n),
        G::Either(a, b) => { let mut v = gen(a, n, depth + 1); v.extend(gen(b, n, depth + 1)); dedup(v) }
        G::Struct(_, fs) => seq(fs, n, depth),
        G::Enum(_, vs) => dedup(vs.iter().flat_map(|(_, fs)| seq(fs, n, depth)).collect()),
    }
}

fn seq(fs: &[(&'static str, G)], n: usize, depth: usize) -> Vec<Vec<Tok>> {
    let mut cur = vec![vec![]];
    for (_, g) in fs { cur = dedup(cat(&cur, &|m| gen(g, m, depth + 1), n)) }
    cur
}

/// All results of one edit at any position and nesting level: deleting a token, inserting or
/// substituting an atom, swapping neighbours, duplicating a token, gluing or splitting punctuation.
pub fn edits(ts: &[Tok], atoms: &[Atom], out: &mut Vec<Vec<Tok>>) {
    for i in 0..=ts.len() {
        let (a, b) = ts.split_at(i);
        for x in atoms { out.push([a, x, b].concat()) }
        if let Some((t, b2)) = b.split_first() {
            out.push([a, b2].concat());
            for x in atoms { out.push([a, x, b2].concat()) }
            out.push([a, &[t.clone()], b].concat());
            if b.len() > 1 { let mut v = ts.to_vec(); v.swap(i, i + 1); out.push(v) }
            match t {
                Tok::G(d, inner) => {
                    let mut sub = Vec::new();
                    edits(inner, atoms, &mut sub);
                    for s in sub { let mut v = ts.to_vec(); v[i] = Tok::G(*d, s); out.push(v) }
                    for e in D::ALL { if e != *d { let mut v = ts.to_vec(); v[i] = Tok::G(e, inner.clone()); out.push(v) } }
                    // unwrapped, and with the next token drawn in
                    out.push([a, &inner[..], b2].concat());
                    if let Some((n, b3)) = b2.split_first() { out.push([a, &[Tok::G(*d, [&inner[..], &[n.clone()]].concat())], b3].concat()) }
                }
                Tok::P(c, j) => { let mut v = ts.to_vec(); v[i] = Tok::P(*c, !j); out.push(v) }
                _ => {}
            }
        }
    }
}

/// Makes jointness what a lexer would say: joint only in front of punctuation.
pub fn normalise(ts: &mut Vec<Tok>) {
    // a lone apostrophe cannot be lexed
    for i in (0..ts.len()).rev() {
        if matches!(ts[i], Tok::P('\'', _)) && !matches!(ts.get(i + 1), Some(Tok::I(..))) { ts.remove(i); }
    }
    for i in 0..ts.len() {
        let next = match ts.get(i + 1) { Some(Tok::P(c, _)) => Some(*c), _ => None };
        match &mut ts[i] {
            Tok::P('\'', j) => *j = true,
            Tok::P('/', j) if matches!(next, Some('/' | '*')) => *j = false,
            Tok::P(_, j) if matches!(next, None | Some('\'')) => *j = false,
            Tok::G(_, inner) => normalise(inner),
            _ => {}
        }
    }
}

/// All token sequences the type can derive up to `n` symbols, and everything
/// up to `k` edits away from those (edits beyond the first only for short ones).
pub fn near_sentences(g: &G, n: usize, n2: usize, atoms: &[Atom]) -> Vec<Vec<Tok>> {
    let base = sentences_upto(g, n, BASE);
    let mut seen: HashSet<Vec<Tok>> = HashSet::new();
    let mut out = Vec::new();
    let mut twice = 0;
    let mut add = |mut v: Vec<Tok>| { normalise(&mut v); if seen.insert(v.clone()) { out.push(v) } };
    for s in &base {
        add(s.clone());
        let mut e = Vec::new();
        edits(s, atoms, &mut e);
        for x in e {
            if size(s) <= n2 && twice < BASE { let mut e2 = Vec::new(); edits(&x, atoms, &mut e2); twice += 1; for y in e2 { add(y) } }
            add(x);
        }
    }
    out
}

pub fn fresh_names(ts: &[Tok]) -> Vec<Tok> {
    let (mut out, mut fresh) = (Vec::new(), 0);
    push_sym(&mut out, ts, &mut fresh);
    out
}

pub struct Bounds { pub forest: usize, pub sent: usize, pub sent2: usize }

/// The standard suites for a set of types.
pub fn explore(name: &str, tys: Vec<Ty>, alpha: &'static str, delims: &[D], b: Bounds, check: fn(&mut Ctx, &Ty, &G, &str, &[LTok]), must: &[&'static str]) -> Vec<Suite> {
    let atoms = alphabet(alpha);
    let f = Forests::new(atoms.clone(), delims, b.forest);
    let mut v = vec![];
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    if b.forest > 0 {
        let (gs, tys) = (gs.clone(), tys.clone());
        v.push(suite(format!("{name}: all token trees up to {} symbols", b.forest), f.len(), &[], move |i, c| {
            let (src, l) = render(&f.get(i));
            for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &src, &l) }
        }));
    }
    if b.sent > 0 {
        let lists = build_near(&gs, b.sent, b.sent2, &atoms);
        let mut starts = vec![0u64];
        for l in &lists { starts.push(starts.last().unwrap() + l.len() as u64) }
        let n = *starts.last().unwrap();
        v.push(suite(format!("{name}: all derivable sequences up to {} symbols and their edits", b.sent), n, must, move |i, c| {
            let k = starts.partition_point(|s| *s <= i) - 1;
            let toks = fresh_names(&lists[k][(i - starts[k]) as usize]);
            let (src, l) = render(&toks);
            check(c, &tys[k], &gs[k], &src, &l)
        }));
    }
    v
}

/// `near_sentences` of several grammars, built in parallel.
pub fn build_near(gs: &[G], n: usize, n2: usize, atoms: &[Atom]) -> Vec<Vec<Vec<Tok>>> {
    let lists: Vec<std::sync::OnceLock<Vec<Vec<Tok>>>> = gs.iter().map(|_| std::sync::OnceLock::new()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= gs.len() { break }
                let _ = lists[i].set(near_sentences(&gs[i], n, n2, atoms));
            });
        }
    });
    lists.into_iter().map(|l| l.into_inner().unwrap()).collect()
}

/// Long regular inputs with up to `k` deviations, for a set of types.
pub fn long(name: &str, tys: Vec<Ty>, period: &[&'static str], lens: Vec<usize>, devs: &[&'static str], k: usize, check: fn(&mut Ctx, &Ty, &G, &str, &[LTok]), must: &[&'static str]) -> Suite {
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let l = Long { period: period.iter().map(|s| toks(s)).collect(), lens, devs: devs.iter().map(|s| toks(s)).collect(), k };
    suite(format!("{name}: long inputs with up to {k} deviations"), l.len(), must, move |i, c| {
        let mut v = l.get(i);
        normalise(&mut v);
        let (src, l) = render(&v);
        for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &src, &l) }
    })
}

/// Model tokens from a text (for fixed pieces of input).
pub fn toks(s: &str) -> Vec<Tok> {
    fn conv(ts: proc_macro2::TokenStream) -> Vec<Tok> {
        ts.into_iter().map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => Tok::I(i.to_string().into()),
            proc_macro2::TokenTree::Literal(l) => Tok::L(l.to_string().into()),
            proc_macro2::TokenTree::Punct(p) => Tok::P(p.as_char(), p.spacing() == proc_macro2::Spacing::Joint),
            proc_macro2::TokenTree::Group(g) => Tok::G(match g.delimiter() { proc_macro2::Delimiter::Parenthesis => D::Par, proc_macro2::Delimiter::Bracket => D::Brk, _ => D::Brc }, conv(g.stream())),
        }).collect()
    }
    conv(s.parse().unwrap())
}
