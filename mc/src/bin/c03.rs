//! C03: a failed alternation reports the failure that got furthest.
#[path = "../shared/alt.rs"] mod alt;
use alt::*;
#[path = "../shared/errors.rs"] mod errors;
use errors::*;
use mc::{explore::*, gram::*, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

fn check(c: &mut Ctx, t: &Ty, g: &G, toks: &[Tok], layouts: std::ops::Range<usize>) {
    for k in layouts {
        let (src, l) = layout(toks, k);
        let v = model(g, &l, true);
        c.transitions += v.steps;
        c.states += 1;
        let Err(f) = &v.res else { c.outcome("parsed"); return };
        c.runs += 1;
        let e = match (t.full)(src.parse().unwrap()) { Err(e) => e, Ok(x) => { c.fail(format!("{} on {src:?}: accepted as{x}, should fail", t.name)); continue } };
        let located = f.cands.iter().filter(|c| c.loc.is_some()).count();
        c.outcome(if located == 0 { "fails at the end of input" } else if located < f.cands.len() { "fails at a token or at the end of input" } else if located > 1 { "several failures equally far" } else { "one furthest failure" });
        if matches!(g, G::Enum(_, v) if v.is_empty()) { continue }
        match reports(&e, f) { Ok(None) => {} Ok(Some(want)) => c.fail(format!("{} on {src:?}: error at {:?}: {:?}; the furthest failures are {want:?}", t.name, e.lc, e.msg)), Err(m) => { c.fail(m); return } }
        c.sample(|| format!("{} on {src:?} fails at {}:{} with {:?}", t.name, e.lc.sl, e.lc.sc + 1, e.msg));
    }
}

fn sents(name: &str, tys: Vec<Ty>, alpha: &'static str, n: usize, n2: usize) -> Suite {
    let atoms = alphabet(alpha);
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let lists = build_near(&gs, n, n2, &atoms);
    let mut starts = vec![0u64];
    for l in &lists { starts.push(starts.last().unwrap() + l.len() as u64) }
    suite(format!("{name}: edits of derivable sequences up to {n} symbols"), *starts.last().unwrap(), &["one furthest failure", "several failures equally far"], move |i, c| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        check(c, &tys[k], &gs[k], &fresh_names(&lists[k][(i - starts[k]) as usize]), 0..3)
    })
}

fn forest(name: &str, tys: Vec<Ty>, alpha: &'static str, d: &[D], n: usize, layouts: std::ops::Range<usize>) -> Suite {
    let f = Forests::new(alphabet(alpha), d, n);
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    suite(format!("{name}: all token trees up to {n} symbols, {} layouts", layouts.len()), f.len(), &["one furthest failure"], move |i, c| {
        let toks = f.get(i);
        for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &toks, layouts.clone()) }
    })
}

fn longs(name: &str, tys: Vec<Ty>, period: &[&'static str], lens: Vec<usize>, devs: &[&'static str], k: usize) -> Suite {
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let l = Long { period: period.iter().map(|s| mc::explore::toks(s)).collect(), lens, devs: devs.iter().map(|s| mc::explore::toks(s)).collect(), k };
    suite(format!("{name}: long inputs with up to {k} deviations"), l.len(), &["one furthest failure"], move |i, c| {
        let mut v = l.get(i);
        normalise(&mut v);
        for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &v, 0..2) }
    })
}

fn main() {
    let q = !thorough();
    let deeper = || tys![
        Either<LitInt, Either<LitInt, Either<Paren<Plus>, Plus>>>, E2<T2<Lit, Lit>, T3<Lit, LitUint, Ident>>, Either<T2<LitUint, Plus>, T2<LitInt, Ident>>, E3<Bracket<LitInt>, Bracket<T2<LitInt, Ident>>, T2<Bracket<Any<LitInt>>, Eof>>,
        T2<Paren<E2<Ident, Plus>>, Plus>, E2<Separated<Ident, Plus>, Punctuated<Ident, Plus>>, E2<Paren<Punctuated<Ident, Plus>>, Paren<Separated<Ident, Plus>>>, E2<LeftAssoc<Plus, Ident>, RightAssoc<Plus, Paren<Ident>>>,
        E2<T2<Maybe<Plus, Ident>, LitInt>, T2<Maybe<Ident, Plus>, LitInt>>, E2<Brace<E0>, T2<Brace<Empty>, Ident>>, Paren<Either<T2<Ident, Eof>, T3<Ident, Ident, Eof>>>, E2<T1<T1<T1<Ident>>>, N2<T1<Plus>, EN2<Ident, Plus>>>,
        EU<T2<Ident, Plus>>, E3<T2<NotEof, Plus>, T2<NotEof, T2<Ident, Plus>>, T3<Ident, Ident, Ident>>,
    ];
    let s = vec![
        forest("two alternatives", pairs(), "a + 1", &[D::Par], if q { 4 } else { 5 }, 0..3),
        forest("three alternatives", triples(), "a + 1", &[D::Par], if q { 5 } else { 6 }, 0..2),
        forest("nested alternatives", nested(), "a + 1 ;", &[D::Par, D::Brk], if q { 4 } else { 5 }, 0..3),
        forest("nested alternatives, deeper", nested(), "a + 1", &[D::Par], if q { 5 } else { 6 }, 0..2),
        forest("literals, delimiters and contexts", deeper(), "a + 1 -7", &[D::Par, D::Brk], if q { 4 } else { 5 }, 0..3),
        sents("two alternatives", pairs(), "a + 1", 5, if q { 3 } else { 4 }),
        sents("three alternatives", triples(), "a + 1", 5, if q { 3 } else { 4 }),
        sents("nested alternatives", nested(), "a + 1 ;", if q { 6 } else { 7 }, if q { 2 } else { 4 }),
        sents("literals, delimiters and contexts", deeper(), "a + 1 -7 99999999999999999999", 6, if q { 3 } else { 4 }),
        forest("very many alternatives", tys![Many70, Either<T2<Many70, Semi>, Paren<Many70>>, T2<Any<T2<Many70, Semi>>, Eof>], "a + ; 1", &[], if q { 5 } else { 6 }, 0..2),
        sents("very many alternatives", tys![Many70, Either<T2<Many70, Semi>, Paren<Many70>>, T2<Any<T2<Many70, Semi>>, Eof>], "a + ; 1", 8, 0),
        longs("long common prefixes", tys![Long16, Expr, Either<T2<Many<T2<Ident, Plus>>, Eof>, T2<Any<Ident>, LitInt>>, E2<T2<Any<T2<Ident, Plus>>, Semi>, T2<Any<T2<Ident, Plus>>, LitInt>>, E2<T2<Separated<Ident, Plus>, Semi>, Separated<Ident, Plus>>],
            &["a", "+"], vec![7, 8, 9, 10, 31], &["a", "+", "1", ";", "(a)"], if q { 1 } else { 2 }),
        longs("alternatives in groups", tys![Many<Deep>, Many<E2<Paren<T3<Ident, Plus, Ident>>, Paren<T2<Ident, Eof>>>>], &["(a + a)", "(a)"], vec![2, 5, 18, 130], &["(a + a)", "(a)", "(a +)", "(a + 1)", "[a + 1]", "a", "()", "+"], 1),
    ];
    main_("C03", s)
}
