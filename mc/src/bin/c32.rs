//! C32: a failed parse says where it got stuck, and why.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*, tys};
use parsel::ast::*;
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;
#[path = "../shared/errors.rs"]
mod errors;
use errors::*;

/// Parts of several tokens where one is usual, so that attempts get part of the way.
mod parts {
    use mc::{gram::*, grammar, spec::*};
    use parsel::ast::*;
    type Plus = syn::Token![+];
    grammar! {
        struct P(0: syn::Token![:], 1: syn::Token![=]);
        struct Q(0: Plus, 1: Word, 2: Plus);
        enum R { A(0 a: Plus, 1 b: Plus), B(0 a: Plus, 1 b: syn::Token![-]) }
        struct I(0: Word, 1: syn::Token![:], 2: LitInt);
        struct Opt(0: Maybe<P, LitInt>, 1: Maybe<Q, Word>, 2: Word);
        struct Tail(0: Word, 1: Maybe<P, LitInt>, 2: Maybe<Q>, 3: Maybe<R, I>, 4: syn::Token![:]);
        enum Nest { L(0 a: Maybe<P, LitInt>, 1 b: Separated<Word, R>), M(0 a: Any<I>, 1 b: Maybe<Q>, 2 c: LitInt), N(0 a: Punctuated<I, R>, 1 b: syn::Token![:]) }
    }
}
use parts::*;

fn check(c: &mut Ctx, t: &Ty, g: &G, toks: &[Tok], layouts: std::ops::Range<usize>) {
    for k in layouts {
        let (src, l) = layout(toks, k);
        let v = model(g, &l, true);
        c.transitions += v.steps;
        c.states += 1;
        c.runs += 1;
        let e = match ((t.full)(src.parse().unwrap()), &v.res) {
            (Ok(_), Ok((_, p))) if *p == l.len() && v.left == 0 => { c.outcome("parsed"); return }
            (Ok(x), _) => { c.fail(format!("{} on {src:?}: accepted as{x}, should fail", t.name)); continue }
            (Err(e), Ok((_, p))) if *p == l.len() && v.left == 0 => { c.fail(format!("{} on {src:?}: fails at {:?}: {:?}, should parse", t.name, e.lc, e.msg)); continue }
            (Err(e), _) => e,
        };
        match &v.res {
            // something is left over: at the end, or in groups
            Ok((_, p)) => {
                c.outcome(if v.left == 0 { "leftover at the end" } else { "leftover in a group" });
                let mut want = v.over.clone();
                if *p < l.len() { want.push(M::at(&Scope { toks: &l, end: None }, *p).unwrap()) }
                // an error about a group may be located at its opening delimiter or at the whole of it
                let whole = |at: &Lc| -> Option<Lc> { find(&l, *at) };
                if !want.iter().any(|w| e.lc == *w || whole(w) == Some(e.lc)) { c.fail(format!("{} on {src:?}: content is left over at {want:?}, but the error is at {:?}: {:?}", t.name, e.lc, e.msg)) }
            }
            Err(f) => {
                c.outcome(match f.cands.iter().filter(|x| x.loc.is_some()).count() { 0 => "stuck at the end of input", n if n == f.cands.len() => "stuck at a token or at the end of a group", _ => "stuck in one of several places" });
                match reports(&e, f) { Ok(None) => {} Ok(Some(want)) => c.fail(format!("{} on {src:?}: error at {:?}: {:?}; the parse gets stuck at {want:?}", t.name, e.lc, e.msg)), Err(m) => { c.fail(m); return } }
            }
        }
        c.sample(|| format!("{} on {src:?} fails at {}:{} with {:?}", t.name, e.lc.sl, e.lc.sc + 1, e.msg));
    }
}
/// the whole of the group that opens at a place
fn find(l: &[LTok], at: Lc) -> Option<Lc> {
    l.iter().find_map(|t| match &t.t { LT::G { open, .. } if open.lc() == at => Some(t.sp.lc()), LT::G { inner, .. } => find(inner, at), _ => None })
}

fn forest(name: &str, tys: Vec<Ty>, alpha: &'static str, d: &[D], n: usize, layouts: std::ops::Range<usize>) -> Suite {
    let f = Forests::new(alphabet(alpha), d, n);
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    suite(format!("{name}: all token trees up to {n} symbols, {} layouts", layouts.len()), f.len(), &["stuck at a token or at the end of a group"], move |i, c| {
        let toks = f.get(i);
        for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &toks, layouts.clone()) }
    })
}
fn sents(name: &str, tys: Vec<Ty>, alpha: &'static str, n: usize, n2: usize, layouts: std::ops::Range<usize>) -> Suite {
    let atoms = alphabet(alpha);
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let lists = build_near(&gs, n, n2, &atoms);
    let mut starts = vec![0u64];
    for l in &lists { starts.push(starts.last().unwrap() + l.len() as u64) }
    suite(format!("{name}: edits of derivable sequences up to {n} symbols"), *starts.last().unwrap(), &["stuck at a token or at the end of a group", "stuck at the end of input", "leftover at the end", "leftover in a group", "parsed"], move |i, c| {
        let k = starts.partition_point(|s| *s <= i) - 1;
        check(c, &tys[k], &gs[k], &fresh_names(&lists[k][(i - starts[k]) as usize]), layouts.clone())
    })
}
fn longs(tys: Vec<Ty>, period: &[&'static str], lens: Vec<usize>, k: usize) -> Suite {
    let gs: Vec<G> = tys.iter().map(|t| (t.g)()).collect();
    let l = Long { period: period.iter().map(|s| mc::explore::toks(s)).collect(), lens, devs: ["a", "+", "1", ";", "( a )", "[ 1 ]", "-> x"].iter().map(|s| mc::explore::toks(s)).collect(), k };
    suite(format!("repeated `{}`: long inputs with up to {k} deviations", period.join(" ")), l.len(), &[], move |i, c| {
        let mut v = l.get(i);
        normalise(&mut v);
        for (t, g) in tys.iter().zip(&gs) { check(c, t, g, &v, 0..2) }
    })
}

macro_rules! plain { ($($t:ty),* $(,)?) => { vec![$(ty::<$t>(stringify!($t))),*] } }
fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(plain);
    let mut s = vec![
        forest("every type", tys.clone(), ALPHA, &[D::Par], if q { 3 } else { 4 }, 0..2),
        forest("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, if q { 3 } else { 4 }, 0..3),
        sents("every type", tys.clone(), ALPHA, if q { 5 } else { 9 }, if q { 0 } else { 3 }, 0..2),
    ];
    let parts: Vec<Ty> = tys![P, Q, R, I, Opt, Tail, Nest, Maybe<P, LitInt>, Maybe<Q>, Two<Maybe<P, LitInt>, Word>, Two<Maybe<P>, Maybe<Q, Maybe<R>>>, Two<Maybe<R, Word>, LitInt>, Two<Separated<Word, R>, Maybe<Plus>>, Separated<I, Q>, Punctuated<I, R>,
        LeftAssoc<R, Word>, RightAssoc<R, Word>, LeftAssoc<Q, I>, RightAssoc<Q, I>, Any<I>, Any<Q>, Many<I>, Two<Any<I>, Maybe<Q>>, Two<Any<Q>, Word>, Either<P, Q>, Either<Q, Either<R, I>>, Either<Maybe<P, LitInt>, I>, Either<Paren<Maybe<P, LitInt>>, Bracket<Separated<I, R>>>, Two<Paren<Two<Maybe<Q>, Word>>, Maybe<P>>];
    const PA: &str = "a 1 : = + -";
    s.push(forest("options, lists and chains of several tokens", parts.clone(), PA, &[D::Par], if q { 5 } else { 6 }, 0..1));
    s.push(sents("options, lists and chains of several tokens", parts.clone(), PA, if q { 7 } else { 11 }, if q { 4 } else { 6 }, 0..1));
    for p in PERIODS { s.push(longs(tys.clone(), p, if q { vec![5, 9, 33] } else { vec![4, 7, 10, 31, 70] }, 1)) }
    main_("C32", s)
}
