//! C07: Separated parses one or more items and stops cleanly.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Semi = Token![;];
type Minus = Token![-];

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    enum Sep { P(0 p: Plus), S(0 s: Semi), PP(0 a: Minus, 1 b: Plus), }
    enum It { W(0 a: Ident, 1 b: LitInt), N(0 a: Ident), G { #[parsel(recursive)] g: Paren<Separated<Box<It>, Plus>> }, }
}

fn types() -> Vec<Ty> {
    tys![
        Separated<Ident, Plus>, Separated<Plus, Ident>, Separated<Ident, Ident>, Separated<Plus, Plus>, Separated<Paren<Ident>, Plus>, Separated<Ident, Paren<Empty>>, Separated<Ident, Paren<Ident>>, Separated<Two<Ident, Ident>, Plus>,
        Separated<Ident, Two<Plus, Plus>>, Separated<It, Sep>, Separated<Either<Ident, LitInt>, Either<Plus, Semi>>, Separated<Ident, Maybe<Plus, Plus>>, Separated<Two<Ident, Maybe<Plus>>, Semi>, Separated<Two<Maybe<Plus>, Ident>, Plus>, Separated<Any<Ident>, Plus>,
        Separated<Ident, NotEof>, Separated<Separated<Ident, Plus>, Semi>, Separated<LeftAssoc<Plus, Ident>, Semi>, Separated<Paren<Separated<Ident, Plus>>, Plus>, Separated<LitInt, Plus>, Separated<LitInt, Minus>, Separated<Lit, Plus>, Separated<Box<Ident>, Box<Plus>>,
        Separated<Ident, Either<Two<Plus, Semi>, Plus>>, Separated<Ident, Two<Plus, NotEof>>, Separated<Maybe<Ident>, Plus>, Separated<Ident, Two<Plus, Maybe<Semi>>>, Separated<Two<Ident, Any<Two<Plus, Semi>>>, Plus>, Separated<Bracket<Maybe<Ident>>, Plus>,
        Two<Separated<Ident, Plus>, Semi>, Two<Separated<Ident, Plus>, Ident>, Two<Separated<Ident, Plus>, Maybe<Ident>>, Two<Separated<Ident, Plus>, Plus>, Two<Separated<Ident, Two<Plus, Plus>>, Plus>, Two<Separated<Ident, Plus>, Any<Plus>>, Two<Paren<Separated<Ident, Plus>>, Plus>,
        Three<Separated<Ident, Plus>, Semi, Separated<Ident, Plus>>, Two<Separated<Ident, Ident>, Plus>, Any<Two<Separated<Ident, Plus>, Semi>>, Punctuated<Separated<Ident, Plus>, Semi>, Maybe<Separated<Ident, Plus>, Semi>, Maybe<Plus, Separated<Ident, Plus>>,
        Either<Two<Separated<Ident, Plus>, Semi>, Two<Ident, Any<Plus>>>, Either<Separated<Ident, Plus>, Separated<Ident, Semi>>, Either<Separated<Plus, Ident>, Separated<Ident, Plus>>, Any<Separated<Ident, Plus>>, Many<Separated<Ident, Plus>>, It,
        Two<Separated<Ident, Paren<Ident>>, Paren<Plus>>, Two<Separated<Ident, Sep>, Any<Minus>>, Separated<Ident, Token![+=]>, Separated<Ident, Token![..]>, Two<Separated<Ident, Token![..]>, Any<Token![.]>>,
    ]
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Two<Separated<Ident, Three<$k, $k, Token![+]>>, Any<$k>>, Two<Separated<Two<$k, Token![+]>, $k>, Any<$k>>, Separated<$k, Two<$k, $k>>, Two<Separated<$k, Token![+]>, Any<Token![+]>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Separated<$a, $b>, Two<Separated<$a, $b>, Maybe<$b>>, Two<$b, Separated<$a, $b>>, Separated<Two<$a, $b>, $a>]) } }

fn main() {
    let q = !thorough();
    let mut s = explore("separated lists", types(), "a + ;", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 7 } else { 8 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("separated lists over several kinds of tokens", types(), "a 1 + - += .. ; -2", &[D::Par, D::Brk], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, conform_rebuilt, &[]));
    let ts = || tys![Separated<Ident, Plus>, Separated<Either<Ident, Two<LitInt, LitInt>>, Either<Plus, Semi>>, Two<Separated<Ident, Plus>, Maybe<Semi>>, Separated<Two<Ident, Any<LitInt>>, Plus>, Punctuated<Separated<Ident, Plus>, Semi>, Separated<Ident, Either<Two<Plus, Semi>, Plus>>, Two<Separated<Ident, Two<Plus, Maybe<LitInt>>>, Any<Semi>>];
    let devs = ["a", "+", "1", ";", "(a)", "1 1"];
    s.push(long("long lists", ts(), &["a", "+"], (1..=24).collect(), &devs, if q { 1 } else { 2 }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("longer lists", ts(), &["a", "+"], if q { vec![64, 65, 129, 257, 259] } else { vec![64, 65, 127, 129, 255, 257, 259, 511, 513, 1025, 2051] }, &devs, 1, conform_print, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("very long lists", tys![Separated<Ident, Plus>, Two<Separated<Ident, Plus>, Any<Plus>>, Separated<Paren<Ident>, Plus>, Separated<Either<Ident, LitInt>, Plus>], &["a", "+"], vec![4095, 4096, 4097, 5001, 65537, 70001, 131075], &["+"], 0, conform_print, &["accepted"]));
    s.push(long("lists in lists", tys![Separated<Paren<Separated<Ident, Plus>>, Semi>, Separated<Paren<Any<Ident>>, Semi>, Separated<Paren<Ident>, Semi>, Any<Separated<Paren<Separated<Ident, Plus>>, Semi>>, Separated<It, Semi>], &["(a + a)", ";"], vec![3, 4, 9, 41, 151], &["(a + a)", "(a +)", "(+ a)", "(a a)", "()", ";", "[a]", "a"], 1, conform_rebuilt, &["accepted", "rejected"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("lists over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("lists of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C07", s)
}
