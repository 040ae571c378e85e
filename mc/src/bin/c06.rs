//! C06: Punctuated and Many consume the whole level.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Semi = Token![;];
type Arrow = Token![->];
type Minus = Token![-];

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Item { k: Ident, eq: Token![=], v: Either<LitInt, Paren<Punctuated<Ident, Plus>>> }
    enum Sep { P(0 p: Plus), S(0 s: Semi), PP(0 a: Minus, 1 b: Plus), }
    enum It { W(0 a: Ident, 1 b: LitInt), N(0 a: Ident), G { g: Paren<Many<Ident>> }, }
    struct Block { #[parsel(recursive)] stmts: Brace<Punctuated<Either<Box<Block>, Ident>, Semi>> }
    struct Json(0: #[parsel(recursive)] Either<LitInt, Bracket<Punctuated<Box<Json>, Plus>>>);
}

fn types() -> Vec<Ty> {
    tys![
        Punctuated<Ident, Plus>, Punctuated<Plus, Ident>, Punctuated<Ident, Ident>, Punctuated<Plus, Plus>, Punctuated<Paren<Ident>, Plus>, Punctuated<Ident, Paren<Empty>>, Punctuated<Two<Ident, Ident>, Plus>, Punctuated<Ident, Two<Plus, Plus>>,
        Punctuated<It, Sep>, Punctuated<Either<Ident, LitInt>, Either<Plus, Semi>>, Punctuated<Ident, Maybe<Plus>>, Punctuated<Ident, Empty>, Punctuated<Ident, NotEof>, Punctuated<Two<Ident, Maybe<Plus>>, Semi>, Punctuated<Two<Ident, Any<LitInt>>, Plus>,
        Punctuated<Ident, Any<Plus>>, Punctuated<Separated<Ident, Plus>, Semi>, Punctuated<LeftAssoc<Plus, Ident>, Semi>, Punctuated<Paren<Punctuated<Ident, Plus>>, Plus>, Punctuated<LitInt, Plus>, Punctuated<Lit, Plus>, Punctuated<LitInt, Minus>,
        Punctuated<Box<Ident>, Box<Plus>>, Punctuated<Bracket<Many<Ident>>, Plus>,
        Many<Ident>, Many<Plus>, Many<Two<Ident, Plus>>, Many<Paren<Ident>>, Many<It>, Many<Either<Ident, Plus>>, Many<Paren<Many<Ident>>>, Many<Two<Ident, Maybe<Plus, Ident>>>, Many<Two<Maybe<Plus>, Ident>>, Many<LitInt>, Many<Separated<Ident, Plus>>,
        Many<Two<Ident, Any<Plus>>>, Many<Two<Ident, Maybe<Eof>>>,
        Two<Ident, Many<Plus>>, Two<Ident, Punctuated<Ident, Plus>>, Two<Paren<Punctuated<Ident, Plus>>, Ident>, Two<Paren<Many<Ident>>, Plus>, Two<Many<Ident>, Eof>, Two<Punctuated<Ident, Plus>, Maybe<Plus>>, Two<Many<Ident>, Maybe<NotEof>>,
        Maybe<Plus, Punctuated<Ident, Plus>>, Maybe<Punctuated<Plus, Ident>, Ident>, Either<Punctuated<Ident, Plus>, Punctuated<Plus, Ident>>, Either<Many<Ident>, Many<Plus>>, Any<Two<Ident, Paren<Many<Plus>>>>,
        Separated<Paren<Punctuated<Ident, Plus>>, Plus>, Block, Json, Punctuated<Item, Semi>, Punctuated<Arrow, Minus>, Punctuated<Ident, Arrow>,
    ]
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Two<Punctuated<Ident, Two<$k, $k>>, $k>, Punctuated<Two<$k, $k>, Token![+]>, Punctuated<Ident, Two<$k, $k>>, Many<Two<$k, Maybe<$k, Token![+]>>>, Paren<Punctuated<$k, $k>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Punctuated<$a, $b>, Many<$a>, Many<Two<$a, $b>>, Two<$b, Punctuated<$a, $b>>, Paren<Punctuated<$b, $a>>]) } }

fn main() {
    let q = !thorough();
    let all = ["accepted", "rejected", "leftover in group"];
    let mut s = explore("lists", types(), "a + ;", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 7 } else { 8 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected"]);
    s.extend(explore("lists over several kinds of tokens", types(), "a 1 + - -> ; -2", &[D::Par, D::Brk], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, conform_rebuilt, &[]));
    let ts = || tys![Punctuated<Ident, Plus>, Many<Two<Ident, Plus>>, Many<Either<Ident, Plus>>, Punctuated<Either<Ident, Two<LitInt, LitInt>>, Either<Plus, Semi>>, Punctuated<Two<Ident, Any<LitInt>>, Plus>, Punctuated<Separated<Ident, Plus>, Semi>];
    let devs = ["a", "+", "1", ";", "(a)", "1 1"];
    s.push(long("long lists", ts(), &["a", "+"], (0..=24).collect(), &devs, if q { 1 } else { 2 }, conform_rebuilt, &["accepted", "rejected"]));
    s.push(long("longer lists", ts(), &["a", "+"], if q { vec![63, 64, 65, 129, 257, 258] } else { vec![63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 512, 513, 1024, 1025, 2050] }, &devs, 1, conform_print, &["accepted", "rejected"]));
    s.push(long("very long lists", tys![Punctuated<Ident, Plus>, Many<Ident>, Punctuated<Paren<Ident>, Plus>, Punctuated<Either<Ident, LitInt>, Plus>], &["a", "+"], vec![4095, 4096, 4097, 5000, 65537, 70000, 131075], &["+"], 0, conform_print, &["accepted"]));
    s.push(long("long lists of items alone", tys![Many<Ident>, Many<Paren<Any<Ident>>>, Many<Either<Ident, Paren<Ident>>>, Punctuated<Ident, Empty>], &["a"], if q { vec![1, 2, 3, 8, 16, 17, 33, 64, 129, 300] } else { vec![1, 2, 3, 8, 16, 17, 33, 64, 129, 300, 700, 1030] }, &["a", "+", "(a)", "()", "(+)"], if q { 1 } else { 2 }, conform_print, &all));
    s.push(long("lists in lists", tys![Punctuated<Paren<Punctuated<Ident, Plus>>, Semi>, Punctuated<Paren<Any<Ident>>, Semi>, Punctuated<Paren<Many<Either<Ident, Plus>>>, Semi>], &["(a + a)", ";"], vec![3, 4, 9, 41, 150], &["(a + a)", "(a +)", "(+ a)", "(a a)", "()", ";", "[a]", "a"], 1, conform_rebuilt, &["accepted", "rejected"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("lists over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("lists of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C06", s)
}
