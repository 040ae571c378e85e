//! C09: Any takes the longest run of items and leaves the rest.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Semi = Token![;];

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    struct Four<A, B, C, D>(0: A, 1: B, 2: C, 3: D);
    enum It { W(0 a: Ident, 1 b: Plus, 2 c: LitInt), N(0 a: Ident, 1 b: Plus), G { #[parsel(recursive)] g: Paren<Any<Box<It>>> }, }
    struct Prog { decls: Any<Two<Ident, Semi>>, main: Any<Three<Ident, Plus, Semi>>, rest: Any<Ident> }
}

fn types() -> Vec<Ty> {
    tys![
        Any<Ident>, Any<Plus>, Any<LitInt>, Any<Two<Ident, Plus>>, Any<Two<Ident, Ident>>, Any<Three<Ident, Plus, Ident>>, Any<Paren<Ident>>, Any<Paren<Any<Ident>>>, Any<It>, Any<Either<Ident, Plus>>, Any<Either<Two<Ident, Plus>, Two<Ident, Semi>>>, Any<Two<Ident, Maybe<Plus>>>,
        Any<Two<Ident, Maybe<Plus, Ident>>>, Any<Separated<Ident, Plus>>, Any<Two<Separated<Ident, Plus>, Semi>>, Any<LeftAssoc<Plus, Ident>>, Any<Box<Ident>>, Any<Four<Ident, Plus, Ident, Semi>>, Any<Two<Paren<Ident>, Plus>>, Any<Paren<Two<Ident, Eof>>>, Any<Two<Any<Plus>, Ident>>, Any<Two<Ident, Any<Plus>>>, Any<Two<NotEof, Ident>>,
        Any<Word>, Any<Lit>, Any<Bracket<Many<Ident>>>, Any<Two<Ident, Paren<Punctuated<Ident, Plus>>>>, Any<Token![+=]>, Any<Token![->]>, Any<Maybe<Plus, Ident>>,
        Two<Any<Ident>, Plus>, Two<Any<Ident>, Ident>, Two<Any<Two<Ident, Plus>>, Ident>, Two<Any<Two<Ident, Plus>>, Any<Ident>>, Two<Any<Ident>, Any<Plus>>, Three<Any<Plus>, Any<Ident>, Any<Plus>>, Two<Any<Three<Ident, Plus, Semi>>, Two<Ident, Plus>>, Two<Any<Paren<Ident>>, Paren<Plus>>,
        Two<Any<Two<Paren<Ident>, Plus>>, Paren<Ident>>, Two<Any<It>, Ident>, Two<Ident, Any<Plus>>, Paren<Any<Ident>>, Paren<Two<Any<Ident>, Plus>>, Two<Paren<Any<Ident>>, Any<Plus>>, Either<Two<Any<Ident>, Plus>, Any<Ident>>, Maybe<Two<Any<Ident>, Plus>, Ident>, Maybe<Plus, Any<Ident>>, Separated<Two<Any<Ident>, Semi>, Plus>,
        Punctuated<Two<Ident, Any<LitInt>>, Plus>, Two<Any<Eof>, Eof>, Prog, Two<Any<Ident>, Eof>, Two<Any<Ident>, NotEof>, Two<Any<Two<Token![+], Token![=]>>, Token![+=]>, Two<Any<Two<Ident, LitInt>>, Two<Ident, Plus>>,
    ].into_iter().filter(|t| t.name != "Any<Maybe<Plus, Ident>>" && t.name != "Two<Any<Eof>, Eof>").collect()
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Two<Any<Three<$k, $k, Token![+]>>, Any<$k>>, Two<$k, Any<$k>>, Two<Any<Two<$k, $k>>, Any<$k>>, Any<Two<Any<Two<$k, Token![+]>>, $k>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Any<$a>, Any<Two<$a, $b>>, Two<Any<Two<$a, $b>>, Maybe<$a>>, Two<$b, Any<$a>>]) } }

fn main() {
    let q = !thorough();
    let mut s = explore("runs", types(), "a + ;", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 7 } else { 8 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("runs over several kinds of tokens", types(), "a 1 + += -> fn ; -2", &[D::Par, D::Brk], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, conform_rebuilt, &[]));
    let ts = || tys![Any<Two<Ident, Plus>>, Two<Any<Two<Ident, Plus>>, Any<Ident>>, Two<Any<Two<Ident, Plus>>, Two<Ident, LitInt>>, Any<Either<Ident, Plus>>, Any<Either<Two<Ident, Plus>, Two<Ident, Semi>>>, Two<Any<Four<Ident, Plus, Ident, Semi>>, Any<Two<Ident, Plus>>>, Any<Separated<Ident, Plus>>, Any<It>];
    let devs = ["a", "+", "1", ";", "(a)", "1 1"];
    s.push(long("long runs", ts(), &["a", "+"], (0..=24).collect(), &devs, if q { 1 } else { 2 }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("longer runs", ts(), &["a", "+"], if q { vec![64, 65, 129, 257, 258] } else { vec![64, 65, 127, 128, 129, 255, 257, 258, 511, 513, 1025, 2050] }, &devs, 1, conform_print, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("runs of items alone", tys![Any<Ident>, Any<Paren<Any<Ident>>>, Any<Either<Ident, Paren<Ident>>>, Two<Any<Ident>, Any<Paren<Ident>>>, Any<Word>, Any<Two<Ident, Ident>>], &["a"], if q { vec![0, 1, 2, 3, 8, 16, 17, 33, 64, 129, 300] } else { vec![0, 1, 2, 3, 8, 16, 17, 33, 64, 129, 300, 1030] }, &["a", "+", "(a)", "()", "(+)", "fn"], 1, conform_print, &["accepted", "accepted prefix", "leftover in group"]));
    s.push(long("runs of groups", tys![Any<Paren<Two<Ident, Plus>>>, Any<Two<Paren<Any<Ident>>, Bracket<Any<Ident>>>>, Any<Either<Paren<Ident>, Bracket<Any<Ident>>>>, Two<Any<Two<Paren<Any<Ident>>, Bracket<Ident>>>, Any<Paren<Any<Ident>>>>, Any<It>], &["(a)", "[a]"], vec![2, 5, 24, 131], &["(a)", "[a]", "(a +)", "()", "[]", "{a}", "a"], 1, conform_rebuilt, &["accepted prefix", "leftover in group"]));
    s.push(long("very long runs", tys![Any<Ident>, Any<Two<Ident, Plus>>, Any<Word>, Any<Either<Ident, Plus>>, Two<Any<Ident>, Plus>, Any<Paren<Ident>>], &["a"], vec![4096, 4097, 5000, 70000], &["+"], 0, conform_print, &["accepted"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("runs over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("runs of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C09", s)
}
