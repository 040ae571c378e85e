//! C02: alternation picks the first matching alternative, without side effects.
#[path = "../shared/alt.rs"] mod alt;
use alt::*;
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Either<T3<$k, $k, Token![+]>, Any<$k>>, Either<T2<$k, $k>, T3<$k, $k, Token![+]>>, E3<T3<$k, $k, Token![+]>, T2<$k, $k>, $k>, T2<E2<T3<$k, $k, Token![+]>, $k>, Any<$k>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Either<$a, $b>, Either<T2<$a, $b>, T2<$a, $a>>, E3<T2<$a, $b>, $b, $a>, E2<T2<$a, $b>, $a>]) } }

fn main() {
    let q = !thorough();
    let mut s = explore("two alternatives", pairs(), "a + 1", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 5 } else { 6 }, sent2: if q { 3 } else { 4 } }, conform, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("three alternatives", triples(), "a + 1", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 5 } else { 6 }, sent2: if q { 3 } else { 4 } }, conform, &["accepted", "rejected", "accepted prefix", "leftover in group"]));
    s.extend(explore("nested alternatives", nested(), "a + 1 ;", &[D::Par, D::Brk], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 6 } else { 7 }, sent2: if q { 3 } else { 5 } }, conform, &["accepted", "rejected", "accepted prefix", "leftover in group"]));
    s.push(long("long common prefixes", tys![Long16, Any<Expr>, Expr, Either<Many<T2<Ident, Plus>>, Any<Ident>>, Either<T2<Any<T2<Ident, Plus>>, Semi>, T2<Any<T2<Ident, Plus>>, Ident>>, E2<T2<Separated<Ident, Plus>, Semi>, Separated<Ident, Plus>>],
        &["a", "+"], if q { vec![7, 8, 9, 10, 31] } else { vec![7, 8, 9, 10, 31, 66, 131] }, &["a", "+", "1", ";", "(a)"], 2, conform, &["accepted", "rejected"]));
    s.extend(explore("very many alternatives", tys![Many70, Either<T2<Many70, Semi>, Many70>, Any<E2<T2<Many70, LitInt>, T2<Many70, Semi>>>], "a + ;", &[], Bounds { forest: if q { 6 } else { 7 }, sent: 7, sent2: 0 }, conform_print, &["accepted", "accepted prefix"]));
    s.push(long("long alternating lists", tys![Any<E3<T2<Ident, Plus>, T2<Ident, Semi>, LitInt>>, Many<Either<T2<Ident, Plus>, Either<T2<Ident, Semi>, LitInt>>>, Many<ER<Ident, Plus>>, Punctuated<E3<T3<Ident, Plus, Ident>, T2<Ident, Plus>, LitInt>, Semi>],
        &["a", "+", "a", ";", "1"], vec![40, 261, 1033], &["a", "+", "1", ";", "()"], 1, conform, &["accepted", "rejected"]));
    s.push(long("alternatives in groups", tys![Any<Deep>, Many<E2<Paren<T3<Ident, Plus, Ident>>, Paren<Ident>>>, Any<E3<T2<Paren<Ident>, Plus>, Paren<T2<Ident, Plus>>, Paren<Eof>>>],
        &["(a + a)", "(a)"], vec![2, 5, 18], &["(a + a)", "(a)", "(a +)", "(a + 1)", "[a + 1]", "a", "()", "+"], 2, conform, &["accepted", "rejected", "leftover in group"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("alternatives over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("alternatives of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C02", s)
}
