//! C04: Maybe is decided by its prefix alone.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    enum Alt { One(0 a: Ident, 1 b: Token![+]), Two(0 a: LitInt), }
}

type Plus = Token![+];
type Semi = Token![;];

fn types() -> Vec<Ty> {
    tys![
        Maybe<Plus, Ident>, Maybe<Plus>, Maybe<Ident>, Maybe<Ident, Plus>, Maybe<Paren<Ident>, Ident>, Maybe<Plus, Paren<Ident>>,
        Maybe<Two<Ident, Plus>, Ident>, Maybe<Plus, Two<Plus, Plus>>, Maybe<Plus, Maybe<Ident>>, Maybe<Maybe<Plus>, Ident>,
        Maybe<Maybe<Plus, Ident>, Plus>, Maybe<Any<Plus>, Ident>, Maybe<Plus, Any<Ident>>, Maybe<Eof>, Maybe<Eof, Eof>, Maybe<NotEof, Plus>, Maybe<Empty, Ident>, Maybe<Plus, Eof>,
        Maybe<Alt, Plus>, Maybe<Plus, Alt>, Maybe<Either<Two<Ident, Ident>, Plus>, LitInt>, Maybe<Separated<Ident, Plus>, Ident>,
        Maybe<Plus, Separated<Ident, Plus>>, Maybe<LeftAssoc<Plus, Ident>>, Maybe<Paren<Maybe<Ident, Plus>>, Maybe<Plus>>,
        Maybe<Paren<Punctuated<Ident, Plus>>>, Maybe<Bracket<Empty>, Ident>, Maybe<Brace<Eof>>, Maybe<LitInt, LitInt>, Maybe<Lit, Plus>,
        Two<Maybe<Plus, Ident>, Ident>, Two<Maybe<Two<Ident, Plus>>, Ident>, Two<Maybe<Ident, Plus>, Maybe<Ident>>, Two<Ident, Maybe<Plus, Ident>>,
        Three<Maybe<Plus>, Maybe<Ident>, Maybe<LitInt>>, Three<Ident, Maybe<Plus, LitInt>, Plus>, Three<Maybe<Paren<Ident>>, Ident, Maybe<Paren<Empty>, Ident>>,
        Paren<Maybe<Plus, Ident>>, Paren<Maybe<Ident>>, Any<Two<Maybe<Plus>, Ident>>, Separated<Two<Maybe<Plus>, Ident>, Semi>, Punctuated<Two<Ident, Maybe<Plus, LitInt>>, Semi>,
        Either<Two<Maybe<Plus, Ident>, Plus>, Any<Plus>>, Maybe<Token![+=], Ident>, Maybe<Token![=], Ident>, Maybe<Token![..], Token![.]>, Maybe<Token![fn], Ident>, Maybe<Word, Ident>,
    ]
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Two<Maybe<Three<$k, $k, Token![+]>, Ident>, Any<$k>>, Two<Maybe<Two<$k, $k>>, Any<$k>>, Maybe<$k, Three<$k, $k, Token![+]>>, Two<Maybe<$k, $k>, Maybe<$k>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Maybe<$a, $b>, Maybe<$a>, Two<Maybe<$a, $b>, $a>, Two<$b, Maybe<$a>>, Maybe<Two<$a, $b>, $a>]) } }

fn main() {
    let q = !thorough();
    let mut s = explore("options", types(), "a + 1 ;", &[D::Par, D::Brk], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 6 } else { 8 }, sent2: if q { 3 } else { 4 } }, conform_print,
        &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("options over operators and keywords", types(), "a fn + = += .. -1", &[D::Par], Bounds { forest: if q { 4 } else { 5 }, sent: 0, sent2: 0 }, conform_print, &[]));
    s.push(long("options in long inputs", tys![Any<Two<Maybe<Plus, LitInt>, Ident>>, Punctuated<Two<Ident, Maybe<Plus, LitInt>>, Semi>, Many<Three<Ident, Maybe<Plus, LitInt>, Maybe<Semi>>>, Any<Three<Maybe<Ident, Plus>, LitInt, Semi>>],
        &["a", "+", "1", ";"], if q { vec![8, 130, 1037] } else { vec![8, 64, 130, 257, 1037] }, &["a", "+", "1", ";", "()"], 1, conform_print, &["accepted", "rejected"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("options over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("options of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C04", s)
}
