//! C11: marker productions test the position and consume nothing.
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    enum V2<A, B> { X(0 a: A), Y { b: B }, }
    enum Ends { End(0 e: Eof), More(0 n: NotEof, 1 i: Ident, 2 e: Empty), Group { #[parsel(recursive)] p: Paren<Box<Ends>>, e: Eof }, }
    struct AllOf { e1: Empty, n1: NotEof, e2: Empty, a: Ident, e3: Empty, m: Maybe<Eof>, e4: Empty }
    struct Unit;
}

macro_rules! markers { ($v:ident; $($m:ty),*) => { $( $v.extend(tys![
    $m, Two<$m, $m>, Two<$m, Ident>, Two<Ident, $m>, Three<Ident, $m, Ident>, Three<$m, Ident, $m>, Two<Ident, Two<$m, Any<Ident>>>, Maybe<$m>, Maybe<$m, Ident>, Maybe<Ident, $m>, Maybe<Plus, Two<$m, Ident>>, Two<Maybe<$m>, Ident>,
    Paren<$m>, Bracket<$m>, Brace<$m>, Two<Paren<$m>, Ident>, Paren<Two<Ident, $m>>, Paren<Two<$m, Ident>>, Two<Ident, Paren<Two<$m, Any<Ident>>>>, Two<$m, Paren<Any<Ident>>>, Either<$m, Ident>, Either<Ident, $m>, Either<Two<Ident, $m>, Two<Ident, Any<Ident>>>, Either<Two<$m, Plus>, Any<Ident>>,
    V2<$m, Ident>, V2<Two<Ident, $m>, Ident>, V2<Ident, $m>, Two<V2<Two<$m, Plus>, Ident>, Any<Ident>>, Punctuated<Two<Ident, $m>, Plus>, Punctuated<Two<$m, Ident>, Plus>, Separated<Two<Ident, $m>, Plus>, Separated<Ident, Two<Plus, $m>>, Separated<Ident, Two<$m, Plus>>,
    Any<Two<Ident, $m>>, Any<Two<$m, Ident>>, Two<Any<Ident>, $m>, Many<Two<Ident, $m>>, Many<Two<$m, Ident>>, LeftAssoc<Two<Plus, $m>, Ident>, RightAssoc<Plus, Two<Ident, $m>>, Box<$m>, Paren<Paren<$m>>, Two<Paren<Any<Ident>>, $m>, Two<Punctuated<Ident, Plus>, $m>,
]); )* } }

fn types() -> Vec<Ty> {
    let mut v = vec![];
    markers!(v; Empty, Eof, NotEof);
    v.extend(tys![
        Unit, Two<Unit, Ident>, AllOf, Either<Eof, NotEof>, Either<NotEof, Eof>, V2<Eof, NotEof>, Either<Eof, Two<NotEof, Ident>>, Two<NotEof, Eof>, Two<Eof, NotEof>, Two<Either<Eof, Empty>, Any<Ident>>, Maybe<Eof, NotEof>, Maybe<NotEof, Eof>, Any<Either<Two<Ident, NotEof>, Two<Ident, Eof>>>,
        Two<Any<Two<Ident, NotEof>>, Two<Ident, Eof>>, Separated<Two<Empty, Ident>, Two<Plus, Empty>>, Punctuated<Ident, Empty>, Punctuated<Ident, NotEof>, Two<Maybe<Eof>, Maybe<NotEof, Ident>>, Paren<Either<Eof, Ident>>, Two<Paren<Either<Ident, Eof>>, Either<Eof, Ident>>, Three<Paren<Maybe<Eof>>, Maybe<NotEof, Plus>, Eof>, Ends,
    ]);
    v
}

fn main() {
    let q = !thorough();
    let must = ["accepted", "rejected", "accepted prefix", "leftover in group"];
    let mut s = explore("markers", types(), "a +", &[D::Par, D::Brk], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 5 } else { 7 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &must);
    s.extend(explore("markers before tokens of every kind", tys![Eof, NotEof, Empty, Paren<Eof>, Paren<NotEof>, Bracket<NotEof>, Brace<Empty>, Brace<Eof>, Two<NotEof, Ident>, Two<Ident, Eof>, Two<Ident, NotEof>, Maybe<Eof, Ident>, Maybe<NotEof, Any<Ident>>, Either<Eof, Any<Ident>>, Any<Two<NotEof, Ident>>, Many<Ident>,
        Any<Two<NotEof, Either<Lit, Either<Word, syn::Lifetime>>>>, Any<Two<NotEof, Token![&&]>>, Many<Two<syn::Lifetime, Empty>>, Two<Maybe<NotEof, syn::Lifetime>, Eof>, Separated<NotEof, syn::Lifetime>, Many<Two<Token![->], NotEof>>, Any<Two<NotEof, Lit>>, Either<Eof, Either<Two<NotEof, syn::Lifetime>, Any<Token![->]>>>],
        "a fn true 1 -1 1.5 'c' \"\" b'x' b\"\" _ 'a + . ; , # $ -> ..= ///", &D::ALL, Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, conform_print, &[]));
    s.push(long("markers in long inputs", tys![Any<Two<Ident, NotEof>>, Two<Any<Ident>, Eof>, Two<Any<Two<Ident, NotEof>>, Two<Ident, Eof>>, Many<Ident>, Separated<Ident, NotEof>, Many<Either<Ident, Paren<Eof>>>, Punctuated<Ident, Empty>, Any<Either<Two<NotEof, Ident>, Paren<Either<Eof, Ident>>>>, LeftAssoc<NotEof, Ident>],
        &["a"], if q { vec![1, 2, 9, 33, 130, 301] } else { vec![1, 2, 9, 33, 130, 301, 1027] }, &["()", "(a)", "+", "[]", "(())"], 1, conform_print, &["accepted", "rejected", "accepted prefix"]));
    main_("C11", s)
}
