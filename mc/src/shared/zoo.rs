//! A broad collection of grammar types with text forms: every helper and literal type, alone
//! and in compositions, and derived types of every shape.
#![allow(unused)]
use mc::{explore::*, gram::*, grammar, kw_spec, run::*, spec::*, tok::*};
use parsel::ast::*;
use std::fmt::Display;
use std::str::FromStr;

pub type Plus = Token![+];
pub type Minus = Token![-];
pub type Semi = Token![;];
pub type Comma = Token![,];
pub type Arrow = Token![->];
pub type Path2 = Token![::];
pub type Kid = CustomIdent<kw::Keywords>;

parsel::define_keywords! { pub mod kw { alpha => Alpha; fn => Fn; alphabet => Alphabet; _ => Under; } }
kw_spec! { kw::Alpha => "alpha"; kw::Fn => "fn"; kw::Alphabet => "alphabet"; kw::Under => "_"; }

grammar! {
    struct Unit;
    struct One(0: Word);
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    enum Alt<A, B> { L(0 a: A), R { b: B }, }
    enum Shapes { Pair(0 a: Kid, 1 b: Arrow, 2 c: Kid), Named { k: kw::Alpha, v: Lit }, Kw(0 k: kw::Fn), Nested(0 p: #[parsel(recursive)] Paren<Box<Shapes>>), Nothing(0 u: kw::Under), }
    struct Expr { l: Prim, #[parsel(recursive)] r: Maybe<Oper, Box<Expr>> }
    enum Oper { Add(0 o: Plus), Sub(0 o: Minus), Ge(0 o: Token![>=]), Shl(0 o: Token![<<=]), Gt(0 o: Token![>]), }
    enum Prim { Lit(0 l: Lit), Par(0 p: #[parsel(recursive)] Paren<Box<Expr>>), Idx { n: Word, #[parsel(recursive)] i: Bracket<Any<Box<Expr>>> }, Name(0 n: Word), }
    struct Stmt { name: Kid, colon: Maybe<Token![:], Separated<Kid, Path2>>, value: Maybe<Token![=], Expr>, end: Semi }
    struct Block(0: #[parsel(recursive)] Brace<Many<Box<Item>>>);
    enum Item { Stmt(0 s: Stmt), Block(0 b: #[parsel(recursive)] Block), List(0 l: Bracket<Punctuated<Kid, Comma>>, 1 s: Semi), }
    struct Json(0: #[parsel(recursive)] Either<Lit, Either<Bracket<Punctuated<Box<Json>, Comma>>, Brace<Punctuated<Two<LitStr, Two<Token![:], Box<Json>>>, Comma>>>>);
    enum Ops { A(0 a: Token![&&]), B(0 a: Token![&]), C(0 a: Token![..=]), D(0 a: Token![..]), E(0 a: Token![.]), F(0 a: Token![==]), G(0 a: Token![=]), H(0 a: Token![<<]), I(0 a: Token![<]), J(0 a: Token![|]), }
    struct Sum(0: LeftAssoc<Either<Plus, Minus>, Prod>);
    struct Prod(0: RightAssoc<Token![*], Either<LitFloat, Two<Word, Maybe<Path2, Word>>>>);
    enum Wide {
        // not in the order of their names, printed or parsed
        N { z: Word, y: Word, k: Plus, j: Word, x: Word, b: Word, c: Word, a: Word, d: Word, w: Word, v: Word, l: Word },
        T(0 a: Word, 1 b: Word, 2 c: Word, 3 d: Word, 4 e: Word, 5 f: Word, 6 g: Word, 7 h: Word, 8 i: Word, 9 j: Word, 10 k: Word, 11 l: Maybe<Plus>, 12 m: Word),
        P(0 a: Word, 1 b: Plus, 2 c: Word, 3 d: Plus, 4 e: Word, 5 f: Plus, 6 g: Word, 7 h: Plus, 8 i: Word, 9 j: Plus, 10 k: Word, 11 l: Plus),
    }
    struct WideT(0: Word, 1: Word, 2: Word, 3: Maybe<Plus>, 4: Word, 5: Word, 6: Word, 7: Word, 8: Word, 9: Word, 10: Word, 11: Word, 12: Maybe<Lit>);
    struct WideN { m: Word, l: Plus, k: Word, j: Plus, i: Word, h: Plus, g: Word, f: Plus, e: Word, d: Plus, c: Word, b: Plus, a: Maybe<Lit> }
    struct Rec3 { #[parsel(recursive)] p: Maybe<Minus, Box<Rec3>>, n: Word, #[parsel(recursive)] q: Paren<Maybe<Plus, Box<Rec3>>>, #[doc = "an option"] #[parsel(recursive)] r: Maybe<Plus, Box<Rec3>> }
    struct Life(0: syn::Lifetime, 1: Maybe<Plus, syn::Lifetime>);
}

/// Calls a macro with the list of types.
macro_rules! zoo { ($m:ident) => { $m![
    // the leaves
    Word, Kid, kw::Alpha, kw::Fn, kw::Under, LitBool, LitByte, LitInt, LitUint, LitFloat, LitChar, LitStr, LitByteStr, Lit, Empty, Eof, NotEof,
    // one helper each, over leaves
    Maybe<Plus>, Maybe<Plus, Word>, Maybe<Arrow, Lit>, Maybe<kw::Alpha, Maybe<Minus>>, Maybe<Word, Eof>, Maybe<Eof, Empty>, Maybe<Empty, Maybe<Plus>>, Maybe<NotEof, Any<Word>>, Maybe<Maybe<Plus>, Any<Word>>, Maybe<Any<Word>, Eof>, Either<Eof, Word>, Either<Empty, Word>, Either<Any<Word>, Lit>, Two<Empty, Eof>, Any<Two<Word, Empty>>,
    Paren<Word>, Bracket<Lit>, Brace<kw::Fn>, Paren<Empty>, Bracket<Any<Lit>>, Brace<Many<Word>>, Paren<Bracket<Brace<Maybe<Plus>>>>,
    Punctuated<Word, Comma>, Punctuated<Lit, Plus>, Punctuated<Arrow, Semi>, Punctuated<Paren<Word>, Path2>, Punctuated<Two<Word, Word>, Word>,
    Separated<Word, Comma>, Separated<Lit, Minus>, Separated<Arrow, Semi>, Separated<Bracket<Any<Word>>, Path2>, Separated<Word, Word>,
    Any<Word>, Any<Lit>, Any<Arrow>, Any<Paren<Any<Lit>>>, Any<Ops>, Many<Lit>, Many<kw::Alpha>, Many<Either<Kid, kw::Alpha>>, Any<Two<Word, Maybe<Plus>>>,
    LeftAssoc<Plus, Word>, LeftAssoc<Arrow, Lit>, LeftAssoc<Either<Plus, Minus>, Either<LitInt, Word>>, LeftAssoc<Plus, Paren<LeftAssoc<Minus, Word>>>,
    RightAssoc<Plus, Word>, RightAssoc<Arrow, Lit>, RightAssoc<Either<Plus, Minus>, Either<LitInt, Word>>, RightAssoc<Plus, Paren<RightAssoc<Minus, Word>>>,
    Either<Word, Lit>, Either<Lit, Word>, Either<LitInt, LitUint>, Either<Two<Word, Plus>, Two<Word, Minus>>, Either<kw::Alpha, Kid>, Either<Paren<Word>, Bracket<Word>>, Either<Either<LitFloat, LitInt>, Either<LitChar, LitStr>>,
    // sequences in which what follows matters
    Two<Any<Word>, Any<Lit>>, Two<Separated<Word, Comma>, Semi>, Two<LeftAssoc<Plus, Word>, Maybe<Minus, Word>>, Three<Maybe<Plus>, Word, Maybe<Plus, Word>>, Three<Paren<Any<Word>>, Bracket<Any<Word>>, Brace<Any<Word>>>, Two<NotEof, Two<Word, Eof>>,
    Two<Plus, Plus>, Two<Plus, Two<Token![=], Plus>>, Two<Token![+=], Plus>, Two<Token![<<=], Token![=]>, Two<Minus, LitUint>, Two<Arrow, Minus>, Alt<Two<Word, Arrow>, Lit>, Alt<Paren<Kid>, Any<Kid>>,
    // derived grammars
    Unit, One, Shapes, Expr, Oper, Prim, Stmt, Block, Item, Json, Ops, Sum, Prod, Life, Wide, Any<Wide>, Any<WideT>, Any<WideN>, Rec3, Any<Rec3>, Many<Item>, Many<Stmt>, Any<Shapes>, Punctuated<Json, Semi>, Punctuated<Two<LitStr, Two<Token![:], Json>>, Comma>, Separated<Expr, Comma>, Many<Ops>, Paren<Many<Expr>>,
] } }
pub(crate) use zoo;

/// words, literals and operators; every type of the zoo can be derived from these
pub const ALPHA: &str = "a alpha fn _ 1 -1 1.5 'c' \"s\" true + - ; , -> = ::";
pub const SMALL: &str = "a 1 + - ; ,";
/// typical inputs, to be repeated for long ones
pub const PERIODS: &[&[&str]] = &[&["a"], &["a", "+"], &["a", ","], &["a", ";"], &["1", "+"], &["1"], &["-1"], &["->"], &["(a)"], &["(a)", "::"], &["a", "+", "1", "-"], &["a : a = 1 + a ;"], &["{ a ; [ a , a ] ; }"], &["\"s\" : [ 1 , { } ] ,"], &["&", "&&", ".."], &["alpha 1"], &["a -> a"], &["1.5", "*", "a", "*"]];
