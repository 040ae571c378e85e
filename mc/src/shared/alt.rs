//! Alternations shared by several checks.
use mc::{grammar, spec::*, tys};
use parsel::ast::*;

pub type Plus = Token![+];
pub type Minus = Token![-];
pub type Semi = Token![;];

grammar! {
    struct T1<A>(0: A);
    struct T2<A, B>(0: A, 1: B);
    struct T3<A, B, C>(0: A, 1: B, 2: C);
    struct T4<A, B, C, D>(0: A, 1: B, 2: C, 3: D);
    struct N2<A, B> { b: A, a: B }
    enum E0 {}
    enum E1<A> { V0(0 a: A), }
    enum E2<A, B> { V0(0 a: A), V1(0 b: B), }
    enum E3<A, B, C> { V0(0 a: A), V1 { b: B }, V2(0 c: C), }
    enum E4<A, B, C, D> { V0 { a: A }, V1(0 b: B), V2(0 c: C), V3 { d: D }, }
    enum EN2<A, B> { W { x: A, y: B }, V { y: B, x: A }, }
    enum ET2<A, B> { Z(0 x: A, 1 y: B), A(0 y: B, 1 x: A), }
    enum EL<A, B> { X(0 x: A), XY(0 x: A, 1 y: B), XYX(0 x: A, 1 y: B, 2 z: A), }
    enum ER<A, B> { XYX(0 x: A, 1 y: B, 2 z: A), XY { x: A, y: B }, X(0 x: A), }
    enum EU<A> { V(0 a: A), Nothing, Never, }
    enum EUM<A, B> { V(0 a: A), Unit, W(0 b: B), }
    enum EUF<A> { Unit, V { a: A }, }
    enum EUT<A, B> { V { a: A }, W(0 b: B), Unit, Again, X(0 a: A, 1 b: B), }
    enum Units { First, Second, }
    enum Dup { A(0 x: Ident), B(0 x: Ident), C(0 x: Ident), }
    enum Deep { P(0 x: Paren<Deep2>), B(0 x: Bracket<Deep2>), I(0 x: Ident), }
    enum Deep2 { A(0 a: Ident, 1 b: Plus, 2 c: Ident), B(0 a: Ident, 1 b: Plus, 2 c: LitInt), C(0 a: #[parsel(recursive)] Box<Deep>), }
    enum Expr {
        Bin(0 l: Atom, 1 o: Plus, 2 r: #[parsel(recursive)] Box<Expr>),
        Neg { m: Minus, #[parsel(recursive)] e: Box<Expr> },
        Atom(0 a: Atom),
    }
    enum Atom { Lit(0 i: LitInt), Par(0 p: #[parsel(recursive)] Paren<Box<Expr>>), Name(0 n: Ident), Call { f: Word, #[parsel(recursive)] a: Bracket<Punctuated<Box<Expr>, Semi>> }, }
    enum Many70 {
        V0 { x9: Plus, x8: Plus, x7: Ident, x6: Plus, x5: Ident, x4: Ident },
        V1(0 x0: Ident, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Plus),
        V2(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V3 { x9: Ident, x8: Plus, x7: Ident, x6: Plus, x5: Plus, x4: Plus },
        V4(0 x0: Plus, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Ident),
        V5(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V6 { x9: Plus, x8: Ident, x7: Ident, x6: Plus, x5: Ident, x4: Plus },
        V7(0 x0: Ident, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Ident),
        V8(0 x0: Plus, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Plus),
        V9 { x9: Ident, x8: Ident, x7: Ident, x6: Plus, x5: Plus, x4: Ident },
        V10(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Plus),
        V11(0 x0: Ident, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Plus),
        V12 { x9: Plus, x8: Plus, x7: Plus, x6: Ident, x5: Ident, x4: Ident },
        V13(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Plus),
        V14(0 x0: Plus, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V15 { x9: Ident, x8: Plus, x7: Plus, x6: Ident, x5: Plus, x4: Plus },
        V16(0 x0: Plus, 1 x1: Plus, 2 x2: Ident, 3 x3: Plus, 4 x4: Plus, 5 x5: Ident),
        V17(0 x0: Ident, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V18 { x9: Plus, x8: Ident, x7: Plus, x6: Ident, x5: Ident, x4: Plus },
        V19(0 x0: Ident, 1 x1: Plus, 2 x2: Ident, 3 x3: Plus, 4 x4: Ident, 5 x5: Ident),
        V20(0 x0: Plus, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Plus),
        V21 { x9: Ident, x8: Ident, x7: Plus, x6: Ident, x5: Plus, x4: Ident },
        V22(0 x0: Plus, 1 x1: Ident, 2 x2: Ident, 3 x3: Plus, 4 x4: Plus, 5 x5: Plus),
        V23(0 x0: Ident, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Ident),
        V24 { x9: Plus, x8: Plus, x7: Ident, x6: Ident, x5: Ident, x4: Ident },
        V25(0 x0: Ident, 1 x1: Ident, 2 x2: Ident, 3 x3: Plus, 4 x4: Ident, 5 x5: Plus),
        V26(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Ident),
        V27 { x9: Ident, x8: Plus, x7: Ident, x6: Ident, x5: Plus, x4: Plus },
        V28(0 x0: Plus, 1 x1: Plus, 2 x2: Plus, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V29(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Plus),
        V30 { x9: Plus, x8: Ident, x7: Ident, x6: Ident, x5: Ident, x4: Plus },
        V31(0 x0: Ident, 1 x1: Plus, 2 x2: Plus, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V32(0 x0: Plus, 1 x1: Plus, 2 x2: Ident, 3 x3: Plus, 4 x4: Ident, 5 x5: Plus),
        V33 { x9: Ident, x8: Ident, x7: Ident, x6: Ident, x5: Plus, x4: Ident },
        V34(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Plus, 5 x5: Plus),
        V35(0 x0: Ident, 1 x1: Plus, 2 x2: Ident, 3 x3: Plus, 4 x4: Plus, 5 x5: Ident),
        V36 { x9: Plus, x8: Plus, x7: Plus, x6: Plus, x5: Plus, x4: Plus },
        V37(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Ident, 5 x5: Plus),
        V38(0 x0: Plus, 1 x1: Ident, 2 x2: Ident, 3 x3: Plus, 4 x4: Ident, 5 x5: Ident),
        V39 { x9: Ident, x8: Plus, x7: Plus, x6: Plus, x5: Ident, x4: Plus },
        V40(0 x0: Plus, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V41(0 x0: Ident, 1 x1: Ident, 2 x2: Ident, 3 x3: Plus, 4 x4: Plus, 5 x5: Plus),
        V42 { x9: Plus, x8: Ident, x7: Plus, x6: Plus, x5: Plus, x4: Ident },
        V43(0 x0: Ident, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V44(0 x0: Plus, 1 x1: Plus, 2 x2: Plus, 3 x3: Ident, 4 x4: Ident, 5 x5: Plus),
        V45 { x9: Ident, x8: Ident, x7: Plus, x6: Plus, x5: Ident, x4: Ident },
        V46(0 x0: Plus, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Plus),
        V47(0 x0: Ident, 1 x1: Plus, 2 x2: Plus, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V48 { x9: Plus, x8: Plus, x7: Ident, x6: Plus, x5: Plus, x4: Plus },
        V49(0 x0: Ident, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Plus),
        V50(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V51 { x9: Ident, x8: Plus, x7: Ident, x6: Plus, x5: Ident, x4: Plus },
        V52(0 x0: Plus, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Ident),
        V53(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Ident, 4 x4: Plus, 5 x5: Plus),
        V54 { x9: Plus, x8: Ident, x7: Ident, x6: Plus, x5: Plus, x4: Ident },
        V55(0 x0: Ident, 1 x1: Plus, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Plus),
        V56(0 x0: Plus, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Plus),
        V57 { x9: Ident, x8: Ident, x7: Ident, x6: Plus, x5: Ident, x4: Ident },
        V58(0 x0: Plus, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Ident, 5 x5: Plus),
        V59(0 x0: Ident, 1 x1: Plus, 2 x2: Ident, 3 x3: Ident, 4 x4: Plus, 5 x5: Ident),
        V60 { x9: Plus, x8: Plus, x7: Plus, x6: Ident, x5: Plus, x4: Plus },
        V61(0 x0: Ident, 1 x1: Ident, 2 x2: Plus, 3 x3: Plus, 4 x4: Plus, 5 x5: Ident),
        V62(0 x0: Plus, 1 x1: Ident, 2 x2: Ident, 3 x3: Ident, 4 x4: Ident, 5 x5: Ident),
        V63 { x9: Ident, x8: Plus, x7: Plus, x6: Ident, x5: Ident, x4: Plus },
        W0(0 x0: Ident, 1 x1: Any<Ident>, 2 x2: Semi),
        W1(0 x0: Ident, 1 x1: Plus, 2 x2: Semi),
        W2(0 x0: Any<Ident>, 1 x1: Plus, 2 x2: Plus),
        W3(0 x0: Ident, 1 x1: Ident),
        W4(0 x0: Maybe<Plus, Ident>, 1 x1: Semi),
        W5(0 x0: Ident),
        W6(0 x0: Any<Ident>, 1 x1: Any<Plus>),
    }
    enum Long16 {
        A(0 a: Ident, 1 b: Plus, 2 c: Ident, 3 d: Plus, 4 e: Ident, 5 f: Plus, 6 g: Ident, 7 h: Plus, 8 i: LitInt),
        B(0 a: Ident, 1 b: Plus, 2 c: Ident, 3 d: Plus, 4 e: Ident, 5 f: Plus, 6 g: Ident, 7 h: Semi),
        C(0 a: Ident, 1 b: Plus, 2 c: Ident, 3 d: Plus, 4 e: Ident, 5 f: Semi),
        D(0 a: Ident, 1 b: Plus, 2 c: Ident, 3 d: Semi),
        E(0 a: Ident, 1 b: Semi),
        F(0 a: Semi),
        G(0 a: Ident, 1 b: Any<T2<Plus, Ident>>, 2 c: Semi, 3 d: Semi),
        H(0 a: Many<T2<Ident, Plus>>),
        I(0 a: Paren<Ident>, 1 b: Paren<Ident>, 2 c: Paren<Plus>),
        J(0 a: Paren<Ident>, 1 b: Paren<Plus>),
        K(0 a: Paren<Ident>, 1 b: Paren<Ident>, 2 c: Paren<Semi>),
        L(0 a: Paren<Plus>),
        M { p: Paren<T2<Ident, Plus>>, q: Ident },
        N(0 a: Bracket<Eof>, 1 b: Ident),
        O(0 a: Bracket<Any<Ident>>, 1 b: Plus),
        P(0 a: LitInt),
        Q(0 a: Any<Plus>, 1 b: Eof),
    }
}

macro_rules! cross2 { ($v:ident; [$($a:ty),* $(,)?] $b:tt) => { $( cross2!(@ $v; $a; $b); )* };
    (@ $v:ident; $a:ty; [$($b:ty),* $(,)?]) => { $( $v.extend(tys![E2<$a, $b>, Either<$a, $b>]); )* } }
macro_rules! cross3 { ($v:ident; [$($a:ty),* $(,)?] $b:tt $c:tt) => { $( cross3!(@ $v; $a; $b $c); )* };
    (@ $v:ident; $a:ty; [$($b:ty),* $(,)?] $c:tt) => { $( cross3!(@@ $v; $a; $b; $c); )* };
    (@@ $v:ident; $a:ty; $b:ty; [$($c:ty),* $(,)?]) => { $( $v.extend(tys![E3<$a, $b, $c>]); )* } }

type IP = T2<Ident, Plus>;
type IPI = T3<Ident, Plus, Ident>;
type PI = T2<Plus, Ident>;

pub fn pairs() -> Vec<Ty> {
    let mut v = tys![E0, Units, E1<Ident>, E1<IPI>, EU<IPI>, EU<Plus>, Dup, EUM<Ident, IPI>, EUM<IPI, Ident>, EUM<IPI, IP>, EUM<Paren<Ident>, Paren<Plus>>, EUF<Ident>, EUF<Eof>, EUT<IPI, Ident>, EUT<Plus, LitInt>,
        T2<EUM<IPI, Ident>, Any<Ident>>, T2<EUF<Plus>, Many<Either<Plus, Ident>>>, T2<EUT<Plus, IP>, Maybe<Ident, Plus>>, Either<EUM<IPI, Ident>, Ident>, Either<IPI, EUF<Ident>>, Either<Empty, Ident>, E3<IPI, Empty, Ident>, T2<Either<Empty, Ident>, Ident>, T2<E3<IP, Maybe<LitInt>, Ident>, Many<Ident>>, Paren<EUM<IPI, Ident>>, E2<Any<Plus>, Ident>];
    cross2!(v; [Ident, Plus, IP, IPI, Paren<Ident>, Paren<IPI>, T2<Paren<Ident>, Plus>, Maybe<Plus, Ident>, Eof]
               [Ident, LitInt, IP, PI, T3<Ident, Plus, LitInt>, Paren<Ident>, Paren<IP>, T2<Paren<T2<Ident, Ident>>, Ident>, Any<Ident>, Maybe<Ident, Ident>, NotEof]);
    v
}
pub fn triples() -> Vec<Ty> {
    let mut v = vec![];
    cross3!(v; [IPI, Paren<Ident>, PI] [T2<Ident, LitInt>, Paren<IP>, Ident] [IP, T2<Ident, Eof>, LitInt, T2<Paren<Any<Ident>>, Plus>]);
    v
}
pub fn nested() -> Vec<Ty> {
    tys![
        EN2<Ident, Plus>, ET2<Ident, Plus>, EN2<Plus, Paren<Ident>>, ET2<Paren<Ident>, Ident>, EL<Ident, Plus>, ER<Ident, Plus>, ER<Paren<Ident>, Plus>, EL<Ident, Ident>, ER<Ident, Ident>,
        E2<E2<IPI, Plus>, E2<IP, Ident>>, Either<Either<IPI, Plus>, Either<IP, Ident>>, E2<Either<T2<Ident, LitInt>, Plus>, E3<IPI, PI, T2<Ident, Semi>>>, Either<E2<IPI, T2<Ident, LitInt>>, Either<T4<Ident, Plus, Ident, Plus>, Plus>>,
        T2<E2<IPI, Ident>, Plus>, T2<Either<IPI, IP>, E2<LitInt, Ident>>, Paren<E2<IPI, Ident>>, Any<E2<IPI, Ident>>, Any<Either<IPI, T2<Ident, Semi>>>, Many<E3<IPI, T2<Ident, Semi>, LitInt>>, Punctuated<ER<Ident, Plus>, Semi>,
        Separated<E2<T2<Ident, Ident>, Ident>, Either<T2<Plus, Plus>, Plus>>, Maybe<E2<IPI, LitInt>, Either<Ident, Plus>>, LeftAssoc<Either<Plus, Semi>, E2<Paren<Ident>, Ident>>, RightAssoc<E2<Plus, Semi>, Either<IP, Ident>>,
        E4<T4<Ident, Plus, Ident, Plus>, IPI, IP, Ident>, E4<Ident, IP, IPI, T4<Ident, Plus, Ident, Plus>>, E4<T2<Paren<IPI>, Ident>, T2<Paren<IP>, Plus>, Paren<Ident>, Paren<Eof>>,
        Deep, Deep2, Expr, Atom, Long16, Either<Long16, Expr>, E2<Paren<E2<Paren<IPI>, Paren<IP>>>, Paren<E2<Paren<Ident>, Plus>>>, Paren<Either<Bracket<Either<IPI, IP>>, Bracket<Ident>>>,
        Either<Any<Ident>, Plus>, E2<Maybe<Plus>, Ident>, E2<Many<Ident>, Many<Plus>>, Either<Many<IP>, Many<Ident>>, E2<Separated<Ident, Plus>, Separated<Ident, Semi>>, E2<T2<Separated<Ident, Plus>, Semi>, Separated<Ident, Plus>>,
        E2<Separated<T1<Ident>, Plus>, T2<Any<T2<Ident, Plus>>, Semi>>,
    ]
}
