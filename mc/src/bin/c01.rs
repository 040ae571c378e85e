//! C01: struct-like productions parse as exact sequences.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Semi = Token![;];
type Path2 = Token![::];

grammar! {
    // every shape of constructor, generic in its fields
    struct U;
    struct T0();
    struct T1<A>(0: A);
    struct T2<A, B>(0: A, 1: B);
    struct T3<A, B, C>(0: A, 1: B, 2: C);
    struct N0 {}
    struct N1<A> { a: A }
    struct N2<A, B> { b: A, a: B }
    struct N3<A, B, C> { c: A, a: B, b: C }
    enum VT0 { V(), }
    enum VU { V, }
    enum VN0 { V {}, }
    enum VT1<A> { V(0 a: A), }
    enum VT2<A, B> { V(0 a: A, 1 b: B), }
    enum VT3<A, B, C> { V(0 a: A, 1 b: B, 2 c: C), }
    enum VN1<A> { V { a: A }, }
    enum VN2<A, B> { V { b: A, a: B }, }
    enum VN3<A, B, C> { V { c: A, a: B, b: C }, }
    // concrete definitions, repeated and unordered field types
    struct Same { z: Ident, y: Ident, x: Ident }
    struct Mixed { z: Ident, eq: Token![=], y: Ident, m: Maybe<Plus, Ident>, x: Paren<Ident> }
    struct Tup5(0: Ident, 1: Plus, 2: Ident, 3: Plus, 4: LitInt);
    struct Nested { a: T2<Ident, Plus>, b: N2<Ident, T1<LitInt>>, c: Paren<T2<Ident, Ident>> }
    struct Wide8 { h: Ident, g: Plus, f: Ident, e: Plus, d: LitInt, c: Plus, b: Ident, a: Semi }
    struct Wide12(0: Ident, 1: Plus, 2: Ident, 3: Plus, 4: Ident, 5: Plus, 6: Ident, 7: Plus, 8: Ident, 9: Plus, 10: Ident, 11: Plus);
    struct Wide34 {
        f33: Ident, f32: Plus, f31: Ident, f30: Plus, f29: Ident, f28: Plus, f27: Ident, f26: Plus, f25: Ident, f24: Plus, f23: Ident, f22: Plus,
        f21: Ident, f20: Plus, f19: Ident, f18: Plus, f17: Ident, f16: Plus, f15: Ident, f14: Plus, f13: Ident, f12: Plus, f11: Ident, f10: Plus,
        f9: Ident, f8: Plus, f7: Ident, f6: Plus, f5: Ident, f4: Plus, f3: Ident, f2: Plus, f1: Ident, f0: Plus
    }
    struct Wide70 { f0: Ident, f29: Plus, f58: Semi, f17: Semi, f46: Plus, f5: Ident, f34: Plus, f63: Ident, f22: Ident, f51: Paren<Ident>, f10: Plus, f39: Paren<Ident>, f68: Ident, f27: Ident, f56: Ident, f15: Paren<Ident>, f44: Ident, f3: Plus, f32: Plus, f61: Ident, f20: Paren<Ident>, f49: Semi, f8: Paren<Ident>, f37: Paren<Ident>, f66: Semi, f25: Ident, f54: Semi, f13: Paren<Ident>, f42: Ident, f1: Ident, f30: Semi, f59: Ident, f18: Ident, f47: Ident, f6: Ident, f35: Ident, f64: Plus, f23: Semi, f52: Semi, f11: Plus, f40: Ident, f69: Plus, f28: Ident, f57: Ident, f16: Paren<Ident>, f45: Plus, f4: Paren<Ident>, f33: Ident, f62: Ident, f21: Ident, f50: Paren<Ident>, f9: Ident, f38: Plus, f67: Plus, f26: Ident, f55: Paren<Ident>, f14: Semi, f43: Paren<Ident>, f2: Paren<Ident>, f31: Semi, f60: Ident, f19: Semi, f48: Paren<Ident>, f7: Ident, f36: Ident, f65: Semi, f24: Ident, f53: Ident, f12: Ident, f41: Ident }
    struct Tup70(0: Ident, 1: Plus, 2: Semi, 3: Semi, 4: Plus, 5: Ident, 6: Plus, 7: Ident, 8: Ident, 9: Paren<Ident>, 10: Plus, 11: Paren<Ident>, 12: Ident, 13: Ident, 14: Ident, 15: Paren<Ident>, 16: Ident, 17: Plus, 18: Plus, 19: Ident, 20: Paren<Ident>, 21: Semi, 22: Paren<Ident>, 23: Paren<Ident>, 24: Semi, 25: Ident, 26: Semi, 27: Paren<Ident>, 28: Ident, 29: Ident, 30: Semi, 31: Ident, 32: Ident, 33: Ident, 34: Ident, 35: Ident, 36: Plus, 37: Semi, 38: Semi, 39: Plus, 40: Ident, 41: Plus, 42: Ident, 43: Ident, 44: Paren<Ident>, 45: Plus, 46: Paren<Ident>, 47: Ident, 48: Ident, 49: Ident, 50: Paren<Ident>, 51: Ident, 52: Plus, 53: Plus, 54: Ident, 55: Paren<Ident>, 56: Semi, 57: Paren<Ident>, 58: Paren<Ident>, 59: Semi, 60: Ident, 61: Semi, 62: Paren<Ident>, 63: Ident, 64: Ident, 65: Semi, 66: Ident, 67: Ident, 68: Ident, 69: Ident);
    enum Var66 { V(0 x0: Ident, 1 x1: Plus, 2 x2: Semi, 3 x3: Semi, 4 x4: Plus, 5 x5: Ident, 6 x6: Plus, 7 x7: Ident, 8 x8: Ident, 9 x9: Paren<Ident>, 10 x10: Plus, 11 x11: Paren<Ident>, 12 x12: Ident, 13 x13: Ident, 14 x14: Ident, 15 x15: Paren<Ident>, 16 x16: Ident, 17 x17: Plus, 18 x18: Plus, 19 x19: Ident, 20 x20: Paren<Ident>, 21 x21: Semi, 22 x22: Paren<Ident>, 23 x23: Paren<Ident>, 24 x24: Semi, 25 x25: Ident, 26 x26: Semi, 27 x27: Paren<Ident>, 28 x28: Ident, 29 x29: Ident, 30 x30: Semi, 31 x31: Ident, 32 x32: Ident, 33 x33: Ident, 34 x34: Ident, 35 x35: Ident, 36 x36: Plus, 37 x37: Semi, 38 x38: Semi, 39 x39: Plus, 40 x40: Ident, 41 x41: Plus, 42 x42: Ident, 43 x43: Ident, 44 x44: Paren<Ident>, 45 x45: Plus, 46 x46: Paren<Ident>, 47 x47: Ident, 48 x48: Ident, 49 x49: Ident, 50 x50: Paren<Ident>, 51 x51: Ident, 52 x52: Plus, 53 x53: Plus, 54 x54: Ident, 55 x55: Paren<Ident>, 56 x56: Semi, 57 x57: Paren<Ident>, 58 x58: Paren<Ident>, 59 x59: Semi, 60 x60: Ident, 61 x61: Semi, 62 x62: Paren<Ident>, 63 x63: Ident, 64 x64: Ident, 65 x65: Semi), }
    enum VarN66 { V { f0: Ident, f29: Plus, f58: Semi, f17: Semi, f46: Plus, f5: Ident, f34: Plus, f63: Ident, f22: Ident, f51: Paren<Ident>, f10: Plus, f39: Paren<Ident>, f68: Ident, f27: Ident, f56: Ident, f15: Paren<Ident>, f44: Ident, f3: Plus, f32: Plus, f61: Ident, f20: Paren<Ident>, f49: Semi, f8: Paren<Ident>, f37: Paren<Ident>, f66: Semi, f25: Ident, f54: Semi, f13: Paren<Ident>, f42: Ident, f1: Ident, f30: Semi, f59: Ident, f18: Ident, f47: Ident, f6: Ident, f35: Ident, f64: Plus, f23: Semi, f52: Semi, f11: Plus, f40: Ident, f69: Plus, f28: Ident, f57: Ident, f16: Paren<Ident>, f45: Plus, f4: Paren<Ident>, f33: Ident, f62: Ident, f21: Ident, f50: Paren<Ident>, f9: Ident, f38: Plus, f67: Plus, f26: Ident, f55: Paren<Ident>, f14: Semi, f43: Paren<Ident>, f2: Paren<Ident>, f31: Semi, f60: Ident, f19: Semi, f48: Paren<Ident>, f7: Ident, f36: Ident, f65: Semi }, }
    struct Gen9<A, B, C, D, E, F, G, H, I> { i: I, b: B, h: H, c: C, g: G, d: D, f: F, e: E, a: A }
    enum BigVar { V { a: Ident, b: Plus, c: Ident, d: Plus, e: LitInt, f: Plus, g: Ident, h: Maybe<Semi, Ident> }, }
    enum BigTup { V(0 a: Ident, 1 b: Plus, 2 c: Ident, 3 d: Plus, 4 e: Ident, 5 f: Plus, 6 g: Ident, 7 h: Plus, 8 i: Ident, 9 j: Plus, 10 k: Ident, 11 l: Plus), }
    struct Repeats { a: Any<Ident>, b: Plus, c: Any<LitInt>, d: Many<Ident> }
    struct Backs { a: Any<T2<Ident, Plus>>, b: Ident, c: Maybe<Plus>, d: Maybe<T2<Ident, Plus>>, e: Any<Ident> }
    struct Rec { head: Ident, #[parsel(recursive)] tail: Maybe<Plus, Box<Rec>> }
    // attributes on some of the fields, at any place
    struct RecFirst { #[parsel(recursive)] tail: Paren<Any<Box<RecFirst>>>, head: Ident }
    struct RecMid { a: Ident, #[parsel(recursive)] b: Maybe<Plus, Box<RecMid>>, c: LitInt, #[parsel(recursive)] d: Paren<Maybe<Ident, Box<RecMid>>>, e: Plus }
    struct RecTup(0: #[parsel(recursive)] Maybe<Paren<Box<RecTup>>, Ident>, 1: Ident, 2: #[parsel(recursive)] Any<Paren<Box<RecTup>>>, 3: Plus);
    enum RecVF { V { #[parsel(recursive)] z: Maybe<Plus, Box<RecVF>>, a: Ident, #[parsel(recursive)] m: Any<Paren<Box<RecVF>>>, b: LitInt }, }
    enum RecVT { V(0 z: #[parsel(recursive)] Maybe<Plus, Box<RecVT>>, 1 a: Ident, 2 m: #[parsel(recursive)] Any<Paren<Box<RecVT>>>, 3 b: LitInt), }
    struct Gen<A, B, C> { #[parsel(recursive)] a: Maybe<Plus, Box<Gen<A, B, C>>>, c: C, #[parsel(recursive)] p: Paren<Maybe<Plus, Box<Gen<A, B, C>>>>, b: B, q: A }
    struct Docs { #[doc = "the first"] #[allow(dead_code)] z: Ident, y: Plus, #[doc = "the third"] x: LitInt, #[doc(hidden)] a: Ident }
    struct DocsTup(0: Ident, 1: #[doc = "the second"] #[allow(dead_code)] Plus, 2: LitInt, 3: #[doc(hidden)] Ident);
    enum DocsVar { V { z: Ident, #[doc = "the second"] y: Plus, x: LitInt, #[doc(hidden)] a: Ident }, }
    enum RecV { V(0 head: Ident, 1 tail: #[parsel(recursive)] Maybe<Paren<Box<RecV>>, Ident>), }
}

macro_rules! cross1 { ($v:ident; $($a:ty),*) => { $( $v.extend(tys![T1<$a>, N1<$a>, VT1<$a>, VN1<$a>]); )* } }
macro_rules! cross2 { ($v:ident; [$($a:ty),*] $b:tt) => { $( cross2!(@ $v; $a; $b); )* };
    (@ $v:ident; $a:ty; [$($b:ty),*]) => { $( $v.extend(tys![T2<$a, $b>, N2<$a, $b>, VT2<$a, $b>, VN2<$a, $b>]); )* } }
macro_rules! cross3 { ($v:ident; [$($a:ty),*] $b:tt $c:tt) => { $( cross3!(@ $v; $a; $b $c); )* };
    (@ $v:ident; $a:ty; [$($b:ty),*] $c:tt) => { $( cross3!(@@ $v; $a; $b; $c); )* };
    (@@ $v:ident; $a:ty; $b:ty; [$($c:ty),*]) => { $( $v.extend(tys![T3<$a, $b, $c>, N3<$a, $b, $c>, VT3<$a, $b, $c>, VN3<$a, $b, $c>]); )* } }

fn small() -> Vec<Ty> {
    let mut v = tys![U, T0, N0, VT0, VU, VN0];
    cross1!(v; Ident, Plus, LitInt, Paren<Ident>, Maybe<Plus>, Any<Ident>, Eof, Empty, NotEof, T2<Ident, Plus>);
    cross2!(v; [Ident, Plus, Paren<Ident>, Maybe<Plus>, Any<Ident>, Eof, T2<Ident, Plus>, Maybe<T2<Ident, Plus>>] [Ident, Plus, Paren<Ident>, Maybe<Plus>, Any<Ident>, Eof, T2<Ident, Plus>]);
    v
}
fn triples() -> Vec<Ty> {
    let mut v = tys![Same, Mixed, Nested, Tup5, Repeats, Backs, Rec, RecV, RecFirst, RecMid, RecTup, RecVF, RecVT, Gen<Ident, LitInt, Plus>, Gen<Plus, Ident, Any<LitInt>>, Docs, DocsTup, DocsVar];
    cross3!(v; [Ident, Plus, Maybe<Plus, Ident>] [Ident, Paren<Plus>, Any<Plus>] [Ident, Plus, Many<Ident>]);
    v
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![T2<T3<$k, $k, Token![+]>, $k>, T2<Either<T3<$k, $k, Token![+]>, $k>, Any<$k>>, VN3<$k, $k, $k>, T2<Any<$k>, Maybe<Token![+], $k>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![T2<$a, $b>, N2<$a, $b>, VT2<$a, $b>, T3<$a, $b, $a>, VN3<$b, $a, $b>]) } }

fn main() {
    let q = !thorough();
    let pb = [D::Par, D::Brk];
    let mut s = explore("one and two fields", small(), "a + 1", &pb, Bounds { forest: if q { 4 } else { 5 }, sent: 5, sent2: if q { 2 } else { 4 } }, conform, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("three and more fields", triples(), "a + 1 =", &[D::Par], Bounds { forest: if q { 4 } else { 5 }, sent: if q { 6 } else { 7 }, sent2: if q { 3 } else { 5 } }, conform, &["accepted", "rejected", "accepted prefix"]));
    s.extend(explore("wide", tys![Wide8, Wide12, Wide34, BigVar, BigTup, Repeats, Backs], "a + 1 ;", &[D::Par], Bounds { forest: 0, sent: if q { 8 } else { 9 }, sent2: if q { 3 } else { 6 } }, conform, &["accepted", "rejected"]));
    s.extend(explore("very wide", tys![Wide70, Tup70, Var66, VarN66, Gen9<Ident, Plus, LitInt, Semi, Ident, Paren<Ident>, Plus, Maybe<Semi>, Ident>], "a + 1", &[], Bounds { forest: 0, sent: 140, sent2: 0 }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("wide productions", tys![Wide12, Wide34, BigTup, T2<Wide12, Wide12>, Many<T2<Ident, Plus>>, Any<VN2<Ident, Plus>>, Rec], &["a", "+"], if q { vec![11, 12, 13, 24, 34, 35] } else { vec![11, 12, 13, 24, 34, 35, 66, 130] }, &["a", "+", "1", ";", "()"], 2, conform, &["accepted", "rejected"]));
    s.push(long("long lists of productions", tys![Many<N3<Ident, Plus, Semi>>, Any<T3<Ident, Plus, Semi>>, Punctuated<N2<Ident, Plus>, Semi>, Separated<VT2<Ident, Plus>, Semi>, T2<Any<VN3<Ident, Plus, Semi>>, Any<T3<Ident, Semi, Plus>>>],
        &["a", "+", ";"], vec![30, 258, 1035], &["a", "+", "1", ";", "()"], 1, conform, &["accepted", "rejected"]));
    s.push(long("nested content", tys![T2<Paren<N2<Ident, Plus>>, Paren<N2<Plus, Ident>>>, Many<T2<Paren<N2<Ident, Plus>>, Paren<VN2<Plus, Ident>>>>], &["(a +)", "(+ a)"], if q { vec![2, 4, 6, 20] } else { vec![2, 3, 4, 6, 20, 60] }, &["(a +)", "(+ a)", "(a)", "(a + a)", "()", "[a +]", "a +"], 2, conform, &["accepted", "rejected", "leftover in group"]));
    let _ = tys![Path2];
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("struct-like productions over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("struct-like productions of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C01", s)
}
