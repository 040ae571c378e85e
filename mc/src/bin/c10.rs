//! C10: LeftAssoc and RightAssoc accept the same chains and lean the right way.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, gram::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Minus = Token![-];
type Semi = Token![;];
type L<O, T> = LeftAssoc<O, T>;
type R<O, T> = RightAssoc<O, T>;

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    enum AddOp { P(0 p: Plus), M(0 m: Minus), }
    enum MulOp { P(0 p: Token![*]), M(0 m: Token![/]), }
    enum Atom { I(0 i: Ident), N(0 n: LitInt), G(0 g: #[parsel(recursive)] Paren<Box<Sum>>), }
    struct Sum(0: #[parsel(recursive)] LeftAssoc<AddOp, Box<Prod>>);
    struct Prod(0: #[parsel(recursive)] LeftAssoc<MulOp, Box<Pow>>);
    struct Pow(0: #[parsel(recursive)] RightAssoc<Token![^], Atom>);
}

/// every type with its mirror image and the separated list accepting the same chains
macro_rules! mirror { ($($o:ty, $t:ty);* $(;)?) => { vec![$((ty::<L<$o, $t>>(concat!("LeftAssoc<", stringify!($o), ", ", stringify!($t), ">")), ty::<R<$o, $t>>(concat!("RightAssoc<", stringify!($o), ", ", stringify!($t), ">")), ty::<Separated<$t, $o>>("Separated"))),*] } }

fn chains() -> Vec<(Ty, Ty, Ty)> {
    mirror![
        Plus, Ident; Minus, Ident; Ident, Plus; Ident, Ident; AddOp, Ident; AddOp, Atom; Plus, Paren<Ident>; Paren<Plus>, Ident; Plus, Two<Ident, Ident>; Two<Plus, Plus>, Ident; Maybe<Minus, Plus>, Ident; Plus, Two<Ident, Maybe<Semi>>;
        Plus, L<Minus, Ident>; Plus, R<Minus, Ident>; Plus, Separated<Ident, Minus>; Plus, Two<Maybe<Minus>, Ident>; Plus, LitInt; Minus, LitInt; Plus, Either<LitInt, Ident>; Either<Plus, Minus>, Either<Paren<Ident>, Ident>; Box<Plus>, Box<Ident>;
        Plus, Any<Ident>; Plus, Two<Ident, Any<Minus>>; Token![+=], Ident; Either<Token![+=], Plus>, Ident; NotEof, Ident; Plus, Paren<L<Plus, Ident>>; Plus, Maybe<Ident>; Two<Plus, NotEof>, Ident;
    ]
}

fn types() -> Vec<Ty> {
    let mut v: Vec<Ty> = chains().into_iter().flat_map(|(a, b, _)| [a, b]).collect();
    v.extend(tys![
        Two<L<Plus, Ident>, Minus>, Two<R<Plus, Ident>, Minus>, Two<L<Plus, Ident>, Ident>, Two<R<Plus, Ident>, Maybe<Semi>>, Two<L<Two<Plus, Plus>, Ident>, Plus>, Two<R<Two<Plus, Plus>, Ident>, Plus>, Paren<L<Plus, Ident>>, Paren<R<Plus, Ident>>,
        Any<Two<L<Plus, Ident>, Semi>>, Punctuated<R<Plus, Ident>, Semi>, Either<Two<L<Plus, Ident>, Semi>, Two<R<Plus, Ident>, Minus>>, Maybe<Plus, R<Plus, Ident>>, Maybe<L<Plus, Ident>, Semi>, Sum, Prod, Pow, R<Plus, R<Minus, L<Semi, Ident>>>,
    ]);
    v
}

/// both directions accept and consume what the separated list does
fn mirrored(name: &str, n: u64, must: &[&'static str], get: impl Fn(u64) -> Vec<Tok> + Sync + 'static) -> Suite {
    let cs = chains();
    suite(name, n, must, move |i, c| {
        let mut v = get(i);
        normalise(&mut v);
        let (src, l) = render(&v);
        let ts: proc_macro2::TokenStream = src.parse().unwrap();
        for (a, b, s) in &cs {
            c.runs += 3;
            c.states += 1;
            let m = model(&(s.g)(), &l, false);
            c.transitions += m.steps;
            let (x, y, z) = ((a.obs)(ts.clone()), (b.obs)(ts.clone()), (s.obs)(ts.clone()));
            let f = |o: &Obs| (o.res.is_ok(), if o.res.is_ok() { o.rest } else { 0 }, o.accepted || o.res.is_err());
            c.outcome(if x.res.is_ok() { "chain" } else { "no chain" });
            if f(&x) != f(&z) || f(&y) != f(&z) { c.fail(format!("{} / {} / Separated on `{src}`: (parsed, rest, whole) is {:?} / {:?} / {:?}", a.name, b.name, f(&x), f(&y), f(&z))) }
            if let Ok(z) = &z.res {
                let flat = |s: &str| s.split_whitespace().map(|w| w.trim_end_matches(')')).filter(|w| !matches!(*w, "(bin" | "<" | "," | ">" | "")).map(String::from).collect::<Vec<_>>();
                for (o, n) in [(&x, a.name), (&y, b.name)] { if let Ok(t) = &o.res { if flat(t) != flat(z) { c.fail(format!("{n} on `{src}`: in-order reading of{t} is not that of{z}")) } } }
            }
        }
    })
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Two<LeftAssoc<Three<$k, $k, Token![+]>, Ident>, Any<$k>>, Two<RightAssoc<Three<$k, $k, Token![+]>, Ident>, Any<$k>>, LeftAssoc<$k, Two<$k, Token![+]>>, Two<LeftAssoc<$k, $k>, Any<$k>>, Two<RightAssoc<Token![+], $k>, Any<Token![+]>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![LeftAssoc<$b, $a>, RightAssoc<$b, $a>, Two<LeftAssoc<$b, $a>, Maybe<$b>>, RightAssoc<Two<$b, $b>, $a>]) } }

fn main() {
    let q = !thorough();
    let _: Option<G> = None;
    let mut s = explore("chains", types(), "a + - ;", &[D::Par], Bounds { forest: if q { 5 } else { 6 }, sent: if q { 7 } else { 8 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("expressions", tys![Sum, Prod, Pow], "a + * ^", &[D::Par], Bounds { forest: if q { 6 } else { 7 }, sent: if q { 9 } else { 11 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected"]));
    let f = Forests::new(alphabet("a + - ;"), &[D::Par], if q { 5 } else { 6 });
    s.push(mirrored("both directions and the separated list: all token trees", f.len(), &["chain", "no chain"], move |i| f.get(i)));
    let ts = || tys![L<Plus, Ident>, R<Plus, Ident>, L<Either<Plus, Minus>, Either<Ident, LitInt>>, R<Either<Plus, Minus>, Either<Ident, LitInt>>, L<Plus, R<Minus, Ident>>, R<Plus, L<Minus, Ident>>, Two<L<Plus, Ident>, Any<Minus>>, Two<R<Plus, Ident>, Any<Minus>>, Sum];
    let devs = ["a", "+", "1", "-", "(a)", ";"];
    s.push(long("long chains", ts(), &["a", "+"], (1..=24).collect(), &devs, if q { 1 } else { 2 }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("longer chains", ts(), &["a", "+"], if q { vec![65, 129, 257, 259] } else { vec![63, 65, 67, 127, 129, 255, 257, 259, 511, 513, 1025] }, &devs, 1, conform_print, &["accepted", "rejected", "accepted prefix"]));
    s.push(long("very long chains", tys![LeftAssoc<Plus, Ident>, RightAssoc<Plus, Ident>, LeftAssoc<Plus, Paren<Ident>>, RightAssoc<Plus, Either<Ident, LitInt>>], &["a", "+"], vec![2047, 2049, 4095, 4097, 8191, 8193, 8195], &[], 0, conform_print, &["accepted"]));
    s.push(long("chains of mixed operators", ts(), &["a", "+", "a", "-", "1", "-"], if q { vec![7, 13, 65, 259] } else { vec![7, 13, 65, 129, 259, 1027] }, &devs, 1, conform_print, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("chains over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("chains of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C10", s)
}
