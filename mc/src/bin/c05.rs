//! C05: delimited productions match their own delimiter and its whole content.
#[path = "../shared/kinds.rs"] mod kinds;
use mc::{explore::*, grammar, run::*, spec::*, tok::*, tys};
use parsel::ast::*;

type Plus = Token![+];
type Semi = Token![;];

grammar! {
    struct Two<A, B>(0: A, 1: B);
    struct Three<A, B, C> { a: A, b: B, c: C }
    struct Nothing;
    struct Tree(0: #[parsel(recursive)] Paren<Any<Box<Tree>>>);
    enum Mixed {
        P(0 p: #[parsel(recursive)] Paren<Any<Box<Mixed>>>),
        B { #[parsel(recursive)] b: Bracket<Many<Box<Mixed>>> },
        C(0 c: #[parsel(recursive)] Brace<Maybe<Ident, Box<Mixed>>>),
        I(0 i: LitInt),
    }
    struct Chain(0: #[parsel(recursive)] Bracket<Maybe<NotEof, Box<Chain>>>);
}

macro_rules! all { ($($inner:ty),* $(,)?) => {{ let mut v = vec![]; $( v.extend(tys![Paren<$inner>, Bracket<$inner>, Brace<$inner>]); )* v }} }

fn types() -> Vec<Ty> {
    let mut v = all![
        Ident, Plus, LitInt, Empty, Eof, NotEof, Nothing, Two<Ident, Plus>, Maybe<Plus, Ident>, Maybe<Ident>, Any<Ident>, Many<Ident>, Punctuated<Ident, Plus>, Separated<Ident, Plus>,
        LeftAssoc<Plus, Ident>, RightAssoc<Plus, Ident>, Either<Ident, Two<Plus, Ident>>, Paren<Ident>, Bracket<Ident>, Brace<Ident>, Paren<Empty>, Bracket<Any<Ident>>, Brace<Maybe<Plus, Ident>>,
        Two<NotEof, Any<Ident>>, Two<Ident, Eof>, Any<Paren<Empty>>, Maybe<Bracket<Ident>, Ident>, Any<Paren<Any<Ident>>>,
    ];
    v.extend(tys![
        Two<Paren<Ident>, Ident>, Two<Bracket<Any<Ident>>, Any<Ident>>, Two<Ident, Brace<Maybe<Ident>>>, Two<Paren<Empty>, Paren<Ident>>, Two<Paren<Ident>, Bracket<Ident>>, Two<Brace<Empty>, Eof>, Three<Paren<Any<Ident>>, Plus, Paren<Any<Ident>>>,
        Any<Paren<Ident>>, Many<Bracket<Any<Ident>>>, Punctuated<Brace<Maybe<Ident>>, Plus>, Separated<Paren<Ident>, Bracket<Empty>>, LeftAssoc<Paren<Plus>, Ident>, RightAssoc<Plus, Brace<Ident>>,
        Maybe<Paren<Ident>, Ident>, Maybe<Ident, Bracket<Ident>>, Either<Paren<Ident>, Paren<Plus>>, Either<Paren<Ident>, Bracket<Ident>>, Either<Brace<Empty>, Paren<Empty>>, Tree, Mixed, Chain, Box<Paren<Ident>>,
    ]);
    v
}

macro_rules! each { ($v:ident; $k:ty) => { $v.extend(tys![Paren<Two<Maybe<Two<$k, Token![+]>>, Any<$k>>>, Two<Bracket<$k>, Any<$k>>, Two<Any<Brace<$k>>, Any<Brace<Two<$k, $k>>>>]) } }
macro_rules! kinds { ($v:ident; $a:ty, $b:ty) => { $v.extend(tys![Paren<$a>, Bracket<Any<$a>>, Two<Brace<Two<$a, $b>>, $a>, Two<$b, Paren<Maybe<$a>>>]) } }

fn main() {
    let q = !thorough();
    let mut s = explore("groups", types(), "a +", &D::ALL, Bounds { forest: if q { 4 } else { 5 }, sent: if q { 6 } else { 7 }, sent2: if q { 3 } else { 4 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix", "leftover in group"]);
    s.extend(explore("groups, literals and keywords", types(), "a 1 -1 fn ;", &[D::Par, D::Brk], Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, conform_rebuilt, &[]));
    s.extend(explore("nested groups only", tys![Tree, Mixed, Chain, Any<Tree>, Any<Mixed>, Paren<Mixed>, Brace<Bracket<Paren<Empty>>>, Paren<Paren<Paren<Maybe<Ident>>>>, Bracket<Any<Brace<Any<Paren<Empty>>>>>], "", &D::ALL, Bounds { forest: if q { 6 } else { 7 }, sent: if q { 7 } else { 8 }, sent2: 0 }, conform_rebuilt, &["accepted", "rejected"]));
    s.push(long("many groups", tys![Any<Paren<Ident>>, Many<Mixed>, Any<Either<Paren<Ident>, Bracket<Any<Ident>>>>, Punctuated<Paren<Any<Ident>>, Bracket<Any<Ident>>>, Separated<Paren<Ident>, Bracket<Any<Ident>>>, Paren<Ident>],
        &["(a)", "[a]"], if q { vec![2, 3, 9, 40, 301] } else { vec![2, 3, 9, 40, 301, 1100] }, &["(a)", "[a]", "{a}", "()", "[]", "(a a)", "[+]", "a", "[(a)]"], 1, conform_rebuilt, &["accepted", "rejected", "leftover in group"]));
    // one group with a lot of content, alone and with deviations in it
    let gs = tys![Paren<Any<Ident>>, Bracket<Many<Ident>>, Brace<Punctuated<Ident, Plus>>, Brace<Separated<Ident, Plus>>, Two<Paren<Any<Two<Ident, Plus>>>, Maybe<Ident>>, Paren<Either<Many<Ident>, Punctuated<Ident, Plus>>>, Bracket<Two<Any<Ident>, Any<Plus>>>];
    let g2: Vec<_> = gs.iter().map(|t| (t.g)()).collect();
    let l = Long { period: vec![toks("a"), toks("+")], lens: vec![5, 40, 301], devs: ["a", "+", "(a)", ";"].iter().map(|s| toks(s)).collect(), k: 1 };
    let l2 = Long { period: vec![toks("a")], lens: vec![5, 64, 300], devs: ["+", "(a)", ";"].iter().map(|s| toks(s)).collect(), k: 1 };
    let n = l.len();
    s.push(suite("groups with much content, of any kind, alone or followed by a token", (n + l2.len()) * 9, &["accepted", "rejected", "leftover in group", "accepted prefix"], move |i, c| {
        let (j, k) = (i / 9, i % 9);
        let mut v = vec![Tok::G(D::ALL[(k % 3) as usize], if j < n { l.get(j) } else { l2.get(j - n) })];
        if k / 3 == 1 { v.extend(toks("z")) }
        if k / 3 == 2 { v.extend(toks("()")) }
        normalise(&mut v);
        let (src, lt) = render(&v);
        for (t, g) in gs.iter().zip(&g2) { conform_print(c, t, g, &src, &lt) }
    }));
    // deep towers of groups, with one level of another kind or with something added at one level
    let ts = tys![Tree, Mixed, Chain];
    let tg: Vec<_> = ts.iter().map(|t| (t.g)()).collect();
    let depths: Vec<usize> = if q { vec![1, 2, 3, 10, 33, 65, 129, 260] } else { vec![1, 2, 3, 10, 33, 65, 129, 260, 520] };
    let per: Vec<u64> = depths.iter().map(|d| (*d as u64) * 3 * 7).collect();
    s.push(suite("deep towers of groups with one deviating level", per.iter().sum(), &["accepted", "rejected"], move |mut i, c| {
        let mut k = 0;
        while i >= per[k] { i -= per[k]; k += 1 }
        let (level, r) = ((i / 21) as usize, i % 21);
        let (base, dev) = (D::ALL[(r % 3) as usize], r / 3);
        let mut v: Vec<Tok> = vec![];
        for d in 0..depths[k] {
            let here = d == level;
            let kind = if here && dev < 3 { D::ALL[dev as usize] } else { base };
            if kind == D::Brc && !v.is_empty() { v.insert(0, Tok::I("w".into())) }
            if here { match dev { 3 => v.extend(toks("z")), 4 => v.extend(toks("1")), 5 => v.extend(toks("()")), 6 => v.insert(0, Tok::G(D::Brk, vec![])), _ => {} } }
            v = vec![Tok::G(kind, v)];
        }
        let (src, lt) = render(&v);
        for (t, g) in ts.iter().zip(&tg) { conform_print(c, t, g, &src, &lt) }
    }));
    let mut v = vec![];
    over_kinds!(kinds, v);
    s.extend(explore("groups over tokens of every kind", v, kinds::KINDS, &D::ALL, Bounds { forest: 3, sent: if q { 4 } else { 6 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    let mut v = vec![];
    over_each!(each, v);
    s.extend(explore("groups of several tokens of a kind", v, kinds::FEW, &[D::Par], Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 0 } else { 2 } }, conform_rebuilt, &["accepted", "rejected", "accepted prefix"]));
    main_("C05", s)
}
