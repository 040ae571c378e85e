//! C28: invisible groups, as macro expansion puts them around what it substitutes, are transparent
//! to parsing.
use mc::{explore::*, gram::*, run::*, spec::*, tok::*};
use parsel::ast::*;
use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
use syn::parse::{ParseStream, Parser};
#[path = "../shared/zoo.rs"]
mod zoo;
use zoo::*;

/// All streams that differ from this one in one run of tokens, at any level, being wrapped in an
/// invisible group. A run starts and ends between tokens of the source, not inside an operator or
/// lifetime.
fn wraps(v: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let cut = |i: usize| i == 0 || !matches!(&v[i - 1], TokenTree::Punct(p) if p.spacing() == Spacing::Joint);
    let mut out = Vec::new();
    for lo in 0..v.len() {
        for hi in lo + 1..=v.len() {
            if !cut(lo) || !cut(hi) { continue }
            let mut w = v[..lo].to_vec();
            w.push(invisible(&v[lo..hi]));
            w.extend_from_slice(&v[hi..]);
            out.push(w);
        }
        if let TokenTree::Group(g) = &v[lo] {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            for x in wraps(&inner) { let mut w = v.to_vec(); w[lo] = regroup(g, x); out.push(w) }
        }
    }
    out
}
fn invisible(v: &[TokenTree]) -> TokenTree {
    let mut g = Group::new(Delimiter::None, v.iter().cloned().collect());
    g.set_span(v.iter().map(|t| t.span()).reduce(|a, b| a.join(b).unwrap_or(a)).unwrap_or(Span::call_site()));
    g.into()
}
fn regroup(g: &Group, inner: Vec<TokenTree>) -> TokenTree {
    let mut h = Group::new(g.delimiter(), inner.into_iter().collect());
    h.set_span(g.span());
    h.into()
}
/// every token, and every level, in an invisible group of its own
fn each(v: &[TokenTree]) -> Vec<TokenTree> {
    let (mut out, mut run) = (vec![], vec![]);
    for t in v {
        run.push(match t { TokenTree::Group(g) => { let i: Vec<TokenTree> = g.stream().into_iter().collect(); regroup(g, if i.is_empty() { vec![] } else { vec![invisible(&each(&i))] }) } t => t.clone() });
        if !matches!(t, TokenTree::Punct(p) if p.spacing() == Spacing::Joint) { out.push(invisible(&run)); run.clear() }
    }
    out.extend(run);
    out
}
/// number of top-level tokens, those in invisible groups included
fn count(ts: TokenStream) -> usize { ts.into_iter().map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::None => count(g.stream()), _ => 1 }).sum() }
fn has_invisible(ts: TokenStream) -> bool { ts.into_iter().any(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::None || has_invisible(g.stream()))) }

#[derive(PartialEq, Debug)]
struct Seen { tree: Option<String>, rest: usize, accepted: bool, full: Option<String>, printed: Option<(String, Vec<Lc>, bool)>, equal: bool }

fn see<T: Spec>(ts: TokenStream, plain: Option<&T>) -> (Seen, Option<T>) {
    let mut value = None;
    let mut rest = 0;
    let accepted = (|input: ParseStream| {
        value = T::parse(input).ok();
        rest = count(input.parse()?);
        Ok(())
    }).parse2(ts.clone()).is_ok();
    let tree = |v: &T| { let mut o = String::new(); v.tree(&mut o); o };
    let printed = value.as_ref().filter(|_| accepted).map(|v: &T| {
        let p = v.to_token_stream();
        let (mut f, mut at) = (String::new(), vec![]);
        flat(p.clone(), &mut f);
        places(p.clone(), &mut at);
        (f, at, has_invisible(p))
    });
    let equal = match (plain, &value) { (Some(a), Some(b)) => a == b && b == a, _ => true };
    (Seen { tree: value.as_ref().map(tree), rest, accepted, full: parsel::parse2::<T>(ts).ok().as_ref().map(tree), printed, equal }, value)
}

fn transparent<T: Spec>(c: &mut Ctx, t: &Ty, g: &G, src: &str, l: &[LTok]) {
    let m = model(g, l, false);
    c.transitions += m.steps;
    let ts: TokenStream = src.parse().unwrap();
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let (plain, value) = see::<T>(ts, None);
    // (what a failed production consumes is not specified)
    let want_tree = m.res.as_ref().ok().map(|r| r.0.clone());
    let whole = matches!(&m.res, Ok((_, p)) if *p == l.len() && m.left == 0);
    if plain.tree != want_tree || plain.full.is_some() != whole { c.fail(format!("{} on `{src}` without invisible groups: {:?}, should be {:?}, whole input accepted {whole}", t.name, plain.tree, want_tree)) }
    let mut all = wraps(&v);
    let one = all.len();
    if one <= if thorough() { 8 } else { 4 } { for i in 0..one { let w = wraps(&all[i]); all.extend(w) } }
    all.push(each(&v));
    for w in all {
        c.states += 1;
        c.runs += 2;
        let ts: TokenStream = w.into_iter().collect();
        let (s, _) = see::<T>(ts.clone(), value.as_ref());
        let same = s.tree == plain.tree && s.full == plain.full && s.equal && (s.tree.is_none() || (s.rest == plain.rest && s.accepted == plain.accepted && s.printed == plain.printed));
        if !same { c.fail(format!("{} on `{src}` with invisible groups, {:?}: {s:?}, without: {plain:?}", t.name, Shown(ts))) }
        c.outcome(match (whole, &m.res) { (true, _) => "accepted", (_, Ok(_)) => "accepted prefix", _ => "rejected" });
    }
    c.sample(|| format!("{} on `{src}`: the same with {} ways of putting invisible groups", t.name, one));
}
/// shows invisible groups
struct Shown(TokenStream);
impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for t in self.0.clone() {
            match t {
                TokenTree::Group(g) => { let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), Delimiter::Brace => ("{", "}"), Delimiter::None => ("⟦", "⟧") }; write!(f, "{a} {:?}{b} ", Shown(g.stream()))? }
                TokenTree::Punct(p) if p.spacing() == Spacing::Joint => write!(f, "{p}")?,
                t => write!(f, "{t} ")?,
            }
        }
        Ok(())
    }
}

macro_rules! invis_tys { ($($t:ty),* $(,)?) => { vec![$(Ty { ext: transparent::<$t>, ..ty::<$t>(stringify!($t)) }),*] } }

fn main() {
    let q = !thorough();
    let tys: Vec<Ty> = zoo!(invis_tys);
    let must = ["accepted", "accepted prefix", "rejected"];
    let mut s = explore("every type", tys.clone(), ALPHA, &[D::Par], Bounds { forest: if q { 3 } else { 4 }, sent: 0, sent2: 0 }, ext, &must);
    s.extend(explore("every type, fewer tokens", tys.clone(), SMALL, &D::ALL, Bounds { forest: if q { 3 } else { 5 }, sent: 0, sent2: 0 }, ext, &[]));
    s.extend(explore("every type", tys.clone(), "", &D::ALL, Bounds { forest: 0, sent: if q { 6 } else { 8 }, sent2: if q { 2 } else { 3 } }, ext, &must));
    for p in PERIODS { s.push(long(&format!("repeated `{}`", p.join(" ")), tys.clone(), p, if q { (1..7).collect() } else { (1..34).collect() }, &[], 0, ext, &[])) }
    // every kind of operator and literal
    macro_rules! opt { ($($t:tt)*) => { vec![$(Ty { ext: transparent::<Two<Any<Token![$t]>, Maybe<Word, Token![$t]>>>, ..ty::<Two<Any<Token![$t]>, Maybe<Word, Token![$t]>>>(concat!("Two<Any<", stringify!($t), ">, Maybe<Word, same>>")) }),*] } }
    let mut ops: Vec<Ty> = opt!(+ - * / , ; : :: = == += .. ..= ... . -> <- => && & | || < > <= >= << >> <<= >>= ! != # ? % ^ @ ~ $ -= *= /= %= ^= &= |= fn if _);
    ops.extend({ let v: Vec<Ty> = invis_tys![Any<syn::Lifetime>, Punctuated<Ident, Token![,]>, Two<Ident, Any<LitFloat>>, Many<LitByte>, Separated<LitChar, LitStr>, Two<LitByteStr, LitBool>, LeftAssoc<Token![-], LitInt>, RightAssoc<Token![-], Lit>, Maybe<LitInt, LitUint>]; v });
    s.extend(explore("operators and literals", ops, "+ = - > 1 -1", &[], Bounds { forest: if q { 3 } else { 5 }, sent: if q { 4 } else { 6 }, sent2: if q { 3 } else { 4 } }, ext, &must));
    main_("C28", s)
}
