//! Reference interpreter: Parsel's documented grammar semantics over model tokens.
use crate::tok::*;
use std::collections::HashMap;
use std::cell::RefCell;

/// What a single-token (or fixed-token) production accepts.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Ident,
    /// any word not in the list
    Word(&'static [&'static str]),
    /// exactly this word
    Kw(&'static str),
    /// Rust keyword token of syn
    RKw(&'static str),
    Op(&'static str),
    Bool, Byte, Int, Uint, Float, Char, Str, ByteStr, Lit,
    Empty, Eof, NotEof,
    /// a lifetime
    Life,
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub k: K,
    /// the message of the real leaf parser when it is run alone on this text
    pub msg: fn(&str) -> String,
}

#[derive(Clone, Debug)]
pub enum G {
    Leaf(Leaf),
    Maybe(Box<G>, Box<G>),
    Grp(D, Box<G>),
    Punct(Box<G>, Box<G>),
    Sep(Box<G>, Box<G>),
    Any(Box<G>),
    Left(Box<G>, Box<G>),
    Right(Box<G>, Box<G>),
    Either(Box<G>, Box<G>),
    Struct(&'static str, Vec<(&'static str, G)>),
    Enum(&'static str, Vec<(&'static str, Vec<(&'static str, G)>)>),
    Ref(fn() -> G),
    /// counted under this number
    Count(usize, Box<G>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cand {
    /// none: at the end of the whole input, which has no location
    pub loc: Option<Lc>,
    /// innermost first
    pub ctx: Vec<String>,
    pub root: String,
}

#[derive(Clone, Debug)]
pub struct Fail { pub cands: Vec<Cand> }

pub struct Scope<'a> { pub toks: &'a [LTok], pub end: Option<Sp> }

/// where a production is tried; none: at the end of the whole input
pub type Place = Option<(usize, usize)>;

#[derive(Default)]
pub struct M {
    pub steps: u64,
    /// number of groups left with unparsed content on the committed path
    pub left: usize,
    /// where what is left in each of them begins
    pub over: Vec<Lc>,
    pub want_msgs: bool,
    /// byte offsets of the operator characters on the committed path that another one of the
    /// same operator follows
    pub joint: Vec<usize>,
    /// the extent of every node on the committed path, children first; none: no tokens
    pub want_nodes: bool,
    pub nodes: Vec<Option<Sp>>,
    /// how often each counted production was tried at each place (line and column of what is there)
    pub tries: HashMap<(usize, Place), u64>,
    pub cache: HashMap<usize, &'static G>,
}

thread_local!(static MSGS: RefCell<HashMap<(String, String), String>> = RefCell::new(HashMap::new()));

pub fn tok_text(ts: &[LTok], n: usize, out: &mut String) {
    // a lifetime is not cut
    let n = if n > 0 && matches!(ts.get(n - 1), Some(LTok { t: LT::P('\'', _), .. })) { n + 1 } else { n };
    for (i, t) in ts.iter().take(n).enumerate() {
        match &t.t {
            LT::I(s) | LT::L(s) => { out.push_str(s); out.push(' ') }
            LT::P(c, j) => { out.push(*c); if !(*j && i + 1 < n) { out.push(' ') } }
            LT::G { d, .. } => { out.push(d.open()); out.push(d.close()); out.push(' ') }
        }
    }
}

impl M {
    fn leaf_fail(&self, l: &Leaf, s: &Scope, pos: usize, loc: Option<Lc>) -> Fail {
        let root = if self.want_msgs {
            let mut txt = String::new();
            tok_text(&s.toks[pos.min(s.toks.len())..], 2, &mut txt);
            let key = (format!("{:?}", l.k), txt);
            MSGS.with(|m| m.borrow_mut().entry(key).or_insert_with_key(|k| (l.msg)(&k.1)).clone())
        } else { String::new() };
        Fail { cands: vec![Cand { loc, ctx: vec![], root }] }
    }
    /// the location errors are reported at when they are about the token at `pos`
    pub fn at(s: &Scope, pos: usize) -> Option<Lc> {
        match s.toks.get(pos) {
            Some(LTok { t: LT::G { open, .. }, .. }) => Some(open.lc()),
            Some(t) => Some(t.sp.lc()),
            None => s.end.map(|e| e.lc()),
        }
    }
    fn leaf(&mut self, l: &Leaf, s: &Scope, pos: usize, out: &mut String) -> Result<usize, Fail> {
        let t = s.toks.get(pos);
        let here = Self::at(s, pos);
        macro_rules! no { ($loc:expr) => { return Err(self.leaf_fail(l, s, pos, $loc)) } }
        match l.k {
            K::Empty => { out.push_str(" empty"); Ok(pos) }
            K::Eof => { if pos == s.toks.len() { out.push_str(" eof"); Ok(pos) } else { no!(here) } }
            K::NotEof => { if pos < s.toks.len() { out.push_str(" more"); Ok(pos) } else { no!(here) } }
            K::Ident => match t { Some(LTok { t: LT::I(w), .. }) if !is_rust_keyword(w) => { out.push(' '); out.push_str(w); Ok(pos + 1) } _ => no!(here) },
            K::Word(list) => match t { Some(LTok { t: LT::I(w), .. }) if !list.contains(&&**w) => { out.push(' '); out.push_str(w); Ok(pos + 1) } _ => no!(here) },
            K::Kw(k) | K::RKw(k) => match t { Some(LTok { t: LT::I(w), .. }) if w == k => { out.push(' '); out.push_str(k); Ok(pos + 1) } _ => no!(here) },
            K::Op(o) => {
                let n = o.chars().count();
                for (i, c) in o.chars().enumerate() {
                    match s.toks.get(pos + i) { Some(LTok { t: LT::P(d, j), .. }) if *d == c && (*j || i + 1 == n) => {} _ => no!(here) }
                }
                out.push(' '); out.push_str(o);
                for i in 1..n { self.joint.push(s.toks[pos + i - 1].sp.lo.byte) }
                Ok(pos + n)
            }
            K::Life => match (t, s.toks.get(pos + 1)) {
                (Some(LTok { t: LT::P('\'', true), .. }), Some(LTok { t: LT::I(w), .. })) => { out.push_str(" '"); out.push_str(w); Ok(pos + 2) }
                _ => no!(here),
            },
            _ => {
                // literals, possibly negative
                let (v, n) = match t {
                    Some(LTok { t: LT::L(r), .. }) => (lit_value(r), 1),
                    Some(LTok { t: LT::I(w), .. }) if w == "true" || w == "false" => (V::Bool(w == "true"), 1),
                    Some(LTok { t: LT::P('-', _), .. }) => match s.toks.get(pos + 1) {
                        Some(LTok { t: LT::L(r), .. }) => match lit_value(r) {
                            V::Int(i) => (V::Int(-i), 2),
                            V::Float(f) => (V::Float(-f), 2),
                            _ => no!(here),
                        },
                        _ => no!(here),
                    },
                    _ => no!(here),
                };
                let full = Some(s.toks[pos].sp.to(s.toks[pos + n - 1].sp).lc());
                match (l.k, &v) {
                    (K::Bool, V::Bool(_)) | (K::Byte, V::Byte(_)) | (K::Float, V::Float(_)) | (K::Char, V::Char(_))
                    | (K::Str, V::Str(_)) | (K::ByteStr, V::ByteStr(_)) | (K::Lit, _) => {
                        if let (K::Lit, V::Int(i)) = (l.k, &v) { if *i < i64::MIN as i128 || *i > u64::MAX as i128 { no!(full) } }
                        if l.k == K::Lit { v.kinded(out) } else { v.put(out) }
                        Ok(pos + n)
                    }
                    (K::Int, V::Int(i)) => { if i64::try_from(*i).is_err() { no!(full) } v.put(out); Ok(pos + n) }
                    (K::Uint, V::Int(i)) => { if u64::try_from(*i).is_err() || n == 2 { no!(full) } v.put(out); Ok(pos + n) }
                    _ => no!(here),
                }
            }
        }
    }

    fn node(&mut self, s: &Scope, from: usize, to: usize) {
        if self.want_nodes { self.nodes.push(if from < to { Some(s.toks[from].sp.to(s.toks[to - 1].sp)) } else { None }) }
    }

    pub fn go(&mut self, g: &G, s: &Scope, pos: usize, out: &mut String) -> Result<usize, Fail> {
        let to = self.inner(g, s, pos, out)?;
        // chains note their own nodes
        if !matches!(g, G::Left(..) | G::Right(..)) { self.node(s, pos, to) }
        Ok(to)
    }

    fn inner(&mut self, g: &G, s: &Scope, pos: usize, out: &mut String) -> Result<usize, Fail> {
        self.steps += 1;
        match g {
            G::Leaf(l) => self.leaf(l, s, pos, out),
            G::Count(n, g) => { *self.tries.entry((*n, Self::at(s, pos).map(|l| (l.sl, l.sc)))).or_insert(0) += 1; self.go(g, s, pos, out) }
            G::Ref(f) => { let k = *f as usize; let g: &'static G = match self.cache.get(&k) { Some(g) => g, None => { let g = Box::leak(Box::new(f())); self.cache.insert(k, g); g } }; self.go(g, s, pos, out) }
            G::Maybe(p, t) => match self.attempt(p, s, pos) {
                Ok((o, np)) => { out.push_str(" (some"); out.push_str(&o); let r = self.go(t, s, np, out)?; out.push(')'); Ok(r) }
                Err(_) => { out.push_str(" none"); Ok(pos) }
            },
            G::Grp(d, g) => match s.toks.get(pos) {
                Some(LTok { t: LT::G { d: e, close, inner, .. }, .. }) if e == d => {
                    out.push_str(" ("); out.push_str(d.name());
                    let sc = Scope { toks: inner, end: Some(*close) };
                    let e = self.go(g, &sc, 0, out)?;
                    if e < inner.len() { self.left += 1; self.over.push(Self::at(&sc, e).unwrap()) }
                    out.push(')');
                    Ok(pos + 1)
                }
                _ => {
                    let l = match d { D::Par => Leaf { k: K::Op("("), msg: grp_msg::<0> }, D::Brk => Leaf { k: K::Op("["), msg: grp_msg::<1> }, D::Brc => Leaf { k: K::Op("{"), msg: grp_msg::<2> } };
                    Err(self.leaf_fail(&l, s, pos, Self::at(s, pos)))
                }
            },
            G::Punct(t, p) => {
                let mut pos = pos;
                out.push_str(" [");
                loop {
                    if pos == s.toks.len() { break }
                    let p0 = pos;
                    pos = self.go(t, s, pos, out)?;
                    if pos == s.toks.len() { break }
                    out.push_str(" ,");
                    pos = self.go(p, s, pos, out)?;
                    assert!(pos > p0, "harness: repeated production that consumes nothing");
                }
                out.push_str(" ]");
                Ok(pos)
            }
            G::Sep(t, p) => {
                out.push_str(" <");
                let mut pos = self.go(t, s, pos, out)?;
                while let Ok((o, np)) = self.attempt(p, s, pos) {
                    out.push_str(" ,"); out.push_str(&o);
                    let p0 = pos;
                    pos = self.go(t, s, np, out)?;
                    assert!(pos > p0, "harness: repeated production that consumes nothing");
                }
                out.push_str(" >");
                Ok(pos)
            }
            G::Any(t) => {
                let mut pos = pos;
                out.push_str(" {");
                while let Ok((o, np)) = self.attempt(t, s, pos) { assert!(np > pos, "harness: repeated production that consumes nothing"); out.push_str(&o); pos = np }
                out.push_str(" }");
                Ok(pos)
            }
            G::Left(o, t) | G::Right(o, t) => {
                let mut x = String::new();
                let p00 = pos;
                let left = matches!(g, G::Left(..));
                let mut pos = self.go(t, s, pos, &mut x)?;
                if left { self.node(s, p00, pos) }
                let mut starts = vec![p00];
                let mut items = vec![x];
                let mut ops = Vec::new();
                while let Ok((o, np)) = self.attempt(o, s, pos) {
                    ops.push(o);
                    let mut x = String::new();
                    let p0 = pos;
                    pos = self.go(t, s, np, &mut x)?;
                    if left { self.node(s, p00, pos) }
                    starts.push(np);
                    assert!(pos > p0, "harness: repeated production that consumes nothing");
                    items.push(x);
                }
                if !left { for from in starts.into_iter().rev() { self.node(s, from, pos) } }
                let n = items.len();
                if let G::Left(..) = g {
                    for _ in 1..n { out.push_str(" (bin") }
                    out.push_str(&items[0]);
                    for i in 1..n { out.push_str(&ops[i - 1]); out.push_str(&items[i]); out.push(')') }
                } else {
                    for i in 0..n - 1 { out.push_str(" (bin"); out.push_str(&items[i]); out.push_str(&ops[i]) }
                    out.push_str(&items[n - 1]);
                    for _ in 1..n { out.push(')') }
                }
                Ok(pos)
            }
            G::Either(l, r) => {
                let mut fails = Vec::new();
                for (n, g) in [(" (left", l), (" (right", r)] {
                    match self.attempt(g, s, pos) {
                        Ok((o, np)) => { out.push_str(n); out.push_str(&o); out.push(')'); return Ok(np) }
                        Err(f) => fails.push(f),
                    }
                }
                Err(furthest(fails))
            }
            G::Struct(name, fs) => { out.push_str(" ("); out.push_str(name); let p = self.fields(name, fs, s, pos, out)?; out.push(')'); Ok(p) }
            G::Enum(name, vs) => {
                let mut fails = Vec::new();
                for (v, fs) in vs {
                    let (len, left, joint, nodes) = (out.len(), self.left, self.joint.len(), self.nodes.len());
                    out.push_str(" ("); out.push_str(name); out.push_str("::"); out.push_str(v);
                    let prefix = if self.want_msgs { format!("{}::{}", name, v) } else { String::new() };
                    match self.fields(&prefix, fs, s, pos, out) {
                        Ok(p) => { out.push(')'); return Ok(p) }
                        Err(f) => { out.truncate(len); self.left = left; self.over.truncate(left); self.joint.truncate(joint); self.nodes.truncate(nodes); fails.push(f) }
                    }
                }
                if vs.is_empty() { return Err(Fail { cands: vec![Cand { loc: Self::at(s, pos), ctx: vec![], root: String::new() }] }) }
                Err(furthest(fails))
            }
        }
    }
    fn fields(&mut self, ctx: &str, fs: &[(&'static str, G)], s: &Scope, mut pos: usize, out: &mut String) -> Result<usize, Fail> {
        for (f, g) in fs {
            pos = self.go(g, s, pos, out).map_err(|mut e| { if self.want_msgs { for c in &mut e.cands { c.ctx.push(format!("{}::{}", ctx, f)) } } e })?;
        }
        Ok(pos)
    }
    /// an attempt that leaves no trace when it fails
    fn attempt(&mut self, g: &G, s: &Scope, pos: usize) -> Result<(String, usize), Fail> {
        let (left, joint, nodes) = (self.left, self.joint.len(), self.nodes.len());
        let mut o = String::new();
        match self.go(g, s, pos, &mut o) { Ok(p) => Ok((o, p)), Err(f) => { self.left = left; self.over.truncate(left); self.joint.truncate(joint); self.nodes.truncate(nodes); Err(f) } }
    }
}

/// Failures located furthest in the source, plus those at the end of the whole
/// input, which carry no location to compare.
fn furthest(fs: Vec<Fail>) -> Fail {
    let all: Vec<Cand> = fs.into_iter().flat_map(|f| f.cands).collect();
    let max = all.iter().filter_map(|c| c.loc.map(|l| l.end())).max();
    Fail { cands: all.into_iter().filter(|c| c.loc.map_or(true, |l| Some(l.end()) == max)).collect() }
}

fn grp_msg<const D: u8>(t: &str) -> String {
    use syn::parse::{ParseStream, Parser};
    let r = (|i: ParseStream| {
        let c; syn::parenthesized!(c in i);
        let x;
        match D { 0 => { syn::parenthesized!(x in c); } 1 => { syn::bracketed!(x in c); } _ => { syn::braced!(x in c); } }
        let _ = &x;
        Ok(())
    }).parse_str(&format!("({t})"));
    r.err().map(|e| e.to_string()).unwrap_or_default()
}

/// The message the parser of a leaf produces on its own, inside a group.
pub fn leaf_msg<T: syn::parse::Parse>(t: &str) -> String {
    use syn::parse::{ParseStream, Parser};
    let r = (|i: ParseStream| { let c; syn::parenthesized!(c in i); c.parse::<T>().map(|_| ()) }).parse_str(&format!("({t})"));
    r.err().map(|e| e.to_string()).unwrap_or_default()
}

pub const RUST_KEYWORDS: &[&str] = &["_", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"];

pub fn is_rust_keyword(w: &str) -> bool { RUST_KEYWORDS.contains(&w) }

#[derive(Clone, PartialEq, Debug)]
pub enum V { Bool(bool), Byte(u8), Int(i128), Float(f64), Char(char), Str(String), ByteStr(Vec<u8>) }

impl V {
    pub fn put(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            V::Bool(b) => write!(o, " {b}"), V::Byte(b) => write!(o, " b#{b}"), V::Int(i) => write!(o, " #{i}"),
            V::Float(f) => write!(o, " f#{f:?}"), V::Char(c) => write!(o, " {c:?}"), V::Str(s) => write!(o, " {s:?}"),
            V::ByteStr(b) => write!(o, " bs#{b:?}"),
        }.unwrap()
    }
    pub fn kinded(&self, o: &mut String) {
        if let V::Int(i) = self { o.push_str(if *i < 0 { " int" } else { " uint" }) }
        self.put(o)
    }
}

/// Value of the simple spellings used in the alphabets (C15 has its own oracle for the others).
pub fn lit_value(r: &str) -> V {
    if let Some(x) = r.strip_prefix("b'") { return V::Byte(x.as_bytes()[0]) }
    if let Some(x) = r.strip_prefix("b\"") { return V::ByteStr(x[..x.len() - 1].as_bytes().to_vec()) }
    if let Some(x) = r.strip_prefix('"') { return V::Str(x[..x.len() - 1].to_string()) }
    if let Some(x) = r.strip_prefix("r\"") { return V::Str(x[..x.len() - 1].to_string()) }
    if let Some(x) = r.strip_prefix("'\\u{") { return V::Char(u32::from_str_radix(&x[..x.len() - 2], 16).ok().and_then(char::from_u32).unwrap()) }
    if let Some(x) = r.strip_prefix('\'') { return V::Char(x.chars().next().unwrap()) }
    let d: String = r.chars().filter(|c| *c != '_').collect();
    if let Some(h) = d.strip_prefix("0x") { return V::Int(i128::from_str_radix(h, 16).unwrap()) }
    if d.contains('.') || d.contains('e') { return V::Float(d.parse().unwrap()) }
    V::Int(d.parse().unwrap())
}
