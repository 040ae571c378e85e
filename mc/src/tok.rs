//! Token-tree model: enumeration of all token trees of a bounded size, and
//! rendering to source text with positions known by construction.
use std::borrow::Cow;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum D { Par, Brk, Brc }

impl D {
    pub const ALL: [D; 3] = [D::Par, D::Brk, D::Brc];
    pub fn open(self) -> char { match self { D::Par => '(', D::Brk => '[', D::Brc => '{' } }
    pub fn close(self) -> char { match self { D::Par => ')', D::Brk => ']', D::Brc => '}' } }
    pub fn name(self) -> &'static str { match self { D::Par => "paren", D::Brk => "bracket", D::Brc => "brace" } }
}

pub type Str = Cow<'static, str>;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tok {
    I(Str),
    /// punctuation character; `true`: immediately followed by another one
    P(char, bool),
    L(Str),
    G(D, Vec<Tok>),
}

/// A position: byte offset, character offset, 1-based line, 0-based column in characters.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Pos { pub byte: usize, pub chr: usize, pub line: usize, pub col: usize }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Sp { pub lo: Pos, pub hi: Pos }

impl Sp {
    pub fn to(self, o: Sp) -> Sp { Sp { lo: self.lo, hi: o.hi } }
    /// (start line, start col, end line, end col)
    pub fn lc(self) -> Lc { Lc { sl: self.lo.line, sc: self.lo.col, el: self.hi.line, ec: self.hi.col } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Lc { pub sl: usize, pub sc: usize, pub el: usize, pub ec: usize }

impl Lc {
    pub const NOWHERE: Lc = Lc { sl: 1, sc: 0, el: 1, ec: 0 };
    pub fn of(s: proc_macro2::Span) -> Lc {
        let (a, b) = (s.start(), s.end());
        Lc { sl: a.line, sc: a.column, el: b.line, ec: b.column }
    }
    pub fn end(self) -> (usize, usize) { (self.el, self.ec) }
}

/// A token with its place in the rendered source.
#[derive(Clone, Debug)]
pub struct LTok { pub t: LT, pub sp: Sp }

#[derive(Clone, Debug)]
pub enum LT {
    I(Str),
    P(char, bool),
    L(Str),
    G { d: D, open: Sp, close: Sp, inner: Vec<LTok> },
}

/// Renders tokens; `gap` is asked for the text between two tokens, and
/// must return non-empty whitespace unless the boundary is one where tokens
/// cannot run into each other. It gets `true` at the inner side of a delimiter.
pub struct Renderer<'g> {
    pub out: String,
    pub pos: Pos,
    gap: &'g mut dyn FnMut(bool) -> Str,
}

impl<'g> Renderer<'g> {
    pub fn new(gap: &'g mut dyn FnMut(bool) -> Str) -> Self {
        Renderer { out: String::new(), pos: Pos { byte: 0, chr: 0, line: 1, col: 0 }, gap }
    }
    pub fn put(&mut self, s: &str) -> Sp {
        let lo = self.pos;
        for c in s.chars() {
            self.pos.byte += c.len_utf8();
            self.pos.chr += 1;
            if c == '\n' { self.pos.line += 1; self.pos.col = 0 } else { self.pos.col += 1 }
        }
        self.out.push_str(s);
        Sp { lo, hi: self.pos }
    }
    fn put_gap(&mut self, inside: bool) { let g = (self.gap)(inside); self.put(&g); }
    pub fn toks(&mut self, ts: &[Tok], grouped: bool) -> Vec<LTok> {
        let mut v = Vec::with_capacity(ts.len());
        if grouped && !ts.is_empty() { self.put_gap(true) }
        for (i, t) in ts.iter().enumerate() {
            let mut glued = false;
            let lt = match t {
                Tok::I(s) => { let sp = self.put(s); LTok { t: LT::I(s.clone()), sp } }
                Tok::L(s) => { let sp = self.put(s); LTok { t: LT::L(s.clone()), sp } }
                Tok::P(c, j) => {
                    let mut b = [0; 4];
                    let sp = self.put(c.encode_utf8(&mut b));
                    glued = *j;
                    LTok { t: LT::P(*c, *j), sp }
                }
                Tok::G(d, inner) => {
                    let mut b = [0; 4];
                    let open = self.put(d.open().encode_utf8(&mut b));
                    let inner = self.toks(inner, true);
                    let close = self.put(d.close().encode_utf8(&mut b));
                    LTok { t: LT::G { d: *d, open, close, inner }, sp: open.to(close) }
                }
            };
            v.push(lt);
            if i + 1 < ts.len() { if !glued { self.put_gap(false) } } else if grouped { self.put_gap(true) }
        }
        v
    }
}

/// Renders with single spaces between tokens and nothing inside delimiters.
pub fn render(ts: &[Tok]) -> (String, Vec<LTok>) {
    let mut gap = |inside: bool| -> Str { if inside { Cow::Borrowed("") } else { Cow::Borrowed(" ") } };
    let mut r = Renderer::new(&mut gap);
    let l = r.toks(ts, false);
    (r.out, l)
}

/// One leaf symbol of an enumeration alphabet: a short token sequence.
/// `A` in place of an identifier name is replaced by a fresh name per occurrence.
pub type Atom = Vec<Tok>;

pub fn id(s: &'static str) -> Atom { vec![Tok::I(s.into())] }
pub fn lit(s: &'static str) -> Atom { vec![Tok::L(s.into())] }
pub fn op(s: &str) -> Atom {
    let cs: Vec<char> = s.chars().collect();
    cs.iter().enumerate().map(|(i, c)| Tok::P(*c, i + 1 < cs.len())).collect()
}

/// Parses a compact alphabet description: items separated by spaces; words are
/// identifiers, digits or quotes start literals, `///` is a documentation comment, anything else
/// is an operator.
pub fn alphabet(s: &'static str) -> Vec<Atom> {
    s.split(' ').filter(|w| !w.is_empty()).map(|w| {
        let c = w.chars().next().unwrap();
        if w == "///" { vec![Tok::P('#', false), Tok::G(D::Brk, vec![Tok::I("doc".into()), Tok::P('=', false), Tok::L("\"x\"".into())])] }
        else if w.starts_with("b'") || w.starts_with("b\"") || c.is_ascii_digit() || c == '"' || (c == '\'' && w.len() > 2) { lit(w) }
        else if c == '-' && w.len() > 1 && w.as_bytes()[1].is_ascii_digit() {
            vec![Tok::P('-', false), Tok::L(Cow::Borrowed(&w[1..]))]
        }
        else if c == '_' || c.is_alphabetic() { id(w) }
        else if c == '\'' && w.len() == 2 { vec![Tok::P('\'', true), Tok::I(Cow::Borrowed(&w[1..]))] }
        else { op(w) }
    }).collect()
}

/// All forests over leaf atoms and groups, addressable by index.
pub struct Forests { pub atoms: Vec<Atom>, pub delims: Vec<D>, tree: Vec<u64>, forest: Vec<u64>, max: usize }

impl Forests {
    pub fn new(atoms: Vec<Atom>, delims: &[D], max: usize) -> Self {
        let (l, d) = (atoms.len() as u64, delims.len() as u64);
        let mut tree = vec![0u64; max + 1];
        let mut forest = vec![0u64; max + 1];
        forest[0] = 1;
        for n in 1..=max {
            tree[n] = if n == 1 { l + d } else { d * forest[n - 1] };
            // leaves have size one; a group has size one plus its content
            forest[n] = (1..=n).map(|k| tree[k] * forest[n - k]).sum();
        }
        Forests { atoms, delims: delims.to_vec(), tree, forest, max }
    }
    pub fn len(&self) -> u64 { self.forest[..=self.max].iter().sum() }
    pub fn get(&self, mut i: u64) -> Vec<Tok> {
        for n in 0..=self.max {
            if i < self.forest[n] {
                let mut out = Vec::new();
                let mut fresh = 0;
                self.forest_at(n, i, &mut out, &mut fresh);
                return out;
            }
            i -= self.forest[n];
        }
        panic!("forest index out of range")
    }
    fn forest_at(&self, mut n: usize, mut i: u64, out: &mut Vec<Tok>, fresh: &mut usize) {
        while n > 0 {
            for k in 1..=n {
                let c = self.tree[k] * self.forest[n - k];
                if i < c {
                    let (t, r) = (i / self.forest[n - k], i % self.forest[n - k]);
                    self.tree_at(k, t, out, fresh);
                    n -= k;
                    i = r;
                    break;
                }
                i -= c;
            }
        }
    }
    fn tree_at(&self, k: usize, i: u64, out: &mut Vec<Tok>, fresh: &mut usize) {
        let l = self.atoms.len() as u64;
        if k == 1 && i < l {
            push_atom(out, &self.atoms[i as usize], fresh);
            return;
        }
        let i = if k == 1 { i - l } else { i };
        let f = self.forest[k - 1];
        let d = self.delims[(i / f) as usize];
        let mut inner = Vec::new();
        self.forest_at(k - 1, i % f, &mut inner, fresh);
        out.push(Tok::G(d, inner));
    }
}

/// Appends an atom, giving each `a` identifier a name of its own, so that swapped
/// or duplicated items are visible.
pub fn push_atom(out: &mut Vec<Tok>, a: &Atom, fresh: &mut usize) {
    for t in a {
        match t {
            Tok::I(s) if s == "a" => { out.push(Tok::I(Cow::Owned(format!("a{}", *fresh)))); *fresh += 1; }
            t => out.push(t.clone()),
        }
    }
}

/// All flat sequences over symbols of any kind (atoms may contain groups), up to `max` long.
pub struct Seqs { pub syms: Vec<Vec<Tok>>, pub max: usize }

impl Seqs {
    pub fn len(&self) -> u64 { (0..=self.max).map(|n| (self.syms.len() as u64).pow(n as u32)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<Tok> {
        let b = self.syms.len() as u64;
        for n in 0..=self.max {
            let c = b.pow(n as u32);
            if i < c {
                let mut ds = vec![0; n];
                for d in ds.iter_mut().rev() { *d = (i % b) as usize; i /= b }
                let (mut out, mut fresh) = (Vec::new(), 0);
                for d in ds { push_sym(&mut out, &self.syms[d], &mut fresh) }
                return out;
            }
            i -= c;
        }
        panic!("sequence index out of range")
    }
}

pub fn push_sym(out: &mut Vec<Tok>, s: &[Tok], fresh: &mut usize) {
    for t in s {
        match t {
            Tok::G(d, inner) => { let mut v = Vec::new(); push_sym(&mut v, inner, fresh); out.push(Tok::G(*d, v)) }
            t => push_atom(out, &vec![t.clone()], fresh),
        }
    }
}

/// A long regular sequence, `item (sep item)*`-like, with up to two deviations:
/// the unit list has `n` units cycling through `period`, and at most two units are replaced,
/// deleted or preceded by one of `devs`.
pub struct Long { pub period: Vec<Vec<Tok>>, pub lens: Vec<usize>, pub devs: Vec<Vec<Tok>>, pub k: usize }

impl Long {
    /// number of edits available at one position
    fn e(&self) -> u64 { 2 * self.devs.len() as u64 + 1 }
    fn count(&self, n: usize) -> u64 {
        let n = n as u64;
        let s = n * self.e();
        match self.k { 0 => 1, 1 => 1 + s, _ => 1 + s + (n * n.saturating_sub(1) / 2) * self.e() * self.e() }
    }
    pub fn len(&self) -> u64 { self.lens.iter().map(|&n| self.count(n)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<Tok> {
        for &n in &self.lens {
            let c = self.count(n);
            if i >= c { i -= c; continue }
            let mut edits: Vec<(usize, u64)> = Vec::new();
            let e = self.e();
            if i > 0 {
                i -= 1;
                if i < n as u64 * e { edits.push(((i / e) as usize, i % e)) }
                else {
                    i -= n as u64 * e;
                    let (pair, ee) = (i / (e * e), i % (e * e));
                    // unrank the pair p<q
                    let mut p = 0; let mut r = pair;
                    while r >= (n - 1 - p) as u64 { r -= (n - 1 - p) as u64; p += 1 }
                    let q = p + 1 + r as usize;
                    edits.push((p, ee / e));
                    edits.push((q, ee % e));
                }
            }
            let (mut out, mut fresh) = (Vec::new(), 0);
            for u in 0..n {
                match edits.iter().find(|x| x.0 == u) {
                    None => push_sym(&mut out, &self.period[u % self.period.len()], &mut fresh),
                    Some(&(_, 0)) => {}
                    Some(&(_, x)) => {
                        let x = x - 1;
                        let dv = self.devs.len() as u64;
                        push_sym(&mut out, &self.devs[(x % dv) as usize], &mut fresh);
                        if x >= dv { push_sym(&mut out, &self.period[u % self.period.len()], &mut fresh) }
                    }
                }
            }
            return out;
        }
        panic!("long index out of range")
    }
}
