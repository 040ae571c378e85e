//! What an error says, compared with the failures of the model.
#![allow(dead_code)]
use mc::{gram::*, spec::*, tok::*};
use std::sync::OnceLock;

/// One field, whatever it is.
mod one {
    #![allow(unused_imports)]
    use mc::{gram::*, grammar, spec::*};
    grammar! { struct Field<A>(0: A); }
}
use one::Field;

/// How a derived parser words the context it adds around a cause: text before and
/// after the name of the place. Learned from the implementation, not prescribed.
pub fn template() -> &'static Result<(String, String), String> {
    static T: OnceLock<Result<(String, String), String>> = OnceLock::new();
    T.get_or_init(|| {
        let m = match parsel::parse_str::<Field<proc_macro2::Ident>>("+") { Err(e) => e.to_string(), Ok(_) => return Err("Field<Ident> accepts `+`".into()) };
        let root = leaf_msg::<proc_macro2::Ident>("+");
        let Some(pos) = m.find("Field::0") else { return Err(format!("the error of a failed field does not name the struct and field: {m:?}")) };
        let (pre, rest) = (m[..pos].to_string(), &m[pos + 8..]);
        match rest.strip_suffix(&root) { Some(post) => Ok((pre, post.to_string())), None => Err(format!("the error of a failed field does not end in its cause: {m:?}")) }
    })
}

pub fn layout(toks: &[Tok], k: usize) -> (String, Vec<LTok>) {
    let mut n = 0;
    let mut gap = move |inside: bool| -> Str {
        n += 1;
        match k {
            0 => if inside { "".into() } else { " ".into() },
            // every token on a line of its own, further left than the one before
            1 => format!("\n{}", " ".repeat(24usize.saturating_sub(3 * n))).into(),
            // alternating, with multi-byte characters in between
            _ => if n % 2 == 0 { "\n".into() } else { " /* \u{1d54a}\u{e9} */   ".into() },
        }
    };
    let mut r = Renderer::new(&mut gap);
    if k > 0 { r.put("                              "); }
    let l = r.toks(toks, false);
    (r.out, l)
}

pub fn same_context(m: &str, x: &Cand, pre: &str, post: &str) -> bool {
    let mut m = m;
    for n in x.ctx.iter().rev() {
        match m.strip_prefix(pre).and_then(|m| m.strip_prefix(n.as_str())).and_then(|m| m.strip_prefix(post)) { Some(r) => m = r, None => return false }
    }
    !m.is_empty()
}


/// Whether an error is one of the failures: its place, and its message with the names of the
/// places on the way; if not, what would be.
pub fn reports(e: &PErr, f: &Fail) -> Result<Option<Vec<(Lc, String)>>, String> {
    let (pre, post) = match template() { Ok(x) => x, Err(m) => return Err(m.clone()) };
    let want: Vec<(Lc, String)> = f.cands.iter().map(|x| {
        let mut m = String::new();
        for n in x.ctx.iter().rev() { m.push_str(pre); m.push_str(n); m.push_str(post) }
        m.push_str(&x.root);
        (x.loc.unwrap_or(Lc::NOWHERE), m)
    }).collect();
    // the wording for an empty enum is not prescribed
    let ok = f.cands.iter().zip(&want).any(|(x, w)| e.lc == w.0 && (e.msg == w.1 || (x.root.is_empty() && same_context(&e.msg, x, pre, post))));
    Ok(if ok { None } else { Some(want) })
}
