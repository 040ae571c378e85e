//! Words: everything that is one identifier to the lexer, up to a length.
#![allow(unused)]
use mc::gram::RUST_KEYWORDS;
use proc_macro2::{TokenStream, TokenTree};

/// all words up to a length over an alphabet, Rust's keywords, listed words and words near them, and all of those as raw identifiers
pub fn words(max: usize, listed: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut cur = vec![String::new()];
    for _ in 0..max {
        cur = cur.iter().flat_map(|w| "aAb_1ör".chars().map(move |c| format!("{w}{c}"))).collect();
        v.extend(cur.iter().filter(|w| !w.starts_with('1')).cloned());
    }
    v.extend(RUST_KEYWORDS.iter().map(|s| s.to_string()));
    v.extend(["union", "auto", "default", "macro_rules", "raw", "safe", "gen", "nai\u{308}ve", "o\u{308}", "fi", "漢", "字", "𝔸", "Strin", "ok", "OK", "none", "SELF", "sElf", "Fn", "FN"].iter().map(|s| s.to_string()));
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] { v.extend(["a".repeat(n), format!("{}b", "a".repeat(n - 1)), format!("b{}", "a".repeat(n - 1)), "ö".repeat(n)]) }
    for w in listed {
        let w = w.trim_start_matches("r#");
        let cs: Vec<char> = w.chars().collect();
        v.push(w.to_string());
        for i in 0..=cs.len() {
            let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            for x in ["_", "a", "1", "w", "S"] { v.push(format!("{a}{x}{b}")) }
            if i < cs.len() {
                let b2: String = cs[i + 1..].iter().collect();
                v.push(format!("{a}{b2}"));
                for x in ["_", "a", "1"] { v.push(format!("{a}{x}{b2}")) }
                v.push(format!("{a}{}{b2}", cs[i].to_uppercase()));
                v.push(format!("{a}{}{b2}", cs[i].to_lowercase()));
            }
        }
    }
    v.retain(|w| !w.is_empty() && !w.chars().next().unwrap().is_ascii_digit() && w != "r" || w == "r");
    let raws: Vec<String> = v.iter().filter(|w| !["_", "self", "Self", "super", "crate"].contains(&w.as_str())).map(|w| format!("r#{w}")).collect();
    v.extend(raws);
    v.sort();
    v.dedup();
    // exactly those that are one word to the lexer
    v.retain(|w| match w.parse::<TokenStream>() { Ok(t) => { let t: Vec<_> = t.into_iter().collect(); t.len() == 1 && matches!(&t[0], TokenTree::Ident(i) if i.to_string() == *w) } Err(_) => false });
    proc_macro2::extra::invalidate_current_thread_spans();
    v
}

