//! Value of a literal from its spelling, by the rules of the Rust reference.
#![allow(unused)]
use mc::gram::V;

fn hex(c: Option<char>) -> Result<u32, String> { c.and_then(|c| c.to_digit(16)).ok_or_else(|| "bad hex digit".into()) }

/// undoes the escapes of a character, string, byte or byte string body
pub fn unescape(body: &str, bytes: bool, continuation: bool) -> Result<Vec<u32>, String> {
    let mut out = vec![];
    let mut it = body.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' { if it.peek() == Some(&'\n') { continue } else { return Err("bare CR".into()) } }
        if c != '\\' { if bytes && !c.is_ascii() { return Err("non-ASCII byte".into()) } out.push(c as u32); continue }
        match it.next().ok_or("ends in a backslash")? {
            'n' => out.push(10), 'r' => out.push(13), 't' => out.push(9), '\\' => out.push(92), '0' => out.push(0), '\'' => out.push(39), '"' => out.push(34),
            'x' => { let v = hex(it.next())? * 16 + hex(it.next())?; if !bytes && v > 0x7f { return Err("\\x above 7f".into()) } out.push(v) }
            'u' if !bytes => {
                if it.next() != Some('{') { return Err("bad \\u".into()) }
                let (mut v, mut n) = (0u32, 0);
                loop { match it.next() { Some('}') if n > 0 => break, Some('_') if n > 0 => {} c => { v = v * 16 + hex(c)?; n += 1; if n > 6 { return Err("long \\u".into()) } } } }
                char::from_u32(v).ok_or("surrogate")?;
                out.push(v);
            }
            '\n' | '\r' if continuation => while matches!(it.peek(), Some(' ' | '\t' | '\n' | '\r')) { it.next(); },
            c => return Err(format!("bad escape {c:?}")),
        }
    }
    Ok(out)
}

fn raw(s: &str) -> Option<&str> {
    let n = s.len() - s.trim_start_matches('#').len();
    s[n..].strip_prefix('"')?.strip_suffix(&"#".repeat(n)[..])?.strip_suffix('"')
}

/// None: not a literal of the kinds Parsel knows
pub fn decode(s: &str) -> Result<V, String> {
    let chars = |b: Vec<u32>| b.into_iter().map(|c| char::from_u32(c).ok_or("not a character".to_string())).collect::<Result<String, _>>();
    if s == "true" || s == "false" { return Ok(V::Bool(s == "true")) }
    if let Some(r) = s.strip_prefix("br") { return Ok(V::ByteStr(raw(r).ok_or("bad raw")?.bytes().collect())) }
    if let Some(r) = s.strip_prefix('r') { return Ok(V::Str(raw(r).ok_or("bad raw")?.into())) }
    if let Some(b) = s.strip_prefix("b'").and_then(|b| b.strip_suffix('\'')) {
        return match unescape(b, true, false)?[..] { [b] => Ok(V::Byte(b as u8)), _ => Err("not one byte".into()) };
    }
    if let Some(b) = s.strip_prefix("b\"").and_then(|b| b.strip_suffix('"')) { return Ok(V::ByteStr(unescape(b, true, true)?.into_iter().map(|b| b as u8).collect())) }
    if let Some(b) = s.strip_prefix('"').and_then(|b| b.strip_suffix('"')) { return Ok(V::Str(chars(unescape(b, false, true)?)?)) }
    if let Some(b) = s.strip_prefix('\'').and_then(|b| b.strip_suffix('\'')) {
        return match unescape(b, false, false)?[..] { [c] => Ok(V::Char(char::from_u32(c).ok_or("not a character")?)), _ => Err("not one character".into()) };
    }
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d.trim_start()), None => (false, s) };
    let sign = |v: i128| V::Int(if neg { -v } else { v });
    let clean: String = d.chars().filter(|c| *c != '_').collect();
    for (p, r) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(h) = clean.strip_prefix(p) {
            let end = h.find(|c: char| !c.is_digit(r)).unwrap_or(h.len());
            return i128::from_str_radix(&h[..end], r).map(sign).map_err(|_| "huge".into());
        }
    }
    let end = clean.find(|c: char| !c.is_ascii_digit()).unwrap_or(clean.len());
    let rest = &clean[end..];
    let float = rest.starts_with('.') || rest.starts_with("f32") || rest.starts_with("f64") || (rest.starts_with(['e', 'E']) && rest[1..].starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-'));
    if !float { return clean[..end].parse().map(sign).map_err(|_| "huge".into()) }
    let num = clean.trim_end_matches("f32").trim_end_matches("f64");
    let f: f64 = num.parse().map_err(|e| format!("{num}: {e}"))?;
    Ok(V::Float(if neg { -f } else { f }))
}
