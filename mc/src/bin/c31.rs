//! C31: inside a procedural macro everything works as outside.
//!
//! Every input is given to Parsel twice: within the running compiler, where tokens, locations and
//! literals are the compiler's, through a procedural macro (../pm); and outside, at the same
//! places of the same text. What is reported must agree.
use mc::{explore::*, gram::*, run::*, tok::*};
use proc_macro2::{TokenStream, TokenTree};
use std::os::unix::process::CommandExt;
#[path = "../shared/env.rs"]
mod env;
use env::zoo::*;
#[path = "../shared/words.rs"]
mod words;
use parsel::ast::*;

/// Runs the compiler on a program; the lines its macros reported, or how it died.
fn compiled(program: &str, what: &str) -> Result<Vec<String>, String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let here = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
    let dir = here.join(format!("c31.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("user.rs"), program).unwrap();
    let mut cmd = std::process::Command::new("rustc");
    cmd.args(["--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-Awarnings", "--extern"]).arg(format!("pm={}", here.join("libpm.so").display())).args(["user.rs", "--out-dir", "."]).current_dir(&dir).env("MC_OUT", dir.join("out"));
    unsafe { cmd.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
    let o = cmd.output().unwrap();
    let lines = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
    std::fs::remove_dir_all(&dir).unwrap();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let mut lines: Vec<String> = lines.lines().map(|s| s.to_string()).collect();
    lines.sort_by_key(|l| l.split('\t').next().unwrap().parse::<u64>().unwrap());
    if !o.status.success() {
        // the compiler reports signals of its own accord, too
        if o.status.code().is_none() || err.contains("SIGSEGV") || err.contains("overflowed its stack") { return Err(format!("the compiler dies ({}) after {} of the calls of {what}: {}", o.status, lines.len(), err.chars().take(300).collect::<String>())) }
        panic!("harness: {what}: {}", err.chars().take(2000).collect::<String>())
    }
    Ok(lines)
}

/// a batch of macro calls: type number and token text, which may take several lines
fn batch(c: &mut Ctx, calls: &[(String, String)]) {
    let mut program = String::new();
    for (n, (t, s)) in calls.iter().enumerate() { program.push_str(&format!("pm::see!{{ {n} {t} {s} }}")); if calls.len() > 1 { program.push('\n') } }
    env::SRC.with(|s| *s.borrow_mut() = program.clone());
    // `pm :: see ! { .. }`, as the compiler sees it
    let outside: Vec<String> = program.parse::<TokenStream>().unwrap().into_iter().filter_map(|t| match t { TokenTree::Group(g) => Some(env::line(g.stream())), _ => None }).collect();
    assert_eq!(outside.len(), calls.len(), "harness");
    let inside = match compiled(&program, &calls[0].1) { Ok(l) => l, Err(e) => return c.fail(e) };
    c.states += calls.len() as u64;
    if inside.len() != calls.len() { return c.fail(format!("only {} of {} macro calls came to an end", inside.len(), calls.len())) }
    let tys = env::all();
    for (k, ((i, o), (t, s))) in inside.iter().zip(&outside).zip(calls).enumerate() {
        for (j, (a, b)) in i.split('\t').zip(o.split('\t')).enumerate() {
            c.transitions += 1;
            c.runs += 2;
            if j > 0 { c.outcome(if b.starts_with("error") { "rejected" } else { "accepted" }) }
            if a != b {
                let ty = match t.as_str() { "0" => tys.get(j.wrapping_sub(1)).map_or("", |t| t.0), "v" => "value", t => tys[t.parse::<usize>().unwrap() - 1].0 };
                c.fail(format!("{ty} on {s:?} (line {}): inside a procedural macro {a:?}, outside {b:?}", k + 1));
            }
        }
        if i.split('\t').count() != o.split('\t').count() { c.fail("harness: lines differ in length") }
    }
    c.sample(|| format!("{} calls: {:?} ... {:?}: {}", calls.len(), calls[0].1, calls[calls.len() - 1].1, outside[calls.len() / 2].chars().take(200).collect::<String>()));
}
/// `n` calls in batches of `size`
fn batches(name: &str, n: u64, size: u64, must: &[&'static str], f: impl Fn(u64) -> (String, String) + Sync + 'static) -> Suite {
    suite(name, n.div_ceil(size), must, move |i, c| { let calls: Vec<_> = (i * size..((i + 1) * size).min(n)).map(&f).collect(); batch(c, &calls) })
}

fn grouped(ts: Vec<Tok>) -> String { render(&[Tok::G(D::Par, ts)]).0 }

/// texts of literals
fn literals() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for base in ["0", "1", "7", "00", "01", "10", "1_0", "1_", "1__0", "255", "256", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "0x0", "0xff", "0xFF", "0x_f_", "0x7fffffffffffffff", "0x8000000000000000", "0xffffffffffffffff", "0b0", "0b101", "0b1_0", "0o17", "0o7_7", "1.0", "0.0", "1.5", "1.", "1.50", "1_0.0_5", "1e3", "1E3", "1e+3", "1e-3", "1.5e3", "1.5e-3", "1.5E+3_0", "1e308", "1.7976931348623157e308", "5e-324", "0.1", "0.10000000000000001", "123456789.125"] {
        v.push(base.into());
        for s in ["u8", "i64", "u64", "usize", "f64"] { if !base.ends_with('.') && !(base.starts_with("0x") && s == "f64") && !(s != "f64" && base.contains(['.', 'e', 'E']) && !base.starts_with("0x")) && !(base.starts_with("0b") && s == "f64") && !(base.starts_with("0o") && s == "f64") { v.push(format!("{base}{s}")) } }
    }
    let escapes = ["a", " ", "\\n", "\\r", "\\t", "\\0", "\\\\", "\\'", "\\\"", "\\x41", "\\x7f", "~", "#", "{"];
    let unicode = ["é", "漢", "\\u{e9}", "\\u{10ffff}", "\\u{1F_600}", "😀"];
    for e in escapes.iter().chain(&unicode) { v.push(format!("'{e}'")); for f in escapes.iter().chain(&unicode) { v.push(format!("\"{e}{f}\"")) } }
    for e in escapes.iter().chain(&["\\xff", "\\x80"]) { v.push(format!("b'{e}'")); for f in escapes.iter().chain(&["\\xff"]) { v.push(format!("b\"{e}{f}\"")) } }
    for h in ["", "#", "##"] { for b in ["", "a", "\\n", "\\", "é", "a\nb"] { v.push(format!("r{h}\"{b}\"{h}")); if b.is_ascii() { v.push(format!("br{h}\"{b}\"{h}")) } } }
    v.extend(["\"\"", "b\"\"", "\"a\\\n   b\"", "\"a\nb\"", "b\"a\\\n   b\"", "'\"'", "c\"a\"", "\"a\"suffix", "'a'suffix", "b\"a\"suffix"].map(String::from));
    v
}

fn main() {
    let q = !thorough();
    let atoms = alphabet(ALPHA);
    let mut v = vec![];
    let f = Forests::new(atoms.clone(), &D::ALL, if q { 3 } else { 4 });
    v.push(batches("every type: all token trees", f.len(), 40, &["accepted", "rejected"], move |i| ("0".into(), grouped(f.get(i)))));
    let f = Forests::new(atoms.clone(), &D::ALL, 2);
    v.push(batches("every type: token trees on several lines", f.len() * 3, 20, &["accepted", "rejected"], move |i| ("0".into(), grouped(f.get(i / 3)).replace(' ', ["\n", "\n\t/* é漢 */ ", "/*\né*/\r\n"][(i % 3) as usize]).replace('(', "( "))));
    // alone on the only line
    let solo: Vec<String> = ["(a)", "(1)", "(\"s\")", "(alpha fn)", "((a) [1] {fn})", "(+)", "(-> é a)", "(a + a)", "(a, a,)", "( /* é */ a )", "(true 'c' 1.5)", "(&& ..=)"].map(String::from).to_vec();
    v.push(batches("every type: a program of one line", solo.len() as u64, 1, &["accepted", "rejected"], move |i| ("0".into(), solo[i as usize].clone())));
    let gs: Vec<G> = { macro_rules! g { ($($t:ty),* $(,)?) => { vec![$(<$t as mc::spec::Spec>::g()),*] } } zoo!(g) };
    let lists = build_near(&gs, if q { 5 } else { 7 }, 0, &alphabet("a 1 + ->"));
    let flat: Vec<(usize, Vec<Tok>)> = lists.into_iter().enumerate().flat_map(|(k, l)| l.into_iter().map(move |s| (k, s))).collect();
    // every `step`-th of those next to derivable
    v.push(batches("derivable sequences and their edits", flat.len() as u64, 2000, &["accepted", "rejected"], move |i| { let (k, s) = &flat[i as usize]; ((k + 1).to_string(), grouped(fresh_names(s))) }));
    // long inputs, for every type
    let lens: &'static [usize] = if q { &[8, 33, 100] } else { &[4, 8, 16, 33, 64, 65, 128, 257, 600] };
    v.push(batches("every type: long inputs", (PERIODS.len() * lens.len()) as u64, 3, &["accepted", "rejected"], move |i| {
        let (p, n) = (PERIODS[i as usize % PERIODS.len()], lens[i as usize / PERIODS.len()]);
        ("0".into(), grouped(fresh_names(&(0..n).flat_map(|k| toks(p[k % p.len()])).collect::<Vec<_>>())))
    }));
    // one token of every form
    let no = |n: &str| (env::all().iter().position(|t| t.0.replace(' ', "") == n).unwrap() + 1).to_string();
    let mut forms: Vec<(String, String)> = vec![];
    let ws: Vec<String> = words::words(if q { 2 } else { 3 }, &["alpha", "fn", "alphabet", "_"]).into_iter().filter(|w| w.chars().all(|c| c.is_ascii() || c == 'ö')).collect();
    for t in ["Word", "Kid", "kw::Alpha", "kw::Fn", "kw::Under", "Many<Either<Kid,kw::Alpha>>", "LitBool"] { for w in &ws { forms.push((no(t), format!("({w})"))) } }
    let lits = literals();
    for t in ["LitBool", "LitByte", "LitInt", "LitUint", "LitFloat", "LitChar", "LitStr", "LitByteStr", "Lit", "Any<Lit>"] { for l in &lits { for sign in ["", "-", "- "] { forms.push((no(t), format!("({sign}{l})"))) } } }
    v.push(batches("words and literals of every form", forms.len() as u64, 1000, &["accepted", "rejected"], move |i| forms[i as usize].clone()));
    v.push(batches("all values", env::values::values().len() as u64, 1000, &["accepted"], move |i| ("v".into(), i.to_string())));
    main_("C31", v)
}
