//! Exploration driver: enumerates the cases of several suites exhaustively on all
//! cores, journals the case being run (so that crashes and hangs are attributable),
//! catches panics and reports counts.
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub fails: Vec<String>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub verbose: bool,
}

impl Ctx {
    pub fn outcome(&mut self, o: &'static str) { *self.outcomes.entry(o).or_insert(0) += 1 }
    pub fn fail(&mut self, m: impl Into<String>) { self.fails.push(short(m.into(), 4000)) }
    pub fn check(&mut self, ok: bool, m: impl FnOnce() -> String) { if !ok { self.fail(m()) } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { if self.want_sample { self.sample = Some(short(f(), 600)); self.want_sample = false } }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: impl FnOnce() -> String, got: T, want: T) {
        if got != want { self.fail(format!("{}: got {:?}, expected {:?}", what(), got, want)) }
    }
}

/// the start and the end of a long text
fn short(s: String, n: usize) -> String {
    if s.chars().count() <= n { return s }
    let c: Vec<char> = s.chars().collect();
    format!("{} … {}", c[..n / 2].iter().collect::<String>(), c[c.len() - n / 2..].iter().collect::<String>())
}

pub struct Suite {
    pub name: String,
    pub n: u64,
    /// outcomes that must occur at least once, else the exploration was vacuous
    pub must: Vec<&'static str>,
    pub f: Box<dyn Fn(u64, &mut Ctx) + Sync>,
}

pub fn suite(name: impl Into<String>, n: u64, must: &[&'static str], f: impl Fn(u64, &mut Ctx) + Sync + 'static) -> Suite {
    Suite { name: name.into(), n, must: must.to_vec(), f: Box::new(f) }
}

pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

const HANG: Duration = Duration::from_secs(25);
const STACK: usize = 256 << 20;

/// Journal: one (suite + 1, index) pair per worker, in a shared file mapping, so
/// that it survives any kind of death of this process.
struct Journal(*mut u64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
impl Journal {
    fn open(path: &str, threads: usize) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len((threads * 16) as u64).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), threads * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Journal(p as *mut u64)
    }
    fn set(&self, t: usize, s: u64, i: u64) { unsafe { self.0.add(2 * t).write_volatile(s); self.0.add(2 * t + 1).write_volatile(i) } }
    fn get(&self, t: usize) -> (u64, u64) { unsafe { (self.0.add(2 * t).read_volatile(), self.0.add(2 * t + 1).read_volatile()) } }
}

fn run_case(s: &Suite, i: u64, c: &mut Ctx) {
    let before = c.fails.len();
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(i, c)));
    if r.is_err() {
        let m = PANIC.with(|p| p.borrow().clone());
        c.fails.truncate(before);
        c.fails.push(format!("panic: {}", m));
    }
}

pub fn main_(prop: &str, suites: Vec<Suite>) {
    let args: Vec<String> = std::env::args().collect();
    let arg = |k: &str| args.iter().position(|a| a == k).map(|p| args[p + 1].clone());
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
    }));

    if args.iter().any(|a| a == "--suites") {
        println!("[{}]", suites.iter().map(|s| js(&s.name)).collect::<Vec<_>>().join(","));
        std::process::exit(0);
    }
    if let (Some(sn), Some(i)) = (arg("--suite"), arg("--idx")) {
        // replay of one case
        let Some(s) = suites.iter().find(|s| s.name == sn) else { eprintln!("no such suite"); std::process::exit(2) };
        let i: u64 = i.parse().unwrap();
        let fails = std::thread::scope(|sc| std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, || {
            let mut c = Ctx { verbose: true, ..Ctx::default() };
            run_case(s, i, &mut c);
            c.fails
        }).unwrap().join().unwrap());
        println!("{{\"fails\":[{}]}}", fails.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        std::process::exit(if fails.is_empty() { 0 } else { 1 });
    }

    let out = arg("--out").expect("--out FILE");
    let only = arg("--only");
    let nthreads: usize = arg("--threads").and_then(|x| x.parse().ok()).unwrap_or(8);
    let journal = Journal::open(&format!("{out}.journal"), nthreads);
    let hb: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Ctx::default());
    // (suite number, index, message)
    let fails: Mutex<Vec<(usize, u64, String)>> = Mutex::new(Vec::new());
    let mut reports = Vec::new();
    let mut vacuous = Vec::new();
    let mut samples: Vec<String> = Vec::new();

    std::thread::scope(|sc| {
        let (journal, hb, done, suites_ref) = (&journal, &hb, &done, &suites);
        let out2 = out.clone();
        sc.spawn(move || {
            let mut seen = vec![(0u64, Instant::now()); nthreads];
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(100));
                for t in 0..nthreads {
                    let v = hb[t].load(Relaxed);
                    if v != seen[t].0 || v & 1 == 0 { seen[t] = (v, Instant::now()) }
                    else if seen[t].1.elapsed() > HANG {
                        let (s, i) = journal.get(t);
                        let m = format!("{{\"hang\":{{\"suite\":{},\"idx\":{}}}}}", js(&suites_ref[s as usize - 1].name), i);
                        std::fs::write(&out2, m).unwrap();
                        std::process::exit(3);
                    }
                }
            }
        });
        for (sn, s) in suites.iter().enumerate() {
            if only.as_ref().is_some_and(|o| !s.name.contains(o.as_str())) { continue }
            let ts = Instant::now();
            let next = AtomicU64::new(0);
            let chunk = (s.n / 512).clamp(1, 256);
            let acc = Mutex::new(Ctx::default());
            std::thread::scope(|sc| {
                for t in 0..nthreads {
                    let (next, stop, acc, fails) = (&next, &stop, &acc, &fails);
                    std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || {
                        let mut c = Ctx::default();
                        'all: loop {
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= s.n { break }
                            // one sample from the middle of each suite
                            for i in lo..(lo + chunk).min(s.n) {
                                if stop.load(Relaxed) { break 'all }
                                if i == s.n / 2 || i == s.n - 1 { c.want_sample = true }
                                journal.set(t, sn as u64 + 1, i);
                                hb[t].fetch_add(1, Relaxed);
                                run_case(s, i, &mut c);
                                hb[t].fetch_add(1, Relaxed);
                                c.want_sample = false;
                                if !c.fails.is_empty() {
                                    let mut f = fails.lock().unwrap();
                                    for m in c.fails.drain(..) { f.push((sn, i, m)) }
                                    if f.len() >= 40 { stop.store(true, Relaxed) }
                                }
                            }
                            // the source map of this thread only ever grows
                            proc_macro2::extra::invalidate_current_thread_spans();
                        }
                        let mut a = acc.lock().unwrap();
                        a.states += c.states; a.transitions += c.transitions; a.runs += c.runs;
                        for (k, v) in c.outcomes { *a.outcomes.entry(k).or_insert(0) += v }
                        if let Some(s) = c.sample { a.sample = Some(s) }
                    }).unwrap();
                }
            });
            let a = acc.into_inner().unwrap();
            let complete = !stop.load(SeqCst);
            if complete { for m in &s.must { if !a.outcomes.contains_key(m) { vacuous.push(format!("suite {}: no case with outcome {:?} (seen: {:?})", s.name, m, a.outcomes)) } } }
            if let Some(x) = &a.sample { samples.push(format!("{}: {}", s.name, x)) }
            reports.push(format!("{{\"suite\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"impl_runs\":{},\"complete\":{},\"outcomes\":{{{}}},\"wall_s\":{:.2}}}",
                js(&s.name), s.n, a.states, a.transitions, a.runs, complete,
                a.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","), ts.elapsed().as_secs_f64()));
            if std::env::var_os("MC_VERBOSE").is_some() { eprintln!("{}", reports.last().unwrap()) }
            let mut t = total.lock().unwrap();
            t.states += a.states; t.transitions += a.transitions; t.runs += a.runs;
            if stop.load(SeqCst) { break }
        }
        done.store(true, SeqCst);
    });

    let mut f = fails.into_inner().unwrap();
    f.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
    let t = total.into_inner().unwrap();
    let txt = format!(
        "{{\"property\":{},\"states\":{},\"transitions\":{},\"impl_runs\":{},\"wall_s\":{:.2},\"suites\":[{}],\"samples\":[{}],\"vacuous\":[{}],\"fails\":[{}]}}",
        js(prop), t.states, t.transitions, t.runs, t0.elapsed().as_secs_f64(), reports.join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        vacuous.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        f.iter().map(|(s, i, m)| format!("{{\"suite\":{},\"idx\":{},\"msg\":{}}}", js(&suites[*s].name), i, js(m))).collect::<Vec<_>>().join(","));
    std::fs::write(&out, txt).unwrap();
    std::process::exit(if !f.is_empty() { 1 } else { 0 });
}
