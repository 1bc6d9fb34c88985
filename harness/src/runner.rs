//! Runs a check: generates a fixed set of cases, tests them, shrinks failures.
use crate::case;
use crate::case::Case;
use crate::cov;
use crate::rng;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic;
use std::path::PathBuf;
use std::process::Command;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use std::time::Duration;
use std::time::Instant;

pub enum Out {
    /// Bit set: 1 if non-trivial, other bits according to `Prop::labels`.
    Pass(u64),
    Fail(String),
}

pub struct Guide {
    /// Inputs of this chunk that reached something new.
    pub corpus: Vec<String>,
    pub seeds: &'static [String],
}

impl Guide {
    pub fn pick<'a>(&'a self, r: &mut Rng) -> &'a str {
        if !self.corpus.is_empty() && r.n(4) > 0 {
            r.pick(&self.corpus)
        } else {
            r.pick(self.seeds)
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub labels: &'static [&'static str],
    pub gen: fn(&mut Rng, &Guide) -> Case,
    pub test: fn(&Case) -> Out,
    /// Whether a (minimal) failing case is about this property.
    pub relevant: fn(&Case) -> bool,
    /// Cases in the quick tier.
    pub quick: usize,
}

pub const CHUNKS_QUICK: usize = 32;
pub const CHUNKS_THOROUGH: usize = 320;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    panic::set_hook(Box::new(|i| {
        let s = format!(
            "panic at {}: {}",
            i.location().map_or(String::new(), |l| format!(
                "{}:{}",
                l.file().rsplit('/').next().unwrap(),
                l.line()
            )),
            i.payload()
                .downcast_ref::<String>()
                .map(String::as_str)
                .or_else(|| i.payload().downcast_ref::<&str>().copied())
                .unwrap_or("?")
        );
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn eval(p: &Prop, c: &Case) -> Out {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (p.test)(c)));
    cov::steps();
    r.unwrap_or_else(|_| Out::Fail(PANIC.with(|p| p.borrow().clone())))
}

/// As `eval`, for a part of a test that runs in its own thread.
pub fn eval_fn(f: impl FnOnce() -> Out) -> Out {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    cov::steps();
    r.unwrap_or_else(|_| Out::Fail(PANIC.with(|p| p.borrow().clone())))
}

fn relevant(p: &Prop, c: &Case) -> bool {
    panic::catch_unwind(panic::AssertUnwindSafe(|| (p.relevant)(c))).unwrap_or(true)
}

/// Pieces of a long text, with long repetitions cut into few pieces of decreasing length.
fn pieces(u: Vec<String>) -> Vec<String> {
    if u.len() < 1000 {
        return u;
    }
    let mut v = Vec::new();
    let mut i = 0;
    while i < u.len() {
        let (p, n) = (1..=8)
            .map(|p| (p, (i..u.len() - p.min(u.len() - i)).take_while(|j| u[*j] == u[*j + p]).count() / p + 1))
            .max_by_key(|(p, n)| p * n)
            .unwrap();
        if p * n < 64 {
            v.push(u[i].clone());
            i += 1;
            continue;
        }
        let mut left = n;
        while left > 0 {
            let k = left.div_ceil(2);
            v.push(u[i..i + p * k].concat());
            i += p * k;
            left -= k;
        }
    }
    v
}

pub fn shrink(c: &Case, limit: usize, time: Duration, fails: &mut dyn FnMut(&Case) -> bool) -> Case {
    let mut c = c.clone();
    let mut left = limit;
    let start = Instant::now();
    let mut attempt = |n: &Case| -> bool {
        if left == 0 || start.elapsed() > time {
            return false;
        }
        left -= 1;
        fails(n)
    };
    loop {
        let before = c.clone();
        for i in 0..c.t.len() {
            // remove lines, then characters
            for by_line in [true, false] {
                let split = |s: &str| -> Vec<String> {
                    if by_line {
                        s.split_inclusive('\n').map(str::to_string).collect()
                    } else {
                        s.chars().map(String::from).collect()
                    }
                };
                let mut u = pieces(split(&c.t[i]));
                let mut size = u.len();
                while size > 0 {
                    let mut at = 0;
                    let mut removed = false;
                    while at + size <= u.len() {
                        let mut n = c.clone();
                        n.t[i] = u[..at].concat() + &u[at + size..].concat();
                        if attempt(&n) {
                            u.drain(at..at + size);
                            c = n;
                            removed = true;
                        } else {
                            at += (size / 2).max(1);
                        }
                    }
                    size = if removed { size.min(u.len()) } else { size / 2 };
                }
            }
            // simplify characters
            let chars: Vec<char> = c.t[i].chars().collect();
            if chars.len() < 200 {
                for j in 0..chars.len() {
                    for to in ['a', ' '] {
                        let mut v: Vec<char> = c.t[i].chars().collect();
                        if v[j] == to || v[j].is_ascii_punctuation() || v[j] == ' ' || v[j] == '\n' {
                            continue;
                        }
                        v[j] = to;
                        let mut n = c.clone();
                        n.t[i] = v.into_iter().collect();
                        if attempt(&n) {
                            c = n;
                        }
                    }
                }
            }
        }
        for i in 0..c.n.len() {
            for to in [0, 1, c.n[i] / 2, c.n[i].saturating_sub(1)] {
                if to < c.n[i] {
                    let mut n = c.clone();
                    n.n[i] = to;
                    if attempt(&n) {
                        c = n;
                    }
                }
            }
        }
        if c == before {
            return c;
        }
    }
}

struct Shared<'a> {
    p: &'a Prop,
    seed: u64,
    tier: &'a str,
    per_chunk: usize,
    chunks: usize,
    next: AtomicUsize,
    stop: AtomicBool,
    distinct: Vec<AtomicU64>,
    /// For each thread, the case being tested.
    progress: Vec<std::fs::File>,
    seeds: &'static [String],
    /// Report cases that take longer, in milliseconds (for development).
    slow: Option<u64>,
}

struct Labels([u64; 64]);

impl Default for Labels {
    fn default() -> Self {
        Labels([0; 64])
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: u64,
    labels: Labels,
    unrelated: u64,
    unrelated_samples: Vec<Case>,
    samples: Vec<Case>,
    seen: Option<cov::Seen>,
    found: Vec<(usize, Case, String)>,
    maxlen: usize,
    bytes: u64,
    /// Failures that did not occur again in 20 runs.
    flaky: u64,
}

const BITS: u64 = 31;
/// Time to spend on shrinking in a chunk; one failure gets a part of it.
const SHRINK: Duration = Duration::from_secs(240);

fn chunk(s: &Shared, thread: usize, chunk: usize, st: &mut Stats) {
    let base = rng::mix(rng::fnv(s.p.id.as_bytes(), s.seed ^ 0x5bd1_e995) ^ (chunk as u64).rotate_left(32))
        ^ if s.tier == "thorough" { 0xabcd_ef } else { 0 };
    let mut g = Guide {
        corpus: Vec::new(),
        seeds: s.seeds,
    };
    let mut seen = cov::Seen::new();
    let mut shrinks = 0usize;
    let mut spent = Duration::ZERO;
    for i in 0..s.per_chunk {
        if s.stop.load(Ordering::Relaxed) {
            break;
        }
        let mut r = Rng::new(base.wrapping_add((i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)));
        let c = (s.p.gen)(&mut r, &g);
        if let Some(f) = s.progress.get(thread) {
            let t = c.to_text();
            let mut b = (t.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(t.as_bytes());
            let _ = f.write_at(&b, 0);
        }
        let guided = i % 4 == 0;
        if guided {
            cov::clear();
        }
        st.evals += 1;
        st.bytes += c.len() as u64;
        let start = s.slow.map(|_| Instant::now());
        let out = eval(s.p, &c);
        if start.is_some_and(|t| t.elapsed().as_millis() as u64 > s.slow.unwrap()) {
            eprintln!("slow: {:?} {}", start.unwrap().elapsed(), json_case(&c));
        }
        match out {
            Out::Pass(l) => {
                if l & 1 != 0 {
                    st.nontrivial += 1;
                    let h = c.hash() & ((1 << BITS) - 1);
                    let bit = 1u64 << (h & 63);
                    if s.distinct[(h >> 6) as usize].fetch_or(bit, Ordering::Relaxed) & bit == 0 {
                        st.distinct += 1;
                    }
                    if i % (s.per_chunk / 3 + 1) == 7 || st.samples.is_empty() {
                        st.samples.push(c.clone());
                    }
                }
                st.maxlen = st.maxlen.max(c.len());
                if l > 1 {
                    for b in 1..64 {
                        st.labels.0[b] += (l >> b) & 1;
                    }
                }
            }
            Out::Fail(_) => {
                st.unrelated += 1;
                shrinks += 1;
                if !(0..20).any(|_| matches!(eval(s.p, &c), Out::Fail(_))) {
                    st.flaky += 1;
                    continue;
                }
                if shrinks <= 60 || shrinks < 3000 && shrinks % 20 == 0 {
                    let start = Instant::now();
                    let time = (SHRINK.saturating_sub(spent) / 8).max(Duration::from_secs(2));
                    let m = shrink(&c, 6000, time, &mut |c| {
                        !s.stop.load(Ordering::Relaxed) && matches!(eval(s.p, c), Out::Fail(_))
                    });
                    spent += start.elapsed();
                    if s.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let msg = match eval(s.p, &m) {
                        Out::Fail(m) => m,
                        Out::Pass(_) => "does not fail again".into(),
                    };
                    if relevant(s.p, &m) {
                        st.unrelated -= 1;
                        st.found.push((chunk, m, msg));
                        s.stop.store(true, Ordering::Relaxed);
                        break;
                    } else if st.unrelated_samples.len() < 3 {
                        st.unrelated_samples.push(m);
                    }
                }
            }
        }
        if guided && seen.novel() {
            let t = c.t.first().cloned().unwrap_or_default();
            if t.len() < 2000 {
                if g.corpus.len() < 1500 {
                    g.corpus.push(t);
                } else {
                    let j = r.n(1500);
                    g.corpus[j] = t;
                }
            }
        }
    }
    match &mut st.seen {
        Some(s) => s.merge(&seen),
        None => st.seen = Some(seen),
    }
}

fn json_case(c: &Case) -> String {
    let t: Vec<String> = c
        .t
        .iter()
        .map(|t| {
            let mut e = t.len().min(600);
            while !t.is_char_boundary(e) {
                e -= 1;
            }
            case::quote(&t[..e])
        })
        .collect();
    let n: Vec<String> = c.n.iter().map(u64::to_string).collect();
    if n.is_empty() && t.len() == 1 {
        t[0].clone()
    } else {
        format!("{{\"texts\":[{}],\"numbers\":[{}]}}", t.join(","), n.join(","))
    }
}

pub struct Args {
    pub seed: u64,
    pub tier: String,
    pub scratch: PathBuf,
    /// Multiplies the number of cases.
    pub scale: f64,
}

fn progress_file(a: &Args, thread: usize) -> PathBuf {
    a.scratch.join(format!("progress-{thread}"))
}

fn shared<'a>(p: &'a Prop, a: &'a Args) -> Shared<'a> {
    let chunks = if a.tier == "thorough" {
        CHUNKS_THOROUGH
    } else {
        CHUNKS_QUICK
    };
    Shared {
        p,
        seed: a.seed,
        tier: &a.tier,
        per_chunk: ((p.quick as f64 * a.scale) as usize / CHUNKS_QUICK).max(1),
        chunks,
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        distinct: (0..1usize << (BITS - 6)).map(|_| AtomicU64::new(0)).collect(),
        progress: (0..THREADS)
            .map(|t| std::fs::File::create(progress_file(a, t)).expect("create progress file"))
            .collect(),
        seeds: crate::seeds(),
        slow: std::env::var("HARNESS_SLOW").ok().and_then(|s| s.parse().ok()),
    }
}

pub const THREADS: usize = 8;
const STACK: usize = 1 << 30;

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

/// Exit code.
pub fn worker(p: &Prop, a: &Args) -> i32 {
    let start = Instant::now();
    let s = shared(p, a);
    let all = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let s = &s;
                let all = &all;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        loop {
                            let c = s.next.fetch_add(1, Ordering::Relaxed);
                            if c >= s.chunks || s.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            chunk(s, t, c, &mut st);
                        }
                        all.lock().unwrap().push(st);
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    });
    let mut total = Stats::default();
    let mut seen = cov::Seen::new();
    for st in all.into_inner().unwrap() {
        total.evals += st.evals;
        total.bytes += st.bytes;
        total.nontrivial += st.nontrivial;
        total.distinct += st.distinct;
        total.unrelated += st.unrelated;
        total.flaky += st.flaky;
        total.maxlen = total.maxlen.max(st.maxlen);
        for (a, b) in total.labels.0.iter_mut().zip(st.labels.0) {
            *a += b;
        }
        total.samples.extend(st.samples);
        total.unrelated_samples.extend(st.unrelated_samples);
        total.found.extend(st.found);
        if let Some(s) = st.seen {
            seen.merge(&s);
        }
    }
    total.samples.sort_by_key(|c| c.hash());
    total.samples.truncate(12);
    total.unrelated_samples.truncate(5);
    total.found.sort_by_key(|f| (f.1.len(), f.0));
    let wall = start.elapsed().as_secs_f64();
    evidence(p, a, &total, seen.edges(), wall);
    println!(
        "{}: {} cases, {} non-trivial ({} distinct), {} unrelated mismatches, {} bytes on average, {}/{} edges, {:.1} s",
        p.id,
        total.evals,
        total.nontrivial,
        total.distinct,
        total.unrelated,
        total.bytes / total.evals.max(1),
        seen.edges(),
        cov::guards(),
        wall
    );
    for (i, n) in p.labels.iter().enumerate() {
        print!("{}{n} {}", if i == 0 { "  " } else { ", " }, total.labels.0[i + 1]);
    }
    println!();
    if total.flaky > 0 {
        println!("  {} failures could not be reproduced", total.flaky);
    }
    for c in &total.unrelated_samples {
        println!("  unrelated: {}", json_case(c));
    }
    if let Some((_, c, msg)) = total.found.first() {
        violation(p, c, msg);
        return 1;
    }
    0
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

pub fn violation(p: &Prop, c: &Case, msg: &str) {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.case", p.id, c.hash()));
    let mut s = format!("property {}\n{}", p.id, c.to_text());
    for l in msg.lines() {
        let _ = writeln!(s, "# {l}");
    }
    std::fs::write(&path, s).expect("write replay file");
    println!("case: {}", json_case(c));
    println!("{msg}");
    println!("VIOLATION property={} replay={}", p.id, path.display());
}

fn evidence(p: &Prop, a: &Args, t: &Stats, edges: usize, wall: f64) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let samples: Vec<String> = t.samples.iter().map(json_case).collect();
    let unrelated: Vec<String> = t.unrelated_samples.iter().map(json_case).collect();
    let mut labels = BTreeMap::new();
    for (i, l) in p.labels.iter().enumerate() {
        labels.insert(*l, t.labels.0[i + 1]);
    }
    let labels: Vec<String> = labels
        .iter()
        .map(|(k, v)| format!("{}:{v}", case::quote(k)))
        .collect();
    let s = format!(
        concat!(
            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"{}\",\"coverage\":{{",
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"nontrivial\":{},\"rule\":{},",
            "\"classes\":{{{}}},\"longest_case_bytes\":{},\"average_case_bytes\":{},\"edges_reached\":{},\"edges_instrumented\":{},",
            "\"failures_not_reproduced\":{},\"mismatches_about_other_properties\":{},\"mismatch_samples\":[{}],\"samples\":[{}]}},",
            "\"assumptions\":[\"search over generated cases: shows presence of violations, not their absence\"],",
            "\"wall_s\":{:.2},\"violations\":{}}}\n"
        ),
        p.id,
        a.tier,
        a.seed,
        if p.id == "C26" { "fault_enumeration" } else { "exploration" },
        t.evals,
        t.distinct,
        t.nontrivial,
        case::quote(p.rule),
        labels.join(","),
        t.maxlen,
        t.bytes / t.evals.max(1),
        edges,
        cov::guards(),
        t.flaky,
        t.unrelated,
        unrelated.join(","),
        samples.join(","),
        wall,
        t.found.len()
    );
    std::fs::write(dir.join(format!("{}.json", p.id)), s).expect("write evidence");
}

/// Supervise a worker: if it dies, find the case that killed it.
pub fn supervise(p: &Prop, a: &Args) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let run = |args: &[&str], out: bool, limit: Duration| -> Option<std::process::ExitStatus> {
        let mut c = Command::new(&exe);
        c.args(args)
            .env("VERIF_SEED", a.seed.to_string())
            .env("VERIF_TIER", &a.tier)
            .env("HARNESS_SCRATCH", &a.scratch)
            .env("HARNESS_SCALE", a.scale.to_string());
        if !out {
            c.stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null());
        }
        let mut ch = c.spawn().expect("spawn worker");
        let start = Instant::now();
        loop {
            if let Some(s) = ch.try_wait().expect("wait") {
                return Some(s);
            }
            if start.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                return None;
            }
            std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 200 { 1 } else { 20 }));
        }
    };
    let limit = if a.tier == "thorough" { 40_000 } else { 700 };
    let Some(st) = run(&["worker", p.id], true, Duration::from_secs(limit)) else {
        eprintln!("worker exceeded its time limit: no answer");
        return 2;
    };
    if let Some(c) = st.code() {
        return if c == 0 || c == 1 { c } else { 2 };
    }
    // killed by a signal: which case?
    println!("worker died: {st}");
    let file = a.scratch.join("case");
    let file_s = file.to_str().unwrap().to_string();
    for t in 0..THREADS {
        let b = std::fs::read(progress_file(a, t)).unwrap_or_default();
        let Some((n, text)) = b.split_first_chunk::<8>() else {
            continue;
        };
        let Some(text) = text.get(..u64::from_le_bytes(*n) as usize) else {
            continue;
        };
        let text = String::from_utf8_lossy(text);
        let c = Case::from_text(&text).unwrap();
        let start = Instant::now();
        let mut dies = |c: &Case| {
            std::fs::write(&file, c.to_text()).unwrap();
            start.elapsed() < Duration::from_secs(120)
                && run(&["one", p.id, &file_s], false, Duration::from_secs(60))
                    .is_some_and(|s| s.code().is_none())
        };
        if !dies(&c) {
            continue;
        }
        let m = shrink(&c, 600, Duration::from_secs(120), &mut dies);
        violation(
            p,
            &m,
            "the process is killed: stack overflow, abort or no termination within the step budget",
        );
        return 1;
    }
    eprintln!("worker died for no reproducible reason");
    2
}

pub fn one(p: &Prop, c: &Case) -> i32 {
    on_big_stack(|| match eval(p, c) {
        Out::Pass(_) => 0,
        Out::Fail(m) => {
            println!("{m}");
            1
        }
    })
}
