//! The generated-input search engine: a recorded choice tape per case, seeded
//! case streams, parallel execution with panic capture, a watchdog, shrinking of
//! the tape, replay files and evidence files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// SplitMix64.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23));
    r.next();
    r.next() ^ b
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

/// The source of every random choice. Each choice is recorded, so that a failing
/// case can be replayed and shrunk; choice 0 is always the simplest one.
pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub out: Vec<u64>,
    log: Option<std::fs::File>,
}
impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { rng: Some(Rng(seed)), replay: vec![], pos: 0, out: vec![], log: None }
    }
    pub fn replaying(v: Vec<u64>) -> Self {
        Tape { rng: None, replay: v, pos: 0, out: vec![], log: None }
    }
    pub fn log_to(&mut self, path: &str) {
        self.log = std::fs::File::create(path).ok();
    }
    /// A raw value in `0..n` (`n >= 1`), or any u64 when `n == 0`.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let x = self.replay.get(self.pos).copied().unwrap_or(0);
                if n == 0 { x } else { x.min(n - 1) }
            }
        };
        self.pos += 1;
        self.out.push(v);
        if let Some(f) = &mut self.log {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n >= 1);
        self.draw(n as u64) as usize
    }
    /// Inclusive range; the low end is simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted index; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let tot: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut x = self.draw(tot.max(1));
        for (i, w) in ws.iter().enumerate() {
            if x < *w as u64 {
                return i;
            }
            x -= *w as u64;
        }
        0
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    /// A biased 64-bit value: small, boundary, or uniform.
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.draw(4),
            1 => self.draw(256),
            2 => {
                let k = self.draw(64) as u32;
                let d = self.draw(3);
                (1u64 << k).wrapping_add(d).wrapping_sub(1)
            }
            3 => u64::MAX - self.draw(4),
            4 => {
                let k = self.draw(64) as u32;
                (1u64 << k).wrapping_sub(1)
            }
            _ => self.u64(),
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn len(&self) -> usize {
        self.out.len()
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable class of the failure (used for shrinking and known findings).
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !$c { return Err($crate::engine::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) }); }
    };
}

/// Per-case context.
pub struct Ctx {
    pub t: Tape,
    pub thorough: bool,
    nontrivial: Option<u64>,
    labels: Vec<&'static str>,
    pub want_sample: bool,
    sample: Option<String>,
    pub evals: u64,
    pub verbose: bool,
}
impl Ctx {
    pub fn new(t: Tape, thorough: bool) -> Self {
        Ctx { t, thorough, nontrivial: None, labels: vec![], want_sample: false, sample: None, evals: 0, verbose: false }
    }
    /// Mark this case as non-trivial, with a fingerprint for counting distinct ones.
    pub fn nontrivial(&mut self, fp: u64) {
        self.nontrivial = Some(fp);
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 1800 {
                let mut k = 1800;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.sample = Some(s);
        }
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("{}", f());
        }
    }
}

pub type CheckFn = fn(&mut Ctx) -> R;
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CheckFn,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Explicit reproductions of known findings: (name, what, function that
    /// returns Ok(true) while the finding is still present).
    pub findings: Vec<Finding>,
}
pub struct Finding {
    pub id: &'static str,
    pub still_present: fn() -> bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if std::env::var("VH_PANIC_TRACE").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// Run `f`, turning a panic into `Err((message, location))`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}
/// Run `f`; a panic becomes a `Fail`.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|(m, l)| Fail { sig: format!("{what}: panic at {}", strip_line(&l)), msg: format!("{what} panicked at {l}: {m}") })
}
fn strip_line(l: &str) -> String {
    l.rsplit_once(':').map(|x| x.0).unwrap_or(l).to_string()
}
fn run_case(f: CheckFn, ctx: &mut Ctx) -> R {
    match no_panic(|| f(ctx)) {
        Ok(r) => r,
        Err((m, l)) => Err(Fail { sig: format!("panic at {}", strip_line(&l)), msg: format!("panicked at {l}: {m}") }),
    }
}

/// Development aid: with VH_SURVEY set, failures are only counted.
static SURVEY: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
#[derive(Default)]
struct SubStats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    truncated: bool,
}
#[derive(Clone)]
struct Failure {
    sub: usize,
    index: u64,
    fail: Fail,
    tape: Vec<u64>,
}

pub struct Config {
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    pub time_cap: Duration,
    pub scale: f64,
}
pub fn config() -> Config {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let cap = std::env::var("VH_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 90 });
    let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    Config { seed, thorough, verif, time_cap: Duration::from_secs(cap), scale }
}

fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    mix(mix(mix(seed, hash_str(prop)), hash_str(sub)), index)
}

struct Slot {
    sub: AtomicU64,
    index: AtomicU64,
    start_ms: AtomicU64,
}

pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
    pub signature: String,
}
pub fn load_known(verif: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.json")) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Known {
                    property: f["property"].as_str().unwrap_or("").into(),
                    id: f["id"].as_str().unwrap_or("").into(),
                    what: f["what"].as_str().unwrap_or("").into(),
                    signature: f["signature"].as_str().unwrap_or("\u{0}").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

const HANG_CODE: i32 = 97;
const STACK: usize = 512 << 20;

fn progress_file(pid: u32) -> String {
    format!("/tmp/vh-progress-{pid}.txt")
}

/// Worker: runs all subs of a property in this process; exits 0, 1, or 97 (hang).
pub fn work(p: &Prop, cfg: &Config) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let known = load_known(&cfg.verif);
    let known: Vec<&Known> = known.iter().filter(|k| k.property == p.id).collect();
    let nthreads = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot { sub: AtomicU64::new(0), index: AtomicU64::new(0), start_ms: AtomicU64::new(0) })
            .collect(),
    );
    let done = Arc::new(AtomicBool::new(false));
    // progress + watchdog thread
    {
        let slots = slots.clone();
        let done = done.clone();
        let hang_ms: u64 = std::env::var("VH_HANG_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.thorough { 60_000 } else { 20_000 });
        let pf = progress_file(std::process::id());
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = t0.elapsed().as_millis() as u64;
                for s in slots.iter() {
                    let st = s.start_ms.load(Ordering::Relaxed);
                    if st != 0 && now > st + hang_ms {
                        let _ = std::fs::write(&pf, format!("{} {}\n", s.sub.load(Ordering::Relaxed), s.index.load(Ordering::Relaxed)));
                        unsafe_exit(HANG_CODE);
                    }
                }
            }
        });
    }
    let only_sub = std::env::var("VH_SUB").ok();
    let mut all_stats: Vec<SubStats> = vec![];
    let mut failures: Vec<Failure> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let crash_log = std::env::var("VH_CRASHLOG").is_ok();
    let survey = std::env::var("VH_SURVEY").is_ok();
    for (si, sub) in p.subs.iter().enumerate() {
        if only_sub.as_deref().is_some_and(|o| o != sub.name) {
            all_stats.push(SubStats::default());
            continue;
        }
        let n = (((if cfg.thorough { sub.thorough } else { sub.quick }) as f64) * cfg.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let lowest = AtomicU64::new(u64::MAX);
        let fails: Mutex<Vec<Failure>> = Mutex::new(vec![]);
        let stats: Mutex<SubStats> = Mutex::new(SubStats::default());
        let kh: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let cap = cfg.time_cap;
        std::thread::scope(|s| {
            for th in 0..nthreads {
                let slots = slots.clone();
                let (next, lowest, fails, stats, known, kh) = (&next, &lowest, &fails, &stats, &known, &kh);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut st = SubStats::default();
                        let slot = &slots[th];
                        let mut plog = if crash_log {
                            std::fs::File::create(format!("{}.{}", progress_file(std::process::id()), th)).ok()
                        } else {
                            None
                        };
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || i > lowest.load(Ordering::Relaxed) {
                                break;
                            }
                            if t0.elapsed() > cap {
                                st.truncated = true;
                                break;
                            }
                            slot.sub.store(si as u64, Ordering::Relaxed);
                            slot.index.store(i, Ordering::Relaxed);
                            slot.start_ms.store(t0.elapsed().as_millis().max(1) as u64, Ordering::Relaxed);
                            if let Some(f) = &mut plog {
                                use std::io::{Seek, SeekFrom};
                                let _ = f.seek(SeekFrom::Start(0));
                                let _ = f.write_all(format!("{si} {i}          \n").as_bytes());
                            }
                            let mut ctx = Ctx::new(Tape::random(case_seed(cfg.seed, p.id, sub.name, i)), cfg.thorough);
                            ctx.want_sample = i < 24;
                            let r = run_case(sub.f, &mut ctx);
                            slot.start_ms.store(0, Ordering::Relaxed);
                            st.evals += 1 + ctx.evals;
                            if let Some(fp) = ctx.nontrivial {
                                st.nontrivial += 1;
                                st.distinct.insert(fp);
                            }
                            for l in &ctx.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            if let Some(s) = ctx.sample.take() {
                                st.samples.push((i, s));
                            }
                            if let Err(f) = r {
                                if let Some(k) = known.iter().find(|k| k.signature == f.sig) {
                                    *kh.lock().unwrap().entry(k.id.clone()).or_default() += 1;
                                    continue;
                                }
                                if survey {
                                    let mut g = SURVEY.lock().unwrap();
                                    let e = g.entry(format!("{} {}", sub.name, f.sig)).or_insert((0, i, clip(&f.msg, 300).to_string()));
                                    e.0 += 1;
                                    continue;
                                }
                                lowest.fetch_min(i, Ordering::Relaxed);
                                fails.lock().unwrap().push(Failure { sub: si, index: i, fail: f, tape: ctx.t.out });
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evals += st.evals;
                        g.nontrivial += st.nontrivial;
                        g.distinct.extend(st.distinct);
                        g.truncated |= st.truncated;
                        for (k, v) in st.labels {
                            *g.labels.entry(k).or_default() += v;
                        }
                        g.samples.extend(st.samples);
                    })
                    .unwrap();
            }
        });
        let mut st = stats.into_inner().unwrap();
        st.samples.sort();
        st.samples.truncate(2);
        all_stats.push(st);
        for (k, v) in kh.into_inner().unwrap() {
            *known_hits.entry(k).or_default() += v;
        }
        let mut fs = fails.into_inner().unwrap();
        fs.sort_by_key(|f| f.index);
        failures.extend(fs.into_iter().take(1));
        if !failures.is_empty() {
            break;
        }
    }
    for (k, (n, i, m)) in SURVEY.lock().unwrap().iter() {
        println!("SURVEY {n} x [{k}] first {i}: {m}");
    }
    // explicit findings
    let mut kf_lines = vec![];
    for k in &known {
        let present = p.findings.iter().find(|f| f.id == k.id).map(|f| {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, || no_panic(f.still_present).unwrap_or(true))
                    .unwrap()
                    .join()
                    .unwrap_or(true)
            })
        });
        let hits = known_hits.get(&k.id).copied().unwrap_or(0);
        if present.unwrap_or(false) || hits > 0 {
            kf_lines.push(format!("KNOWN-FINDING: property={} {} [{}; {} generated cases hit it]", p.id, k.what, k.id, hits));
        }
    }
    let mut viol = 0;
    let mut replay_path = String::new();
    if let Some(f) = failures.first() {
        viol = failures.len();
        let sub = &p.subs[f.sub];
        let (tape, fl) = {
            let res = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, || shrink(sub, f, cfg.thorough))
                    .unwrap()
                    .join()
                    .unwrap_or_else(|_| (f.tape.clone(), f.fail.clone()))
            });
            res
        };
        replay_path = write_replay(cfg, p.id, sub.name, Some(&tape), f.index, &fl);
        println!("property {} sub-check {} case {}: [{}]\n{}", p.id, sub.name, f.index, fl.sig, clip(&fl.msg, 5000));
        let orig = f.tape.len();
        println!("shrunk tape from {} to {} choices", orig, tape.len());
    }
    write_evidence(p, cfg, &all_stats, t0.elapsed().as_secs_f64(), viol, &kf_lines);
    done.store(true, Ordering::Relaxed);
    for l in kf_lines {
        println!("{l}");
    }
    let tot: u64 = all_stats.iter().map(|s| s.evals).sum();
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s",
        p.id,
        tot,
        all_stats.iter().map(|s| s.distinct.len()).sum::<usize>(),
        t0.elapsed().as_secs_f64()
    );
    if viol > 0 {
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        1
    } else {
        0
    }
}

pub fn clip(s: &str, n: usize) -> &str {
    let mut k = s.len().min(n);
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}
fn unsafe_exit(code: i32) -> ! {
    std::process::exit(code)
}

fn write_replay(cfg: &Config, prop: &str, sub: &str, tape: Option<&[u64]>, index: u64, f: &Fail) -> String {
    let dir = format!("{}/replays", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{sub}.json");
    let v = serde_json::json!({
        "property": prop, "sub": sub, "seed": cfg.seed, "index": index,
        "tier": if cfg.thorough {"thorough"} else {"quick"},
        "tape": tape, "signature": f.sig, "message": clip(&f.msg, 20000),
    });
    let _ = std::fs::write(&path, serde_json::to_string(&v).unwrap());
    path
}

fn try_tape(sub: &Sub, tape: &[u64], sig: &str, thorough: bool) -> Option<(Vec<u64>, Fail)> {
    let mut ctx = Ctx::new(Tape::replaying(tape.to_vec()), thorough);
    match run_case(sub.f, &mut ctx) {
        Err(f) if f.sig == sig => {
            let mut out = ctx.t.out;
            while out.last() == Some(&0) {
                out.pop();
            }
            Some((out, f))
        }
        _ => None,
    }
}

fn shrink(sub: &Sub, f: &Failure, thorough: bool) -> (Vec<u64>, Fail) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if thorough { 60 } else { 15 });
    let sig = f.fail.sig.clone();
    let Some((mut best, mut bf)) = try_tape(sub, &f.tape, &sig, thorough) else {
        return (f.tape.clone(), Fail { sig: f.fail.sig.clone(), msg: format!("(did not reproduce on replay) {}", f.fail.msg) });
    };
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = best.len().next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > limit {
                    return (best, bf);
                }
                let mut c = best.clone();
                let e = (i + k).min(c.len());
                c.drain(i..e);
                match try_tape(sub, &c, &sig, thorough) {
                    Some((o, fl)) if better(&o, &best) => {
                        best = o;
                        bf = fl;
                    }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // zero chunks
        let mut k = best.len().next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > limit {
                    return (best, bf);
                }
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some((o, fl)) = try_tape(sub, &c, &sig, thorough) {
                        if better(&o, &best) {
                            best = o;
                            bf = fl;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut hi = best[i];
            let mut lo = 0u64;
            while lo < hi {
                if t0.elapsed() > limit {
                    return (best, bf);
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match try_tape(sub, &c, &sig, thorough) {
                    Some((o, fl)) if better(&o, &best) => {
                        best = o;
                        bf = fl;
                        if i >= best.len() {
                            break;
                        }
                        hi = mid;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return (best, bf);
        }
    }
}

fn write_evidence(p: &Prop, cfg: &Config, stats: &[SubStats], wall: f64, viol: usize, kf: &[String]) {
    let mut subs = serde_json::Map::new();
    let mut samples = vec![];
    for (s, st) in p.subs.iter().zip(stats) {
        subs.insert(
            s.name.into(),
            serde_json::json!({"evaluations": st.evals, "nontrivial": st.nontrivial, "distinct_nontrivial": st.distinct.len(),
                "labels": st.labels, "stopped_by_time_cap": st.truncated}),
        );
        for (i, smp) in &st.samples {
            samples.push(serde_json::json!({"sub": s.name, "index": i, "case": smp}));
        }
    }
    // keep the file small
    samples.truncate(24);
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if cfg.thorough {"thorough"} else {"quick"},
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.iter().map(|s| s.evals).sum::<u64>(),
            "distinct_nontrivial": stats.iter().map(|s| s.distinct.len() as u64).sum::<u64>(),
            "rule": p.rule,
            "samples": samples,
            "sub_checks": subs,
            "known_findings_seen": kf,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": viol,
    });
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
}

/// Replays one case given by tape or by seed index. Exits 1 if it fails.
pub fn one(p: &Prop, cfg: &Config, sub: &str, tape: Option<Vec<u64>>, index: u64, verbose: bool) -> i32 {
    install_hook();
    let Some(sub) = p.subs.iter().find(|s| s.name == sub) else {
        println!("no such sub-check");
        return 2;
    };
    let t = match tape {
        Some(t) => Tape::replaying(t),
        None => Tape::random(case_seed(cfg.seed, p.id, sub.name, index)),
    };
    let mut ctx = Ctx::new(t, cfg.thorough);
    ctx.verbose = verbose;
    if let Ok(l) = std::env::var("VH_TAPELOG") {
        ctx.t.log_to(&l);
    }
    ctx.want_sample = true;
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || run_case(sub.f, &mut ctx)).unwrap().join().unwrap()
    });
    if verbose {
        if let Some(s) = &ctx.sample {
            println!("sample: {s}");
        }
        println!("labels: {:?} nontrivial {:?}", ctx.labels, ctx.nontrivial);
    }
    match r {
        Ok(()) => {
            println!("case holds");
            0
        }
        Err(f) => {
            println!("FAIL [{}]\n{}", f.sig, clip(&f.msg, 12000));
            1
        }
    }
}

/// Supervisor: runs the worker in a child process so that an abort (stack
/// overflow, allocation failure) or a hang in the code under test is also a
/// verdict about a particular case.
pub fn supervise(p: &Prop, cfg: &Config) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let run = |crashlog: bool| {
        let mut c = std::process::Command::new(&exe);
        c.arg("work").arg(p.id);
        if crashlog {
            c.env("VH_CRASHLOG", "1");
        }
        let mut ch = c.spawn().expect("spawn worker");
        let pid = ch.id();
        let st = ch.wait().expect("wait");
        (pid, st)
    };
    let (pid, st) = run(false);
    match st.code() {
        Some(0) => return 0,
        Some(1) => return 1,
        Some(2) => return 2,
        _ => {}
    }
    // Abnormal end.
    let mut cands: Vec<(usize, u64)> = vec![];
    let read = |path: &str, cands: &mut Vec<(usize, u64)>| {
        if let Ok(s) = std::fs::read_to_string(path) {
            let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() >= 2 {
                cands.push((v[0] as usize, v[1]));
            }
            let _ = std::fs::remove_file(path);
        }
    };
    if st.code() == Some(HANG_CODE) {
        read(&progress_file(pid), &mut cands);
    } else {
        println!("worker ended abnormally ({st}); looking for the case");
        let (pid, st2) = run(true);
        if let Some(c @ 0..=2) = st2.code() {
            println!("not reproduced on a second run");
            return if c == 0 { 2 } else { c };
        }
        read(&progress_file(pid), &mut cands);
        for th in 0..64 {
            read(&format!("{}.{}", progress_file(pid), th), &mut cands);
        }
    }
    cands.sort();
    for (si, idx) in cands {
        let sub = &p.subs[si];
        let tl = format!("/tmp/vh-tape-{}.txt", std::process::id());
        let run_one = |args: &[String], secs: u64| -> Option<String> {
            let mut ch = std::process::Command::new(&exe)
                .args(args)
                .env("VH_TAPELOG", &tl)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
                .ok()?;
            let t0 = Instant::now();
            loop {
                if let Some(st) = ch.try_wait().ok()? {
                    return if st.code().is_some() { None } else { Some(format!("the process ended abnormally ({st})")) };
                }
                if t0.elapsed() > Duration::from_secs(secs) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Some(format!("no answer within {secs} s"));
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        };
        let base = vec!["one".to_string(), p.id.to_string(), sub.name.to_string(), idx.to_string()];
        if let Some(why) = run_one(&base, 60) {
            let tape: Vec<u64> =
                std::fs::read_to_string(&tl).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
            // best-effort shrink by child processes
            let t0 = Instant::now();
            let hang = why.starts_with("no answer");
            let mut best = tape;
            if !hang {
                let rp = format!("/tmp/vh-shr-{}.json", std::process::id());
                let mut k = best.len().next_power_of_two();
                'o: while k >= 1 {
                    let mut i = 0;
                    while i < best.len() {
                        if t0.elapsed() > Duration::from_secs(20) {
                            break 'o;
                        }
                        let mut c = best.clone();
                        let e = (i + k).min(c.len());
                        c.drain(i..e);
                        let v = serde_json::json!({"property": p.id, "sub": sub.name, "seed": cfg.seed, "index": idx, "tape": c});
                        let _ = std::fs::write(&rp, v.to_string());
                        if run_one(&["replay".into(), rp.clone()], 20).is_some() {
                            best = c;
                        } else {
                            i += k;
                        }
                    }
                    k /= 2;
                }
                let _ = std::fs::remove_file(&rp);
            }
            let _ = std::fs::remove_file(&tl);
            let f = Fail { sig: if hang { "hang".into() } else { "abort".into() }, msg: why.clone() };
            let path = write_replay(cfg, p.id, sub.name, Some(&best), idx, &f);
            println!("property {} sub-check {} case {}: {}", p.id, sub.name, idx, why);
            write_evidence(p, cfg, &p.subs.iter().map(|_| SubStats::default()).collect::<Vec<_>>(), 0.0, 1, &[]);
            println!("VIOLATION property={} replay={}", p.id, path);
            return 1;
        }
        let _ = std::fs::remove_file(&tl);
    }
    println!("the worker's abnormal end could not be attributed to a case");
    2
}
