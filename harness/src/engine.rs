//! Choice-tape property engine: every random decision of a case is drawn from a
//! tape of integers, so a failing case replays from, and shrinks as, that tape.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Source of choices for one case.
pub struct Src {
    data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            data: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
        }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Src {
            data,
            pos: 0,
            rng: None,
        }
    }
    pub fn tape(&self) -> Vec<u64> {
        self.data[..self.pos.min(self.data.len())].to_vec()
    }
    /// A value in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.pos < self.data.len() {
            let v = self.data[self.pos] % n;
            self.data[self.pos] = v;
            v
        } else {
            let v = match &mut self.rng {
                Some(r) => r.next() % n,
                None => 0,
            };
            self.data.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// True with probability `num/den`; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn string(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    pub fn bytes(&mut self, lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo, hi);
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1).min(i);
            xs.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: u64, den: u64) -> Vec<T> {
        xs.iter()
            .filter(|_| self.chance(num, den))
            .cloned()
            .collect()
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable short signature of what failed (known findings are keyed on it).
    pub sig: String,
    pub msg: String,
}
#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is broken by this case.
    Fail(Fail),
    /// The case is outside the property's domain.
    Skip(&'static str),
    /// The harness itself could not run the case.
    Infra(String),
}
pub type CaseResult = Result<(), Stop>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(Fail {
        sig: sig.into(),
        msg: msg.into(),
    }))
}
pub fn infra<T>(msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Infra(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return $crate::engine::fail($sig, format!($($fmt)*));
        }
    };
}

/// Per-case context.
pub struct Ctx {
    pub nontrivial: bool,
    labels: Vec<String>,
    sample: Vec<String>,
    scratch: Option<tempfile::TempDir>,
    pub case: u64,
}
impl Ctx {
    fn new(case: u64) -> Self {
        Ctx {
            nontrivial: false,
            labels: vec![],
            sample: vec![],
            scratch: None,
            case,
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// Describe the case (also the identity used to count distinct cases).
    pub fn note(&mut self, s: impl Into<String>) {
        self.sample.push(s.into());
    }
    pub fn scratch(&mut self) -> PathBuf {
        if self.scratch.is_none() {
            let t = tempfile::Builder::new()
                .prefix("vh")
                .tempdir_in(scratch_root())
                .expect("scratch dir");
            self.scratch = Some(t);
        }
        self.scratch
            .as_ref()
            .unwrap()
            .path()
            .canonicalize()
            .unwrap()
    }
}

pub fn scratch_root() -> PathBuf {
    static ROOT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    ROOT.get_or_init(|| {
        let base = std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = PathBuf::from(base).join(format!("vh-run-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch root");
        p
    })
    .clone()
}
pub fn clean_scratch_root() {
    let _ = std::fs::remove_dir_all(scratch_root());
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub level: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub shrink: usize,
    pub case: fn(&mut Src, &mut Ctx) -> CaseResult,
    /// Fixed cases run before the search: regressions and known-finding probes.
    pub fixed: Vec<(&'static str, fn(&mut Ctx) -> CaseResult)>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Default)]
struct Stats {
    evaluations: usize,
    nontrivial: HashSet<u64>,
    trivial: usize,
    skips: BTreeMap<String, usize>,
    labels: BTreeMap<String, usize>,
    samples: Vec<(usize, String)>,
}

struct Failure {
    idx: usize,
    tape: Vec<u64>,
    fail: Fail,
    fixed: Option<&'static str>,
}

fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
    let mut h = Rng::new(seed.wrapping_mul(0x1000_0001));
    let mut acc = h.next();
    for b in id.bytes() {
        acc = Rng::new(acc ^ b as u64).next();
    }
    Rng::new(acc ^ idx.wrapping_mul(0xD134_2543_DE82_EF95)).next()
}

fn run_one(
    check: &Check,
    src: &mut Src,
    ctx: &mut Ctx,
    f: impl FnOnce(&mut Src, &mut Ctx) -> CaseResult,
) -> CaseResult {
    let _ = check;
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(p) => Err(Stop::Infra(format!(
            "harness panic: {} (case {})",
            panic_msg(&p),
            ctx.case
        ))),
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run code under test; a panic in it is reported as `Err(message)`.
pub fn cut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| panic_msg(&p))
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &Path) -> Vec<Known> {
    let mut out = vec![];
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().unwrap_or("").trim_start_matches("property=");
            let s = it.next().unwrap_or("").trim_start_matches("sig=");
            let w = it.next().unwrap_or("");
            out.push(Known {
                property: p.into(),
                sig: s.into(),
                what: w.into(),
            });
        }
    }
    out
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Watchdog: no case may take longer than this; exceeding it is an error of the
/// check (exit 3), never a violation.
const WATCHDOG: Duration = Duration::from_secs(240);

pub fn run_check(check: &Check, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let known = load_known(&verif_dir().join("known_findings.txt"));
    let is_known = |sig: &str| {
        known
            .iter()
            .any(|k| k.property == check.id && k.sig == sig)
    };
    let total = std::env::var("VH_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" {
            check.thorough
        } else {
            check.quick
        });
    let stats = Mutex::new(Stats::default());
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let known_hits: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
    let infra_errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let running: Arc<Mutex<BTreeMap<usize, (usize, Instant)>>> = Default::default();

    // Fixed cases first.
    for (name, f) in &check.fixed {
        let mut src = Src::replay(vec![]);
        let mut ctx = Ctx::new(0);
        let r = run_one(check, &mut src, &mut ctx, |_, c| f(c));
        let mut st = stats.lock().unwrap();
        st.evaluations += 1;
        *st.labels.entry("fixed-case".into()).or_default() += 1;
        drop(st);
        match r {
            Ok(()) | Err(Stop::Skip(_)) => {}
            Err(Stop::Fail(fl)) => {
                if is_known(&fl.sig) {
                    known_hits.lock().unwrap().insert(fl.sig, fl.msg);
                } else {
                    failures.lock().unwrap().push(Failure {
                        idx: 0,
                        tape: vec![],
                        fail: fl,
                        fixed: Some(name),
                    });
                }
            }
            Err(Stop::Infra(e)) => infra_errs.lock().unwrap().push(format!("{name}: {e}")),
        }
    }

    let threads = std::env::var("VH_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(check.threads);
    if failures.lock().unwrap().is_empty() {
        let wd_running = running.clone();
        let wd_done = Arc::new(AtomicBool::new(false));
        let wd_done2 = wd_done.clone();
        let id = check.id;
        let wd = std::thread::spawn(move || {
            while !wd_done2.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (_, (idx, t)) in wd_running.lock().unwrap().iter() {
                    if t.elapsed() > WATCHDOG {
                        eprintln!("ERROR property={id} case {idx} hung (watchdog); inconclusive");
                        clean_scratch_root();
                        std::process::exit(3);
                    }
                }
            }
        });
        std::thread::scope(|s| {
            for t in 0..threads.max(1) {
                let (stats, failures, infra_errs, known_hits) =
                    (&stats, &failures, &infra_errs, &known_hits);
                let (stop, next, running) = (&stop, &next, &running);
                let is_known = &is_known;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::SeqCst);
                        if idx >= total {
                            break;
                        }
                        running.lock().unwrap().insert(t, (idx, Instant::now()));
                        let mut src = Src::random(case_seed(check.id, seed, idx as u64));
                        let mut ctx = Ctx::new(idx as u64);
                        let r = run_one(check, &mut src, &mut ctx, |s, c| (check.case)(s, c));
                        running.lock().unwrap().remove(&t);
                        let mut st = stats.lock().unwrap();
                        st.evaluations += 1;
                        for l in &ctx.labels {
                            *st.labels.entry(l.clone()).or_default() += 1;
                        }
                        match r {
                            Ok(()) => {
                                if ctx.nontrivial {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    if ctx.sample.is_empty() {
                                        src.tape().hash(&mut h);
                                    } else {
                                        ctx.sample.hash(&mut h);
                                    }
                                    let fresh = st.nontrivial.insert(h.finish());
                                    if fresh && st.samples.len() < 400 {
                                        st.samples.push((idx, ctx.sample.join("\n")));
                                    }
                                } else {
                                    st.trivial += 1;
                                }
                            }
                            Err(Stop::Skip(why)) => {
                                *st.skips.entry(why.to_string()).or_default() += 1;
                            }
                            Err(Stop::Fail(fl)) => {
                                if is_known(&fl.sig) {
                                    known_hits.lock().unwrap().insert(fl.sig, fl.msg);
                                } else {
                                    failures.lock().unwrap().push(Failure {
                                        idx,
                                        tape: src.tape(),
                                        fail: fl,
                                        fixed: None,
                                    });
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                            Err(Stop::Infra(e)) => {
                                infra_errs.lock().unwrap().push(format!("case {idx}: {e}"));
                                if infra_errs.lock().unwrap().len() > 5 {
                                    stop.store(true, Ordering::SeqCst);
                                }
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
        wd_done.store(true, Ordering::SeqCst);
        let _ = wd.join();
    }

    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.idx);
    let mut code = 0;
    let mut nviol = 0;
    if let Some(f) = failures.first() {
        nviol = 1;
        code = 1;
        let (tape, fl, execs) = if f.fixed.is_some() {
            (f.tape.clone(), f.fail.clone(), 0)
        } else {
            shrink(check, f.tape.clone(), f.fail.clone())
        };
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-case{}.json", check.id, seed, f.idx));
        let mut ctx = Ctx::new(f.idx as u64);
        let mut src = Src::replay(tape.clone());
        let _ = run_one(check, &mut src, &mut ctx, |s, c| match f.fixed {
            Some(n) => {
                let f = check.fixed.iter().find(|(m, _)| *m == n).unwrap().1;
                f(c)
            }
            None => (check.case)(s, c),
        });
        let body = serde_json::json!({
            "property": check.id,
            "seed": seed,
            "case": f.idx,
            "fixed": f.fixed,
            "tape": tape,
            "sig": fl.sig,
            "message": fl.msg,
            "describe": ctx.sample,
            "shrink_executions": execs,
            "replay_cmd": format!("./check.sh --replay {}", path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("--- {} [{}]: {}", check.id, fl.sig, fl.msg);
        for l in &ctx.sample {
            println!("    {}", l);
        }
        println!("VIOLATION property={} replay={}", check.id, path.display());
    }
    for k in &known {
        if k.property == check.id && known_hits.lock().unwrap().contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {} [{}]", k.property, k.what, k.sig);
        }
    }
    let infra_errs = infra_errs.into_inner().unwrap();
    let st = stats.into_inner().unwrap();
    if code == 0 && !infra_errs.is_empty() {
        for e in &infra_errs {
            eprintln!("ERROR property={} {}", check.id, e);
        }
        // A single unexplained harness hiccup is reported but, with a violation
        // absent, the run is inconclusive.
        code = 2;
    }
    // Evidence
    let mut samples = st.samples;
    samples.sort();
    let samples: Vec<_> = samples
        .into_iter()
        .take(8)
        .map(|(i, s)| {
            let mut s = s;
            if s.len() > 3000 {
                let mut n = 3000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("…");
            }
            serde_json::json!({"case": i, "input": s})
        })
        .collect();
    let ev = serde_json::json!({
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": check.rule,
            "trivial": st.trivial,
            "skipped": st.skips,
            "classes": st.labels,
            "samples": samples,
        },
        "assumptions": check.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": nviol,
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(
        evdir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    );
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s, exit {}",
        check.id,
        st.evaluations,
        st.nontrivial.len(),
        start.elapsed().as_secs_f64(),
        code
    );
    if std::env::var("VH_VERBOSE").is_ok() {
        println!("classes: {:#?}\nskips: {:?} trivial: {}", st.labels, st.skips, st.trivial);
    }
    clean_scratch_root();
    code
}

fn shrink(check: &Check, tape: Vec<u64>, fl: Fail) -> (Vec<u64>, Fail, usize) {
    let mut best = tape;
    let mut bfail = fl;
    let mut execs = 0usize;
    let deadline = Instant::now() + Duration::from_secs(90);
    let budget = check.shrink;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, bfail: &mut Fail, execs: &mut usize| {
        if *execs >= budget || Instant::now() > deadline {
            return false;
        }
        *execs += 1;
        let mut src = Src::replay(cand.to_vec());
        let mut ctx = Ctx::new(0);
        match run_one(check, &mut src, &mut ctx, |s, c| (check.case)(s, c)) {
            Err(Stop::Fail(f)) if f.sig == bfail.sig => {
                let t = src.tape();
                let better = t.len() < best.len() || (t.len() == best.len() && t < *best);
                if better {
                    *best = t;
                    *bfail = f;
                }
                better
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + k).min(c.len());
                c.drain(i..end);
                if !attempt(&c, &mut best, &mut bfail, &mut execs) {
                    i += k;
                }
                if execs >= budget {
                    return (best, bfail, execs);
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero / lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [0, 1, v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    attempt(&c, &mut best, &mut bfail, &mut execs);
                }
            }
            i += 1;
            if execs >= budget {
                return (best, bfail, execs);
            }
        }
        if best == before || execs >= budget || Instant::now() > deadline {
            return (best, bfail, execs);
        }
    }
}

pub fn replay(checks: &[Check], path: &Path) -> i32 {
    let v: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
    let id = v["property"].as_str().unwrap();
    let check = checks.iter().find(|c| c.id == id).expect("check id");
    let tape: Vec<u64> = v["tape"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    let fixed = v["fixed"].as_str().map(|s| s.to_string());
    let mut src = Src::replay(tape);
    let mut ctx = Ctx::new(0);
    let r = run_one(check, &mut src, &mut ctx, |s, c| match fixed {
        Some(n) => {
            let f = check.fixed.iter().find(|(m, _)| *m == n).expect("fixed").1;
            f(c)
        }
        None => (check.case)(s, c),
    });
    for l in &ctx.sample {
        println!("    {}", l);
    }
    drop(ctx);
    clean_scratch_root();
    match r {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(Stop::Fail(f)) => {
            println!("[{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
        Err(e) => {
            eprintln!("replay inconclusive: {e:?}");
            2
        }
    }
}

pub fn one_case(check: &Check, seed: u64, idx: u64) -> i32 {
    let mut src = Src::random(case_seed(check.id, seed, idx));
    let mut ctx = Ctx::new(idx);
    let r = run_one(check, &mut src, &mut ctx, |s, c| (check.case)(s, c));
    for l in &ctx.sample {
        println!("    {}", l);
    }
    println!("labels {:?} nontrivial {}", ctx.labels, ctx.nontrivial);
    if std::env::var("VH_KEEP").is_ok() {
        if let Some(t) = ctx.scratch.take() {
            println!("kept {}", t.into_path().display());
        }
    } else {
        drop(ctx);
        clean_scratch_root();
    }
    println!("{r:?}");
    matches!(r, Ok(())) as i32 ^ 1
}
