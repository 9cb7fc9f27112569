//! A small choice-sequence property-testing engine (in the style of Hypothesis).
//!
//! Every random decision of a case is drawn from a `Src`, which records it as an integer below a
//! bound.  A case is therefore a pure function of its choice sequence, failures shrink by editing
//! that sequence, and the sequence is the replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as FmtWrite;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

pub struct Src {
    rng: Option<Rng>,
    fixed: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), fixed: vec![], rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: None, fixed: choices, rec: vec![] }
    }
    /// Uniform integer in 0..n; 0 is the "simplest" choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => r.next() % n,
            None => {
                let i = self.rec.len();
                if i < self.fixed.len() { std::cmp::min(self.fixed[i], n - 1) } else { 0 }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick_opt<'a, T>(&mut self, xs: &'a [T]) -> Option<&'a T> {
        if xs.is_empty() {
            None
        } else {
            Some(self.pick(xs))
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn u64(&mut self) -> u64 {
        // Two draws, so that each has a bound that fits.
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    /// Index chosen with the given integer weights; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    /// A permutation of 0..n (identity is simplest).
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v
    }
}

/// What a case reports besides pass/fail.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub text: String,
    pub keep: bool,
    pub scratch: Option<std::path::PathBuf>,
    pub case_id: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn note<S: AsRef<str>>(&mut self, s: S) {
        if std::env::var_os("VH_TRACE").is_some() {
            eprintln!("{}", s.as_ref());
        }
        self.text.push_str(s.as_ref());
        self.text.push('\n');
    }
    /// A scratch directory of this case, removed afterwards.
    pub fn dir(&mut self) -> std::path::PathBuf {
        if self.scratch.is_none() {
            static N: AtomicUsize = AtomicUsize::new(0);
            let n = N.fetch_add(1, Ordering::SeqCst);
            let d = scratch_root().join(format!("c{}", n));
            std::fs::create_dir_all(&d).expect("scratch dir");
            self.scratch = Some(d);
        }
        self.scratch.clone().unwrap()
    }
}

impl Drop for Ctx {
    fn drop(&mut self) {
        if let Some(d) = self.scratch.take() {
            let _ = std::fs::remove_dir_all(&d);
        }
    }
}

pub fn scratch_root() -> std::path::PathBuf {
    scratch_root_of(std::process::id())
}

pub fn scratch_root_of(pid: u32) -> std::path::PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    std::path::PathBuf::from(base).join(format!("vh-{}", pid))
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

pub struct Tier {
    pub thorough: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub run: fn(&mut Src, &mut Ctx, &Tier) -> CaseResult,
    /// Named fixed cases: regressions of repaired defects; they must pass.
    pub fixed: fn() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)>,
    /// Demonstrations of known findings: (key, what fails, demo); demo returns Err while the defect is there.
    pub known: fn() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)>,
    pub assumptions: &'static [&'static str],
}

pub fn no_fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![]
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_else(|| "?".to_string());
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let short: String = msg.chars().take(600).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", short, loc)));
    }));
}

/// Run `f`, turning a panic into an error message.
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into());
            Err(m)
        }
    }
}

struct Outcome {
    result: CaseResult,
    rec: Vec<u64>,
    ctx: Ctx,
}

fn run_case(prop: &Prop, src: &mut Src, tier: &Tier, case_id: u64) -> Outcome {
    let mut ctx = Ctx::default();
    ctx.case_id = case_id;
    let r = {
        let c = &mut ctx;
        let s = &mut *src;
        guarded(move || (prop.run)(s, c, tier))
    };
    let result = match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    Outcome { result, rec: std::mem::replace(&mut src.rec, vec![]), ctx }
}

fn hash64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut x = seed ^ 0x5851_F42D_4C95_7F2D;
    let mut h = splitmix(&mut x);
    for b in id.bytes() {
        x = h ^ (b as u64);
        h = splitmix(&mut x);
    }
    x = h ^ idx.wrapping_mul(0x2545_F491_4F6C_DD1D);
    splitmix(&mut x)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …[clipped]");
        t
    }
}

/// The saved stdout: mentat prints to stdout in places, so fd 1 is pointed at /dev/null for the run.
pub struct Out(std::fs::File);
impl Out {
    pub fn capture() -> Out {
        use std::os::unix::io::FromRawFd;
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 1);
                libc::close(null);
            }
            Out(std::fs::File::from_raw_fd(saved))
        }
    }
    pub fn line(&mut self, s: &str) {
        let _ = writeln!(self.0, "{}", s);
        let _ = self.0.flush();
    }
}

fn shrink(prop: &Prop, tier: &Tier, start: Vec<u64>, budget: usize, wall: Duration) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut best = start;
    let mut evals = 0usize;
    let tried: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, evals: &mut usize| -> bool {
        if *evals >= budget || t0.elapsed() > wall {
            return false;
        }
        if !tried.borrow_mut().insert(hash64(&cand)) {
            return false;
        }
        *evals += 1;
        let mut src = Src::replay(cand);
        let o = run_case(prop, &mut src, tier, 0);
        if o.result.is_err() {
            let better = o.rec.len() < best.len() || (o.rec.len() == best.len() && o.rec < *best);
            if better {
                *best = o.rec;
                return true;
            }
        }
        false
    };
    let mut improved = true;
    while improved && evals < budget && t0.elapsed() < wall {
        improved = false;
        // Truncate / delete blocks.
        for &k in &[64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(std::cmp::max(1, k / 2));
                if i + k > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                // Also try decrementing a preceding length-like choice.
                if attempt(c.clone(), &mut best, &mut evals) {
                    improved = true;
                    i = std::cmp::min(i, best.len());
                    continue;
                }
                if i > 0 && i <= c.len() && c[i - 1] > 0 {
                    c[i - 1] -= 1;
                    if attempt(c, &mut best, &mut evals) {
                        improved = true;
                        i = std::cmp::min(i, best.len());
                    }
                }
            }
        }
        // Lower a choice while deleting a block after it (length prefixes).
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 && best[i] < 64 {
                for &k in &[1usize, 2, 3, 4, 6, 8] {
                    for off in 1..4usize {
                        if i + off + k <= best.len() {
                            let mut c = best.clone();
                            c[i] -= 1;
                            c.drain(i + off..i + off + k);
                            if attempt(c, &mut best, &mut evals) {
                                improved = true;
                                break;
                            }
                        }
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        // Minimise single values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut cands = vec![0, 1, v / 2, v - 1];
                cands.dedup();
                for x in cands {
                    if x < best.get(i).cloned().unwrap_or(0) {
                        let mut c = best.clone();
                        c[i] = x;
                        if attempt(c, &mut best, &mut evals) {
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, evals)
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub verif: std::path::PathBuf,
    pub cases: Option<u64>,
    pub threads: usize,
}

pub fn load_known(verif: &std::path::Path) -> Vec<(String, String, String)> {
    // Lines: "known: property=<id> key=<key> <text>"
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for l in t.lines() {
            if !l.starts_with("known: ") {
                continue;
            }
            let mut id = String::new();
            let mut key = String::new();
            let mut rest = vec![];
            for w in l["known: ".len()..].split(' ') {
                if id.is_empty() && w.starts_with("property=") {
                    id = w["property=".len()..].to_string();
                } else if key.is_empty() && w.starts_with("key=") {
                    key = w["key=".len()..].to_string();
                } else {
                    rest.push(w);
                }
            }
            v.push((id, key, rest.join(" ")));
        }
    }
    v
}

pub fn write_replay(cfg: &RunCfg, id: &str, choices: &[u64], msg: &str, text: &str, thorough: bool) -> String {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{}-{:016x}.replay", id, hash64(&(choices, msg)));
    let path = dir.join(&name);
    let mut s = String::new();
    let _ = writeln!(s, "property {}", id);
    let _ = writeln!(s, "tier {}", if thorough { "thorough" } else { "quick" });
    let _ = writeln!(s, "choices {}", choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "# run again with: ./check.sh replay {}", path.display());
    let _ = writeln!(s, "# failure:");
    for l in msg.lines() {
        let _ = writeln!(s, "#   {}", l);
    }
    let _ = writeln!(s, "# case:");
    for l in text.lines() {
        let _ = writeln!(s, "#   {}", l);
    }
    let _ = std::fs::write(&path, s);
    path.display().to_string()
}

struct Shared {
    next: AtomicUsize,
    stop: AtomicBool,
    lowest_fail: Mutex<Option<(u64, Vec<u64>, String, String)>>,
    agg: Mutex<Agg>,
    start: Mutex<BTreeMap<usize, (u64, Instant)>>,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
}

/// Returns the process exit code.
pub fn run_prop(prop: &'static Prop, cfg: &RunCfg, out: &mut Out) -> i32 {
    let t0 = Instant::now();
    let tier = Tier { thorough: cfg.thorough };
    let total = cfg.cases.unwrap_or(if cfg.thorough { prop.thorough_cases } else { prop.quick_cases });
    let mut violations = 0;
    let mut exit = 0;
    let mut known_hit = vec![];

    // Fixed regressions.
    let mut fixed_run = 0;
    for (name, f) in (prop.fixed)() {
        fixed_run += 1;
        let mut ctx = Ctx::default();
        let r = {
            let c = &mut ctx;
            guarded(move || f(c))
        };
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        if let Err(m) = r {
            violations += 1;
            exit = 1;
            let dir = cfg.verif.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-fixed-{}.replay", prop.id, name.replace(' ', "-")));
            let _ = std::fs::write(&path, format!("property {}\nfixed {}\n# failure:\n#   {}\n# case:\n{}\n", prop.id, name,
                m.replace("\n", "\n#   "), ctx.text.lines().map(|l| format!("#   {}", l)).collect::<Vec<_>>().join("\n")));
            out.line(&format!("  fixed case {}: {}", name, clip(&m, 2000)));
            out.line(&format!("VIOLATION property={} replay={}", prop.id, path.display()));
        }
    }
    // Known findings.
    let known = load_known(&cfg.verif);
    for (key, f) in (prop.known)() {
        let mut ctx = Ctx::default();
        let r = {
            let c = &mut ctx;
            guarded(move || f(c))
        };
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        if let Err(m) = r {
            match known.iter().find(|(i, k, _)| i == prop.id && k == key) {
                Some((_, _, text)) => {
                    known_hit.push(key.to_string());
                    out.line(&format!("KNOWN-FINDING: property={} {}", prop.id, text));
                }
                None => {
                    violations += 1;
                    exit = 1;
                    let path = write_replay(cfg, prop.id, &[], &format!("known:{} {}", key, m), &ctx.text, cfg.thorough);
                    out.line(&format!("VIOLATION property={} replay={}", prop.id, path));
                }
            }
        }
    }

    let shared = Arc::new(Shared {
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        lowest_fail: Mutex::new(None),
        agg: Mutex::new(Agg::default()),
        start: Mutex::new(BTreeMap::new()),
    });

    // Which case each thread is in, for the supervising process should this one die.
    let inflight = std::env::var("VH_INFLIGHT").ok().and_then(|p| std::fs::File::create(p).ok());
    let mut handles = vec![];
    for tid in 0..cfg.threads {
        let sh = shared.clone();
        let seed = cfg.seed;
        let thorough = cfg.thorough;
        let inflight = inflight.as_ref().and_then(|f| f.try_clone().ok());
        handles.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let tier = Tier { thorough };
                    loop {
                        let i = sh.next.fetch_add(1, Ordering::SeqCst) as u64;
                        if i >= total || sh.stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if let Some((f, _, _, _)) = *sh.lowest_fail.lock().unwrap() {
                            if f < i {
                                break;
                            }
                        }
                        sh.start.lock().unwrap().insert(tid, (i, Instant::now()));
                        if let Some(ref f) = inflight {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&(i + 1).to_le_bytes(), 8 * tid as u64);
                        }
                        let mut src = Src::random(case_seed(seed, prop.id, i));
                        let o = run_case(prop, &mut src, &tier, i);
                        {
                            let mut a = sh.agg.lock().unwrap();
                            a.evals += 1;
                            if o.ctx.nontrivial {
                                a.nontrivial.insert(hash64(&o.rec));
                            }
                            for (l, n) in &o.ctx.labels {
                                *a.labels.entry(l.to_string()).or_insert(0) += *n;
                            }
                            if o.ctx.nontrivial && (a.samples.len() < 3 || i < a.samples.iter().map(|s| s.0).max().unwrap_or(0)) {
                                a.samples.push((i, clip(&o.ctx.text, 2500)));
                                a.samples.sort();
                                a.samples.truncate(3);
                            }
                        }
                        if let Err(m) = &o.result {
                            let mut lf = sh.lowest_fail.lock().unwrap();
                            let lower = match *lf {
                                Some((f, _, _, _)) => i < f,
                                None => true,
                            };
                            if lower {
                                *lf = Some((i, o.rec.clone(), m.clone(), o.ctx.text.clone()));
                            }
                        }
                        sh.start.lock().unwrap().remove(&tid);
                    }
                })
                .expect("thread"),
        );
    }
    // Watchdog: a case that runs far too long ends this process; the supervisor judges.
    {
        let sh = shared.clone();
        let limit = Duration::from_secs(if cfg.thorough { 400 } else { 150 });
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            for (_, (i, t)) in sh.start.lock().unwrap().iter() {
                if t.elapsed() > limit {
                    eprintln!("watchdog: case {} has run for {:?}", i, t.elapsed());
                    let _ = std::fs::remove_dir_all(scratch_root());
                    std::process::exit(HUNG);
                }
            }
        });
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("worker thread died");
            return 3;
        }
    }
    let fail = shared.lowest_fail.lock().unwrap().take();
    if let Some((i, rec, msg, text)) = fail {
        // mentat's hash maps iterate in an order of their own, so a failure may need several tries.
        let again = Instant::now();
        let mut reproduced = false;
        for _ in 0..60 {
            let mut src = Src::replay(rec.clone());
            if run_case(prop, &mut src, &tier, i).result.is_err() {
                reproduced = true;
                break;
            }
            if again.elapsed() > Duration::from_secs(60) {
                break;
            }
        }
        if !reproduced {
            eprintln!("case {} failed once but not when replayed: {}\n{}", i, msg, text);
        }
        // Shrinking needs a big stack as well.
        let r2 = rec.clone();
        let thorough = cfg.thorough;
        let (best, evals) = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || if reproduced { shrink(prop, &Tier { thorough }, r2, 1500, Duration::from_secs(60)) } else { (r2, 0) })
            .unwrap()
            .join()
            .unwrap_or((rec.clone(), 0));
        let mut src = Src::replay(best.clone());
        let o = run_case(prop, &mut src, &tier, i);
        let (m, t) = match &o.result {
            Err(m) => (m.clone(), o.ctx.text.clone()),
            Ok(()) => (msg, text),
        };
        violations += 1;
        exit = 1;
        let path = write_replay(cfg, prop.id, &best, &m, &t, cfg.thorough);
        out.line(&format!("case {} failed (shrunk with {} evaluations, {} -> {} choices): {}", i, evals, rec.len(), best.len(), clip(&m, 3000)));
        out.line(&clip(&t, 6000));
        out.line(&format!("VIOLATION property={} replay={}", prop.id, path));
    }

    // Evidence.
    let a = shared.agg.lock().unwrap();
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", json_str(prop.id),
        json_str(if cfg.thorough { "thorough" } else { "quick" }), cfg.seed);
    let _ = write!(e, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", a.evals, a.nontrivial.len(), json_str(prop.rule));
    let _ = write!(e, "  \"fixed_regressions_run\": {},\n  \"known_findings_seen\": [{}],\n", fixed_run,
        known_hit.iter().map(|k| json_str(k)).collect::<Vec<_>>().join(", "));
    let _ = write!(e, "  \"classes\": {{{}}},\n", a.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(e, "  \"samples\": [{}]\n }},\n", a.samples.iter().map(|(_, s)| json_str(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(e, " \"assumptions\": [{}],\n", prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(e, " \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations);
    let ed = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    if let Err(err) = std::fs::write(ed.join(format!("{}.json", prop.id)), e) {
        eprintln!("cannot write evidence: {}", err);
        return 3;
    }
    out.line(&format!("{}: {} cases, {} distinct non-trivial, {} violations, {:.1}s", prop.id, a.evals, a.nontrivial.len(), violations, t0.elapsed().as_secs_f64()));
    if std::env::var("VH_LABELS").is_ok() {
        for (k, v) in &a.labels {
            out.line(&format!("   {:6} {}", v, k));
        }
    }
    let _ = std::fs::remove_dir_all(scratch_root());
    exit
}

/// Exit code of a run whose watchdog fired.
pub const HUNG: i32 = 77;

/// One case alone, by index: for finding which case kills or hangs the process.
pub fn run_one(prop: &'static Prop, cfg: &RunCfg, idx: u64) -> i32 {
    let thorough = cfg.thorough;
    let seed = case_seed(cfg.seed, prop.id, idx);
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut src = Src::random(seed);
            run_case(prop, &mut src, &Tier { thorough }, idx).result.is_err()
        })
        .unwrap();
    let r = h.join().unwrap_or(true);
    let _ = std::fs::remove_dir_all(scratch_root());
    r as i32
}

fn run_child(args: &[String], envs: &[(&str, String)], limit: Duration) -> Option<std::process::ExitStatus> {
    let exe = std::env::current_exe().ok()?;
    let mut c = std::process::Command::new(exe);
    c.args(args).env("VH_CHILD", "1");
    for (k, v) in envs {
        c.env(k, v);
    }
    let mut ch = c.spawn().ok()?;
    let t0 = Instant::now();
    let r = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(15));
            }
            Err(_) => break None,
        }
    };
    let _ = std::fs::remove_dir_all(scratch_root_of(ch.id()));
    r
}

/// Runs the check in a child process, so that a crash (stack overflow, abort) or an endless loop
/// of the code under test is a verdict and not the end of the check.
pub fn supervise(prop: &'static Prop, cfg: &RunCfg, args: &[String]) -> i32 {
    let inflight = scratch_root_of(std::process::id()).with_extension("inflight");
    let st = run_child(&args[1..], &[("VH_INFLIGHT", inflight.display().to_string())], Duration::from_secs(3600 * 12));
    let read = std::fs::read(&inflight).unwrap_or_default();
    let _ = std::fs::remove_file(&inflight);
    use std::os::unix::process::ExitStatusExt;
    let st = match st {
        Some(s) => s,
        None => return 3,
    };
    match (st.code(), st.signal()) {
        (Some(c), _) if c != HUNG => return c,
        (_, Some(libc::SIGKILL)) | (_, Some(libc::SIGTERM)) | (_, Some(libc::SIGINT)) => return 3,
        _ => {}
    }
    for ch in read.chunks_exact(8) {
        let mut b = [0u8; 8];
        b.copy_from_slice(ch);
        let i = u64::from_le_bytes(b);
        if i == 0 {
            continue;
        }
        let i = i - 1;
        let a: Vec<String> = vec!["one".into(), prop.id.into(), if cfg.thorough { "thorough".into() } else { "quick".into() }, i.to_string()];
        let why = match run_child(&a, &[], Duration::from_secs(60)) {
            None => "does not end".to_string(),
            Some(s) => match s.signal() {
                Some(g) if g != libc::SIGKILL => format!("kills the process with signal {}", g),
                _ => continue,
            },
        };
        let dir = cfg.verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-case-{}.replay", prop.id, i));
        let _ = std::fs::write(&path, format!("property {}\ntier {}\nseed {}\n# failure:\n#   case {} {}\n", prop.id, if cfg.thorough { "thorough" } else { "quick" }, case_seed(cfg.seed, prop.id, i), i, why));
        println!("case {} {}", i, why);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        return 1;
    }
    eprintln!("the run ended with {:?} and no single case explains it", st);
    3
}

pub fn replay_file(props: &[&'static Prop], path: &str, out: &mut Out) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let mut id = String::new();
    let mut thorough = false;
    let mut choices = vec![];
    let mut fixed = None;
    let mut seed = None;
    for l in t.lines() {
        if l.starts_with("property ") {
            id = l[9..].to_string();
        } else if l.starts_with("tier ") {
            thorough = &l[5..] == "thorough";
        } else if l.starts_with("choices") {
            choices = l[7..].split_whitespace().filter_map(|x| x.parse().ok()).collect();
        } else if l.starts_with("seed ") {
            seed = l[5..].parse::<u64>().ok();
        } else if l.starts_with("fixed ") {
            fixed = Some(l[6..].to_string());
        }
    }
    let prop: &'static Prop = match props.iter().find(|p| p.id == id) {
        Some(p) => *p,
        None => return 2,
    };
    if let Some(f) = fixed {
        for (n, c) in (prop.fixed)() {
            if n == f {
                let mut ctx = Ctx::default();
                let r = {
                    let cc = &mut ctx;
                    guarded(move || c(cc))
                };
                out.line(&format!("{:?}", r));
                if let Ok(Ok(())) = r {
                    return 0;
                }
                out.line(&format!("VIOLATION property={} replay={}", id, path));
                return 1;
            }
        }
        return 2;
    }
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut src = match seed {
                Some(x) => Src::random(x),
                None => Src::replay(choices),
            };
            let o = run_case(prop, &mut src, &Tier { thorough }, 0);
            (o.result.clone(), o.ctx.text.clone())
        })
        .unwrap();
    let (r, text) = h.join().unwrap();
    out.line(&text);
    let _ = std::fs::remove_dir_all(scratch_root());
    match r {
        Ok(()) => {
            out.line("passes");
            0
        }
        Err(m) => {
            out.line(&m);
            out.line(&format!("VIOLATION property={} replay={}", id, path));
            1
        }
    }
}
