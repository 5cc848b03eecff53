//! Runs the parts of a check: generated cases, oracle, shrinking, evidence, replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// The harness could not do its work; never reported as a violation.
    Infra(String),
}

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Self {
        Fail::Infra(format!("io: {}", e))
    }
}

impl From<rusqlite::Error> for Fail {
    fn from(e: rusqlite::Error) -> Self {
        Fail::Infra(format!("sqlite in harness: {}", e))
    }
}

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::runner::Fail::Violation(format!($($a)*))) };
}

#[macro_export]
macro_rules! infra {
    ($($a:tt)*) => { return Err($crate::runner::Fail::Infra(format!($($a)*))) };
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::viol!($($a)*); } };
}

#[derive(Debug, Clone, Default)]
pub struct Out {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// How many executions of the code under test this case stands for beyond itself (crash points…).
    pub points: u64,
}

impl Out {
    pub fn label(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string());
        }
    }
}

pub type Res = Result<Out, Fail>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub out: PathBuf,
    pub corpus: PathBuf,
    pub replay_dir: String,
    pub known: serde_json::Value,
}

pub struct Env<'a> {
    pub ctx: &'a Ctx,
    pub dir: PathBuf,
    n: std::cell::Cell<u64>,
}

impl<'a> Env<'a> {
    pub fn new(ctx: &'a Ctx, name: &str) -> Env<'a> {
        let dir = ctx.scratch.join(name);
        std::fs::create_dir_all(&dir).expect("scratch");
        Env { ctx, dir, n: std::cell::Cell::new(0) }
    }

    /// A new empty directory for one case.
    pub fn fresh(&self) -> PathBuf {
        let n = self.n.get();
        self.n.set(n + 1);
        let p = self.dir.join(format!("c{}", n));
        std::fs::create_dir_all(&p).expect("scratch");
        p
    }

    fn clean(&self) {
        if let Ok(rd) = std::fs::read_dir(&self.dir) {
            for e in rd.flatten() {
                make_removable(&e.path());
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

fn make_removable(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            if m.permissions().mode() & 0o700 != 0o700 {
                let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
            }
            if let Ok(rd) = std::fs::read_dir(p) {
                for e in rd.flatten() {
                    make_removable(&e.path());
                }
            }
        }
    }
}

struct Stats {
    evals: u64,
    nontrivial: HashSet<[u8; 16]>,
    points: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<(usize, String)>,
}

pub struct Found {
    pub idx: usize,
    pub msg: String,
    pub case: serde_json::Value,
    pub part: String,
}

pub trait Part: Sync {
    fn name(&self) -> &str;
    fn run(&self, ctx: &Ctx, id: &str, stats: &mut PartReport) -> Result<Option<Found>, String>;
    fn replay(&self, ctx: &Ctx, case: &serde_json::Value) -> Res;
}

#[derive(Default)]
pub struct PartReport {
    pub evals: u64,
    pub nontrivial: u64,
    pub points: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct P<C> {
    pub name: &'static str,
    pub strategy: Box<dyn Fn(Tier) -> BoxedStrategy<C> + Sync + Send>,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub shrink: usize,
    pub f: Box<dyn Fn(&Env, &C) -> Res + Sync + Send>,
}

pub fn part<C, S, F>(name: &'static str, quick: usize, thorough: usize, strategy: S, f: F) -> P<C>
where
    S: Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
    F: Fn(&Env, &C) -> Res + Sync + Send + 'static,
{
    P { name, strategy: Box::new(strategy), quick, thorough, threads: 8, shrink: 250, f: Box::new(f) }
}

impl<C> P<C> {
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn shrink(mut self, n: usize) -> Self {
        self.shrink = n;
        self
    }
}

fn case_rng(seed: u64, id: &str, part: &str, idx: usize) -> TestRng {
    let mut h = blake3::Hasher::new();
    h.update(format!("{}/{}/{}/{}", seed, id, part, idx).as_bytes());
    TestRng::from_seed(RngAlgorithm::ChaCha, h.finalize().as_bytes())
}

/// Runs a case. A panic of the harness itself is an infrastructure error.
fn guarded<C>(f: &(dyn Fn(&Env, &C) -> Res + Sync + Send), env: &Env, c: &C) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(env, c)));
    env.clean();
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::Infra(format!("harness panicked: {}", m)))
        }
    }
}

static WATCH: Mutex<Vec<Watch>> = Mutex::new(Vec::new());
static WATCH_ID: AtomicU64 = AtomicU64::new(0);
/// The code under test runs in this process, so what it does to the process is a matter of the property.
static IN_PROCESS: AtomicBool = AtomicBool::new(false);

struct Watch {
    id: u64,
    since: Instant,
    what: String,
    end: Option<Box<End>>,
}

/// All that has to be said should the process come to its end in the middle of a case, made beforehand
/// since little can be done then.
pub struct End {
    dir: std::ffi::CString,
    path: std::ffi::CString,
    replay: Vec<u8>,
    lines: Vec<u8>,
}

impl End {
    fn new(ctx: &Ctx, id: &str, part: &str, case: &str) -> End {
        let name = format!("{}-{}.json", id, &blake3::hash(case.as_bytes()).to_hex()[..12]);
        let c = |p: PathBuf| std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        let dir = ctx.out.join("replays");
        End {
            path: c(dir.join(&name)),
            dir: c(dir),
            replay: format!(
                "{{\"property\": \"{}\", \"part\": \"{}\", \"message\": \"the process is aborted, or does not end\", \"case\": {}}}\n",
                id, part, case
            )
            .into_bytes(),
            lines: format!(
                "{}: the process is aborted (memory used up, stack overflow), or does not end\ncase: {}\nVIOLATION property={} replay={}/{}\n",
                part,
                clip(case, 2000),
                id,
                ctx.replay_dir,
                name
            )
            .into_bytes(),
        }
    }

    /// Nothing here allocates or locks.
    fn report(&self) -> ! {
        unsafe {
            libc::mkdir(self.dir.as_ptr(), 0o755);
            let f = libc::open(self.path.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
            for (f, mut b) in [(f, &self.replay[..]), (1, &self.lines[..])] {
                while !b.is_empty() {
                    let n = libc::write(f, b.as_ptr() as *const libc::c_void, b.len());
                    if n <= 0 {
                        break;
                    }
                    b = &b[n as usize..];
                }
            }
            libc::_exit(1)
        }
    }
}

thread_local! {
    static CURRENT: std::cell::Cell<*const End> = const { std::cell::Cell::new(std::ptr::null()) };
}

extern "C" fn on_abort(_: libc::c_int) {
    let p = CURRENT.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if !p.is_null() {
        unsafe { (*p).report() }
    }
}

/// A case that does not end is an error of the run; or of the code under test, if that runs in this process.
pub fn start_watchdog(limit: Duration) {
    if IN_PROCESS.load(Ordering::SeqCst) {
        unsafe { libc::signal(libc::SIGABRT, on_abort as *const () as libc::sighandler_t) };
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for w in WATCH.lock().unwrap().iter() {
            if w.since.elapsed() > limit {
                if let Some(e) = &w.end {
                    e.report();
                }
                println!("ERROR: {} did not finish within {:?}", w.what, limit);
                std::process::exit(2);
            }
        }
        crate::cli::end_overdue();
    });
}

struct Watched(u64);
impl Watched {
    fn new(what: String, end: impl FnOnce() -> End) -> Watched {
        let id = WATCH_ID.fetch_add(1, Ordering::Relaxed);
        let end = if IN_PROCESS.load(Ordering::Relaxed) { Some(Box::new(end())) } else { None };
        CURRENT.with(|c| c.set(end.as_ref().map(|e| &**e as *const End).unwrap_or(std::ptr::null())));
        WATCH.lock().unwrap().push(Watch { id, since: Instant::now(), what, end });
        Watched(id)
    }
}
impl Drop for Watched {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(std::ptr::null()));
        WATCH.lock().unwrap().retain(|x| x.id != self.0);
    }
}

impl<C> Part for P<C>
where
    C: std::fmt::Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &str {
        self.name
    }

    fn replay(&self, ctx: &Ctx, case: &serde_json::Value) -> Res {
        let c: C = serde_json::from_value(case.clone())
            .map_err(|e| Fail::Infra(format!("replay file: {}", e)))?;
        let env = Env::new(ctx, "replay");
        let id = ctx.id.clone();
        let _w = Watched::new(format!("replay of {}", self.name), || End::new(ctx, &id, self.name, &case.to_string()));
        guarded(&*self.f, &env, &c)
    }

    fn run(&self, ctx: &Ctx, id: &str, report: &mut PartReport) -> Result<Option<Found>, String> {
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = match std::env::var("VC_SCALE").ok().and_then(|x| x.parse::<f64>().ok()) {
            Some(f) => ((total as f64 * f) as usize).max(1),
            None => total,
        };
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
        let infra: Mutex<Vec<String>> = Mutex::new(Vec::new());
        let stats = Mutex::new(Stats {
            evals: 0,
            nontrivial: HashSet::new(),
            points: 0,
            labels: BTreeMap::new(),
            samples: Vec::new(),
        });

        std::thread::scope(|s| {
            for t in 0..self.threads.min(total.max(1)) {
                let (next, stop, found, infra, stats) = (&next, &stop, &found, &infra, &stats);
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(s, move || {
                        let strat = (self.strategy)(ctx.tier);
                        let env = Env::new(ctx, &format!("{}-{}", self.name, t));
                        loop {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= total {
                                break;
                            }
                            let rng = case_rng(ctx.seed, id, self.name, idx);
                            let cfg = Config { failure_persistence: None, ..Config::default() };
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    infra.lock().unwrap().push(format!("generator: {}", e));
                                    stop.store(true, Ordering::SeqCst);
                                    break;
                                }
                            };
                            let case = tree.current();
                            let w = Watched::new(format!("case {} of part {}", idx, self.name), || {
                                End::new(ctx, id, self.name, &serde_json::to_string(&case).unwrap_or_default())
                            });
                            let r = guarded(&*self.f, &env, &case);
                            drop(w);
                            match r {
                                Ok(o) => {
                                    let js = serde_json::to_string(&case).unwrap_or_default();
                                    let h = blake3::hash(js.as_bytes());
                                    let mut st = stats.lock().unwrap();
                                    st.evals += 1;
                                    st.points += o.points;
                                    for l in o.labels {
                                        *st.labels.entry(l).or_insert(0) += 1;
                                    }
                                    if o.nontrivial {
                                        let mut k = [0u8; 16];
                                        k.copy_from_slice(&h.as_bytes()[..16]);
                                        st.nontrivial.insert(k);
                                        if idx < 200 && js.len() < 3000 {
                                            st.samples.push((idx, js));
                                        }
                                    }
                                }
                                Err(Fail::Infra(m)) => {
                                    infra.lock().unwrap().push(format!(
                                        "part {} case {}: {}\n  case: {}",
                                        self.name,
                                        idx,
                                        m,
                                        clip(&serde_json::to_string(&case).unwrap_or_default(), 2000)
                                    ));
                                    stop.store(true, Ordering::SeqCst);
                                }
                                Err(Fail::Violation(msg)) => {
                                    stop.store(true, Ordering::SeqCst);
                                    let (case, msg) = self.shrink_case(&env, &mut *tree_box(&mut tree), case, msg);
                                    found.lock().unwrap().push(Found {
                                        idx,
                                        msg,
                                        case: serde_json::to_value(&case).unwrap(),
                                        part: self.name.to_string(),
                                    });
                                }
                            }
                        }
                        env.clean();
                    })
                    .expect("thread");
            }
        });

        let st = stats.into_inner().unwrap();
        report.evals = st.evals;
        report.nontrivial = st.nontrivial.len() as u64;
        report.points = st.points;
        report.labels = st.labels;
        let mut s = st.samples;
        s.sort();
        report.samples = s.into_iter().take(2).map(|x| x.1).collect();

        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| x.idx);
        if let Some(x) = f.into_iter().next() {
            return Ok(Some(x));
        }
        let i = infra.into_inner().unwrap();
        if let Some(m) = i.into_iter().next() {
            return Err(m);
        }
        Ok(None)
    }
}

fn tree_box<T>(t: &mut T) -> &mut T {
    t
}

impl<C: Clone + std::fmt::Debug> P<C> {
    fn shrink_case<T: ValueTree<Value = C> + ?Sized>(
        &self,
        env: &Env,
        tree: &mut T,
        case: C,
        msg: String,
    ) -> (C, String) {
        let mut best = (case, msg);
        let start = Instant::now();
        let mut tries = 0;
        if !tree.simplify() {
            return best;
        }
        loop {
            if tries >= self.shrink || start.elapsed() > Duration::from_secs(60) {
                break;
            }
            tries += 1;
            let c = tree.current();
            match guarded(&*self.f, env, &c) {
                Err(Fail::Violation(m)) => {
                    best = (c, m);
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
        best
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Box<dyn Part>>,
}

fn env_path(n: &str) -> PathBuf {
    PathBuf::from(std::env::var_os(n).unwrap_or_else(|| panic!("{} not set", n)))
}

pub fn make_ctx() -> Ctx {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let known = std::fs::read(env_path("VC_ROOT").join("known-findings.json"))
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or(serde_json::Value::Null);
    Ctx {
        id: String::new(),
        tier,
        seed,
        bin: env_path("VC_BIN"),
        shim: env_path("VC_SHIM"),
        scratch: env_path("VC_SCRATCH"),
        out: env_path("VC_OUT"),
        corpus: env_path("VC_ROOT").join("corpus"),
        replay_dir: std::env::var("VC_REPLAYS").unwrap_or_else(|_| "replays".into()),
        known,
    }
}

/// Entry point of a harness binary: `<bin> run ID` or `<bin> replay ID FILE`.
pub fn main(checks: Vec<Check>, in_process: bool) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} run|replay ID [FILE]", args[0]);
        return 2;
    }
    let mut ctx = make_ctx();
    let id = args[2].clone();
    ctx.id = id.clone();
    IN_PROCESS.store(in_process, Ordering::SeqCst);
    let check = match checks.into_iter().find(|c| c.id == id) {
        Some(c) => Arc::new(c),
        None => {
            println!("ERROR: no check {}", id);
            return 2;
        }
    };
    // Panics are either caught and judged, or reported as an infrastructure error.
    if std::env::var_os("VC_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    start_watchdog(Duration::from_secs(if ctx.tier == Tier::Quick { 240 } else { 900 }));
    if args[1] == "replay" {
        return replay_file(&ctx, &check, Path::new(&args[3]));
    }
    let start = Instant::now();
    let mut rep: Vec<(String, PartReport, f64)> = Vec::new();
    let mut violation: Option<Found> = None;
    let mut error: Option<String> = None;
    let mut corpus_n = 0u64;

    // Saved cases first.
    let mut files: Vec<PathBuf> = std::fs::read_dir(ctx.corpus.join(&id))
        .map(|rd| rd.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        match load_case(&f) {
            Err(e) => error = Some(e),
            Ok((part, case)) => {
                let p = check.parts.iter().find(|p| p.name() == part);
                let p = match p {
                    Some(p) => p,
                    None => {
                        error = Some(format!("{}: no part {}", f.display(), part));
                        continue;
                    }
                };
                corpus_n += 1;
                match p.replay(&ctx, &case) {
                    Ok(_) => {}
                    Err(Fail::Infra(m)) => error = Some(format!("{}: {}", f.display(), m)),
                    Err(Fail::Violation(msg)) => {
                        violation = Some(Found { idx: 0, msg, case, part });
                        break;
                    }
                }
            }
        }
    }

    let only = std::env::var("VC_PART").ok();
    if violation.is_none() {
        for p in &check.parts {
            if only.as_deref().map(|o| o != p.name()).unwrap_or(false) {
                continue;
            }
            let mut r = PartReport::default();
            let t = Instant::now();
            let res = p.run(&ctx, &id, &mut r);
            rep.push((p.name().to_string(), r, t.elapsed().as_secs_f64()));
            match res {
                Ok(None) => {}
                Ok(Some(f)) => {
                    violation = Some(f);
                    break;
                }
                Err(e) => {
                    error = Some(e);
                    break;
                }
            }
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let evals: u64 = rep.iter().map(|x| x.1.evals + x.1.points).sum::<u64>() + corpus_n;
    let nontriv: u64 = rep.iter().map(|x| x.1.nontrivial).sum();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut parts = serde_json::Map::new();
    for (n, r, w) in &rep {
        for s in &r.samples {
            samples.push(serde_json::json!({
                "part": n,
                "case": parse(s.as_bytes()).unwrap_or(serde_json::Value::Null)
            }));
        }
        parts.insert(
            n.clone(),
            serde_json::json!({
                "cases": r.evals, "distinct_nontrivial": r.nontrivial, "fault_or_crash_points": r.points,
                "labels": r.labels, "wall_s": (w * 100.0).round() / 100.0
            }),
        );
    }
    let ev = serde_json::json!({
        "property": id,
        "tier": if ctx.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": ctx.seed,
        "level": check.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": check.rule,
            "samples": samples,
            "corpus_cases": corpus_n,
            "parts": parts,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(&ctx.out);
    if let Err(e) = std::fs::write(
        ctx.out.join(format!("{}.json", id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        println!("ERROR: evidence: {}", e);
        return 2;
    }

    for (n, r, w) in &rep {
        let labels: Vec<String> = r.labels.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        println!(
            "{}/{}: {} cases, {} non-trivial, {} points, {:.1}s  {}",
            id, n, r.evals, r.nontrivial, r.points, w, clip(&labels.join(" "), 1500)
        );
    }

    if let Some(v) = violation {
        let name = format!("{}-{}.json", id, &blake3::hash(v.case.to_string().as_bytes()).to_hex()[..12]);
        let dir = ctx.out.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let js = serde_json::json!({"property": id, "part": v.part, "message": v.msg, "case": v.case});
        let _ = std::fs::write(dir.join(&name), serde_json::to_string_pretty(&js).unwrap() + "\n");
        println!("{}: {}", v.part, clip(&v.msg, 3000));
        println!("case: {}", clip(&v.case.to_string(), 2000));
        println!("VIOLATION property={} replay={}/{}", id, ctx.replay_dir, name);
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        return 2;
    }
    0
}

/// Deep trees need more than the usual number of levels.
fn parse(b: &[u8]) -> Result<serde_json::Value, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    Deserialize::deserialize(&mut d)
}

fn load_case(f: &Path) -> Result<(String, serde_json::Value), String> {
    let b = std::fs::read(f).map_err(|e| format!("{}: {}", f.display(), e))?;
    let v = parse(&b).map_err(|e| format!("{}: {}", f.display(), e))?;
    let part = v["part"].as_str().unwrap_or("").to_string();
    Ok((part, v["case"].clone()))
}

fn replay_file(ctx: &Ctx, check: &Check, f: &Path) -> i32 {
    let (part, case) = match load_case(f) {
        Ok(x) => x,
        Err(e) => {
            println!("ERROR: {}", e);
            return 2;
        }
    };
    match check.parts.iter().find(|p| p.name() == part) {
        None => {
            println!("ERROR: no part {}", part);
            2
        }
        Some(p) => match p.replay(ctx, &case) {
            Ok(o) => {
                println!("holds ({:?})", o);
                0
            }
            Err(Fail::Infra(m)) => {
                println!("ERROR: {}", m);
                2
            }
            Err(Fail::Violation(m)) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", check.id, f.display());
                1
            }
        },
    }
}
