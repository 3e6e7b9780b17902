//! Seeded, sharded, shrinking property runner with evidence and replay files.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
static ERR: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);
fn write_fd(fd: i32, s: &str) {
    let b = format!("{s}\n");
    let mut b = b.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
/// The library prints on stdout and stderr: the harness keeps its own copies of them.
pub fn say(s: &str) {
    write_fd(OUT.load(SeqCst), s)
}
pub fn note(s: &str) {
    write_fd(ERR.load(SeqCst), s)
}
fn mute() {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if null < 0 {
            return;
        }
        OUT.store(libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10), SeqCst);
        ERR.store(libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10), SeqCst);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        libc::close(null);
    }
}

#[derive(Default, Debug, Clone)]
pub struct Obs {
    pub nontrivial: bool,
    pub tags: Vec<String>,
}
impl Obs {
    pub fn tag(mut self, t: impl Into<String>) -> Self {
        self.tags.push(t.into());
        self
    }
    pub fn tag_if(self, c: bool, t: &str) -> Self {
        if c {
            self.tag(t)
        } else {
            self
        }
    }
}
/// A case that exercised what the property is about.
pub fn hit() -> Obs {
    Obs { nontrivial: true, tags: vec![] }
}
pub fn nt(b: bool) -> Obs {
    Obs { nontrivial: b, tags: vec![] }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken
    Bad(String),
    /// the harness could not decide
    Broken(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Bad(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Bad(s.into())
    }
}
impl From<openssl::error::ErrorStack> for Fail {
    fn from(s: openssl::error::ErrorStack) -> Self {
        Fail::Broken(format!("openssl: {s}"))
    }
}
impl From<std::io::Error> for Fail {
    fn from(s: std::io::Error) -> Self {
        Fail::Broken(format!("io: {s}"))
    }
}
impl From<Panicked> for Fail {
    fn from(p: Panicked) -> Self {
        if p.in_harness() {
            Fail::Broken(format!("harness {p}"))
        } else {
            Fail::Bad(format!("{p}"))
        }
    }
}
pub type Res = Result<Obs, Fail>;

macro_rules! outln { ($($t:tt)*) => { say(&format!($($t)*)) }; }
macro_rules! errln { ($($t:tt)*) => { note(&format!($($t)*)) }; }
#[macro_export]
macro_rules! bad {
    ($($t:tt)*) => { return Err($crate::run::Fail::Bad(format!($($t)*))) };
}
#[macro_export]
macro_rules! broken {
    ($($t:tt)*) => { return Err($crate::run::Fail::Broken(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::run::Fail::Bad(format!($($t)*))) } };
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
impl std::fmt::Display for Panicked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "panic '{}' at {}:{}", self.msg, self.file, self.line)
    }
}
impl Panicked {
    /// A panic raised by the harness itself, or by one of its oracles.
    pub fn in_harness(&self) -> bool {
        let f = &self.file;
        (f.starts_with("src/") || (f.contains("/registry/") && !f.contains("/ibig-"))) && !f.contains("/repo/")
    }
}
thread_local! { static LAST: RefCell<Option<Panicked>> = RefCell::new(None); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = Some(Panicked { msg, file, line }));
    }));
}
/// Run library code, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panicked { msg: "?".into(), file: "?".into(), line: 0 })
    })
}

pub fn hash64(x: impl Hash) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Slot {
    started: Mutex<Option<(Instant, String)>>, // case start and sub name
    cpu: Mutex<Option<libc::clockid_t>>,
    file: Option<std::fs::File>,
}

pub struct Check {
    id: String,
    pub tier: Tier,
    pub seed: u64,
    replay: Option<(String, serde_json::Value)>,
    replay_hit: bool,
    rule: String,
    assumptions: Vec<String>,
    level: String,
    t0: Instant,
    evals: u64,
    distinct: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    subs: BTreeMap<String, serde_json::Value>,
    samples: Vec<serde_json::Value>,
    violation: Option<String>,
    broken: Option<String>,
    slots: Arc<Vec<Slot>>,
    only: Option<String>,
    pub scale: f64,
    pub shrink_iters: u32,
    /// a case that takes more than this is given up: the check ends without a verdict
    pub hang_s: Arc<AtomicU64>,
    exhaustive: bool,
    extra: BTreeMap<String, serde_json::Value>,
    known: Vec<Known>,
    known_seen: Arc<Mutex<BTreeMap<String, u64>>>,
}

#[derive(serde::Deserialize, Clone)]
struct Known {
    property: String,
    #[serde(default)]
    status: String,
    /// exact text that must occur in the failure message
    #[serde(default)]
    signature: String,
    what: String,
}

pub const SHARDS: usize = 8;
const VERIF: &str = "/verif";

fn child_main(id: &str, rule: &str, body: impl FnOnce(&mut Check)) -> i32 {
    mute();
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let mut replay = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let t = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("replay json");
        replay = Some((v["sub"].as_str().unwrap_or("").to_string(), v["case"].clone()));
    }
    // memory without end is to fail here, not to take the machine's
    let most: u64 = if replay.is_some() { 6 << 30 } else { 16 << 30 };
    let l = libc::rlimit { rlim_cur: most, rlim_max: most };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Thorough { 10.0 } else { 1.0 });
    let slot_dir = std::env::var("VH_SLOTS").ok();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..SHARDS)
            .map(|i| Slot {
                started: Mutex::new(None),
                cpu: Mutex::new(None),
                file: slot_dir.as_ref().and_then(|d| std::fs::OpenOptions::new().create(true).read(true).write(true).open(format!("{d}/{i}")).ok()),
            })
            .collect(),
    );
    let known: Vec<Known> = std::fs::read_to_string(format!("{VERIF}/known_findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default();
    let known = known.into_iter().filter(|k| k.property == id && k.status != "fixed").collect();
    let mut c = Check {
        id: id.into(),
        tier,
        seed,
        replay,
        replay_hit: false,
        rule: rule.into(),
        assumptions: vec![],
        level: "exploration".into(),
        t0: Instant::now(),
        evals: 0,
        distinct: HashSet::new(),
        tags: BTreeMap::new(),
        subs: BTreeMap::new(),
        samples: vec![],
        violation: None,
        broken: None,
        slots: slots.clone(),
        only,
        scale,
        shrink_iters: 1500,
        hang_s: Arc::new(AtomicU64::new(120)),
        exhaustive: false,
        extra: BTreeMap::new(),
        known,
        known_seen: Arc::new(Mutex::new(BTreeMap::new())),
    };
    let hs = c.hang_s.clone();
    let replaying = c.replaying();
    let sl = slots.clone();
    let idc = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for (i, s) in sl.iter().enumerate() {
            let g = s.started.lock().unwrap();
            if let Some((t, sub)) = g.as_ref() {
                if t.elapsed() > Duration::from_secs(hs.load(SeqCst)) {
                    if replaying {
                        outln!("the case does not end");
                        outln!("VIOLATION property={idc} replay={}", std::env::args().last().unwrap());
                        std::process::exit(1);
                    }
                    outln!("INCONCLUSIVE property={idc}: a case of {sub} (worker {i}) did not end within {} s", hs.load(SeqCst));
                    let _ = std::fs::write(format!("{}/hung", tmp()), i.to_string());
                    std::process::exit(4);
                }
            }
        }
    });
    body(&mut c);
    c.finish()
}

/// Entry point of every check binary. The work is done in a child process so that a crash
/// (stack overflow, abort) of the code under test is itself an observation.
pub fn main(id: &str, rule: &str, body: impl FnOnce(&mut Check)) -> ! {
    if std::env::var("VH_CHILD").is_ok() || std::env::args().any(|a| a == "--no-fork") {
        std::process::exit(child_main(id, rule, body));
    }
    let dir = format!("{}/vh-{}-{}", std::env::temp_dir().display(), id, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let run = |args: &[String], slots: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("VH_CHILD", "1").env("VH_TMP", &dir);
        if slots {
            c.env("VH_SLOTS", &dir);
        } else {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("spawn")
    };
    let st = run(&args, true);
    use std::os::unix::process::ExitStatusExt;
    let mut code = st.code().unwrap_or(5);
    // a case that does not end, and does not end alone either
    if code == 4 && !args.iter().any(|a| a == "--replay") {
        let hung = std::fs::read_to_string(format!("{dir}/hung")).unwrap_or_default();
        let _ = std::fs::remove_file(format!("{dir}/hung"));
        if let Some(rec) = std::fs::read_to_string(format!("{dir}/{hung}")).ok().and_then(|t| {
            let (len, rest) = t.split_once('\n')?;
            let len = len.trim().parse::<usize>().ok()?;
            (len > 0 && rest.len() >= len).then(|| rest[..len].to_string())
        }) {
            let f = format!("{dir}/cand.json");
            std::fs::write(&f, &rec).unwrap();
            if run(&["--replay".into(), f.clone()], false).code() == Some(1) {
                let mut v: serde_json::Value = serde_json::from_str(&rec).unwrap_or_default();
                v["message"] = "the case does not end".into();
                let path = replay_path(id, "hang", 0);
                std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                outln!("VIOLATION property={id} replay={path}");
                code = 1;
            }
        }
    }
    if let Some(sig) = st.signal() {
        code = 5;
        if sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT {
            errln!("the code under test ended the process with signal {sig}; looking for the case");
            for i in 0..SHARDS {
                let Ok(t) = std::fs::read_to_string(format!("{dir}/{i}")) else { continue };
                let Some((len, rest)) = t.split_once('\n') else { continue };
                let Ok(len) = len.trim().parse::<usize>() else { continue };
                if len == 0 || rest.len() < len {
                    continue;
                }
                let f = format!("{dir}/cand{i}.json");
                std::fs::write(&f, &rest[..len]).unwrap();
                let st2 = run(&["--replay".into(), f.clone()], false);
                if matches!(st2.signal(), Some(s) if s != libc::SIGKILL) {
                    let mut v: serde_json::Value = serde_json::from_str(&rest[..len]).unwrap_or_default();
                    v["message"] = format!("process ended by signal {:?}", st2.signal()).into();
                    let path = replay_path(id, "crash", i as u64);
                    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                    outln!("the code under test crashes the process (signal {:?})", st2.signal());
                    outln!("VIOLATION property={id} replay={path}");
                    code = 1;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

fn replay_path(id: &str, sub: &str, h: u64) -> String {
    let d = format!("{VERIF}/replays");
    let _ = std::fs::create_dir_all(&d);
    format!("{d}/{id}-{sub}-{h:016x}.json")
}

/// Scratch directory of this run (removed by the parent process).
pub fn tmp() -> String {
    std::env::var("VH_TMP").unwrap_or_else(|_| {
        let d = format!("{}/vh-solo-{}", std::env::temp_dir().display(), std::process::id());
        let _ = std::fs::create_dir_all(&d);
        d
    })
}

impl Check {
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }
    pub fn note(&mut self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.insert(k.into(), v.into());
    }
    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }

    /// One generated sub-property: `n` cases from `mk()` (times the tier's scale), each decided by `f`.
    pub fn sub<T, S>(&mut self, name: &str, n: u64, mk: impl Fn() -> S + Sync, f: impl Fn(&T) -> Res + Sync)
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send,
        S: Strategy<Value = T>,
    {
        if let Some((sub, case)) = self.replay.clone() {
            if sub == name {
                self.replay_hit = true;
                let t: T = serde_json::from_value(case).expect("replay case");
                if let Some(file) = self.slots[0].file.as_ref() {
                    let _ = file.set_len(0);
                }
                *self.slots[0].started.lock().unwrap() = Some((Instant::now(), name.to_string()));
                let r = run_one(&f, &t);
                *self.slots[0].started.lock().unwrap() = None;
                match r {
                    Ok(o) => outln!("replay: held ({o:?})"),
                    Err(Fail::Bad(m)) => self.violation = Some(format!("{name}: {m}")),
                    Err(Fail::Broken(m)) => self.broken = Some(m),
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if self.violation.is_some() {
            return;
        }
        let total = ((n as f64 * self.scale).ceil() as u64).max(SHARDS as u64);
        let stop = AtomicBool::new(false);
        struct Shard<T> {
            evals: u64,
            nontriv: u64,
            distinct: HashSet<u64>,
            tags: BTreeMap<String, u64>,
            samples: Vec<serde_json::Value>,
            fail: Option<(T, String)>,
            broken: Option<String>,
        }
        let results: Mutex<Vec<(usize, Shard<T>)>> = Mutex::new(vec![]);
        let (seed, iters) = (self.seed, self.shrink_iters);
        let (slots, known, known_seen) = (self.slots.clone(), self.known.clone(), self.known_seen.clone());
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (mk, f, stop, results, slots, known, known_seen) = (&mk, &f, &stop, &results, &slots, &known, &known_seen);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut sb = [0u8; 32];
                        for (i, ch) in sb.chunks_mut(8).enumerate() {
                            ch.copy_from_slice(&hash64((seed, name, shard, i)).to_le_bytes());
                        }
                        let cases = total / SHARDS as u64 + u64::from((shard as u64) < total % SHARDS as u64);
                        let cfg = Config {
                            cases: cases as u32,
                            failure_persistence: None,
                            max_shrink_iters: iters,
                            max_shrink_time: 60_000,
                            max_global_rejects: 1 << 20,
                            source_file: None,
                            ..Config::default()
                        };
                        let st = RefCell::new(Shard::<T> { evals: 0, nontriv: 0, distinct: HashSet::new(), tags: BTreeMap::new(), samples: vec![], fail: None, broken: None });
                        let failing = std::cell::Cell::new(false);
                        if cases > 0 {
                            let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sb));
                            let out = r.run(&mk(), |t: T| {
                                if !failing.get() && stop.load(SeqCst) {
                                    return Ok(());
                                }
                                let js = serde_json::to_string(&t).unwrap();
                                *slots[shard].started.lock().unwrap() = Some((Instant::now(), name.to_string()));
                                if let Some(file) = slots[shard].file.as_ref() {
                                    let rec = format!("{{\"sub\":{},\"case\":{}}}", serde_json::to_string(name).unwrap(), js);
                                    let all = format!("{}\n{}", rec.len(), rec);
                                    let _ = file.write_all_at(all.as_bytes(), 0);
                                }
                                let res = run_one(f, &t);
                                *slots[shard].started.lock().unwrap() = None;
                                match res {
                                    Ok(o) => {
                                        if !failing.get() {
                                            let mut s = st.borrow_mut();
                                            s.evals += 1;
                                            if o.nontrivial {
                                                s.nontriv += 1;
                                                s.distinct.insert(hash64((name, &js)));
                                            }
                                            for t in o.tags {
                                                *s.tags.entry(t).or_default() += 1;
                                            }
                                            if o.nontrivial && s.samples.len() < 1 && js.len() < 4000 {
                                                s.samples.push(serde_json::json!({"sub": name, "case": serde_json::from_str::<serde_json::Value>(&js).unwrap()}));
                                            }
                                        }
                                        Ok(())
                                    }
                                    Err(Fail::Bad(m)) => {
                                        if let Some(k) = known.iter().find(|k| !k.signature.is_empty() && m.contains(&k.signature)) {
                                            *known_seen.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                                            st.borrow_mut().evals += 1;
                                            return Ok(());
                                        }
                                        if !failing.get() {
                                            if stop.swap(true, SeqCst) {
                                                return Ok(()); // another shard already has a failure to shrink
                                            }
                                            failing.set(true);
                                            errln!("[{name}] failing case found, shrinking: {m}");
                                        }
                                        Err(TestCaseError::fail(m))
                                    }
                                    Err(Fail::Broken(m)) => {
                                        let mut s = st.borrow_mut();
                                        if !failing.get() {
                                            if s.broken.is_none() {
                                                s.broken = Some(format!("{m}; case {}", &js[..js.len().min(3000)]));
                                            }
                                            stop.store(true, SeqCst);
                                        }
                                        Ok(())
                                    }
                                }
                            });
                            match out {
                                Ok(()) => {}
                                Err(TestError::Fail(reason, t)) => st.borrow_mut().fail = Some((t, reason.message().to_string())),
                                Err(TestError::Abort(r)) => st.borrow_mut().broken = Some(format!("proptest aborted: {r}")),
                            }
                        }
                        results.lock().unwrap().push((shard, st.into_inner()));
                    })
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut sub = serde_json::json!({"cases": 0, "nontrivial": 0, "distinct_nontrivial": 0});
        let mut subtags: BTreeMap<String, u64> = BTreeMap::new();
        let (mut ev, mut ntc, mut dn) = (0, 0, HashSet::new());
        for (_, s) in rs {
            ev += s.evals;
            ntc += s.nontriv;
            dn.extend(s.distinct);
            for (k, v) in s.tags {
                *subtags.entry(k).or_default() += v;
            }
            if self.samples.iter().filter(|x| x["sub"] == name).count() < 1 {
                self.samples.extend(s.samples);
            }
            if let Some((t, m)) = s.fail {
                if self.violation.is_none() {
                    let js = serde_json::to_value(&t).unwrap();
                    let path = replay_path(&self.id, name, hash64(js.to_string()));
                    let v = serde_json::json!({"property": self.id, "sub": name, "case": js, "message": m, "seed": self.seed});
                    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
                    outln!("[{name}] {m}");
                    let c = js.to_string();
                    outln!("minimal case: {}", &c.chars().take(1500).collect::<String>());
                    self.violation = Some(path);
                }
            }
            if let Some(b) = s.broken {
                self.broken.get_or_insert(format!("[{name}] {b}"));
            }
        }
        self.evals += ev;
        sub["cases"] = ev.into();
        sub["nontrivial"] = ntc.into();
        sub["distinct_nontrivial"] = dn.len().into();
        sub["tags"] = serde_json::to_value(&subtags).unwrap();
        sub["wall_s"] = (t0.elapsed().as_secs_f64() * 100.0).round().into();
        sub["wall_s"] = serde_json::json!((t0.elapsed().as_secs_f64() * 100.0).round() / 100.0);
        self.distinct.extend(dn);
        errln!("[{}/{name}] {ev} cases, {ntc} non-trivial, {:.1}s {:?}", self.id, t0.elapsed().as_secs_f64(), subtags);
        self.subs.insert(name.into(), sub);
        for (k, v) in subtags {
            *self.tags.entry(format!("{name}:{k}")).or_default() += v;
        }
    }

    /// A fixed list of cases (boundary tables), run and replayed like generated ones.
    pub fn list<T>(&mut self, name: &str, cases: Vec<T>, f: impl Fn(&T) -> Res + Sync)
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send + Sync,
    {
        if self.replay.is_some() {
            return self.sub(name, 0, || proptest::strategy::Just(cases[0].clone()), f);
        }
        if self.only.as_ref().is_some_and(|o| o != name) || self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let fail: Mutex<Option<(usize, String)>> = Mutex::new(None);
        let brk: Mutex<Option<String>> = Mutex::new(None);
        let okd: Mutex<(u64, u64, HashSet<u64>, BTreeMap<String, u64>)> = Mutex::new(Default::default());
        let slots = self.slots.clone();
        let (known, known_seen) = (self.known.clone(), self.known_seen.clone());
        std::thread::scope(|sc| {
            for shard in 0..SHARDS {
                let (next, fail, brk, okd, slots, cases, f, known, known_seen) = (&next, &fail, &brk, &okd, &slots, &cases, &f, &known, &known_seen);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, SeqCst) as usize;
                        if i >= cases.len() || fail.lock().unwrap().as_ref().is_some_and(|x| x.0 < i) {
                            break;
                        }
                        *slots[shard].started.lock().unwrap() = Some((Instant::now(), name.to_string()));
                        let js = serde_json::to_string(&cases[i]).unwrap();
                        if let Some(file) = slots[shard].file.as_ref() {
                            let rec = format!("{{\"sub\":{},\"case\":{}}}", serde_json::to_string(name).unwrap(), js);
                            let _ = file.write_all_at(format!("{}\n{}", rec.len(), rec).as_bytes(), 0);
                        }
                        let r = run_one(f, &cases[i]);
                        *slots[shard].started.lock().unwrap() = None;
                        match r {
                            Ok(o) => {
                                let mut g = okd.lock().unwrap();
                                g.0 += 1;
                                if o.nontrivial {
                                    g.1 += 1;
                                    g.2.insert(hash64((name, &js)));
                                }
                                for t in o.tags {
                                    *g.3.entry(t).or_default() += 1;
                                }
                            }
                            Err(Fail::Bad(m)) => {
                                if let Some(k) = known.iter().find(|k| !k.signature.is_empty() && m.contains(&k.signature)) {
                                    *known_seen.lock().unwrap().entry(k.what.clone()).or_default() += 1;
                                    okd.lock().unwrap().0 += 1;
                                    continue;
                                }
                                let mut g = fail.lock().unwrap();
                                if g.as_ref().map_or(true, |x| x.0 > i) {
                                    *g = Some((i, m));
                                }
                            }
                            Err(Fail::Broken(m)) => {
                                brk.lock().unwrap().get_or_insert(m);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let (ev, ntc, dn, tags) = okd.into_inner().unwrap();
        self.evals += ev;
        if let Some((i, m)) = fail.into_inner().unwrap() {
            let js = serde_json::to_value(&cases[i]).unwrap();
            let path = replay_path(&self.id, name, hash64(js.to_string()));
            let v = serde_json::json!({"property": self.id, "sub": name, "case": js, "message": m, "seed": self.seed});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            outln!("[{name}] {m}");
            outln!("case: {}", js.to_string().chars().take(1500).collect::<String>());
            self.violation = Some(path);
        }
        if let Some(b) = brk.into_inner().unwrap() {
            self.broken.get_or_insert(format!("[{name}] {b}"));
        }
        errln!("[{}/{name}] {ev} cases, {ntc} non-trivial, {:.1}s {:?}", self.id, t0.elapsed().as_secs_f64(), tags);
        self.subs.insert(
            name.into(),
            serde_json::json!({"cases": ev, "nontrivial": ntc, "distinct_nontrivial": dn.len(), "tags": tags, "list": true,
                "wall_s": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
        self.distinct.extend(dn);
        if let Some(c) = cases.first() {
            let v = serde_json::to_value(c).unwrap();
            if v.to_string().len() < 4000 {
                self.samples.push(serde_json::json!({"sub": name, "case": v}));
            }
        }
    }

    fn finish(self) -> i32 {
        if self.replay.is_some() {
            if let Some(b) = self.broken {
                outln!("harness error: {b}");
                return 2;
            }
            if let Some(v) = self.violation {
                outln!("{v}");
                outln!("VIOLATION property={} replay={}", self.id, std::env::args().last().unwrap());
                return 1;
            }
            return if self.replay_hit { 0 } else { 2 };
        }
        let mut cov = serde_json::json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples.iter().take(16).collect::<Vec<_>>(),
            "subs": self.subs,
        });
        if self.exhaustive {
            cov["exhaustive"] = true.into();
        }
        for (k, v) in self.extra.iter() {
            cov[k] = v.clone();
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (self.t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": u64::from(self.violation.is_some()),
        });
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
            std::fs::write(format!("{VERIF}/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
        }
        for k in &self.known {
            outln!("KNOWN-FINDING: property={} {} (met {} times in this run)", self.id, k.what, self.known_seen.lock().unwrap().get(&k.what).unwrap_or(&0));
        }
        if let Some(p) = self.violation {
            outln!("VIOLATION property={} replay={}", self.id, p);
            return 1;
        }
        if let Some(b) = self.broken {
            outln!("harness error: {b}");
            return 2;
        }
        outln!("{}: held on {} cases ({} distinct non-trivial)", self.id, self.evals, self.distinct.len());
        0
    }
}

fn run_one<T>(f: &(impl Fn(&T) -> Res + Sync), t: &T) -> Res {
    match guard(|| f(t)) {
        Ok(r) => r,
        Err(p) => Err(p.into()),
    }
}
