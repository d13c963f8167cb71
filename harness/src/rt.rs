#![allow(dead_code)]
//! Runtime of the exhaustive explorers: sharding over worker processes, panic / abort / hang
//! detection, counting, replay artefacts, known findings and evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub type CaseResult = Result<Outcome, Fail>;

/// What one explored case produced: a hash of the observable outcome (for counting distinct
/// outcomes) and whether the case exercised the property non-trivially.
pub struct Outcome {
    pub hash: u64,
    pub nontrivial: bool,
}
impl Outcome {
    pub fn of<T: std::hash::Hash>(t: &T) -> Self {
        Outcome { hash: h64(t), nontrivial: true }
    }
    pub fn trivial() -> Self {
        Outcome { hash: 0, nontrivial: false }
    }
}
#[derive(Debug, Clone)]
pub struct Fail {
    /// stable identification of the failing input / call site, matched against known findings
    pub key: String,
    pub what: String,
}
impl Fail {
    pub fn new<S: Into<String>>(what: S) -> Self {
        Fail { key: String::new(), what: what.into() }
    }
    pub fn keyed<K: Into<String>, S: Into<String>>(key: K, what: S) -> Self {
        Fail { key: key.into(), what: what.into() }
    }
}

pub fn h64<T: std::hash::Hash>(t: &T) -> u64 {
    // FNV-1a based hasher: fixed seed, so that outcomes are comparable between processes
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    std::hash::Hasher::finish(&f)
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/repo/").next().unwrap_or(f);
                format!("{f}:{}", l.line())
            })
            .unwrap_or_default();
        let m = format!("{msg} [{loc}]");
        if let Ok(mut g) = ANY_PANIC.lock() {
            g.get_or_insert_with(|| m.clone());
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    *ANY_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .filter(|m| !m.contains("a scoped thread panicked"))
            .or_else(|| ANY_PANIC.lock().unwrap().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub scratch: PathBuf,
    shard: u64,
    shards: u64,
    start_at: u64,
    only: Option<u64>,
    idx: u64,
    progress: *mut u8,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub transitions: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    failures: u64,
    fail_keys: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    out: std::fs::File,
    catch_panics: bool,
    deadline: Option<Instant>,
    pub capped: bool,
}

const PROGRESS_LEN: usize = 1 << 16;

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick a bound by tier
    pub fn bound<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n;
    }
    pub fn out_of_time(&mut self) -> bool {
        if self.deadline.is_some_and(|d| Instant::now() > d) {
            self.capped = true;
            return true;
        }
        false
    }
    /// true if the next case belongs to this worker. Lets enumerators skip costly preparation.
    pub fn mine(&self) -> bool {
        if let Some(o) = self.only {
            return self.idx == o;
        }
        self.idx % self.shards == self.shard && self.idx >= self.start_at
    }
    /// skip n cases at once
    pub fn skip(&mut self, n: u64) {
        self.idx += n;
    }
    /// Explore one case. `desc` must describe the input completely (it is what a reader replays).
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Ctx) -> CaseResult) {
        let mine = self.mine();
        let idx = self.idx;
        self.idx += 1;
        if !mine || self.capped {
            return;
        }
        if self.evaluations % 64 == 0 && self.out_of_time() {
            return;
        }
        let d = desc();
        self.publish(idx, &d);
        let catch = self.catch_panics;
        let r = if catch {
            match guarded(|| f(self)) {
                Ok(r) => r,
                Err(m) => Err(Fail::keyed(format!("panic:{}", panic_site(&m)), format!("panicked: {m}"))),
            }
        } else {
            f(self)
        };
        self.evaluations += 1;
        match r {
            Ok(o) => {
                if o.nontrivial {
                    self.nontrivial += 1;
                    if self.outcomes.len() < 3_000_000 && self.outcomes.insert(o.hash) && self.samples.len() < 6 && self.outcomes.len().count_ones() == 1 {
                        self.samples.push(d);
                    }
                }
            }
            Err(e) => self.fail(idx, &d, &e),
        }
    }
    pub fn fail(&mut self, idx: u64, desc: &str, e: &Fail) {
        self.failures += 1;
        let n = self.fail_keys.entry(e.key.clone()).or_default();
        *n += 1;
        if *n <= 20 {
            let j = serde_json::json!({"t":"fail","idx":idx,"desc":desc,"key":e.key,"what":e.what});
            writeln!(self.out, "{j}").unwrap();
        }
    }
    /// Record a state visited by a state-space search (deduplicated by hash).
    pub fn state(&mut self, h: u64) -> bool {
        self.outcomes.insert(h)
    }
    fn publish(&mut self, idx: u64, d: &str) {
        let b = d.as_bytes();
        let n = b.len().min(PROGRESS_LEN - 24);
        unsafe {
            let p = self.progress;
            std::ptr::write_volatile(p as *mut u64, u64::MAX);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(24), n);
            std::ptr::write_volatile(p.add(16) as *mut u64, n as u64);
            std::ptr::write_volatile(p.add(8) as *mut u64, 1 + std::ptr::read_volatile(p.add(8) as *const u64));
            std::ptr::write_volatile(p as *mut u64, idx);
        }
    }
}

/// the file:line part of a panic message
fn panic_site(m: &str) -> String {
    m.rsplit('[').next().unwrap_or("").trim_end_matches(']').to_string()
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: fn(Tier) -> String,
    pub run: fn(&mut Ctx),
    /// seconds without progress after which a case counts as a hang
    pub hang_s: u64,
    pub workers: usize,
    pub assumptions: &'static [&'static str],
}

fn map_shared(path: &Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(PROGRESS_LEN as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            PROGRESS_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    p.cast()
}

fn read_progress(path: &Path) -> (u64, u64, String) {
    let Ok(f) = std::fs::File::open(path) else { return (u64::MAX, 0, String::new()) };
    let mut b = vec![0u8; PROGRESS_LEN];
    let _ = f.read_exact_at(&mut b, 0);
    let idx = u64::from_le_bytes(b[0..8].try_into().unwrap());
    let tick = u64::from_le_bytes(b[8..16].try_into().unwrap());
    let n = (u64::from_le_bytes(b[16..24].try_into().unwrap()) as usize).min(PROGRESS_LEN - 24);
    (idx, tick, String::from_utf8_lossy(&b[24..24 + n]).into_owned())
}

fn scratch_root() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(d).join(format!("vh.{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() {
            let _ = std::fs::remove_file(p.join("probe"));
            return p;
        }
    }
    panic!("no scratch directory");
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

struct Known {
    key: String,
    note: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            let j: serde_json::Value = serde_json::from_str(l).expect("known_findings.jsonl");
            if j["property"] == id && j["status"] == "known" {
                v.push(Known {
                    key: j["key"].as_str().unwrap().to_string(),
                    note: j["what"].as_str().unwrap_or("").to_string(),
                });
            }
        }
    }
    v
}

pub fn worker_main(prop: &Prop, tier: Tier, args: &[String]) {
    let shard: u64 = args[0].parse().unwrap();
    let shards: u64 = args[1].parse().unwrap();
    let start_at: u64 = args[2].parse().unwrap();
    let only: i64 = args[3].parse().unwrap();
    let dir = PathBuf::from(&args[4]);
    let budget: u64 = args[5].parse().unwrap();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_panic_hook();
    let scratch = dir.join(format!("w{shard}"));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("out{shard}")))
        .unwrap();
    let mut ctx = Ctx {
        tier,
        scratch,
        shard,
        shards,
        start_at,
        only: (only >= 0).then_some(only as u64),
        idx: 0,
        progress: map_shared(&dir.join(format!("prog{shard}"))),
        evaluations: 0,
        nontrivial: 0,
        transitions: 0,
        outcomes: HashSet::new(),
        samples: vec![],
        failures: 0,
        fail_keys: BTreeMap::new(),
        notes: BTreeMap::new(),
        out,
        catch_panics: true,
        deadline: (budget > 0).then(|| Instant::now() + Duration::from_secs(budget)),
        capped: false,
    };
    (prop.run)(&mut ctx);
    let mut hs = Vec::with_capacity(ctx.outcomes.len() * 8);
    for h in &ctx.outcomes {
        hs.extend_from_slice(&h.to_le_bytes());
    }
    let mut hf = std::fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("hash{shard}"))).unwrap();
    hf.write_all(&hs).unwrap();
    let j = serde_json::json!({"t":"done","evaluations":ctx.evaluations,"nontrivial":ctx.nontrivial,
        "transitions":ctx.transitions,"samples":ctx.samples,"notes":ctx.notes,"total":ctx.idx,
        "failures":ctx.failures,"fail_keys":ctx.fail_keys,"capped":ctx.capped});
    writeln!(ctx.out, "{j}").unwrap();
}

struct Worker {
    child: std::process::Child,
    shard: u64,
    last: (u64, u64),
    since: Instant,
}

pub fn parent_main(prop: &Prop, tier: Tier, only: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let dir = scratch_root();
    let code = parent_inner(prop, tier, only, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn parent_inner(prop: &Prop, tier: Tier, only: Option<u64>, dir: &Path, t0: Instant) -> i32 {
    let ncpu = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
    let shards = if only.is_some() { 1 } else if prop.workers > 0 { prop.workers } else { ncpu } as u64;
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    // wall budget of the workers: a safety net, reported as `capped` when hit
    let budget: u64 = if tier == Tier::Quick { 400 } else { 3000 };
    let exe = std::env::current_exe().unwrap();
    let spawn = |shard: u64, start: u64| {
        std::process::Command::new(&exe)
            .args(["__worker", prop.id, tier_s])
            .args([shard.to_string(), shards.to_string(), start.to_string(), only.map_or(-1, |o| o as i64).to_string()])
            .arg(dir)
            .arg(budget.saturating_sub(t0.elapsed().as_secs()).max(1).to_string())
            .env("RAYON_NUM_THREADS", std::env::var("VH_RAYON").unwrap_or("1".into()))
            .env("TZ", "UTC")
            .env("NO_COLOR", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(if std::env::var_os("VH_STDERR").is_some() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .spawn()
            .expect("spawn worker")
    };
    let mut fails: Vec<(u64, String, Fail)> = vec![];
    let mut workers: Vec<Worker> = (0..shards)
        .map(|s| Worker { child: spawn(s, 0), shard: s, last: (u64::MAX, 0), since: Instant::now() })
        .collect();
    let mut crashes = 0;
    let mut engine_error: Option<String> = None;
    while !workers.is_empty() {
        std::thread::sleep(Duration::from_millis(10));
        let mut i = 0;
        while i < workers.len() {
            let w = &mut workers[i];
            let prog = dir.join(format!("prog{}", w.shard));
            let mut dead: Option<(u64, String, Fail)> = None;
            match w.child.try_wait().unwrap() {
                Some(st) if st.success() => {
                    workers.remove(i);
                    continue;
                }
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let (idx, _, d) = read_progress(&prog);
                    if idx == u64::MAX || st.signal().is_none() {
                        engine_error = Some(format!("worker {} ended with {st} outside a case", w.shard));
                        workers.remove(i);
                        continue;
                    }
                    if st.signal() == Some(libc::SIGKILL) {
                        engine_error = Some(format!("worker {} was killed (memory?) at {d}", w.shard));
                        workers.remove(i);
                        continue;
                    }
                    dead = Some((idx, d, Fail::keyed(format!("crash:{}", st.signal().unwrap_or(0)), format!("the process died: {st}"))));
                }
                None => {
                    let (idx, tick, d) = read_progress(&prog);
                    if (idx, tick) != w.last {
                        w.last = (idx, tick);
                        w.since = Instant::now();
                    } else if w.since.elapsed() > Duration::from_secs(prop.hang_s) && idx != u64::MAX && tick > 0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        dead = Some((idx, d, Fail::keyed("hang", format!("no result within {} s", prop.hang_s))));
                    }
                }
            }
            if let Some(x) = dead {
                crashes += 1;
                let next = x.0 + 1;
                fails.push(x);
                if only.is_some() || crashes >= 12 {
                    workers.remove(i);
                    continue;
                }
                let s = workers[i].shard;
                let _ = std::fs::remove_file(&prog);
                workers[i] = Worker { child: spawn(s, next), shard: s, last: (u64::MAX, 0), since: Instant::now() };
            }
            i += 1;
        }
    }
    // collect
    let mut evaluations = crashes;
    let (mut nontrivial, mut transitions, mut capped, mut total) = (0u64, 0u64, false, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut notes: BTreeMap<String, u64> = BTreeMap::new();
    let mut done = 0;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fail_keys: BTreeMap<String, u64> = BTreeMap::new();
    for s in 0..shards {
        let txt = std::fs::read_to_string(dir.join(format!("out{s}"))).unwrap_or_default();
        for l in txt.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if j["t"] == "fail" {
                fails.push((
                    j["idx"].as_u64().unwrap(),
                    j["desc"].as_str().unwrap().into(),
                    Fail { key: j["key"].as_str().unwrap().into(), what: j["what"].as_str().unwrap().into() },
                ));
            } else {
                done += 1;
                evaluations += j["evaluations"].as_u64().unwrap();
                nontrivial += j["nontrivial"].as_u64().unwrap();
                transitions += j["transitions"].as_u64().unwrap();
                capped |= j["capped"].as_bool().unwrap();
                total = total.max(j["total"].as_u64().unwrap());
                for x in j["samples"].as_array().unwrap() {
                    samples.push(x.as_str().unwrap().to_string());
                }
                for (k, v) in j["fail_keys"].as_object().unwrap() {
                    *fail_keys.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
                for (k, v) in j["notes"].as_object().unwrap() {
                    *notes.entry(k.clone()).or_default() += v.as_u64().unwrap();
                }
            }
        }
        let hb = std::fs::read(dir.join(format!("hash{s}"))).unwrap_or_default();
        for c in hb.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    fails.sort_by(|a, b| a.0.cmp(&b.0));
    if fails.is_empty() {
        if let Some(e) = engine_error {
            eprintln!("engine error: {e}");
            return 3;
        }
        if done < shards {
            eprintln!("engine error: {done} of {shards} workers finished");
            return 3;
        }
    }
    // known findings
    let known = known_findings(prop.id);
    let mut seen_known: BTreeMap<usize, u64> = BTreeMap::new();
    let mut new: Vec<&(u64, String, Fail)> = vec![];
    for f in &fails {
        if let Some(k) = known.iter().position(|k| !f.2.key.is_empty() && k.key == f.2.key) {
            seen_known.insert(k, fail_keys.get(&f.2.key).copied().unwrap_or(1));
        } else {
            new.push(f);
        }
    }
    for (k, n) in &seen_known {
        println!("KNOWN-FINDING: property={} {} ({n} of the explored cases)", prop.id, known[*k].note);
    }
    let vdir = verif_dir();
    let wall = t0.elapsed().as_secs_f64();
    if only.is_none() {
        samples.truncate(12);
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut cov = serde_json::json!({
            "rule": prop.rule,
            "bounds": (prop.bounds)(tier),
            "samples": samples,
            "exhaustive": !capped,
            "space": total,
            "workers": shards,
            "distinct_outcomes": hashes.len(),
        });
        if prop.level == "model_checking" {
            cov["states"] = serde_json::json!(hashes.len());
            cov["transitions"] = serde_json::json!(if transitions > 0 { transitions } else { evaluations });
            cov["traces_validated_against_impl"] = serde_json::json!(evaluations);
        } else {
            cov["evaluations"] = serde_json::json!(evaluations);
            cov["distinct_nontrivial"] = serde_json::json!(hashes.len());
            cov["nontrivial"] = serde_json::json!(nontrivial);
            if transitions > 0 {
                cov["transitions"] = serde_json::json!(transitions);
            }
        }
        if !notes.is_empty() {
            cov["counts"] = serde_json::json!(notes);
        }
        if !seen_known.is_empty() {
            cov["known_findings_seen"] = serde_json::json!(seen_known.iter().map(|(k, n)| (known[*k].key.clone(), *n)).collect::<BTreeMap<_, _>>());
        }
        let ev = serde_json::json!({
            "property": prop.id, "tier": tier_s, "seed": seed, "level": prop.level, "coverage": cov,
            "assumptions": prop.assumptions, "wall_s": wall, "violations": new.len(),
        });
        let _ = std::fs::create_dir_all(vdir.join("evidence"));
        std::fs::write(vdir.join(format!("evidence/{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!(
            "{}: {} tier, {evaluations} cases ({} distinct outcomes, {nontrivial} non-trivial, {transitions} transitions) of {total}, capped={capped}, {wall:.1} s",
            prop.id, tier_s, hashes.len()
        );
    }
    if new.is_empty() {
        return 0;
    }
    let rdir = vdir.join("evidence/replay");
    let _ = std::fs::create_dir_all(&rdir);
    let mut by_key: HashSet<String> = HashSet::new();
    let mut shown = 0;
    for f in &new {
        let k = if f.2.key.is_empty() { format!("#{}", shown) } else { f.2.key.clone() };
        if !by_key.insert(k) || shown >= 8 {
            continue;
        }
        shown += 1;
        let path = rdir.join(format!("{}-{}-{}.json", prop.id, tier_s, f.0));
        let j = serde_json::json!({"property":prop.id,"tier":tier_s,"index":f.0,"case":f.1,"key":f.2.key,"what":f.2.what,
            "replay":format!("/verif/check {} --replay {}", prop.id, path.display())});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("--- case {}: {}\n    {}", f.0, f.1, f.2.what);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    println!("{} violating cases recorded; per key: {fail_keys:?}", new.len());
    1
}
