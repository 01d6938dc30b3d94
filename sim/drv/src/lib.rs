//! Seeded search over simulated runs: parallel worker processes, determinism self-check, known
//! findings, minimisation, replay files and evidence. Used by every simulator in this workspace.
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    io::{Read, Write},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    /// stable name of the failure, used to recognise known findings and to keep the minimiser
    /// on the same failure
    pub sig: String,
    pub text: String,
}
pub fn viol<T>(sig: impl Into<String>, text: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), text: text.into() })
}

/// What runs report besides their verdict.
#[derive(Default, Serialize, Deserialize)]
pub struct Stats {
    /// events that happened (counted)
    pub n: BTreeMap<String, u64>,
    /// faults that were really delivered (counted)
    pub faults: BTreeMap<String, u64>,
    /// distinct states, by hash
    pub states: HashSet<u64>,
    /// distinct histories/interleavings, by hash
    pub paths: HashSet<u64>,
    pub max: BTreeMap<String, u64>,
    /// running digest of everything observed, to prove determinism
    #[serde(skip)]
    pub digest: u64,
    pub sim_time_ns: u128,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.n.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.max.entry(k.to_string()).or_default();
        *e = (*e).max(n);
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 400_000 {
            self.states.insert(h);
        }
    }
    pub fn path(&mut self, h: u64) {
        if self.paths.len() < 400_000 {
            self.paths.insert(h);
        }
    }
    /// Feed something observed into the digest.
    pub fn obs<T: std::hash::Hash>(&mut self, x: T) {
        use std::hash::Hasher;
        let mut h = Fnv(self.digest ^ 0xcbf2_9ce4_8422_2325);
        x.hash(&mut h);
        self.digest = h.finish();
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.states.extend(o.states);
        self.paths.extend(o.paths);
        self.sim_time_ns += o.sim_time_ns;
    }
}
/// A hasher that is the same in every process.
pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        simcore::rng::mix(self.0, 1)
    }
}
pub fn hash_of<T: std::hash::Hash>(x: T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

pub trait Check {
    type Case: Serialize + DeserializeOwned + Clone;
    fn property(&self) -> &'static str;
    /// (runs, seconds at most)
    fn runs(&self, tier: &str) -> (u64, u64);
    /// A case from a seed. Must not run code under test.
    fn gen(&self, seed: u64) -> Self::Case;
    /// One simulated run, in this process. Deterministic.
    fn run(&self, case: &Self::Case, st: &mut Stats) -> Result<(), Viol>;
    /// Simpler cases, most promising first.
    fn shrink(&self, case: &Self::Case) -> Vec<Self::Case>;
    /// Did the run do anything that counts?
    fn rule(&self) -> &'static str;
    fn describe(&self, case: &Self::Case) -> String;
    /// static description for the evidence
    fn components(&self) -> serde_json::Value;
    fn per_run_timeout(&self) -> u64 {
        60
    }
    fn serial(&self) -> bool {
        false
    }
    /// verification level, for the evidence
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn shrink_seconds(&self) -> u64 {
        100
    }
    /// Does the property itself say that every process observes the same?
    fn repeatable_is_claimed(&self) -> bool {
        false
    }
}

#[derive(Serialize, Deserialize)]
struct Replay<C> {
    property: String,
    verif_seed: u64,
    run_seed: u64,
    run: u64,
    violation: Viol,
    minimised: bool,
    how: String,
    /// (seed, first, step, number): runs first, first + step, … to execute before this one in the
    /// same process
    #[serde(default)]
    warmup: Option<(u64, u64, u64, u64)>,
    /// what another process observed, if that is the question
    #[serde(default)]
    digest: Option<u64>,
    case: C,
}

pub struct Args {
    pub cmd: String,
    pub rest: Vec<String>,
}

fn seed_of(prop: &str, base: u64, i: u64) -> u64 {
    simcore::rng::mix(simcore::rng::mix_str(base, prop), i)
}

/// Sub-commands common to all simulators:
///   check PROP           search, evidence, verdict
///   worker ...           internal
///   replay FILE          run one replay file; exit 1 if it violates
///   dump PROP I          print case number I
pub fn main_for<C: Check>(c: &C, args: &[String]) -> i32 {
    match args[0].as_str() {
        "check" => check(c),
        "worker" => {
            limit_memory();
            worker(c, &args[1..])
        }
        "replay" => {
            limit_memory();
            replay(c, &args[1], args.get(2).map(|x| x == "--quiet").unwrap_or(false))
        }
        "dump" => {
            let i: u64 = args[1].parse().unwrap();
            let case = c.gen(seed_of(c.property(), base_seed(), i));
            println!("{}", serde_json::to_string_pretty(&case).unwrap());
            0
        }
        // all failures of the first N cases, for development
        "survey" => {
            let n: u64 = args[1].parse().unwrap();
            let mut found: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            let mut st = Stats::default();
            for i in 0..n {
                let case = c.gen(seed_of(c.property(), base_seed(), i));
                if let Err(v) = c.run(&case, &mut st) {
                    found.entry(v.sig).or_insert((0, i, v.text)).0 += 1;
                }
            }
            for (k, (n, i, t)) in found {
                println!("{n:6} {k} (first: {i}) {}", t.chars().take(300).collect::<String>());
            }
            println!("{:?} {:?} {:?}", st.n, st.faults, st.max);
            0
        }
        "one" => {
            let i: u64 = args[1].parse().unwrap();
            let case = c.gen(seed_of(c.property(), base_seed(), i));
            let mut st = Stats::default();
            println!("{}", c.describe(&case));
            match c.run(&case, &mut st) {
                Ok(()) => println!("ok {:?} {:?} digest {:x}", st.n, st.faults, st.digest),
                Err(v) => println!("VIOL {v:?}"),
            }
            0
        }
        x => {
            eprintln!("unknown command {x}");
            2
        }
    }
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

// ---- worker ------------------------------------------------------------------------------
/// A run that allocates without end fails an allocation (and so dies by SIGABRT, which is
/// reported) before it takes the memory of the machine. Inherited by the programs it starts.
fn limit_memory() {
    address_space(3 << 30);
}
/// Change the limit, as far as that is allowed.
pub fn address_space(bytes: u64) -> bool {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = bytes.min(l.rlim_max);
        libc::setrlimit(libc::RLIMIT_AS, &l) == 0 && l.rlim_cur == bytes
    }
}
fn worker<C: Check>(c: &C, a: &[String]) -> i32 {
    // idx n runs secs digest_runs status
    let idx: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    let runs: u64 = a[2].parse().unwrap();
    let secs: u64 = a[3].parse().unwrap();
    let digest_runs: u64 = a[4].parse().unwrap();
    let known: BTreeSet<String> = serde_json::from_str(&a[6]).unwrap();
    let status = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&a[5]).unwrap();
    use std::os::unix::fs::FileExt;
    let t = Instant::now();
    let mut st = Stats::default();
    let mut done = 0u64;
    let mut digests: Vec<u64> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut i = idx;
    let base = base_seed();
    while i < runs {
        if t.elapsed().as_secs() >= secs {
            break;
        }
        status.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let seed = seed_of(c.property(), base, i);
        let case = c.gen(seed);
        st.digest = 0;
        match c.run(&case, &mut st) {
            Ok(()) => {}
            Err(v) if known.contains(&v.sig) => {
                let e = known_hits.entry(v.sig.clone()).or_insert((0, v.text.clone()));
                e.0 += 1;
            }
            Err(v) => {
                let o = serde_json::json!({"viol": v, "run": i});
                println!("{o}");
                return 1;
            }
        }
        if done < digest_runs {
            digests.push(st.digest);
        }
        done += 1;
        i += n;
    }
    status.write_at(&0u64.to_le_bytes(), 0).unwrap();
    let o = serde_json::json!({
        "done": done, "digests": digests, "stats": st,
        "known": known_hits,
    });
    println!("{o}");
    0
}

struct W {
    child: Child,
    out: std::thread::JoinHandle<String>,
    status: PathBuf,
    last: u64,
    since: Instant,
    cpu: f64,
}
fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
fn spawn(prop: &str, args: &[String], status: &Path) -> W {
    std::fs::write(status, [0u8; 8]).unwrap();
    let mut child = Command::new(exe())
        .arg(prop)
        .args(args)
        // for runs that need files: removed at the end of the check
        .env("SIM_TMP", status.parent().unwrap())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a worker");
    let mut so = child.stdout.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    W { child, out, status: status.into(), last: 0, since: Instant::now(), cpu: 0.0 }
}
enum End {
    Ok(serde_json::Value),
    Viol(u64, Viol),
    Harness(String),
}
fn read_status(p: &Path) -> u64 {
    std::fs::read(p)
        .ok()
        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
        .unwrap_or(0)
}
fn signal_name(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(libc::SIGSEGV) => "SIGSEGV".into(),
        Some(libc::SIGBUS) => "SIGBUS".into(),
        Some(libc::SIGABRT) => "SIGABRT".into(),
        Some(libc::SIGKILL) => "SIGKILL".into(),
        Some(x) => format!("signal {x}"),
        None => format!("exit status {:?}", s.code()),
    }
}
/// Wait for workers; kill the others at the first violation.
fn wait_all(mut ws: Vec<W>, timeout: u64) -> Vec<End> {
    let mut ends: Vec<Option<End>> = ws.iter().map(|_| None).collect();
    let mut statuses: Vec<Option<(std::process::ExitStatus, Option<String>)>> =
        ws.iter().map(|_| None).collect();
    let mut stop = false;
    loop {
        let mut open = 0;
        for (i, w) in ws.iter_mut().enumerate() {
            if statuses[i].is_some() {
                continue;
            }
            if let Some(s) = w.child.try_wait().unwrap() {
                if !s.success() {
                    stop = true;
                }
                statuses[i] = Some((s, None));
                continue;
            }
            open += 1;
            let now = read_status(&w.status);
            if now != w.last {
                w.last = now;
                w.since = Instant::now();
                w.cpu = cpu_of(w.child.id());
            } else if now != 0 && w.since.elapsed().as_secs() > timeout {
                // count a spinning run by its CPU time, a blocked one generously by wall time
                let used = cpu_of(w.child.id()) - w.cpu;
                if used > timeout as f64 * 0.9 || w.since.elapsed().as_secs() > timeout * 4 {
                    let _ = w.child.kill();
                    let s = w.child.wait().unwrap();
                    statuses[i] = Some((s, Some("no end".into())));
                    stop = true;
                }
            }
        }
        if open == 0 {
            break;
        }
        if stop {
            // give the others a moment: the lowest run number is reported
            std::thread::sleep(Duration::from_millis(50));
            for (i, w) in ws.iter_mut().enumerate() {
                if statuses[i].is_none() {
                    match w.child.try_wait().unwrap() {
                        Some(s) => statuses[i] = Some((s, None)),
                        None => {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            ends[i] = Some(End::Ok(serde_json::Value::Null));
                            statuses[i] = Some((std::process::ExitStatus::default(), None));
                        }
                    }
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut res = vec![];
    for (i, w) in ws.into_iter().enumerate() {
        let run = read_status(&w.status);
        let out = w.out.join().unwrap_or_default();
        let _ = std::fs::remove_file(&w.status);
        if let Some(e) = ends[i].take() {
            res.push(e);
            continue;
        }
        let (s, hang) = statuses[i].take().unwrap();
        let v: Option<serde_json::Value> =
            out.lines().last().and_then(|l| serde_json::from_str(l).ok());
        if hang.is_some() {
            res.push(End::Viol(
                run - 1,
                Viol { sig: "hang".into(), text: format!("the run did not end within {timeout} s of CPU time") },
            ));
        } else if s.success() {
            match v {
                Some(v) => res.push(End::Ok(v)),
                None => res.push(End::Harness("worker without result".into())),
            }
        } else if let Some(v) = v.filter(|v| v.get("viol").is_some()) {
            res.push(End::Viol(
                v["run"].as_u64().unwrap(),
                serde_json::from_value(v["viol"].clone()).unwrap(),
            ));
        } else if run > 0 && s.code() != Some(101) && s.code() != Some(2) {
            let n = signal_name(&s);
            if n == "SIGKILL" {
                res.push(End::Harness("worker was killed (out of memory?)".into()));
            } else {
                res.push(End::Viol(
                    run - 1,
                    Viol { sig: format!("died:{n}"), text: format!("the process died: {n}") },
                ));
            }
        } else {
            res.push(End::Harness(format!("worker failed in run {}: {}", run as i64 - 1, signal_name(&s))));
        }
    }
    res
}

// ---- replay ------------------------------------------------------------------------------
fn replay<C: Check>(c: &C, file: &str, quiet: bool) -> i32 {
    let r: Replay<C::Case> =
        serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay format");
    let mut st = Stats::default();
    if let Some((base, first, step, n)) = r.warmup {
        for k in 0..n {
            let _ = c.run(&c.gen(seed_of(c.property(), base, first + k * step)), &mut st);
        }
        st.digest = 0;
    }
    match c.run(&r.case, &mut st) {
        Ok(()) if r.digest.is_some_and(|d| d != st.digest) => {
            println!("{}", serde_json::to_string(&r.violation).unwrap());
            println!("{}", c.describe(&r.case));
            println!("VIOLATION property={} replay={file}", c.property());
            1
        }
        Ok(()) => {
            if !quiet {
                println!("no violation");
            }
            0
        }
        Err(v) => {
            println!("{}", serde_json::to_string(&v).unwrap());
            if !quiet {
                println!("{}", c.describe(&r.case));
                println!("VIOLATION property={} replay={file}", c.property());
            }
            1
        }
    }
}
/// Run a case in a fresh process.
fn try_case<C: Check>(c: &C, case: &C::Case, dir: &Path, timeout: u64) -> Result<Option<Viol>, String> {
    try_after(c, None, case, dir, timeout)
}
fn try_after<C: Check>(c: &C, warmup: Option<(u64, u64, u64, u64)>, case: &C::Case, dir: &Path, timeout: u64) -> Result<Option<Viol>, String> {
    let f = dir.join(format!("try-{}-{}.json", c.property(), std::process::id()));
    let r = Replay {
        property: c.property().into(),
        verif_seed: 0,
        run_seed: 0,
        run: 0,
        violation: Viol { sig: String::new(), text: String::new() },
        minimised: false,
        how: String::new(),
        warmup,
        digest: None,
        case: case.clone(),
    };
    std::fs::write(&f, serde_json::to_vec(&r).unwrap()).map_err(|e| e.to_string())?;
    let st = dir.join(format!("try-{}-{}.st", c.property(), std::process::id()));
    let mut w = spawn(c.property(), &["replay".into(), f.to_str().unwrap().into(), "--quiet".into()], &st);
    let t = Instant::now();
    let status = loop {
        if let Some(s) = w.child.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed().as_secs() > timeout {
            let cpu = cpu_of(w.child.id());
            if cpu > timeout as f64 * 0.9 || t.elapsed().as_secs() > timeout * 4 {
                let _ = w.child.kill();
                let _ = w.child.wait();
                break None;
            }
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 200 { 1 } else { 20 }));
    };
    let out = w.out.join().unwrap_or_default();
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(&st);
    let Some(s) = status else {
        return Ok(Some(Viol { sig: "hang".into(), text: format!("the run did not end within {timeout} s of CPU time") }));
    };
    if s.success() {
        return Ok(None);
    }
    if s.code() == Some(1) {
        if let Some(v) = out.lines().next().and_then(|l| serde_json::from_str::<Viol>(l).ok()) {
            return Ok(Some(v));
        }
    }
    if s.code() == Some(101) || s.code() == Some(2) {
        return Err(format!("the replay failed in the harness: {}", signal_name(&s)));
    }
    let n = signal_name(&s);
    Ok(Some(Viol { sig: format!("died:{n}"), text: format!("the process died: {n}") }))
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}
/// Known findings: lines "known: property=<id> sig=<sig> <description>".
pub fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={prop} sig=")) {
            let (sig, d) = r.split_once(' ').unwrap_or((r, ""));
            m.insert(sig.to_string(), d.to_string());
        }
    }
    m
}

/// Report a violation that was found outside `check`.
pub fn report_violation(prop: &str, replay: &Path, text: &str) {
    println!("{text}");
    println!("VIOLATION property={prop} replay={}", replay.display());
}

pub fn check<C: Check>(c: &C) -> i32 {
    let t0 = Instant::now();
    let prop = c.property();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let base = base_seed();
    let (runs, secs) = c.runs(&tier);
    let secs = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(secs);
    let verif = verif_dir();
    let tmp = std::env::temp_dir().join(format!("sim-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let known = known_findings(prop);
    let known_sigs: Vec<&String> = known.keys().collect();
    let known_json = serde_json::to_string(&known_sigs).unwrap();
    let n: u64 = if c.serial() { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8) as u64 };
    let digest_runs = 20u64;
    let mk = |i: u64, n: u64, runs: u64, secs: u64, tag: &str| {
        let st = tmp.join(format!("{tag}{i}"));
        let a: Vec<String> = vec![
            "worker".into(), i.to_string(), n.to_string(), runs.to_string(), secs.to_string(),
            digest_runs.to_string(), st.to_str().unwrap().into(), known_json.clone(),
        ];
        spawn(prop, &a, &st)
    };
    let ws: Vec<W> = (0..n).map(|i| mk(i, n, runs, secs, "w")).collect();
    let ends = wait_all(ws, c.per_run_timeout());
    let mut stats = Stats::default();
    let mut done = 0u64;
    let mut digests: Vec<Option<Vec<u64>>> = vec![];
    let mut found: Vec<(u64, Viol)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for e in ends {
        match e {
            End::Ok(serde_json::Value::Null) => digests.push(None),
            End::Ok(v) => {
                done += v["done"].as_u64().unwrap();
                digests.push(Some(serde_json::from_value(v["digests"].clone()).unwrap()));
                let k: BTreeMap<String, (u64, String)> = serde_json::from_value(v["known"].clone()).unwrap();
                for (s, (n, t)) in k {
                    known_hits.entry(s).or_insert((0, t)).0 += n;
                }
                stats.merge(serde_json::from_value(v["stats"].clone()).unwrap());
            }
            End::Viol(run, v) => {
                digests.push(None);
                found.push((run, v));
            }
            End::Harness(s) => {
                digests.push(None);
                harness.push(s)
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    found.sort_by_key(|f| f.0);
    if found.is_empty() && !harness.is_empty() {
        eprintln!("harness error: {}", harness.join("; "));
        let _ = std::fs::remove_dir_all(&tmp);
        return 2;
    }
    // determinism: the first runs again, in new processes
    let mut determinism = serde_json::json!(null);
    let mut differs: Option<(u64, u64)> = None;
    if found.is_empty() {
        let m = n.min(4);
        let ws: Vec<W> = (0..m).map(|i| mk(i, n, (runs).min(n * digest_runs), secs.max(60), "d")).collect();
        let again = wait_all(ws, c.per_run_timeout());
        let mut compared = 0;
        for (i, e) in again.into_iter().enumerate() {
            match (e, &digests[i]) {
                (End::Ok(v), Some(d)) if !v.is_null() => {
                    let d2: Vec<u64> = serde_json::from_value(v["digests"].clone()).unwrap();
                    for (k, (a, b)) in d.iter().zip(&d2).enumerate() {
                        compared += 1;
                        let run = i as u64 + n * k as u64;
                        if a != b && differs.is_none_or(|x| run < x.0) {
                            differs = Some((run, *a));
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some((run, _)) = differs {
            if !c.repeatable_is_claimed() {
                eprintln!("harness error: run {run} behaved differently in another process");
                let _ = std::fs::remove_dir_all(&tmp);
                return 2;
            }
        }
        determinism = serde_json::json!({"runs_repeated_in_another_process": compared, "differences": differs.is_some() as u64});
    }
    let mut exit = 0;
    let mut viol_json = serde_json::json!(null);
    if let Some((run, d)) = differs {
        exit = report_differs(c, base, run, d, &verif, &mut viol_json);
    }
    for (k, (run, v)) in found.iter().enumerate() {
        exit = report(c, base, n, *run, v.clone(), &tmp, &verif, &mut viol_json);
        if exit == 1 || k >= 4 {
            break;
        }
    }
    for (s, (n, t)) in &known_hits {
        println!("KNOWN-FINDING: property={prop} {} ({n} runs; e.g. {})", known.get(s).map(|x| x.as_str()).unwrap_or(s), t.lines().next().unwrap_or(""));
    }
    let samples: Vec<String> = (0..3u64).map(|i| c.describe(&c.gen(seed_of(prop, base, i)))).map(|s| s.chars().take(600).collect()).collect();
    let wall = t0.elapsed().as_secs_f64();
    let per_h = done as f64 / search_s.max(0.001) * 3600.0;
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": c.level(),
        "wall_s": wall,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": stats.paths.len(),
            "rule": c.rule(),
            "samples": samples,
            "simulated_runs_per_hour_one_seed_each": per_h.round() as u64,
            "simulated_time_s": if stats.sim_time_ns == 0 { serde_json::json!("no clock: the code under test neither reads nor waits for time; the simulated time is the order of operations") } else { serde_json::json!(stats.sim_time_ns as f64 / 1e9) },
            "faults_injected": stats.faults,
            "events": stats.n,
            "largest": stats.max,
            "distinct_states": stats.states.len(),
            "components": c.components(),
            "determinism": determinism,
            "known_findings_hit": known_hits.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "violation": viol_json,
        }
    });
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join(format!("evidence/{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    if exit == 0 {
        println!("{prop}: {done} simulated runs in {search_s:.1} s, {} distinct histories, {} distinct states, faults {:?}: no violation", stats.paths.len(), stats.states.len(), stats.faults);
    }
    exit
}

fn report_differs<C: Check>(c: &C, base: u64, run: u64, digest: u64, verif: &Path, js: &mut serde_json::Value) -> i32 {
    let prop = c.property();
    let seed = seed_of(prop, base, run);
    let case = c.gen(seed);
    let v = Viol { sig: "process-dependent".into(), text: "two processes that did the same observed different results".into() };
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{prop}-{base}-{run}.json"));
    println!("run {run} (seed {seed:#x}):\n{}\n{}: {}", c.describe(&case), v.sig, v.text);
    println!("VIOLATION property={prop} replay={}", file.display());
    *js = serde_json::json!({"run": run, "seed": seed, "violation": v, "replay": file.to_str()});
    let r = Replay {
        property: prop.into(),
        verif_seed: base,
        run_seed: seed,
        run,
        violation: v,
        minimised: false,
        how: format!("{} {prop} replay {}", exe().display(), file.display()),
        warmup: None,
        digest: Some(digest),
        case,
    };
    std::fs::write(&file, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    1
}

fn report<C: Check>(c: &C, base: u64, n: u64, run: u64, v: Viol, tmp: &Path, verif: &Path, js: &mut serde_json::Value) -> i32 {
    let prop = c.property();
    let seed = seed_of(prop, base, run);
    let mut case = c.gen(seed);
    let to = c.per_run_timeout();
    let mut warmup = None;
    let mut first = try_case(c, &case, tmp, to);
    if let Ok(None) = first {
        // It needs what earlier runs left behind in the process (a global, the heap): execute as
        // few of them as necessary before it.
        let before = run / n;
        let mut k = 1;
        loop {
            let k2 = k.min(before);
            let w = Some((base, run - k2 * n, n, k2));
            first = try_after(c, w, &case, tmp, to * 4);
            if let Ok(Some(_)) = first {
                warmup = w;
                break;
            }
            if k >= before {
                break;
            }
            k *= 8;
        }
    }
    let mut tries = 0;
    while let (Ok(None), true) = (&first, tries < 6) {
        first = try_case(c, &case, tmp, to);
        tries += 1;
    }
    let first = match first {
        Ok(Some(v)) => v,
        Ok(None) => {
            // Something outside the simulator's control took part; say so instead of guessing.
            eprintln!("harness error: run {run} (seed {seed:#x}) was reported ({}: {}) but does not fail again", v.sig, v.text);
            return 2;
        }
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let mut best = first.clone();
    let t = Instant::now();
    let mut tried = 0u64;
    let limit = c.shrink_seconds();
    'outer: while warmup.is_none() && tries == 0 {
        for cand in c.shrink(&case) {
            if t.elapsed().as_secs() > limit {
                break 'outer;
            }
            tried += 1;
            if let Ok(Some(v)) = try_case(c, &cand, tmp, to.min(20)) {
                if v.sig == first.sig {
                    case = cand;
                    best = v;
                    continue 'outer;
                }
            }
        }
        break;
    }
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{prop}-{base}-{run}.json"));
    let r = Replay {
        property: prop.into(),
        verif_seed: base,
        run_seed: seed,
        run,
        violation: best.clone(),
        minimised: tried > 0,
        how: format!("{} {prop} replay {}", exe().display(), file.display()),
        warmup,
        digest: None,
        case: case.clone(),
    };
    std::fs::write(&file, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    // the minimised file must fail in the same way, in a fresh process
    let mut ok = false;
    for _ in 0..if tries > 0 { 20 } else { 1 } {
        match try_after(c, warmup, &case, tmp, to * 4) {
            Ok(Some(v)) if v.sig == best.sig => {
                ok = true;
                break;
            }
            _ => {}
        }
    }
    if !ok {
        eprintln!("harness error: the minimised case does not reproduce: {}", best.sig);
        return 2;
    }
    if tries > 0 {
        println!("(not exactly repeatable: the code under test itself draws on something that differs between processes)");
    }
    println!("run {run} (seed {seed:#x}), minimised with {tried} attempts{}:", warmup.map(|w| format!(", after {} earlier runs in the same process", w.3)).unwrap_or_default());
    println!("{}", c.describe(&case));
    println!("{}: {}", best.sig, best.text);
    println!("VIOLATION property={prop} replay={}", file.display());
    *js = serde_json::json!({"run": run, "seed": seed, "violation": best, "replay": file.to_str()});
    let _ = std::io::stdout().flush();
    1
}
