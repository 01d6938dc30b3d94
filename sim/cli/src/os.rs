//! Execute planus once on the simulated operating system.
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use std::{
    collections::BTreeMap,
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::Command,
    sync::OnceLock,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Node {
    Text(String),
    Bytes(Vec<u8>),
    Dir,
}
impl Node {
    pub fn bytes(&self) -> &[u8] {
        match self {
            Node::Text(s) => s.as_bytes(),
            Node::Bytes(b) => b,
            Node::Dir => &[],
        }
    }
}
pub type Files = BTreeMap<String, Node>;

/// What the simulated system is like. Everything in here may differ between two runs of which a
/// user expects the same.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sys {
    pub seed: u64,
    /// of the random bytes
    pub random: u64,
    pub hash_seed: u64,
    pub hash_mode: u8,
    pub clock: u64,
    pub jumps: bool,
    pub pid: u32,
    /// shifts the addresses of the heap
    pub pad: u64,
    /// percent of reads and writes that do less than asked for
    pub frag: u8,
    /// percent of calls that are interrupted
    pub eintr: u8,
    /// percent of calls after which another thread or process gets a turn
    pub steps: u8,
    /// pipe capacity
    pub cap: u32,
}
impl Sys {
    pub fn quiet() -> Sys {
        Sys { seed: 1, random: 1, hash_seed: 1, clock: 1_000_000_000, pid: 4242, steps: 30, cap: 65536, ..Default::default() }
    }
    pub fn random(r: &mut Rng) -> Sys {
        Sys {
            seed: r.u64(),
            random: r.u64() >> 1,
            hash_seed: r.u64(),
            hash_mode: if r.chance(1, 3) { r.below(5) as u8 } else { 0 },
            clock: r.u64() >> r.range(2, 40),
            jumps: r.chance(1, 4),
            pid: 2 + r.below(4_000_000) as u32,
            pad: if r.chance(2, 3) { 1 + (r.u64() >> 30) } else { 0 },
            frag: *r.pick(&[0, 0, 10, 50, 90]),
            eintr: *r.pick(&[0, 0, 5, 30]),
            steps: *r.pick(&[0, 10, 30, 80]),
            cap: *r.pick(&[4096, 4096, 8192, 65536]),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub class: String,
    pub nth: u32,
    /// err, short, zero, die
    pub act: String,
    pub arg: i32,
}
impl Fault {
    pub fn describe(&self) -> String {
        let name = match self.arg {
            _ if self.act != "err" => String::new(),
            e => format!(" ({})", std::io::Error::from_raw_os_error(e)),
        };
        format!("{} #{}: {} {}{name}", self.class, self.nth, self.act, self.arg)
    }
}

#[derive(Default)]
pub struct Setup<'a> {
    pub args: Vec<String>,
    pub sys: Sys,
    pub faults: &'a [Fault],
    pub children: &'a [String],
    pub diskcap: Option<u64>,
    /// columns, rows and what the user does: kind (0 character, 1 other key, 2 resize, 3 other,
    /// 9 the program panics on it), and two numbers
    pub tty: Option<(u16, u16, &'a [(i32, i32, i32)])>,
}

#[derive(Clone, Debug)]
pub struct Kid {
    pub format: bool,
    pub read: u64,
    pub epipe: bool,
    pub live: bool,
    pub status: i32,
    pub input: Vec<u8>,
    pub output: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub trace: Vec<String>,
    pub kids: Vec<Kid>,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn verdict(&self) -> String {
        match (self.code, self.signal) {
            (Some(250), _) => "deadlock".into(),
            (Some(251), _) => "does not end".into(),
            (_, Some(libc::SIGALRM | libc::SIGXCPU)) => "does not end".into(),
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("died of signal {s}"),
            _ => "?".into(),
        }
    }
    /// neither an exit status of its own choice nor the simulator's
    pub fn broke_down(&self) -> Option<(&'static str, String)> {
        match (self.code, self.signal) {
            (Some(250), _) => Some(("deadlock", "planus and its child wait for each other".into())),
            (Some(251), _) | (_, Some(libc::SIGALRM | libc::SIGXCPU)) => Some(("hang", "planus does not end".into())),
            (Some(101), _) => Some(("panic", format!("planus panicked: {}", self.err_text()))),
            (_, Some(s)) if !self.killed() => Some(("signal", format!("planus died of signal {s}: {}", self.err_text()))),
            _ => None,
        }
    }
    pub fn killed(&self) -> bool {
        self.signal == Some(libc::SIGKILL) && self.trace.iter().any(|l| l == "killed")
    }
    /// it panicked while it reported a panic
    pub fn aborted(&self) -> bool {
        self.signal == Some(libc::SIGABRT)
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).chars().take(600).collect()
    }
    /// (class, what) of the faults that were delivered
    pub fn fired(&self) -> Vec<(String, String)> {
        self.trace
            .iter()
            .filter_map(|l| l.strip_prefix("FAULT "))
            .map(|l| {
                let (c, w) = l.split_once(' ').unwrap_or((l, ""));
                (c.to_string(), w.to_string())
            })
            .collect()
    }
    pub fn fired_class(&self, c: &[&str]) -> bool {
        self.fired().iter().any(|f| c.contains(&f.0.as_str()))
    }
    pub fn opened_for_writing(&self) -> bool {
        self.trace.iter().any(|l| l.starts_with("open openout") && !l.contains(" -"))
    }
    /// the shape of the history, without sizes
    pub fn path(&self) -> u64 {
        let v: Vec<String> = self
            .trace
            .iter()
            .map(|l| l.split(' ').filter(|w| w.parse::<i64>().is_err()).collect::<Vec<_>>().join(" "))
            .collect();
        simdrv::hash_of(v)
    }
    pub fn count(&self, st: &mut simdrv::Stats) {
        for (c, w) in self.fired() {
            let w = if w.starts_with("torn") { "torn" } else { w.as_str() };
            st.fault(&format!("{c}:{}", w.split(" of ").next().unwrap().split(" format").next().unwrap().split(" restoring").next().unwrap()));
        }
        for l in &self.trace {
            if l.starts_with("SHORT ") || l.starts_with("EINTR ") {
                st.fault(&l.split(' ').take(2).collect::<Vec<_>>().join(":"));
            }
        }
        if self.killed() {
            st.fault("killed");
        }
        st.add("system_calls_seen", self.trace.len() as u64);
        for l in &self.trace {
            if l.starts_with("switch ") {
                st.hit("thread_switches");
            }
        }
        st.hit("executions_of_planus");
        st.obs((&self.trace, &self.code, &self.signal, &self.stdout, &self.stderr));
    }
}

fn root() -> &'static Path {
    static R: OnceLock<PathBuf> = OnceLock::new();
    R.get_or_init(|| {
        let base = std::env::var_os("SIM_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("simcli-{}", std::process::id()));
        std::fs::create_dir_all(d.join("log")).unwrap();
        d
    })
}
pub fn clean_up() {
    let base = std::env::var_os("SIM_TMP").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let _ = std::fs::remove_dir_all(base.join(format!("simcli-{}", std::process::id())));
}
fn tools() -> &'static (PathBuf, PathBuf) {
    static T: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
    T.get_or_init(|| {
        let e = std::env::current_exe().unwrap();
        let d = e.parent().unwrap();
        let shim = d.parent().unwrap().join("simos.so");
        assert!(shim.exists(), "no {}", shim.display());
        (d.join("planus"), shim)
    })
}

/// The directory planus works in.
pub struct World {
    dir: PathBuf,
}
impl World {
    pub fn new(files: &Files) -> World {
        let dir = root().join("w");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let w = World { dir };
        for (p, n) in files {
            w.put(p, n);
        }
        w
    }
    pub fn put(&self, path: &str, n: &Node) {
        assert!(!path.starts_with('/') && !path.contains(".."));
        let p = self.dir.join(path);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        match n {
            Node::Dir => std::fs::create_dir_all(&p).unwrap(),
            n => std::fs::write(&p, n.bytes()).unwrap(),
        }
    }
    pub fn remove(&self, path: &str) {
        let _ = std::fs::remove_file(self.dir.join(path));
    }
    pub fn path(&self, p: &str) -> PathBuf {
        self.dir.join(p)
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(path)).ok()
    }
    /// every file and its content
    pub fn all(&self) -> BTreeMap<String, Vec<u8>> {
        fn go(d: &Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let n = format!("{pre}{}", e.file_name().to_string_lossy());
                if e.file_type().unwrap().is_dir() {
                    go(&e.path(), &format!("{n}/"), out);
                } else {
                    out.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        go(&self.dir, "", &mut m);
        m
    }
    pub fn run(&self, s: &Setup) -> Ran {
        let log = root().join("log");
        for k in 0..8 {
            let _ = std::fs::remove_file(log.join(format!("child{k}.in")));
            let _ = std::fs::remove_file(log.join(format!("child{k}.out")));
        }
        let (planus, shim) = tools();
        let y = &s.sys;
        let mut cfg = format!(
            "seed {}\nrandom {}\nfrag {}\neintr {}\nsteps {}\ncap {}\nclock {}\njumps {}\npid {}\npad {}\ndump {}\ntrace {}\n",
            y.seed, y.random, y.frag, y.eintr, y.steps, y.cap, y.clock, y.jumps as u8, y.pid, y.pad, log.display(), log.join("trace").display()
        );
        if let Some(c) = s.diskcap {
            cfg += &format!("diskcap {c}\n");
        }
        for f in s.faults {
            cfg += &format!("fault {} {} {} {}\n", f.class, f.nth, f.act, f.arg);
        }
        if let Some((w, h, evs)) = s.tty {
            cfg += &format!("tty {w} {h}\n");
            for (k, a, b) in evs {
                cfg += &format!("ev {k} {a} {b}\n");
            }
        }
        for (i, c) in s.children.iter().enumerate() {
            cfg += &format!("child {i} {c}\n");
        }
        let cfg_file = log.join("cfg");
        std::fs::write(&cfg_file, cfg).unwrap();
        let so = std::fs::File::create(log.join("stdout")).unwrap();
        let se = std::fs::File::create(log.join("stderr")).unwrap();
        let mut c = Command::new(planus);
        c.args(&s.args)
            .current_dir(&self.dir)
            .env_clear()
            .env("PATH", "/nonexistent")
            .env("LD_PRELOAD", shim)
            .env("SIMOS", &cfg_file)
            .env("SIM_HASH_SEED", y.hash_seed.to_string())
            .env("SIM_HASH_MODE", y.hash_mode.to_string())
            .stdin(std::process::Stdio::null())
            .stdout(so)
            .stderr(se);
        unsafe {
            c.pre_exec(|| {
                // no terminal, the same addresses every time, an end in any case
                libc::setsid();
                libc::personality(0x0040000);
                libc::alarm(120);
                let l = libc::rlimit { rlim_cur: 25, rlim_max: 30 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let st = c.status().expect("cannot start planus");
        let t = std::fs::File::open(log.join("trace")).expect("no trace");
        use std::os::unix::fs::FileExt;
        let mut n = [0u8; 8];
        t.read_exact_at(&mut n, 0).expect("trace");
        let mut b = vec![0u8; (u64::from_le_bytes(n) as usize).saturating_sub(8)];
        t.read_exact_at(&mut b, 8).expect("trace");
        let trace: Vec<String> = String::from_utf8_lossy(&b).lines().map(|l| l.to_string()).collect();
        if st.code() == Some(253) || st.code() == Some(252) {
            panic!("the simulated system does not know what planus did: {}\n{}", trace.join("\n"), std::fs::read_to_string(log.join("stderr")).unwrap_or_default());
        }
        let mut kids = vec![];
        for l in trace.iter().filter(|l| l.starts_with("summary ")) {
            let w: Vec<&str> = l.split(' ').collect();
            let g = |k: &str| w.iter().position(|x| *x == k).map(|i| w[i + 1].parse::<i64>().unwrap()).unwrap();
            let i = kids.len();
            kids.push(Kid {
                format: g("format") != 0,
                read: g("read") as u64,
                epipe: g("epipe") != 0,
                live: g("live") != 0,
                status: g("status") as i32,
                input: std::fs::read(log.join(format!("child{i}.in"))).unwrap_or_default(),
                output: std::fs::read(log.join(format!("child{i}.out"))).unwrap_or_default(),
            });
        }
        Ran {
            code: st.code(),
            signal: st.signal(),
            stdout: std::fs::read(log.join("stdout")).unwrap(),
            stderr: std::fs::read(log.join("stderr")).unwrap(),
            trace,
            kids,
        }
    }
}

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |v: &[u8]| {
        let lo = n.saturating_sub(30);
        String::from_utf8_lossy(&v[lo.min(v.len())..(n + 50).min(v.len())]).into_owned()
    };
    format!("first difference at byte {n} (lengths {} and {}): {:?} and {:?}", a.len(), b.len(), show(a), show(b))
}
