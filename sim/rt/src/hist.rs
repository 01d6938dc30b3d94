//! Histories of operations on several builders, how to draw them from a seed, how to execute
//! them in a chosen environment and how to make them simpler.
use crate::alloc;
use serde::{Deserialize, Serialize};
use simcore::{gen::*, rng::Rng, schema::*};
use simsup::{Api, Cx, SimPanic};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fail {
    /// the n-th piece of user code called during the operation panics
    Panic(i64),
    /// the n-th allocation for the buffer during the operation fails
    Oom(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New { b: usize, cap: usize },
    Build { b: usize, t: usize, v: Val, style: u64, reuse: usize, fail: Option<Fail> },
    Finish { b: usize, t: usize, v: Val, style: u64, reuse: usize, ident: Option<[u8; 4]>, fail: Option<Fail> },
    Clear { b: usize },
    Drop { b: usize },
}
impl Op {
    pub fn slot(&self) -> usize {
        match self {
            Op::New { b, .. } | Op::Build { b, .. } | Op::Finish { b, .. } | Op::Clear { b } | Op::Drop { b } => *b,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub fam: String,
    pub ver: usize,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub hash_seed: u64,
    pub hash_mode: u8,
    pub fill: u8,
    /// added to / instead of the requested capacities
    pub cap: Option<usize>,
    /// what every new builder builds and clears before its first use: an op index
    pub prelude: Vec<usize>,
    pub thread: bool,
    /// build things on another builder between the operations
    pub noise: bool,
    /// a new builder instead of `clear`
    pub fresh: bool,
}
impl Env {
    pub fn plain() -> Self {
        Env { hash_seed: 1, hash_mode: 0, fill: 0, cap: None, prelude: vec![], thread: false, noise: false, fresh: false }
    }
    pub fn random(rng: &mut Rng, n_ops: usize) -> Self {
        Env {
            hash_seed: rng.u64(),
            hash_mode: if rng.chance(1, 2) { 0 } else { 1 + rng.below(4) as u8 },
            fill: rng.below(4) as u8,
            cap: if rng.chance(1, 2) {
                Some(*rng.pick(&[0, 1, 7, 15, 16, 17, 31, 33, 64, 100, 1000, 5000, 100_000]))
            } else {
                None
            },
            prelude: if rng.chance(1, 2) { (0..1 + rng.below(3)).map(|_| rng.below(n_ops.max(1))).collect() } else { vec![] },
            thread: rng.chance(1, 8),
            noise: rng.chance(1, 3),
            fresh: rng.chance(1, 3),
        }
    }
}

// ---- the schema families ------------------------------------------------------------------
pub fn apis(fam: &str) -> &'static [&'static dyn Api] {
    static A: OnceLock<BTreeMap<&'static str, Vec<&'static dyn Api>>> = OnceLock::new();
    &A.get_or_init(|| {
        let mut m: BTreeMap<&'static str, Vec<&'static dyn Api>> = BTreeMap::new();
        m.insert("rb", fam_rb::apis());
        #[cfg(feature = "all")]
        {
            m.insert("kit", fam_kit::apis());
            m.insert("ra", fam_ra::apis());
            m.insert("ea", fam_ea::apis());
            m.insert("eb", fam_eb::apis());
            m.insert("ec", fam_ec::apis());
            m.insert("fa", fam_fa::apis());
        }
        m
    })[fam]
}
pub fn api(fam: &str, ver: usize) -> &'static dyn Api {
    apis(fam)[ver]
}
pub fn schema(fam: &str, ver: usize) -> &'static Schema {
    static S: OnceLock<BTreeMap<&'static str, Vec<Schema>>> = OnceLock::new();
    &S.get_or_init(|| FAMILIES.iter().map(|f| (*f, family(f))).collect())[fam][ver]
}
pub fn pick_family(rng: &mut Rng) -> (String, usize) {
    if cfg!(not(feature = "all")) {
        return ("rb".into(), 0);
    }
    let f = *rng.pick(&["kit", "kit", "kit", "ra", "ra", "rb", "rb", "ea", "eb", "ec"]);
    let n = match f {
        "ea" | "eb" | "ec" => 3,
        _ => 1,
    };
    (f.to_string(), rng.below(n))
}

// ---- drawing histories ---------------------------------------------------------------------
pub struct Swarm {
    pub builders: usize,
    pub ops: usize,
    pub budget: isize,
    pub present: usize,
    pub max_len: usize,
    pub val_reuse: usize,
    pub off_reuse: usize,
    pub plain: bool,
    pub w: [usize; 5],
    pub small_strings: bool,
    /// strings and vectors beyond 65535 elements
    pub huge: bool,
}
impl Swarm {
    pub fn random(rng: &mut Rng) -> Self {
        Swarm {
            builders: 1 + rng.below(3),
            ops: 2 + rng.below(10),
            budget: *rng.pick(&[4, 12, 12, 40, 40, 120]),
            present: *rng.pick(&[5, 30, 50, 70, 95, 100]),
            max_len: *rng.pick(&[1, 3, 3, 6, 20]),
            val_reuse: *rng.pick(&[0, 20, 50, 80]),
            off_reuse: *rng.pick(&[0, 20, 60, 95]),
            plain: rng.chance(1, 6),
            w: [
                1,
                *rng.pick(&[0, 2, 6]),
                *rng.pick(&[3, 6]),
                *rng.pick(&[0, 1, 2]),
                *rng.pick(&[0, 1]),
            ],
            small_strings: false,
            huge: false,
        }
    }
    /// once in a while something big
    pub fn big(rng: &mut Rng) -> Self {
        let mut s = Self::random(rng);
        s.ops = 2 + rng.below(4);
        s.budget = 1500;
        s.max_len = *rng.pick(&[40, 300, 3000]);
        if rng.chance(1, 3) {
            s.huge = true;
            s.budget = 100;
            s.max_len = 10;
            s.present = 95;
        }
        s
    }
}
pub fn gen_hist(rng: &mut Rng, fam: &str, ver: usize, sw: &Swarm) -> Hist {
    let s = schema(fam, ver);
    let mut strings: Vec<String> = vec![];
    let mut old = vec![];
    let mut ops = vec![];
    let mut alive = vec![false; sw.builders];
    for _ in 0..sw.ops {
        let b = rng.below(sw.builders);
        if !alive[b] {
            let cap = *rng.pick(&[0, 0, 1, 15, 16, 17, 40, 256, 4096]);
            ops.push(Op::New { b, cap });
            alive[b] = true;
        }
        let kind = rng.weighted(&sw.w);
        if kind == 1 || kind == 2 {
            let t = rng.below(s.tables.len());
            let mut g = ValGen {
                s,
                rng,
                strings: &mut strings,
                old: &mut old,
                budget: sw.budget,
                present: sw.present,
                max_len: sw.max_len,
                reuse: sw.val_reuse,
                depth: 0,
            };
            let mut v = g.gen(&Ty::Table(t));
            if sw.small_strings {
                cap_sizes(&mut v, 24);
            }
            if sw.huge && rng.chance(2, 3) {
                inflate(&mut v, rng);
            }
            let style = if sw.plain || rng.chance(1, 6) { 0 } else { rng.u64() | 1 };
            let reuse = sw.off_reuse;
            ops.push(if kind == 1 {
                Op::Build { b, t, v, style, reuse, fail: None }
            } else {
                let ident = if rng.chance(1, 3) { Some(*rng.pick(&[*b"TEST", [0; 4], [0xff; 4]])) } else { None };
                Op::Finish { b, t, v, style, reuse, ident, fail: None }
            });
        } else {
            match kind {
                0 => {
                    let cap = *rng.pick(&[0, 1, 33, 1000]);
                    ops.push(Op::New { b, cap })
                }
                3 => ops.push(Op::Clear { b }),
                _ => {
                    ops.push(Op::Drop { b });
                    alive[b] = false;
                }
            }
        }
    }
    Hist { fam: fam.into(), ver, ops }
}
/// Make one string or vector in here longer than 16 bits can count.
pub fn inflate(v: &mut Val, rng: &mut Rng) {
    fn leaves<'a>(v: &'a mut Val, out: &mut Vec<&'a mut Val>) {
        match v {
            Val::S(_) => out.push(v),
            Val::V(x) if matches!(x.first(), Some(Val::B(_) | Val::I(_) | Val::F32(_) | Val::F64(_) | Val::St(_))) => out.push(v),
            Val::V(x) | Val::T(x) => x.iter_mut().for_each(|x| leaves(x, out)),
            Val::U(_, x) => leaves(x, out),
            _ => {}
        }
    }
    let mut all = vec![];
    leaves(v, &mut all);
    if all.is_empty() {
        return;
    }
    let n = *rng.pick(&[65_535, 65_536, 65_537, 65_540, 66_000]);
    let k = rng.below(all.len());
    match &mut *all[k] {
        Val::S(s) => {
            while s.len() < n {
                s.push('b');
            }
        }
        Val::V(x) => {
            let len = x.len();
            for i in len..n {
                x.push(x[i % len].clone());
            }
        }
        _ => {}
    }
}
/// Limit strings and vectors.
pub fn cap_sizes(v: &mut Val, n: usize) {
    match v {
        Val::S(s) => {
            if s.len() > n {
                *s = s.chars().take(n / 4).collect();
            }
        }
        Val::V(x) => {
            x.truncate(n);
            x.iter_mut().for_each(|x| cap_sizes(x, n))
        }
        Val::St(x) | Val::T(x) => x.iter_mut().for_each(|x| cap_sizes(x, n)),
        Val::U(_, x) => cap_sizes(x, n),
        _ => {}
    }
}

// ---- panics --------------------------------------------------------------------------------
thread_local! {
    static PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
pub fn silent_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else if i.payload().is::<SimPanic>() {
            "simulated panic".into()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("SIM_TRACE").is_ok() {
            eprintln!("panic at {l}: {m}");
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((m, l)));
    }));
}
/// Message and place of the last panic of this thread.
pub fn last_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}
/// Name of a panic that does not depend on line numbers or values.
pub fn panic_sig(m: &str, l: &str) -> String {
    let file = l.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let m: String = m.chars().take(60).map(|c| if c.is_ascii_digit() { 'N' } else if c.is_whitespace() { '_' } else { c }).collect();
    format!("panic:{file}:{m}")
}
/// A panic in the simulator itself is not a finding.
pub fn harness_panic(l: &str) -> bool {
    ["core/src/", "rt/src/", "drv/src/", "sup/src/", "cur/src/", "tui/src/"].iter().any(|p| l.starts_with(p))
}

// ---- execution ------------------------------------------------------------------------------
pub struct Slot {
    pub b: planus::Builder,
    pub cx: Cx,
    pub last: Option<Vec<u8>>,
    /// a build failed since the last clear
    pub dirty: bool,
}
impl Slot {
    pub fn new(cap: usize) -> Self {
        Slot { b: planus::Builder::with_capacity(cap), cx: Cx::new(), last: None, dirty: false }
    }
}
pub enum Out {
    /// not applicable (no such builder, or it is dirty)
    Skip,
    Done,
    /// the buffer is in `slot.last`; was what `finish` returned the same as `as_slice`?
    Finished(bool),
    /// failed in the way it was told to
    Failed(&'static str),
}
pub struct Broken {
    pub sig: String,
    pub text: String,
}

pub struct World {
    pub api: &'static dyn Api,
    pub slots: Vec<Option<Slot>>,
    pub env: Env,
    noise: Option<Slot>,
    /// smallest allocation that may fail
    pub oom_min: usize,
}
impl World {
    pub fn new(h: &Hist, env: &Env) -> Self {
        foldhash::sim::set(env.hash_seed, env.hash_mode);
        alloc::set_fill(env.fill, env.hash_seed);
        World { api: api(&h.fam, h.ver), slots: vec![], env: env.clone(), noise: None, oom_min: usize::MAX }
    }
    pub fn slot(&mut self, b: usize) -> Option<&mut Slot> {
        self.slots.get_mut(b).and_then(|x| x.as_mut())
    }
    fn put(&mut self, b: usize, s: Option<Slot>) {
        while self.slots.len() <= b {
            self.slots.push(None);
        }
        self.slots[b] = s;
    }
    fn new_builder(&mut self, h: &Hist, cap: usize) -> Slot {
        let mut s = Slot::new(self.env.cap.unwrap_or(cap));
        if !self.env.prelude.is_empty() {
            for i in self.env.prelude.clone() {
                if let Some(Op::Build { t, v, style, reuse, .. } | Op::Finish { t, v, style, reuse, .. }) = h.ops.get(i) {
                    s.cx.set_style(style.rotate_left(9), *reuse);
                    if i % 2 == 0 {
                        self.api.build(*t, &s.cx, &mut s.b, v);
                    } else {
                        self.api.finish(*t, &s.cx, &mut s.b, v, None);
                    }
                }
            }
            s.b.clear();
            s.cx = Cx::new();
        }
        s
    }
    fn make_noise(&mut self, h: &Hist, i: usize) {
        let mut s = self.noise.take().unwrap_or_else(|| Slot::new(3));
        let n = h.ops.len();
        if let Some(Op::Build { t, v, style, reuse, .. } | Op::Finish { t, v, style, reuse, .. }) = h.ops.get((i * 7 + 1) % n) {
            s.cx.set_style(style.rotate_left(21), *reuse);
            if i % 3 == 0 {
                self.api.finish(*t, &s.cx, &mut s.b, v, Some(*b"NOIS"));
            } else {
                self.api.build(*t, &s.cx, &mut s.b, v);
            }
            if i % 4 == 3 {
                s.b.clear();
                s.cx.forget();
            }
        }
        self.noise = Some(s);
    }
    /// One operation of the history.
    pub fn step(&mut self, h: &Hist, i: usize) -> Result<Out, Broken> {
        if self.env.noise {
            self.make_noise(h, i);
        }
        match &h.ops[i] {
            Op::New { b, cap } => {
                let s = self.new_builder(h, *cap);
                self.put(*b, Some(s));
                Ok(Out::Done)
            }
            Op::Drop { b } => {
                if self.slot(*b).is_none() {
                    return Ok(Out::Skip);
                }
                self.put(*b, None);
                Ok(Out::Done)
            }
            Op::Clear { b } => {
                if self.slot(*b).is_none() {
                    return Ok(Out::Skip);
                }
                if self.env.fresh {
                    let s = self.new_builder(h, 0);
                    self.put(*b, Some(s));
                } else {
                    let s = self.slot(*b).unwrap();
                    s.b.clear();
                    s.cx.forget();
                    s.last = None;
                    s.dirty = false;
                }
                Ok(Out::Done)
            }
            Op::Build { b, t, v, style, reuse, fail } => {
                let api = self.api;
                let min = self.oom_min;
                let Some(s) = self.slot(*b).filter(|s| !s.dirty) else { return Ok(Out::Skip) };
                s.cx.set_style(*style, *reuse);
                match fail {
                    None => {
                        api.build(*t, &s.cx, &mut s.b, v);
                        Ok(Out::Done)
                    }
                    Some(f) => attempt(s, f, min, |s| {
                        api.build(*t, &s.cx, &mut s.b, v);
                        true
                    })
                    .map(|o| o.unwrap_or(Out::Done)),
                }
            }
            Op::Finish { b, t, v, style, reuse, ident, fail } => {
                let api = self.api;
                let min = self.oom_min;
                let Some(s) = self.slot(*b).filter(|s| !s.dirty) else { return Ok(Out::Skip) };
                s.cx.set_style(*style, *reuse);
                let same = match fail {
                    None => api.finish(*t, &s.cx, &mut s.b, v, *ident),
                    Some(f) => {
                        let mut same = true;
                        let o = attempt(s, f, min, |s| {
                            same = api.finish(*t, &s.cx, &mut s.b, v, *ident);
                            true
                        })?;
                        if let Some(o) = o {
                            return Ok(o);
                        }
                        same
                    }
                };
                s.last = Some(s.b.as_slice().to_vec());
                Ok(Out::Finished(same))
            }
        }
    }
}
/// Run something that is meant to be cut short. None: it was not.
fn attempt(s: &mut Slot, f: &Fail, min: usize, mut run: impl FnMut(&mut Slot) -> bool) -> Result<Option<Out>, Broken> {
    match f {
        Fail::Panic(n) => s.cx.fuse.set(*n),
        Fail::Oom(n) => alloc::arm(*n, min),
    }
    s.cx.panicked.set(false);
    let fired = alloc::FIRED.load(std::sync::atomic::Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| run(s)));
    alloc::disarm();
    s.cx.fuse.set(-1);
    let fired = alloc::FIRED.load(std::sync::atomic::Ordering::SeqCst) > fired;
    match r {
        Ok(_) if fired => Err(Broken {
            sig: "oom-ignored".into(),
            text: "an allocation failed but the operation succeeded".into(),
        }),
        Ok(_) => Ok(None),
        Err(e) => {
            s.dirty = true;
            let (m, l) = last_panic();
            if e.is::<SimPanic>() || s.cx.panicked.get() {
                if e.is::<SimPanic>() {
                    return Ok(Some(Out::Failed("user code panicked")));
                }
                return Err(Broken {
                    sig: format!("panic-replaced:{}", panic_sig(&m, &l)),
                    text: format!("after a panic in user code another panic came out: {m} at {l}"),
                });
            }
            if fired {
                return Ok(Some(Out::Failed("allocation failed")));
            }
            if harness_panic(&l) {
                panic!("harness: {m} at {l}");
            }
            Err(Broken { sig: panic_sig(&m, &l), text: format!("panic: {m} at {l}") })
        }
    }
}
/// Run `f`; a panic out of the code under test is a violation.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, simdrv::Viol>) -> Result<T, simdrv::Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (m, l) = last_panic();
            if harness_panic(&l) {
                eprintln!("harness panic: {m} at {l}");
                std::process::exit(2);
            }
            simdrv::viol(panic_sig(&m, &l), format!("panic: {m} at {l}"))
        }
    }
}

/// Count what the environment did.
pub fn env_faults(e: &Env, st: &mut simdrv::Stats) {
    if e.hash_mode != 0 {
        st.fault(["", "all_hashes_equal", "four_hash_values", "few_hash_buckets", "one_hash_bucket"][e.hash_mode as usize]);
    }
    if e.fill != 0 {
        st.fault(["", "memory_full_of_ff", "memory_full_of_aa", "memory_full_of_noise"][e.fill as usize]);
    }
    if e.cap.is_some() {
        st.fault("capacity_overridden");
    }
    if !e.prelude.is_empty() {
        st.fault("builders_used_and_cleared_before");
    }
    if e.thread {
        st.fault("other_thread");
    }
    if e.noise {
        st.fault("other_builder_at_work");
    }
    if e.fresh {
        st.fault("new_builder_instead_of_clear");
    }
}

// ---- simpler histories ----------------------------------------------------------------------
pub fn shrink_hist(h: &Hist) -> Vec<Hist> {
    let mut out = vec![];
    let n = h.ops.len();
    let mut push = |ops: Vec<Op>| out.push(Hist { fam: h.fam.clone(), ver: h.ver, ops });
    let mut k = n / 2;
    while k >= 1 {
        let mut i = 0;
        while i < n {
            let e = (i + k).min(n);
            let mut ops = h.ops[..i].to_vec();
            ops.extend_from_slice(&h.ops[e..]);
            push(ops);
            i += k;
        }
        if k == 1 {
            break;
        }
        k /= 2;
    }
    // all on one builder less
    let s = schema(&h.fam, h.ver);
    for (i, op) in h.ops.iter().enumerate() {
        let mut with = |o: Op| {
            let mut ops = h.ops.clone();
            ops[i] = o;
            push(ops)
        };
        match op {
            Op::New { b, cap } if *cap != 0 => with(Op::New { b: *b, cap: 0 }),
            Op::Build { b, t, v, style, reuse, fail } => {
                if *style != 0 {
                    with(Op::Build { b: *b, t: *t, v: v.clone(), style: 0, reuse: 0, fail: fail.clone() });
                    if *reuse != 0 {
                        with(Op::Build { b: *b, t: *t, v: v.clone(), style: *style, reuse: 0, fail: fail.clone() });
                    }
                }
                if fail.is_some() {
                    with(Op::Build { b: *b, t: *t, v: v.clone(), style: *style, reuse: *reuse, fail: None });
                }
                let mut vs = vec![];
                shrink_val(s, &Ty::Table(*t), v, &mut vs);
                vs.truncate(60);
                for v in vs {
                    with(Op::Build { b: *b, t: *t, v, style: *style, reuse: *reuse, fail: fail.clone() });
                }
            }
            Op::Finish { b, t, v, style, reuse, ident, fail } => {
                if *style != 0 {
                    with(Op::Finish { b: *b, t: *t, v: v.clone(), style: 0, reuse: 0, ident: *ident, fail: fail.clone() });
                    if *reuse != 0 {
                        with(Op::Finish { b: *b, t: *t, v: v.clone(), style: *style, reuse: 0, ident: *ident, fail: fail.clone() });
                    }
                }
                if ident.is_some() {
                    with(Op::Finish { b: *b, t: *t, v: v.clone(), style: *style, reuse: *reuse, ident: None, fail: fail.clone() });
                }
                if fail.is_some() {
                    with(Op::Finish { b: *b, t: *t, v: v.clone(), style: *style, reuse: *reuse, ident: *ident, fail: None });
                }
                let mut vs = vec![];
                shrink_val(s, &Ty::Table(*t), v, &mut vs);
                vs.truncate(60);
                for v in vs {
                    with(Op::Finish { b: *b, t: *t, v, style: *style, reuse: *reuse, ident: *ident, fail: fail.clone() });
                }
            }
            _ => {}
        }
    }
    out
}
pub fn shrink_env(e: &Env) -> Vec<Env> {
    let mut out = vec![];
    let p = Env::plain();
    let mut f = |g: &dyn Fn(&mut Env)| {
        let mut x = e.clone();
        g(&mut x);
        if format!("{x:?}") != format!("{e:?}") {
            out.push(x);
        }
    };
    f(&|x| x.hash_mode = 0);
    f(&|x| x.hash_seed = p.hash_seed);
    f(&|x| x.fill = 0);
    f(&|x| x.cap = None);
    f(&|x| x.prelude.clear());
    f(&|x| x.prelude.truncate(1));
    f(&|x| x.thread = false);
    f(&|x| x.noise = false);
    f(&|x| x.fresh = false);
    out
}
pub fn show_op(h: &Hist, op: &Op) -> String {
    let s = schema(&h.fam, h.ver);
    let short = |v: &Val| {
        let t = format!("{v:?}");
        if t.chars().count() > 300 {
            format!("{}… ({} nodes)", t.chars().take(300).collect::<String>(), v.size())
        } else {
            t
        }
    };
    match op {
        Op::New { b, cap } => format!("b{b} = Builder::with_capacity({cap})"),
        Op::Clear { b } => format!("b{b}.clear()"),
        Op::Drop { b } => format!("drop(b{b})"),
        Op::Build { b, t, v, style, reuse, fail } => format!(
            "b{b}: build {} {} [style {style:#x}, reuse {reuse}%]{}",
            s.tables[*t].name,
            short(v),
            fail.as_ref().map(|f| format!(" FAULT {f:?}")).unwrap_or_default()
        ),
        Op::Finish { b, t, v, style, reuse, ident, fail } => format!(
            "b{b}: finish({ident:?}) {} {} [style {style:#x}, reuse {reuse}%]{}",
            s.tables[*t].name,
            short(v),
            fail.as_ref().map(|f| format!(" FAULT {f:?}")).unwrap_or_default()
        ),
    }
}
pub fn show_hist(h: &Hist) -> String {
    let mut o = format!("schema {} version {}\n", h.fam, h.ver);
    for op in &h.ops {
        o += &format!("  {}\n", show_op(h, op));
    }
    o
}
/// Identity of a history for counting: kinds of operations, builders, tables, shapes.
pub fn hist_path(h: &Hist) -> u64 {
    simdrv::hash_of(serde_json::to_string(h).unwrap_or_default())
}
