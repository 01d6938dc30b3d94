//! C01, C02, C03, C04: histories of builds that all succeed.
use crate::{alloc, hist::*};
use serde::{Deserialize, Serialize};
use simcore::{decode, rng::Rng, schema::*};
use simdrv::{hash_of, viol, Check, Stats, Viol};
use simsup::RCx;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Which {
    C01,
    C02,
    C03,
    C04,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pub h: Hist,
    pub env: Env,
    /// C03: further environments
    pub envs: Vec<Env>,
    /// C02: instead of the history, tables at the limit of what fits
    #[serde(default)]
    pub large: Vec<u32>,
    /// bytes that lie between the parts of a huge buffer
    #[serde(default)]
    pub huge: Vec<u64>,
}
pub struct Build(pub Which);

const BUDGET: i64 = 4_000_000;

#[cfg(feature = "all")]
use crate::large::{gen as large_gen, huge_gen, huge_run, huge_show, run as large_run, show as large_show};
#[cfg(not(feature = "all"))]
fn large_gen(_: &mut Rng) -> Vec<u32> {
    vec![]
}
#[cfg(not(feature = "all"))]
fn large_run(_: &[u32], _: &mut Stats) -> Result<(), Viol> {
    Ok(())
}
#[cfg(not(feature = "all"))]
use self::{no_huge as huge_gen, huge_not_run as huge_run, nothing_huge as huge_show};
#[cfg(not(feature = "all"))]
fn no_huge(_: &mut Rng) -> Vec<u64> {
    vec![]
}
#[cfg(not(feature = "all"))]
fn huge_not_run(_: &[u64], _: &mut Stats) -> Result<(), Viol> {
    Ok(())
}
#[cfg(not(feature = "all"))]
fn nothing_huge(_: &[u64]) -> String {
    String::new()
}
#[cfg(not(feature = "all"))]
fn large_show(_: &[u32]) -> String {
    String::new()
}

fn tname(h: &Hist, t: usize) -> String {
    schema(&h.fam, h.ver).tables[t].name.clone()
}
fn alloc_ok() -> Result<(), Viol> {
    alloc::check_released();
    match alloc::error_name() {
        None => Ok(()),
        Some(e) => viol(format!("memory:{}", e.split(' ').take(6).collect::<Vec<_>>().join("_")), e),
    }
}
/// The value as `finish` was told must be what every reader sees.
pub fn read_back(h: &Hist, t: usize, v: &Val, bytes: &[u8], ident: Option<[u8; 4]>) -> Result<Vec<decode::Obj>, Viol> {
    let a = api(&h.fam, h.ver);
    let s = schema(&h.fam, h.ver);
    let cx = RCx::new(bytes, BUDGET);
    let r = a.read(t, &cx, bytes);
    if let Some(p) = cx.problems.borrow().first() {
        return viol("read-problem", format!("accessors of {}: {p}", tname(h, t)));
    }
    if let Some(d) = diff(v, &r, "root") {
        return viol("read-differs", format!("accessors of {}: {d}", tname(h, t)));
    }
    match a.owned(t, bytes) {
        Ok(o) => {
            if let Some(d) = diff(v, &o, "root") {
                return viol("owned-differs", format!("owned value of {}: {d}", tname(h, t)));
            }
        }
        Err(e) => return viol("owned-error", format!("owned value of {}: {e}", tname(h, t))),
    }
    match decode::decode(s, t, bytes, ident) {
        Ok((d, objs)) => {
            if let Some(d) = diff(v, &d, "root") {
                return viol("decode-differs", format!("independent decoder on {}: {d}", tname(h, t)));
            }
            Ok(objs)
        }
        Err(e) => viol("decode-error", format!("independent decoder on {}: {e}", tname(h, t))),
    }
}

fn c01(case: &Case, st: &mut Stats) -> Result<(), Viol> {
    let h = &case.h;
    let mut w = World::new(h, &case.env);
    let mut finishes = 0;
    for i in 0..h.ops.len() {
        let b = h.ops[i].slot();
        // what the others hold must not change
        let others: Vec<(usize, u64)> = w
            .slots
            .iter()
            .enumerate()
            .filter(|(j, _)| *j != b)
            .filter_map(|(j, s)| s.as_ref().map(|s| (j, hash_of(s.b.as_slice()))))
            .collect();
        let before = w.slot(b).map(|s| s.b.as_slice().to_vec());
        let out = match w.step(h, i) {
            Ok(o) => o,
            Err(e) => return viol(e.sig, e.text),
        };
        for (j, x) in others {
            if hash_of(w.slot(j).unwrap().b.as_slice()) != x {
                return viol("other-builder", format!("operation {i} on builder {b} changed the bytes of builder {j}"));
            }
        }
        match &h.ops[i] {
            Op::Build { .. } | Op::Finish { .. } if !matches!(out, Out::Skip) => {
                let now = w.slot(b).unwrap().b.as_slice();
                if !now.ends_with(&before.unwrap()) {
                    return viol("earlier-bytes", format!("operation {i} changed bytes that builder {b} had already written"));
                }
                st.hit("builds");
            }
            Op::New { .. } | Op::Clear { .. } if !matches!(out, Out::Skip) => {
                let s = w.slot(b).unwrap();
                if !s.b.is_empty() || s.b.len() != 0 || !s.b.as_slice().is_empty() {
                    return viol("not-empty", format!("builder {b} is not empty after operation {i}"));
                }
            }
            _ => {}
        }
        if let (Op::Finish { t, v, ident, .. }, Out::Finished(same)) = (&h.ops[i], &out) {
            let s = w.slot(b).unwrap();
            if !same {
                return viol("finish-slice", "finish returned something else than as_slice");
            }
            let bytes = s.last.clone().unwrap();
            st.add("offsets_shared", s.cx.pool_hits.replace(0));
            let objs = read_back(h, *t, v, &bytes, *ident)?;
            if let Some(d) = w.api.default(*t) {
                let m = schema(&h.fam, h.ver).minimal(&Ty::Table(*t));
                // the default has every omitted field at its default
                if let Some(x) = diff(&m, &d, "default") {
                    return viol("default-differs", format!("Default of {}: {x}", tname(h, *t)));
                }
            }
            finishes += 1;
            st.hit("finishes");
            st.add("values_compared", v.size() as u64);
            st.max("buffer_bytes", bytes.len() as u64);
            st.state(hash_of(&bytes[..]));
            st.obs(&bytes[..]);
            st.obs(objs.len());
        }
        alloc_ok()?;
    }
    drop(w);
    alloc_ok()?;
    if finishes > 0 {
        st.path(hist_path(h));
    }
    Ok(())
}

fn c02(case: &Case, st: &mut Stats) -> Result<(), Viol> {
    let h = &case.h;
    let mut w = World::new(h, &case.env);
    let mut finishes = 0;
    for i in 0..h.ops.len() {
        let out = match w.step(h, i) {
            Ok(o) => o,
            Err(e) => return viol(e.sig, e.text),
        };
        if let (Op::Finish { t, v, ident, b, .. }, Out::Finished(_)) = (&h.ops[i], &out) {
            let bytes = w.slot(*b).unwrap().last.clone().unwrap();
            let s = schema(&h.fam, h.ver);
            // well-formedness only: that the values are right is C01
            let mut d = decode::Dec { s, b: &bytes, objs: vec![], sites: vec![], budget: 20_000_000, strict: true };
            match d.root(*t, *ident) {
                Ok(_) => {}
                Err(e) => {
                    let sig: String = e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>().split_whitespace().collect::<Vec<_>>().join("_");
                    return viol(format!("malformed:{}", sig.chars().take(90).collect::<String>()), format!("operation {i}, table {}: {e}", tname(h, *t)));
                }
            }
            finishes += 1;
            st.hit("finishes");
            st.add("objects_verified", d.objs.len() as u64);
            for (k, _) in &d.sites {
                if matches!(k, decode::Site::Tag | decode::Site::Nul) {
                    st.hit(&format!("checked_{k:?}").to_lowercase());
                }
            }
            st.add("values_in_buffers", v.size() as u64);
            st.max("buffer_bytes", bytes.len() as u64);
            // alignment patterns: where objects lie modulo 16
            for o in &d.objs {
                st.state(hash_of((o.kind, o.pos % 16, (o.end - o.pos).min(40))));
            }
            st.obs(&bytes[..]);
        }
        alloc_ok()?;
    }
    if finishes > 0 {
        st.path(hist_path(h));
    }
    Ok(())
}

/// The bytes of every finish of the history in an environment.
fn outcome(h: &Hist, env: &Env, only: Option<usize>) -> Result<BTreeMap<usize, Vec<u8>>, Viol> {
    let (h2, env2) = (h.clone(), env.clone());
    let go = move || {
        guarded(|| {
            let mut w = World::new(&h2, &env2);
            let mut m = BTreeMap::new();
            for i in 0..h2.ops.len() {
                if only.is_some_and(|b| h2.ops[i].slot() != b) {
                    continue;
                }
                match w.step(&h2, i) {
                    Ok(Out::Finished(_)) => {
                        m.insert(i, w.slot(h2.ops[i].slot()).unwrap().last.clone().unwrap());
                    }
                    Ok(_) => {}
                    Err(e) => return viol(e.sig, e.text),
                }
            }
            Ok(m)
        })
    };
    if env.thread {
        std::thread::spawn(go).join().unwrap()
    } else {
        go()
    }
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at byte {i}: {:?} and {:?}", a.len(), b.len(), a.get(i), b.get(i))
}
fn c03(case: &Case, st: &mut Stats) -> Result<(), Viol> {
    let h = &case.h;
    let base = outcome(h, &case.env, None)?;
    let mut any = false;
    for e in &case.envs {
        let r = outcome(h, e, None)?;
        for (i, x) in &base {
            let y = r.get(i).cloned().unwrap_or_default();
            if *x != y {
                return viol("bytes-differ", format!("finish in operation {i}: environments {:?} and {e:?} give different bytes: {}", case.env, first_diff(x, &y)));
            }
            st.hit("comparisons");
            any = true;
        }
        env_faults(e, st);
    }
    // one builder at a time
    let slots: std::collections::BTreeSet<usize> = h.ops.iter().map(|o| o.slot()).collect();
    if slots.len() > 1 {
        for b in slots {
            let r = outcome(h, &case.env, Some(b))?;
            for (i, y) in &r {
                if base[i] != *y {
                    return viol("bytes-differ-alone", format!("finish in operation {i} gives different bytes when builder {b} is alone: {}", first_diff(&base[i], y)));
                }
            }
            st.hit("single_builder_variants");
        }
    }
    for x in base.values() {
        st.obs(&x[..]);
        st.state(hash_of(&x[..]));
        st.max("buffer_bytes", x.len() as u64);
    }
    alloc_ok()?;
    if any {
        st.path(hist_path(h));
    }
    Ok(())
}

fn c04(case: &Case, st: &mut Stats) -> Result<(), Viol> {
    let h = &case.h;
    let mut w = World::new(h, &case.env);
    // per builder: content -> distance of its place from the end of the buffer
    let mut places: BTreeMap<usize, BTreeMap<(u8, Vec<u8>), usize>> = BTreeMap::new();
    let mut shared = 0u64;
    for i in 0..h.ops.len() {
        let b = h.ops[i].slot();
        let out = match w.step(h, i) {
            Ok(o) => o,
            Err(e) => return viol(e.sig, e.text),
        };
        match (&h.ops[i], &out) {
            (_, Out::Skip) => {}
            (Op::New { .. } | Op::Drop { .. } | Op::Clear { .. }, _) => {
                places.remove(&b);
            }
            (Op::Finish { t, v, ident, .. }, Out::Finished(_)) => {
                let bytes = w.slot(b).unwrap().last.clone().unwrap();
                let objs = read_back(h, *t, v, &bytes, *ident)?;
                let m = places.entry(b).or_default();
                for o in objs {
                    let k = match o.kind {
                        decode::Kind::Str => 0u8,
                        decode::Kind::Bytes => 1,
                        decode::Kind::VTable => 2,
                        _ => continue,
                    };
                    let content = match k {
                        2 => bytes[o.pos..o.end].to_vec(),
                        0 => bytes[o.pos + 4..o.end - 1].to_vec(),
                        _ => bytes[o.pos + 4..o.end].to_vec(),
                    };
                    let back = bytes.len() - o.pos;
                    st.state(hash_of((k, &content[..])));
                    let e = m.entry((k, content.clone())).or_insert(back);
                    if *e != back {
                        if cfg!(feature = "caches") {
                            return viol(
                                format!("stored-twice:{}", ["string", "bytes", "vtable"][k as usize]),
                                format!("operation {i}: the {} {content:?} is stored twice, {back} and {e} bytes from the end", ["string", "byte vector", "vtable"][k as usize]),
                            );
                        }
                        st.hit("stored_twice_without_cache");
                    } else {
                        shared += 1;
                    }
                }
                st.hit("finishes");
                st.obs(&bytes[..]);
                st.max("buffer_bytes", bytes.len() as u64);
                st.max("distinct_cached_things", m.len() as u64);
            }
            _ => {}
        }
        alloc_ok()?;
    }
    st.add("references_to_cached_content", shared);
    if shared > 0 {
        st.path(hist_path(h));
    }
    Ok(())
}

impl Check for Build {
    type Case = Case;
    fn property(&self) -> &'static str {
        match self.0 {
            Which::C01 => "C01",
            Which::C02 => "C02",
            Which::C03 => "C03",
            Which::C04 => "C04",
        }
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = match self.0 {
            Which::C01 => 300_000,
            Which::C02 => 400_000,
            Which::C03 => 120_000,
            Which::C04 => 300_000,
        };
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(q);
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let (mut fam, mut ver) = pick_family(&mut rng);
        let mut sw = if rng.chance(1, 150) { Swarm::big(&mut rng) } else { Swarm::random(&mut rng) };
        let mut env = Env::random(&mut rng, 20);
        env.thread = false;
        match self.0 {
            Which::C04 => {
                sw.val_reuse = sw.val_reuse.max(20);
                sw.off_reuse = sw.off_reuse.min(20);
                sw.builders = 1 + rng.below(2);
                env.noise = false;
            }
            Which::C03 => {
                env = Env::plain();
            }
            Which::C02 => {
                sw.builders = 1;
                if cfg!(feature = "all") && rng.chance(1, 100) {
                    (fam, ver) = ("fa".into(), 0);
                }
            }
            Which::C01 => {}
        }
        let h = gen_hist(&mut rng, &fam, ver, &sw);
        let n = h.ops.len();
        let envs = if self.0 == Which::C03 { (0..3).map(|_| Env::random(&mut rng, n)).collect() } else { vec![] };
        env.prelude.retain(|i| *i < n);
        let large = if cfg!(feature = "all") && self.0 == Which::C02 && rng.chance(1, 400) { large_gen(&mut rng) } else { vec![] };
        let huge = if cfg!(feature = "all") && self.0 == Which::C02 && rng.chance(1, 3000) { huge_gen(&mut rng) } else { vec![] };
        Case { h, env, envs, large, huge }
    }
    fn run(&self, case: &Case, st: &mut Stats) -> Result<(), Viol> {
        if !case.large.is_empty() {
            return guarded(|| large_run(&case.large, st));
        }
        if !case.huge.is_empty() {
            return guarded(|| huge_run(&case.huge, st));
        }
        env_faults(&case.env, st);
        let r = guarded(|| match self.0 {
            Which::C01 => c01(case, st),
            Which::C02 => c02(case, st),
            Which::C03 => c03(case, st),
            Which::C04 => c04(case, st),
        });
        alloc::set_fill(0, 0);
        st.add("operations", case.h.ops.len() as u64);
        r
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        if !c.huge.is_empty() {
            for i in 0..c.huge.len() {
                if c.huge[i] != 0 {
                    let mut huge = c.huge.clone();
                    huge[i] = 0;
                    out.push(Case { huge, ..c.clone() });
                }
            }
            return out;
        }
        if !c.large.is_empty() {
            for i in 0..c.large.len() {
                if c.large.len() > 1 {
                    let mut large = c.large.clone();
                    large.remove(i);
                    out.push(Case { large, ..c.clone() });
                }
                for k in 0..20 {
                    if c.large[i] >> k & 1 == 1 {
                        let mut large = c.large.clone();
                        large[i] &= !(1 << k);
                        out.push(Case { large, ..c.clone() });
                    }
                }
            }
            return out;
        }
        if c.envs.len() > 1 {
            for e in &c.envs {
                out.push(Case { envs: vec![e.clone()], ..c.clone() });
            }
        }
        for h in shrink_hist(&c.h) {
            out.push(Case { h, ..c.clone() });
        }
        for env in shrink_env(&c.env) {
            out.push(Case { env, ..c.clone() });
        }
        if c.envs.len() == 1 {
            for e in shrink_env(&c.envs[0]) {
                out.push(Case { envs: vec![e], ..c.clone() });
            }
        }
        out
    }
    fn repeatable_is_claimed(&self) -> bool {
        matches!(self.0, Which::C03)
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Which::C01 => "seeded histories of new/build/finish/clear/drop on 1-3 builders over generated schemas; non-trivial: at least one finished buffer was read back by accessors, owned conversion and the independent decoder; distinct by the whole history",
            Which::C02 => "seeded histories on a builder; non-trivial: at least one finished buffer went through the independent verifier; distinct by the whole history; distinct states are (kind, position modulo 16, size) of verified objects",
            Which::C03 => "seeded histories executed in a reference environment and in further ones; non-trivial: at least one finished buffer was compared; distinct by the whole history",
            Which::C04 => "seeded histories with much repeated content; non-trivial: at least one piece of content was referred to; distinct by the whole history; distinct states are different pieces of content",
        }
    }
    fn describe(&self, c: &Case) -> String {
        if !c.large.is_empty() {
            return large_show(&c.large);
        }
        if !c.huge.is_empty() {
            return huge_show(&c.huge);
        }
        let mut s = format!("environment {:?}\n", c.env);
        for e in &c.envs {
            s += &format!("compared with {e:?}\n");
        }
        s + &show_hist(&c.h)
    }
    fn components(&self) -> serde_json::Value {
        components()
    }
}
pub fn components() -> serde_json::Value {
    serde_json::json!({
        "real": ["planus runtime (builder, backvec, caches, traits, impls, table reader, vectors)", "planus CLI code generation (run on every schema of the simulator)", "the generated code"],
        "simulated": ["global allocator", "hash seeds and hash quality (foldhash)", "callers: harness implementations of the write traits"],
        "stub": [],
    })
}
