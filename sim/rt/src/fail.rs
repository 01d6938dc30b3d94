//! C07: builds that are cut short by a panic in user code or by a failing allocation.
use crate::{alloc, build, hist::*};
use serde::{Deserialize, Serialize};
use simcore::{rng::Rng, schema::*};
use simdrv::{hash_of, viol, Check, Stats, Viol};

#[derive(Clone, Serialize, Deserialize)]
pub struct Case {
    pub h: Hist,
    pub env: Env,
    /// try every fault position in this operation, one after the other
    pub sweep: Option<(usize, bool)>,
}
pub struct Failing;

#[derive(Default, Clone, Copy)]
struct Counts {
    panics: u64,
    ooms: u64,
    not_reached: u64,
    finishes: u64,
    after_failure: u64,
    cleared: u64,
    dropped_dirty: u64,
    digest: u64,
    swept_fired: bool,
}

fn oom_min(h: &Hist) -> usize {
    fn longest(v: &Val) -> usize {
        match v {
            Val::S(s) => s.len(),
            Val::V(x) => x.iter().map(longest).max().unwrap_or(0).max(x.len() * x.iter().map(|x| x.size()).max().unwrap_or(1) * 8),
            Val::St(x) | Val::T(x) => x.iter().map(longest).max().unwrap_or(0),
            Val::U(_, x) => longest(x),
            _ => 0,
        }
    }
    let n = h
        .ops
        .iter()
        .map(|o| match o {
            Op::Build { v, .. } | Op::Finish { v, .. } => longest(v),
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    // the buffer of a builder has a capacity of at least 16 and doubles; everything else that
    // is allocated byte-wise is smaller than this
    (n * 2 + 16).max(64)
}

fn one(h: &Hist, env: &Env, swept: Option<usize>, c: &mut Counts) -> Result<(), Viol> {
    let mut w = World::new(h, env);
    w.oom_min = oom_min(h);
    // per builder: operations since the last clear, and whether there was a failure before it
    let mut seg: [(Vec<usize>, bool); 4] = Default::default();
    for i in 0..h.ops.len() {
        let b = h.ops[i].slot();
        let before = w.slot(b).map(|s| (s.b.as_slice().to_vec(), s.last.clone(), s.dirty));
        let out = match w.step(h, i) {
            Ok(o) => o,
            Err(e) => return viol(e.sig, format!("operation {i}: {}", e.text)),
        };
        match (&h.ops[i], &out) {
            (_, Out::Skip) => continue,
            (Op::New { .. } | Op::Drop { .. } | Op::Clear { .. }, _) => {
                let failed = before.is_some_and(|x| x.2);
                let kept = matches!(h.ops[i], Op::Clear { .. }) && !env.fresh;
                seg[b].0.clear();
                seg[b].1 = kept && (failed || seg[b].1);
                if failed {
                    if matches!(h.ops[i], Op::Clear { .. }) {
                        c.cleared += 1;
                    } else {
                        c.dropped_dirty += 1;
                    }
                }
                if let Some(s) = w.slot(b) {
                    if !s.b.is_empty() {
                        return viol("not-empty-after-clear", format!("builder {b} is not empty after operation {i}"));
                    }
                }
            }
            (_, Out::Failed(kind)) => {
                if *kind == "allocation failed" {
                    c.ooms += 1;
                } else {
                    c.panics += 1;
                }
                if swept == Some(i) {
                    c.swept_fired = true;
                }
                let s = w.slot(b).unwrap();
                let (old, last, _) = before.unwrap();
                let now = s.b.as_slice();
                if !now.ends_with(&old) {
                    return viol("bytes-altered", format!("the failure of operation {i} ({kind}) altered bytes written before it"));
                }
                if let Some(l) = last {
                    if !now.ends_with(&l) {
                        return viol("finished-altered", format!("the failure of operation {i} ({kind}) altered finished bytes"));
                    }
                }
                // still usable for looking at
                let _ = (s.b.len(), s.b.is_empty());
            }
            (Op::Build { fail, .. }, Out::Done) => {
                if fail.is_some() {
                    c.not_reached += 1;
                }
                seg[b].0.push(i);
            }
            (Op::Finish { t, v, ident, fail, .. }, Out::Finished(_)) => {
                if fail.is_some() {
                    c.not_reached += 1;
                }
                seg[b].0.push(i);
                c.finishes += 1;
                let bytes = w.slot(b).unwrap().last.clone().unwrap();
                build::read_back(h, *t, v, &bytes, *ident)?;
                c.digest = simcore::rng::mix(c.digest, hash_of(&bytes[..]));
                if seg[b].1 {
                    c.after_failure += 1;
                    // a builder that never failed does the same
                    let mut s = Slot::new(0);
                    let a = w.api;
                    for j in &seg[b].0 {
                        match &h.ops[*j] {
                            Op::Build { t, v, style, reuse, .. } => {
                                s.cx.set_style(*style, *reuse);
                                a.build(*t, &s.cx, &mut s.b, v);
                            }
                            Op::Finish { t, v, style, reuse, ident, .. } => {
                                s.cx.set_style(*style, *reuse);
                                a.finish(*t, &s.cx, &mut s.b, v, *ident);
                            }
                            _ => {}
                        }
                    }
                    if s.b.as_slice() != &bytes[..] {
                        return viol("differs-after-failure", format!("operation {i}: after a failure and clear the builder writes other bytes ({}) than a new one ({})", bytes.len(), s.b.len()));
                    }
                }
            }
            _ => {}
        }
        alloc::check_released();
        if let Some(e) = alloc::error_name() {
            return viol("memory", format!("operation {i}: {e}"));
        }
    }
    drop(w);
    alloc::check_released();
    if let Some(e) = alloc::error_name() {
        return viol("memory", format!("dropping the builders: {e}"));
    }
    Ok(())
}
fn with_leak_check(h: &Hist, env: &Env, swept: Option<usize>, c: &mut Counts) -> Result<(), Viol> {
    let mut d = *c;
    guarded(|| one(h, env, swept, &mut d))?;
    let _ = last_panic();
    let a = alloc::live();
    let r = guarded(|| one(h, env, swept, c));
    let _ = last_panic();
    r?;
    let b = alloc::live();
    if a != b {
        return viol("leak", format!("{} blocks and {} bytes are not released", b.0 - a.0, b.1 - a.1));
    }
    Ok(())
}
fn set_fail(h: &mut Hist, i: usize, f: Option<Fail>) {
    if let Op::Build { fail, .. } | Op::Finish { fail, .. } = &mut h.ops[i] {
        *fail = f;
    }
}

impl Check for Failing {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C07"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(300_000);
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let (fam, ver) = pick_family(&mut rng);
        let mut sw = Swarm::random(&mut rng);
        sw.small_strings = true;
        sw.max_len = sw.max_len.min(6);
        sw.budget = sw.budget.max(12);
        sw.ops = 3 + rng.below(12);
        sw.w[3] = 3;
        sw.plain = false;
        let mut h = gen_hist(&mut rng, &fam, ver, &sw);
        let builds: Vec<usize> = (0..h.ops.len()).filter(|i| matches!(h.ops[*i], Op::Build { .. } | Op::Finish { .. })).collect();
        let mut sweep = None;
        if !builds.is_empty() {
            if rng.chance(1, 12) {
                sweep = Some((*rng.pick(&builds), rng.chance(1, 3)));
            }
            let rate = *rng.pick(&[10, 30, 60]);
            for i in builds {
                if rng.below(100) < rate {
                    let f = if rng.chance(1, 3) {
                        Fail::Oom(rng.below(3) as i64)
                    } else {
                        Fail::Panic(match rng.below(3) {
                            0 => rng.below(4),
                            1 => rng.below(15),
                            _ => rng.below(60),
                        } as i64)
                    };
                    set_fail(&mut h, i, Some(f));
                }
            }
            // make sure that failures are followed by something
            let n = h.ops.len();
            for i in (0..n).rev() {
                let b = h.ops[i].slot();
                let failing = matches!(&h.ops[i], Op::Build { fail: Some(_), .. } | Op::Finish { fail: Some(_), .. });
                if failing && rng.chance(2, 3) {
                    let at = (i + 1 + rng.below(3)).min(h.ops.len());
                    h.ops.insert(at, Op::Clear { b });
                    if let Some((k, _)) = &mut sweep {
                        if *k >= at {
                            *k += 1;
                        }
                    }
                }
            }
        }
        let mut env = Env::random(&mut rng, 1);
        env.thread = false;
        env.noise = false;
        env.fresh = false;
        env.prelude.clear();
        Case { h, env, sweep }
    }
    fn run(&self, case: &Case, st: &mut Stats) -> Result<(), Viol> {
        let mut c = Counts::default();
        env_faults(&case.env, st);
        with_leak_check(&case.h, &case.env, None, &mut c)?;
        if let Some((i, oom)) = case.sweep.filter(|s| s.0 < case.h.ops.len()) {
            let mut h = case.h.clone();
            for n in 0..400 {
                set_fail(&mut h, i, Some(if oom { Fail::Oom(n) } else { Fail::Panic(n) }));
                c.swept_fired = false;
                with_leak_check(&h, &case.env, Some(i), &mut c)?;
                st.hit("fault_positions_enumerated");
                if !c.swept_fired {
                    break;
                }
            }
            st.hit("operations_with_all_fault_positions_tried");
        }
        alloc::set_fill(0, 0);
        for _ in 0..c.panics {
            st.fault("panic_in_user_code");
        }
        for _ in 0..c.ooms {
            st.fault("allocation_failure");
        }
        st.add("faults_not_reached", c.not_reached);
        st.add("finishes", c.finishes);
        st.add("finishes_compared_with_new_builder_after_failure", c.after_failure);
        st.add("cleared_after_failure", c.cleared);
        st.add("dropped_after_failure", c.dropped_dirty);
        st.obs(c.digest);
        st.obs((c.panics, c.ooms, c.finishes));
        if c.panics + c.ooms > 0 {
            st.path(hist_path(&case.h));
        }
        st.state(hash_of((&case.h.fam, case.h.ver, c.panics.min(9), c.ooms.min(9), c.after_failure.min(9), c.dropped_dirty.min(5), c.digest)));
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        if let Some((i, oom)) = c.sweep {
            out.push(Case { sweep: None, ..c.clone() });
            for n in 0..120 {
                let mut h = c.h.clone();
                if i < h.ops.len() {
                    set_fail(&mut h, i, Some(if oom { Fail::Oom(n) } else { Fail::Panic(n) }));
                    out.push(Case { h, env: c.env.clone(), sweep: None });
                }
            }
            return out;
        }
        for h in shrink_hist(&c.h) {
            out.push(Case { h, ..c.clone() });
        }
        for i in 0..c.h.ops.len() {
            if let Op::Build { fail: Some(f), .. } | Op::Finish { fail: Some(f), .. } = &c.h.ops[i] {
                let smaller: Vec<Fail> = match f {
                    Fail::Panic(n) => (0..*n).map(Fail::Panic).collect(),
                    Fail::Oom(n) => (0..*n).map(Fail::Oom).collect(),
                };
                for f in smaller {
                    let mut h = c.h.clone();
                    set_fail(&mut h, i, Some(f));
                    out.push(Case { h, ..c.clone() });
                }
            }
        }
        for env in shrink_env(&c.env) {
            out.push(Case { env, ..c.clone() });
        }
        out
    }
    fn rule(&self) -> &'static str {
        "seeded histories with panics in user code and failing buffer allocations at chosen points of builds, one in twelve with every fault position of one operation tried in turn; non-trivial: at least one fault fired; distinct by the whole history"
    }
    fn describe(&self, c: &Case) -> String {
        format!("environment {:?}\nsweep over fault positions: {:?}\n{}", c.env, c.sweep, show_hist(&c.h))
    }
    fn components(&self) -> serde_json::Value {
        build::components()
    }
}
