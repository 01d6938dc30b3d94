//! C11: the same input gives the same output.
use crate::{
    input,
    os::{first_difference, Files, Node, Ran, Setup, Sys, World},
};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{viol, Stats, Viol};

pub struct Repro;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Files,
    args: Vec<String>,
    out: Option<String>,
    first: Sys,
    others: Vec<(Sys, Option<Node>)>,
}

fn once(c: &Case, sys: &Sys, prior: &Option<Node>) -> (Ran, Option<Vec<u8>>) {
    let w = World::new(&c.files);
    if let (Some(o), Some(p)) = (&c.out, prior) {
        w.put(o, p);
    }
    let r = w.run(&Setup { args: c.args.clone(), sys: sys.clone(), ..Default::default() });
    // a refused input leaves what was there
    let out = c.out.as_ref().and_then(|o| w.get(o)).filter(|_| r.ok());
    (r, out)
}

impl simdrv::Check for Repro {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C11"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" {
            (2_000_000, 800)
        } else {
            (20_000, 60)
        }
    }
    fn repeatable_is_claimed(&self) -> bool {
        true
    }
    fn gen(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let (mut files, main) = if r.chance(2, 5) { input::invalid(&mut r) } else { input::valid(&mut r) };
        let mut mains = vec![main];
        if r.chance(1, 4) {
            // several inputs at once
            let (f, m) = if r.chance(1, 4) { input::invalid(&mut r) } else { input::valid(&mut r) };
            if f.keys().all(|k| !files.contains_key(k)) {
                files.extend(f);
                mains.push(m);
            }
        }
        let mut args: Vec<String> = vec![];
        if r.chance(1, 6) {
            args.push("--ignore-unknown-metadata".into());
        }
        if r.chance(1, 6) {
            args.push("--ignore-docstring-errors".into());
        }
        let mut out = None;
        match r.below(8) {
            0 | 1 => args.push("check".into()),
            2 | 3 | 4 => {
                args.extend(["rust", "-o", "out.rs", "--format", if r.chance(1, 4) { "true" } else { "false" }].map(String::from));
                out = Some("out.rs".to_string());
            }
            5 | 6 => {
                args.extend(["dot", "-o", "out.dot"].map(String::from));
                out = Some("out.dot".to_string());
            }
            _ => {
                args.push("format".into());
                mains.truncate(1);
                if r.chance(1, 2) {
                    args.push("--ignore-errors".into());
                }
            }
        }
        args.extend(mains);
        let others = (0..2)
            .map(|_| {
                let p = match r.below(3) {
                    0 => None,
                    1 => Some(Node::Text(String::new())),
                    _ => Some(Node::Text("x".repeat(r.range(1, 300_000)))),
                };
                (Sys::random(&mut r), p)
            })
            .collect();
        Case { files, args, out, first: Sys::random(&mut r), others }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let (a, oa) = once(c, &c.first, &None);
        a.count(st);
        st.state(simdrv::hash_of((&a.stdout, &a.stderr, &oa)));
        st.hit(&format!("{}_{}", c.args.iter().find(|a| !a.starts_with('-')).unwrap(), a.code.unwrap_or(-1)));
        st.max("bytes_of_output", oa.as_ref().map_or(a.stdout.len(), |o| o.len()) as u64);
        st.max("bytes_of_messages", a.stderr.len() as u64);
        if matches!(a.broke_down(), Some(("hang" | "deadlock", _))) {
            st.hit("reference_broke_down");
            return Ok(());
        }
        let mut p = vec![a.path()];
        for (s, prior) in &c.others {
            let (b, ob) = once(c, s, prior);
            b.count(st);
            p.push(b.path());
            if a.code != b.code || a.signal != b.signal {
                return viol("status", format!("{} and {}:\n{}\n{}", a.verdict(), b.verdict(), a.err_text(), b.err_text()));
            }
            if a.stderr != b.stderr {
                return viol("messages", first_difference(&a.stderr, &b.stderr));
            }
            if a.stdout != b.stdout {
                return viol("stdout", first_difference(&a.stdout, &b.stdout));
            }
            if oa != ob {
                return viol("output", first_difference(&oa.unwrap_or_default(), &ob.unwrap_or_default()));
            }
        }
        st.path(simdrv::hash_of(&p));
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mut put = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
                v.push(d);
            }
        };
        for i in 0..c.others.len() {
            put(&|d| {
                if d.others.len() > 1 {
                    d.others.remove(i);
                }
            });
        }
        put(&|d| d.first = Sys::quiet());
        let q = Sys::quiet();
        let set: [&dyn Fn(&mut Sys); 8] = [
            &|s| (s.hash_seed, s.hash_mode) = (q.hash_seed, 0),
            &|s| s.random = q.random,
            &|s| (s.clock, s.jumps) = (q.clock, false),
            &|s| s.pid = q.pid,
            &|s| s.pad = 0,
            &|s| s.frag = 0,
            &|s| s.eintr = 0,
            &|s| (s.seed, s.steps, s.cap) = (1, 30, 65536),
        ];
        for f in set {
            put(&|d| d.others.iter_mut().for_each(|o| f(&mut o.0)));
        }
        put(&|d| d.others.iter_mut().for_each(|o| o.1 = None));
        for f in input::shrink(&c.files, "") {
            put(&|d| d.files = f.clone());
        }
        v
    }
    fn rule(&self) -> &'static str {
        "distinct sets of system call histories of the compared executions"
    }
    fn describe(&self, c: &Case) -> String {
        format!("planus {}\nwith {:?}\nand  {:?}\n{}", c.args.join(" "), c.first, c.others.iter().map(|o| &o.0).collect::<Vec<_>>(), input::show(&c.files))
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["the program planus (crates/planus-cli and all it uses), built from the working tree"],
            "simulated": ["hash seeds (std's through getrandom, hashbrown's through a patched foldhash)", "clock, process id, heap addresses", "fragmentation and interruption of reads and writes, previous content of the output", "rustfmt (well-behaved here, with seeded timing)"],
        })
    }
}
