//! C15: schema files damaged in storage.
use crate::{
    input,
    os::{Files, Node, Setup, Sys, World},
};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{viol, Stats, Viol};

pub struct Torn;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Files,
    /// what happened to them, for the statistics
    damage: Vec<String>,
    mains: Vec<String>,
    flags: Vec<String>,
    sys: Sys,
    order: u8,
    /// what is written into the main file as well, so many times inside one another
    #[serde(default)]
    nest: Option<(Nest, usize)>,
}

/// Things that can be inside one another.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Nest {
    Vectors,
    Signs,
    Structs,
    Namespace,
    Braces,
}
impl Nest {
    /// more than a program can recurse into
    fn abyss(self) -> usize {
        match self {
            Nest::Vectors => 80_000,
            Nest::Signs | Nest::Structs => 30_000,
            Nest::Namespace => 4_000,
            Nest::Braces => 50_000,
        }
    }
    fn text(self, n: usize) -> String {
        match self {
            Nest::Vectors => format!("\ntable Nest {{ a: {}int{}; }}\n", "[".repeat(n), "]".repeat(n)),
            Nest::Signs => format!("\ntable Nest {{ a: int = {}1; }}\n", "-".repeat(n)),
            Nest::Structs => (0..n).map(|k| format!("struct Nest{k} {{ a: Nest{}; }}\n", k + 1)).collect::<String>() + &format!("struct Nest{n} {{ a: int; }}\n"),
            Nest::Namespace => format!("\nnamespace {};\ntable Nest {{}}\n", (0..n).map(|k| format!("n{k}")).collect::<Vec<_>>().join(".")),
            Nest::Braces => format!("\ntable Nest {}", "{".repeat(n)),
        }
    }
}

/// Storage loses, tears, repeats and misplaces what was written.
fn storage(r: &mut Rng, files: &mut Files, old: &Files) -> &'static str {
    let names: Vec<String> = files.keys().cloned().collect();
    if names.is_empty() {
        return "none";
    }
    let f = r.pick(&names).clone();
    let mut b = files[&f].bytes().to_vec();
    if b.is_empty() {
        return "none";
    }
    let sector = *r.pick(&[1usize, 8, 16, 64, 512]);
    let sectors = b.len().div_ceil(sector);
    let at = |k: usize| (k * sector).min(usize::MAX);
    let what = match r.below(10) {
        0 | 1 => {
            // the write of a new version stopped half way
            let o = old.get(&f).map(|n| n.bytes().to_vec()).unwrap_or_default();
            let k = at(r.below(sectors + 1)).min(b.len());
            let mut n = b[..k].to_vec();
            n.extend_from_slice(o.get(k..).unwrap_or(&[]));
            b = n;
            "torn_write"
        }
        2 => {
            b.truncate(at(r.below(sectors)));
            "lost_tail"
        }
        3 => {
            let k = at(r.below(sectors));
            let e = (k + sector).min(b.len());
            b[k..e].fill(0);
            "zeroed_sector"
        }
        4 => {
            let k = at(r.below(sectors));
            let e = (k + sector).min(b.len());
            b.drain(k..e);
            "lost_sector"
        }
        5 => {
            let k = at(r.below(sectors));
            let e = (k + sector).min(b.len());
            let s = b[k..e].to_vec();
            let to = at(r.below(sectors));
            b.splice(to..to, s);
            "repeated_sector"
        }
        6 | 7 => {
            for _ in 0..r.range(1, 3) {
                let k = r.below(b.len());
                let bits = if r.chance(1, 4) { 8 } else { 6 };
                b[k] ^= 1 << r.below(bits);
            }
            "flipped_bits"
        }
        8 => {
            let g = r.pick(&names).clone();
            b = files[&g].bytes().to_vec();
            "misdirected_write"
        }
        _ => {
            // not all files are of the same version
            match old.get(&f) {
                Some(n) if r.chance(3, 4) => b = n.bytes().to_vec(),
                _ => {
                    files.remove(&f);
                    return "lost_file";
                }
            }
            "stale_file"
        }
    };
    files.insert(
        f,
        match String::from_utf8(b) {
            Ok(s) => Node::Text(s),
            Err(e) => Node::Bytes(e.into_bytes()),
        },
    );
    what
}

impl simdrv::Check for Torn {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C15"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" {
            (4_000_000, 800)
        } else {
            (30_000, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let (mut files, main) = input::valid(&mut r);
        let mut mains = vec![main.clone()];
        let odd = r.chance(1, 3);
        if odd {
            // or a schema of nothing but rare constructions
            let mut t = if r.chance(1, 3) { files.get(&main).and_then(|n| String::from_utf8(n.bytes().to_vec()).ok()).unwrap_or_default() } else { String::new() };
            for _ in 0..r.range(1, 2) {
                t.push_str(&input::unusual(&mut r));
            }
            files.insert(main.clone(), Node::Text(t));
        }
        // an older version of the same files
        let (mut old, _) = input::generated(&mut r);
        let pairs: Vec<(String, Node)> = files.keys().cloned().zip(old.values().cloned()).collect();
        old.extend(pairs);
        if r.chance(1, 8) {
            // two schemas that do not know each other
            for (k, v) in &old {
                files.entry(k.clone()).or_insert(v.clone());
            }
            let names: Vec<String> = files.keys().cloned().collect();
            mains.push(r.pick(&names).clone());
        }
        let mut damage = vec![];
        for _ in 0..if odd && r.chance(2, 3) { 0 } else { r.below(5) } {
            damage.push(storage(&mut r, &mut files, &old).to_string());
        }
        if r.chance(1, if odd { 5 } else { 2 }) {
            // an editor that was interrupted
            let mut i = (files, main);
            input::damage(&mut r, &mut i);
            files = i.0;
            damage.push("half_finished_edit".into());
        }
        let mut flags = vec![];
        if r.chance(1, 4) {
            flags.push("--ignore-docstring-errors".to_string());
        }
        if r.chance(1, 4) {
            flags.push("--ignore-unknown-metadata".to_string());
        }
        let nest = r.chance(1, 120).then(|| {
            let k = *r.pick(&[Nest::Vectors, Nest::Signs, Nest::Structs, Nest::Namespace, Nest::Braces]);
            (k, if r.chance(1, 4) { k.abyss() } else { *r.pick(&[3, 40, 300]) })
        });
        if nest.is_some_and(|(k, n)| n == k.abyss()) {
            // nothing else is of interest, and the messages should be short
            mains.truncate(1);
            files = [(mains[0].clone(), Node::Text(String::new()))].into();
            damage.clear();
        }
        Case { files, damage, mains, flags, sys: Sys::random(&mut r), order: r.below(6) as u8, nest }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        for d in c.damage.iter().filter(|d| *d != "none") {
            st.fault(d);
        }
        let mut files = c.files.clone();
        if let Some((k, n)) = c.nest {
            st.hit(&format!("nested_{k:?}_{n}"));
            if let Some(f) = files.get_mut(&c.mains[0]) {
                let mut b = f.bytes().to_vec();
                b.extend(k.text(n).bytes());
                *f = match String::from_utf8(b) {
                    Ok(s) => Node::Text(s),
                    Err(e) => Node::Bytes(e.into_bytes()),
                };
            }
        }
        let w = World::new(&files);
        let cmd = |k: usize| -> Vec<String> {
            let mut a = c.flags.clone();
            match k {
                0 => a.push("check".into()),
                1 => a.extend(["rust", "-o", "out.rs", "--format", "false"].map(String::from)),
                2 => a.extend(["dot", "-o", "out.dot"].map(String::from)),
                _ => a.push("format".into()),
            }
            a.extend(c.mains.iter().take(if k == 3 { 1 } else { 9 }).cloned());
            a
        };
        // check always, and one of the others
        let ks = [0, [1, 1, 2, 2, 3, 3][c.order as usize % 6]];
        let mut verdicts = vec![];
        for k in ks {
            let args = cmd(k);
            let name = ["check", "rust", "dot", "format"][k];
            let r = w.run(&Setup { args, sys: c.sys.clone(), ..Default::default() });
            r.count(st);
            st.hit(&format!("{name}_{}", r.code.unwrap_or(-1)));
            if let Some((sig, text)) = r.broke_down() {
                if let (Some((k, n)), "signal") = (c.nest, sig) {
                    if n == k.abyss() && text.contains("overflowed its stack") {
                        return viol(format!("nest:{k:?}"), format!("planus {name} overflows the stack on {n} {k:?} inside one another"));
                    }
                }
                let at = text.split("Location:").nth(1).and_then(|l| l.split("/crates/").nth(1)).map(|l| l.chars().take_while(|c| !c.is_control()).collect::<String>()).unwrap_or_default();
                return viol(format!("{sig}:{at}"), format!("planus {name}: {text}"));
            }
            let out = ["-", "out.rs", "out.dot", "-"][k];
            let exists = w.get(out).is_some();
            if r.ok() {
                if (k == 1 || k == 2) && !exists {
                    return viol("no-output", format!("planus {name} succeeded without an output file"));
                }
                if k == 3 && r.stdout.is_empty() {
                    return viol("no-output", "planus format succeeded without output".to_string());
                }
            } else {
                if exists || !r.stdout.is_empty() {
                    return viol("output-of-refused", format!("planus {name} refused the schema, but wrote output"));
                }
                let e = String::from_utf8_lossy(&r.stderr).into_owned();
                // the message says where
                let named = c.files.keys().chain(&c.mains).any(|f| e.contains(f.as_str()));
                if e.is_empty() || !named {
                    return viol("no-message", format!("planus {name} refused the schema without saying where: {e:?}"));
                }
                for l in e.lines().filter_map(|l| l.trim().strip_prefix("┌─ ")) {
                    let mut p = l.rsplitn(3, ':');
                    let (col, line, file) = (p.next(), p.next(), p.next());
                    let (Some(Ok(_)), Some(Ok(line)), Some(file)) = (col.map(|x| x.parse::<usize>()), line.map(|x| x.parse::<usize>()), file) else { continue };
                    let Some(n) = files.get(file) else {
                        return viol("wrong-place", format!("planus {name} points into a file that does not exist: {l}"));
                    };
                    let lines = n.bytes().iter().filter(|b| **b == b'\n').count() + 1;
                    if line == 0 || line > lines {
                        return viol("wrong-place", format!("planus {name} points at a line that does not exist: {l} of {lines}"));
                    }
                    st.hit("places_pointed_at");
                }
                for l in e.lines().filter(|l| l.starts_with("error")) {
                    st.path(simdrv::hash_of(l.split('`').step_by(2).collect::<Vec<_>>()));
                }
            }
            st.state(simdrv::hash_of((k, &r.stderr)));
            verdicts.push((name, r.ok(), String::from_utf8_lossy(&r.stderr).into_owned()));
            // format looks at one file only
            if k != 3 && (verdicts[0].1 != r.ok() || verdicts[0].2 != verdicts.last().unwrap().2) {
                return viol("disagreement", format!("planus check and planus {name} do not agree about the schema: {:?}", verdicts));
            }
        }
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mut put = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
                v.push(d);
            }
        };
        put(&|d| d.mains.truncate(1));
        put(&|d| d.flags.clear());
        put(&|d| d.nest = None);
        put(&|d| d.sys = Sys::quiet());
        for f in input::shrink(&c.files, "") {
            put(&|d| d.files = f.clone());
        }
        v
    }
    fn rule(&self) -> &'static str {
        "distinct error messages (without the names in them) that damaged files led to"
    }
    fn describe(&self, c: &Case) -> String {
        let nest = c.nest.map(|(k, n)| format!(" and {n} {k:?} inside one another")).unwrap_or_default();
        format!("{:?} {:?} after {}{nest}\n{}", c.flags, c.mains, c.damage.join(", "), input::show(&c.files))
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["the program planus (crates/planus-cli and all it uses), built from the working tree"],
            "simulated": ["storage that tears, loses, repeats, misplaces and flips what was written", "short and interrupted calls", "clock, process id, random bytes, hash seeds, heap addresses"],
        })
    }
}
