//! C10: never success for output that was not fully produced.
use crate::{
    input,
    os::{first_difference, Fault, Files, Node, Setup, Sys, World},
};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{viol, Stats, Viol};

pub struct Faults;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Files,
    args: Vec<String>,
    out: Option<String>,
    /// what was in the output file before
    prior: Option<Node>,
    /// what happened to files after the user last looked
    changes: Vec<(String, Option<Node>)>,
    sys: Sys,
    faults: Vec<Fault>,
    diskcap: Option<u64>,
}

const IN: &[&str] = &["openin", "readin"];
const OUT: &[&str] = &["openout", "writeout", "stdout"];

fn fault(r: &mut Rng, class: &str, files: usize) -> Fault {
    use libc::*;
    let f = |class: &str, nth: usize, act: &str, arg: i32| Fault { class: class.into(), nth: nth as u32, act: act.into(), arg };
    let nth = if r.chance(2, 3) { r.below(files.max(1)) } else { r.below(2 * files + 3) };
    match class {
        "openin" => {
            let e = *r.pick(&[ENOENT, EACCES, EMFILE, ENFILE, EIO, ELOOP, ENOMEM, ENOTDIR, ESTALE]);
            f(class, nth, "err", e)
        }
        "readin" => match r.below(4) {
            0 => f(class, nth, "short", 1 + r.below(9) as i32),
            _ => f(class, r.below(3 * files + 2), "err", *r.pick(&[EIO, EISDIR, ENOMEM, ESTALE, EAGAIN])),
        },
        "statin" => f(class, nth, "err", *r.pick(&[EIO, ENOMEM, EOVERFLOW])),
        "openout" => f(class, 0, "err", *r.pick(&[EACCES, ENOENT, ENOSPC, EROFS, EISDIR, EDQUOT, EMFILE, ETXTBSY, ENOTDIR])),
        "writeout" | "stdout" => {
            let k = if r.chance(1, 2) { 1 } else { 4 };
            let n = r.below(k);
            match r.below(6) {
                0 => f(class, n, "zero", 0),
                1 => f(class, n, "short", 1 + r.below(3000) as i32),
                _ => f(class, n, "err", *r.pick(&[ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, ENXIO])),
            }
        }
        "stderr" => f(class, r.below(3), "err", *r.pick(&[EPIPE, ENOSPC, EIO])),
        "close" => f(r.pick::<&str>(&["closein", "closeout"]), r.below(2), "err", *r.pick(&[EIO, ENOSPC, EDQUOT])),
        "die" => {
            let c = *r.pick(&["openin", "readin", "closein", "openout", "writeout", "writeout", "closeout", "stdout"]);
            f(c, if c.ends_with("in") { nth } else { r.below(2) }, "die", *r.pick(&[0, 1, 100, 4096, 1 << 30]))
        }
        x => panic!("no fault of class {x}"),
    }
}

fn strings(a: &[&str]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}

impl simdrv::Check for Faults {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C10"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" {
            (2_000_000, 800)
        } else {
            (20_000, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let (files, main) = if r.chance(1, 6) { input::invalid(&mut r) } else { input::valid(&mut r) };
        let mut mains = vec![main.clone()];
        let mut files = files;
        if r.chance(1, 6) {
            // several inputs at once
            let (f, m) = if r.chance(1, 6) { input::invalid(&mut r) } else { input::valid(&mut r) };
            if f.keys().all(|k| !files.contains_key(k)) {
                files.extend(f);
                mains.push(m);
            }
        }
        let (mut args, out): (Vec<String>, Option<String>) = match r.weighted(&[2, 6, 5, 5, 1, 1]) {
            0 => (strings(&["check"]), None),
            1 => (strings(&["rust", "-o", "out.rs", "--format", if r.chance(1, 3) { "true" } else { "false" }]), Some("out.rs".into())),
            2 => (strings(&["dot", "-o", "out.dot"]), Some("out.dot".into())),
            3 => (
                if r.chance(1, 4) { strings(&["format", "--ignore-errors", &main]) } else { strings(&["format", &main]) },
                None,
            ),
            4 => (strings(&["generate-completions", r.pick::<&str>(&["bash", "zsh", "fish", "elvish", "powershell"])]), None),
            _ => {
                // a name that does not exist, a part of one, or a declaration of another kind
                let names = input::declared(&files, &mains[..1]);
                let n = match r.below(3) {
                    0 => "NoSuchTable".to_string(),
                    1 if !names.is_empty() => r.pick(&names).chars().take(3).collect(),
                    2 if !names.is_empty() => r.pick(&names).clone(),
                    _ => String::new(),
                };
                (strings(&["view", &main, &n, "data.bin"]), None)
            }
        };
        if ["check", "rust", "dot"].contains(&args[0].as_str()) {
            args.extend(mains.iter().cloned());
        }
        if args[0] == "view" {
            if r.chance(3, 4) {
                files.insert("data.bin".into(), Node::Bytes(vec![8, 0, 0, 0, 4, 0, 4, 0, 4, 0, 0, 0]));
            }
        }
        let mut sys = Sys::random(&mut r);
        let mut faults = vec![];
        let mut changes = vec![];
        let mut diskcap = None;
        let to_file = out.is_some();
        match r.below(10) {
            // nothing but short and interrupted calls
            0 | 1 => {
                sys.frag = *r.pick(&[30, 60, 95]);
                sys.eintr = *r.pick(&[0, 10, 40]);
            }
            k => {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    let c = match k {
                        2 => "openin",
                        3 => "readin",
                        4 => if to_file { "openout" } else { "stdout" },
                        5 | 6 => if to_file { "writeout" } else { "stdout" },
                        7 => "die",
                        8 => *r.pick(&["statin", "stderr", "close"]),
                        _ => *r.pick(&["openin", "readin", "statin", "openout", "writeout", "stdout", "stderr", "close", "die"]),
                    };
                    faults.push(fault(&mut r, c, files.len()));
                }
                if k >= 4 && r.chance(1, 4) {
                    diskcap = Some(*r.pick(&[0u64, 1, 100, 1000, 4096, 20_000]) + r.below(50) as u64);
                }
                if r.chance(1, 8) {
                    let names: Vec<String> = files.keys().cloned().collect();
                    let f = r.pick(&names).clone();
                    let n = match r.below(3) {
                        0 => None,
                        1 => Some(Node::Dir),
                        _ => {
                            let mut b = files[&f].bytes().to_vec();
                            b.push(0xc3);
                            Some(Node::Bytes(b))
                        }
                    };
                    changes.push((f, n));
                }
            }
        }
        let prior = match r.below(4) {
            0 => None,
            1 => Some(Node::Text(String::new())),
            2 => Some(Node::Text("// what was here before\n".repeat(r.range(1, 4000)))),
            _ => Some(Node::Text("// what was here before\n".into())),
        };
        Case { files, args, prior: if to_file { prior } else { None }, out, changes, sys, faults, diskcap }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        // what a user expects
        let quiet = Setup { args: c.args.clone(), sys: Sys::quiet(), ..Default::default() };
        let w = World::new(&c.files);
        let want = w.run(&quiet);
        want.count(st);
        let want_out = c.out.as_ref().and_then(|o| w.get(o));
        if let Some((sig, text)) = want.broke_down() {
            return viol(sig, format!("{text}\nwithout any fault"));
        }
        st.hit(&format!("{}_{}", c.args[0], if want.ok() { "ok" } else { "refused" }));
        if let (true, Some(o)) = (want.ok(), &want_out) {
            // its own output may be wrong, but not incomplete
            let mains: Vec<String> = c.args.iter().filter(|a| a.ends_with(".fbs")).cloned().collect();
            let names = input::declared(&c.files, &mains);
            st.add("declarations_looked_for", names.len() as u64);
            if let Some(n) = input::missing(&names, o) {
                return viol("incomplete-output", format!("success, but {n} is not in the output"));
            }
        }
        let opened: Vec<String> = want.trace.iter().filter_map(|l| l.strip_prefix("open openin ")).filter_map(|l| l.rsplit_once(' ')).map(|l| l.0.to_string()).collect();
        // what happens
        let w = World::new(&c.files);
        let mut changed = false;
        for (p, n) in &c.changes {
            w.remove(p);
            if let Some(n) = n {
                w.put(p, n);
            }
            if opened.contains(p) {
                changed = true;
                st.fault("input_replaced_or_removed");
            }
        }
        if let (Some(o), Some(p)) = (&c.out, &c.prior) {
            w.put(o, p);
        }
        let before = w.all();
        let got = w.run(&Setup { args: c.args.clone(), sys: c.sys.clone(), faults: &c.faults, diskcap: c.diskcap, ..Default::default() });
        got.count(st);
        let after = w.all();
        st.obs(&after);
        st.path(simdrv::hash_of((&c.args[0], got.path())));
        let fired = got.fired();
        st.state(simdrv::hash_of((&c.args[0], &got.code, &fired, want.ok())));
        let what = || {
            let mut s: Vec<String> = fired.iter().map(|f| format!("{} {}", f.0, f.1)).collect();
            if changed {
                s.push("an input was replaced or removed".into());
            }
            if s.is_empty() {
                "only short and interrupted calls".into()
            } else {
                s.join(", ")
            }
        };
        let hard_in = got.fired_class(IN) || changed;
        let hard_out = got.fired_class(OUT);
        // view puts its messages on standard output
        let view = c.args[0] == "view";
        let lenient = got.fired_class(&["stderr"]) || (view && got.fired_class(&["stdout"]));
        let soft_fail = got.fired_class(&["statin", "closein", "closeout"]);
        if let Some((sig, text)) = got.broke_down() {
            // where messages cannot be written, how it fails is not the question
            if !(lenient && (sig == "panic" || got.aborted())) {
                return viol(sig, format!("{text}\nafter: {}", what()));
            }
        }
        for f in c.files.keys() {
            if Some(f) != c.out.as_ref() && after.get(f) != before.get(f) {
                return viol("input-changed", format!("{f} was changed"));
            }
        }
        let out_now = c.out.as_ref().and_then(|o| after.get(o)).cloned();
        let out_before = c.out.as_ref().and_then(|o| before.get(o)).cloned();
        if got.killed() {
            if !got.opened_for_writing() && out_now != out_before {
                return viol("output-destroyed", "killed before it opened its output, but the output has changed".to_string());
            }
        } else if got.ok() {
            if hard_in || hard_out {
                return viol("false-success", format!("success was reported in spite of: {}", what()));
            }
            if !want.ok() {
                return viol("false-success", format!("success was reported, but without faults: {}: {}", want.verdict(), want.err_text()));
            }
            if out_now != want_out {
                return viol("wrong-output", format!("success, but the output is not the complete one; {}", first_difference(&out_now.unwrap_or_default(), &want_out.unwrap_or_default())));
            }
            if got.stdout != want.stdout {
                return viol("wrong-output", format!("success, but standard output is not the complete one; {}", first_difference(&got.stdout, &want.stdout)));
            }
            if !lenient && got.stderr != want.stderr {
                return viol("wrong-messages", first_difference(&got.stderr, &want.stderr));
            }
        } else {
            if got.stderr.is_empty() && !lenient && !(view && !got.stdout.is_empty()) {
                return viol("silent-failure", format!("{} without a message after: {}", got.verdict(), what()));
            }
            let excused = hard_in || hard_out || lenient || soft_fail;
            if !excused && want.ok() {
                return viol("false-failure", format!("{} ({}), although there were {}", got.verdict(), got.err_text(), what()));
            }
            if !excused && (got.code != want.code || got.stderr != want.stderr || got.stdout != want.stdout) {
                return viol("wrong-messages", format!("{}; {}", got.verdict(), first_difference(&got.stderr, &want.stderr)));
            }
            if (hard_in || !want.ok() || !got.opened_for_writing()) && out_now != out_before {
                return viol("output-destroyed", format!("the command failed before it had anything to write, but the existing output was changed, after: {}", what()));
            }
        }
        // with the trouble over, the same command works
        for (p, n) in &c.files {
            if c.changes.iter().any(|x| x.0 == *p) {
                let _ = std::fs::remove_dir(w.path(p));
                w.put(p, n);
            }
        }
        let again = w.run(&quiet);
        again.count(st);
        let out_again = c.out.as_ref().and_then(|o| w.get(o));
        let out_want = if want.ok() { want_out } else { out_now };
        if again.code != want.code || again.stdout != want.stdout || again.stderr != want.stderr || out_again != out_want {
            return viol("no-recovery", format!("the same command without faults afterwards: {} instead of {}; {}", again.verdict(), want.verdict(), first_difference(&out_again.unwrap_or_default(), &out_want.unwrap_or_default())));
        }
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mut put = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
                v.push(d);
            }
        };
        for i in 0..c.faults.len() {
            put(&|d| {
                d.faults.remove(i);
            });
        }
        for i in 0..c.changes.len() {
            put(&|d| {
                d.changes.remove(i);
            });
        }
        put(&|d| d.diskcap = None);
        put(&|d| d.prior = None);
        put(&|d| d.sys = Sys::quiet());
        put(&|d| d.sys.frag = 0);
        put(&|d| d.sys.eintr = 0);
        for f in input::shrink(&c.files, "data.bin") {
            put(&|d| d.files = f.clone());
        }
        for i in 0..c.faults.len() {
            put(&|d| d.faults[i].nth /= 2);
        }
        v
    }
    fn rule(&self) -> &'static str {
        "distinct sequences of system calls, faults and results (without sizes), per subcommand"
    }
    fn describe(&self, c: &Case) -> String {
        let mut s = format!("planus {}\n", c.args.join(" "));
        for f in &c.faults {
            s += &format!("fault {}\n", f.describe());
        }
        if let Some(k) = c.diskcap {
            s += &format!("the disk takes {k} more bytes\n");
        }
        for (p, n) in &c.changes {
            s += &format!("{p} {}\n", if n.is_none() { "vanished" } else { "was replaced" });
        }
        s += &format!("{} % of calls short, {} % interrupted; output file {}\n", c.sys.frag, c.sys.eintr, match &c.prior {
            None => "does not exist".to_string(),
            Some(n) => format!("has {} bytes", n.bytes().len()),
        });
        s + &input::show(&c.files)
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["the program planus (crates/planus-cli and all it uses), built from the working tree"],
            "simulated": ["open, read, write, close, stat of files in a scratch directory and of standard output: failures, short and interrupted calls, full disk, death at a call", "rustfmt (well-behaved here)", "clock, process id, random bytes, hash seeds, heap addresses"],
            "stub": ["the terminal: there is none, so view ends with an error"],
            "not_simulated": ["errors of close (they cannot be seen through std)", "failing standard error (only: never success instead of failure, and no hang)"],
        })
    }
}
