//! C12: code is published only if rustfmt really formatted it.
use crate::{
    input,
    os::{first_difference, Fault, Files, Node, Setup, Sys, World},
};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{viol, Stats, Viol};

pub struct Children;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Files,
    main: String,
    format: bool,
    prior: Option<Node>,
    sys: Sys,
    faults: Vec<Fault>,
    children: Vec<String>,
}

/// What a child does: R<n> read n bytes, A read all, O<n> write n bytes of the result (O: all of
/// it), S<n> copy input to output in pieces, E<n> write n bytes to standard error, C<fd> close, X<n>
/// exit, K<n> die of a signal.
fn good(r: &mut Rng) -> String {
    let noise = |r: &mut Rng| match r.below(6) {
        0 => format!("E{} ", *r.pick(&[1usize, 40, 4096, 5000, 70_000])),
        _ => String::new(),
    };
    let mut s = noise(r);
    match r.below(5) {
        0 => {
            // a filter
            s += &format!("S{} ", *r.pick(&[1usize << 20, 4096, 1000, 100]));
        }
        1 => {
            s += &format!("R{} ", r.below(20_000));
            s += &noise(r);
            s += "A ";
            if r.chance(1, 2) {
                s += "C0 ";
            }
            s += "O ";
        }
        2 => {
            // starts to write before it has read everything
            s += &format!("R{} O{} A O ", r.below(5000), r.below(9000));
        }
        _ => s += "A O ",
    }
    s += &noise(r);
    if r.chance(1, 6) {
        s += "C1 ";
    }
    if r.chance(1, 6) {
        s += "C2 ";
    }
    s + "X0"
}
fn bad(r: &mut Rng) -> String {
    let end = match r.below(4) {
        0 => format!("K{}", *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT, libc::SIGPIPE])),
        _ => format!("X{}", *r.pick(&[1, 2, 101, 127, 255])),
    };
    let noise = if r.chance(1, 2) { format!("E{} ", *r.pick(&[1usize, 60, 4097, 70_000])) } else { String::new() };
    match r.below(9) {
        0 => end,
        1 => format!("{noise}{end}"),
        2 => format!("R{} {noise}{end}", r.below(30_000)),
        3 => format!("A {noise}{end}"),
        4 => format!("A O{} {noise}{end}", r.below(20_000)),
        5 => format!("A O {noise}{end}"),
        // stops listening
        6 => format!("R{} C0 {noise}O {}", r.below(4000), if r.chance(1, 2) { "X0" } else { &end }),
        7 => format!("R{} X0", r.below(4000)),
        // says nothing
        _ => format!("A C1 {noise}{}", if r.chance(1, 2) { "X0" } else { &end }),
    }
}
fn probe(r: &mut Rng, fail: bool) -> String {
    if fail {
        match r.below(3) {
            0 => format!("K{}", *r.pick(&[libc::SIGKILL, libc::SIGSEGV])),
            1 => "O100 E50 X1".into(),
            _ => format!("X{}", *r.pick(&[1, 2, 127, 126])),
        }
    } else {
        (*r.pick(&["X0", "O100 X0", "E20 O20 X0", "A X0", "C1 C2 X0"])).into()
    }
}

impl simdrv::Check for Children {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C12"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" {
            (2_000_000, 800)
        } else {
            (20_000, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let (files, main) = input::valid(&mut r);
        // which of the four children misbehaves
        let worst = if r.chance(1, 2) { Some(r.below(4)) } else { None };
        let children: Vec<String> = (0..6)
            .map(|i| {
                let fail = worst == Some(i) || (worst.is_some() && r.chance(1, 20));
                match (i % 2, fail) {
                    (0, f) => probe(&mut r, f),
                    (_, true) => bad(&mut r),
                    _ => good(&mut r),
                }
            })
            .collect();
        let mut faults = vec![];
        if r.chance(1, 4) {
            use libc::*;
            let (class, nth, e) = match r.below(4) {
                0 | 1 => ("spawn", r.below(4), *r.pick(&[ENOENT, EACCES, ENOMEM, EAGAIN, ENOEXEC, E2BIG])),
                2 => ("pipe", r.below(6), *r.pick(&[EMFILE, ENFILE])),
                _ => ("opennull", r.below(6), *r.pick(&[EMFILE, ENFILE, ENOENT])),
            };
            faults.push(Fault { class: class.into(), nth: nth as u32, act: "err".into(), arg: e });
        }
        let prior = match r.below(3) {
            0 => None,
            _ => Some(Node::Text("// what was here before\n".repeat(r.range(1, 100)))),
        };
        Case { files, main, format: !r.chance(1, 30), prior, sys: Sys::random(&mut r), faults, children }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let cmd = |format: bool| -> Vec<String> { ["rust", "-o", "out.rs", "--format", if format { "true" } else { "false" }, &c.main].iter().map(|x| x.to_string()).collect() };
        // the code before formatting, for which no child may be needed
        let w = World::new(&c.files);
        let dead = vec!["X1".to_string(); 8];
        let plain = w.run(&Setup { args: cmd(false), sys: Sys::quiet(), children: &dead, ..Default::default() });
        plain.count(st);
        let Some(code) = w.get("out.rs").filter(|_| plain.ok()) else {
            if plain.broke_down().is_some() || !plain.kids.is_empty() {
                return viol("unformatted", format!("{} with formatting off and no rustfmt: {}", plain.verdict(), plain.err_text()));
            }
            st.hit("schema_refused");
            return Ok(());
        };
        if !plain.kids.is_empty() {
            return viol("unformatted", "a child was started with formatting off".to_string());
        }
        let w = World::new(&c.files);
        if let Some(p) = &c.prior {
            w.put("out.rs", p);
        }
        let before = w.get("out.rs");
        let got = w.run(&Setup { args: cmd(c.format), sys: c.sys.clone(), faults: &c.faults, children: &c.children, ..Default::default() });
        got.count(st);
        let out = w.get("out.rs");
        st.obs((&out, got.kids.len()));
        st.path(got.path());
        st.max("bytes_to_format", code.len() as u64);
        for k in &got.kids {
            st.hit(match (k.format, k.status & 127, k.status >> 8) {
                (false, 0, 0) => "probe_ok",
                (false, _, _) => "probe_failed",
                (true, 0, 0) => "rustfmt_exit_0",
                (true, 0, _) => "rustfmt_exit_nonzero",
                _ => "rustfmt_killed",
            });
            if k.epipe {
                st.fault("EPIPE_to_planus");
            }
            st.max("child_bytes_out", k.output.len() as u64);
        }
        if let Some((sig, text)) = got.broke_down() {
            return viol(sig, text);
        }
        let formats: Vec<_> = got.kids.iter().filter(|k| k.format).collect();
        let well = got.kids.iter().all(|k| k.status == 0 && !k.live && !k.epipe) && !got.fired_class(&["spawn", "pipe", "opennull"]);
        let noise = formats.iter().enumerate().any(|(i, _)| c.children.get(2 * i + 1).is_some_and(|s| s.contains('E')));
        st.state(simdrv::hash_of((well, got.code, got.kids.iter().map(|k| (k.format, k.status, k.epipe, k.input.len() == code.len())).collect::<Vec<_>>(), got.fired())));
        if !c.format {
            if !got.kids.is_empty() || !got.ok() || out.as_ref() != Some(&code) {
                return viol("unformatted", "with formatting off, the output depends on rustfmt".to_string());
            }
            return Ok(());
        }
        if got.ok() {
            if !well || formats.is_empty() {
                let k: Vec<String> = got.kids.iter().map(|k| format!("{}: status {:#x}{}", if k.format { "rustfmt" } else { "probe" }, k.status, if k.epipe { ", did not take all" } else { "" })).collect();
                return viol("false-success", format!("success, although rustfmt did not do its job: {}; {:?}", k.join("; "), got.fired()));
            }
            let mut text = code.clone();
            for (i, k) in formats.iter().enumerate() {
                if !text.starts_with(&k.input) {
                    return viol("wrong-input", format!("run {i} of rustfmt got something else than the code; {}", first_difference(&k.input, &text)));
                }
                // (a child that does not read what is waiting for it goes unnoticed)
                if k.input.len() != text.len() && c.children.get(2 * i + 1).is_none_or(|s| s.contains('A') || s.contains('S')) {
                    return viol("wrong-input", format!("run {i} of rustfmt got only {} of {} bytes", k.input.len(), text.len()));
                }
                text = String::from_utf8_lossy(&k.output).into_owned().into_bytes();
            }
            st.hit("published");
            if out.as_ref() != Some(&text) {
                return viol("wrong-output", format!("the output is not what rustfmt returned; {}", first_difference(&out.unwrap_or_default(), &text)));
            }
            if noise && got.stderr.is_empty() {
                return viol("noise-hidden", "what rustfmt said on standard error was not reported".to_string());
            }
            if !noise && !got.stderr.is_empty() {
                return viol("noise-invented", format!("messages although all went well: {}", got.err_text()));
            }
        } else {
            st.hit("refused_to_publish");
            if well {
                return viol("false-failure", format!("{} although every run of rustfmt succeeded: {}", got.verdict(), got.err_text()));
            }
            if got.stderr.is_empty() {
                return viol("silent-failure", format!("{} without an explanation", got.verdict()));
            }
            if out != before || got.opened_for_writing() {
                return viol("output-destroyed", "rustfmt failed, but the existing output file was touched".to_string());
            }
        }
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mut put = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
                v.push(d);
            }
        };
        for i in 0..c.faults.len() {
            put(&|d| {
                d.faults.remove(i);
            });
        }
        for i in 0..c.children.len() {
            put(&|d| d.children[i] = if i % 2 == 0 { "X0" } else { "A O X0" }.into());
            for j in 0..c.children[i].split(' ').count() {
                put(&|d| {
                    let mut w: Vec<&str> = c.children[i].split(' ').collect();
                    if w.len() > 1 {
                        w.remove(j);
                    }
                    d.children[i] = w.join(" ");
                });
            }
        }
        put(&|d| d.prior = None);
        put(&|d| d.sys = Sys::quiet());
        put(&|d| {
            d.sys = Sys { cap: d.sys.cap, ..Sys::quiet() };
        });
        put(&|d| d.sys.frag = 0);
        put(&|d| d.sys.eintr = 0);
        for f in input::shrink(&c.files, &c.main) {
            put(&|d| d.files = f.clone());
        }
        v
    }
    fn rule(&self) -> &'static str {
        "distinct interleavings of system calls of planus with steps of its children, with faults and results (without sizes)"
    }
    fn describe(&self, c: &Case) -> String {
        let mut s = format!("planus rust -o out.rs --format {} {}\n", c.format, c.main);
        for (i, k) in c.children.iter().take(4).enumerate() {
            s += &format!("child {i} ({}): {k}\n", if i % 2 == 0 { "rustfmt --version" } else { "rustfmt" });
        }
        for f in &c.faults {
            s += &format!("fault {}\n", f.describe());
        }
        s += &format!("pipes of {} bytes, {} % of calls short, {} % interrupted\n", c.sys.cap, c.sys.frag, c.sys.eintr);
        s + &input::show(&c.files)
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["the program planus (crates/planus-cli and all it uses), built from the working tree, its threads released one at a time"],
            "simulated": ["rustfmt: a script of reads, writes, closes and an end", "pipes with their capacity, poll, wait", "who goes on at every step", "clock, process id, random bytes, hash seeds, heap addresses"],
            "stub": ["rustfmt does not format: what it returns is its input framed, or copied"],
        })
    }
}
