//! C16: planus view gives the terminal back.
use crate::os::{Fault, Files, Node, Setup, Sys, World};
use serde::{Deserialize, Serialize};
use simcore::{encode, gen, rng::Rng, schema::Ty};
use simdrv::{viol, Stats, Viol};

pub struct View;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    files: Files,
    args: Vec<String>,
    size: (u16, u16),
    events: Vec<(i32, i32, i32)>,
    sys: Sys,
    faults: Vec<Fault>,
    diskcap: Option<u64>,
}

/// What a terminal makes of the bytes it gets.
#[derive(Default)]
struct Screen {
    raw: bool,
    alt: bool,
    hidden: bool,
    seq: Vec<u8>,
    /// text that is on the main screen
    text: Vec<u8>,
    /// the cursor was moved about on the main screen
    scribbled: bool,
    entered: u32,
}
impl Screen {
    fn feed(&mut self, b: u8) {
        if self.seq.is_empty() {
            if b == 27 {
                self.seq.push(b);
            } else if !self.alt {
                self.text.push(b);
            }
            return;
        }
        if b == 27 {
            // what was begun is given up
            self.seq.truncate(1);
            return;
        }
        self.seq.push(b);
        if self.seq.len() == 2 {
            if b != b'[' {
                self.seq.clear();
            }
            return;
        }
        if !(0x40..0x7f).contains(&b) {
            return;
        }
        match &self.seq[2..] {
            b"?1049h" => {
                self.alt = true;
                self.entered += 1;
            }
            b"?1049l" => self.alt = false,
            b"?25h" => self.hidden = false,
            b"?25l" => self.hidden = true,
            s if !self.alt && matches!(s.last(), Some(b'H' | b'J' | b'K' | b'f')) => self.scribbled = true,
            _ => (),
        }
        self.seq.clear();
    }
}

fn events(r: &mut Rng) -> Vec<(i32, i32, i32)> {
    let n = *r.pick(&[0, 1, 3, 10, 40]);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match r.below(12) {
            0 => (2, r.range(1, 200) as i32, r.range(1, 70) as i32),
            1 => (3, 0, 0),
            2..=4 => (1, r.below(16) as i32, *r.pick(&[0, 0, 0, 1, 2])),
            _ => (0, *r.pick(b"hjklgGxfbcC?tTis0123456789abcdefn/:q") as i32, if r.chance(1, 10) { 2 } else { 0 }),
        });
    }
    if r.chance(1, 2) {
        v.push((0, b'q' as i32, 0));
    }
    // whatever is open, this gets out
    v.push((0, b'c' as i32, 2));
    v
}
fn tty_fault(r: &mut Rng, evs: usize) -> Fault {
    use libc::*;
    let f = |class: &str, nth: usize, act: &str, arg: i32| Fault { class: class.into(), nth: nth as u32, act: act.into(), arg };
    let e = *r.pick(&[EIO, ENOTTY, ENXIO, EBADF, EPERM]);
    let some = if r.chance(1, 2) { r.below(4) } else { r.below(evs + 4) };
    match r.below(10) {
        0 => f("rawon", 0, "err", e),
        1 => f("rawoff", r.below(2), "err", e),
        2 => f("ttysize", some, "err", e),
        3 => f("ttypoll", some, "err", e),
        4 => f("ttyread", some, "err", e),
        _ => {
            let k = if r.chance(1, 2) { r.below(4) } else { r.below(40 + evs * 4) };
            match r.below(5) {
                0 => f("stdout", k, "zero", 0),
                1 => f("stdout", k, "short", 1 + r.below(30) as i32),
                _ => f("stdout", k, "err", *r.pick(&[EIO, EPIPE, ENXIO, EAGAIN, ENOSPC])),
            }
        }
    }
}

impl simdrv::Check for View {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C16"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" {
            (3_000_000, 800)
        } else {
            (20_000, 45)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut r = Rng::new(seed);
        let s = gen::random("rv", r.u64() % 1_000_000, r.below(4));
        let t = r.below(s.tables.len());
        let (mut strings, mut old) = (vec![], vec![]);
        let budget = *r.pick(&[3, 15, 40]);
        let v = gen::ValGen { s: &s, rng: &mut r, strings: &mut strings, old: &mut old, budget, present: 80, max_len: 8, reuse: 20, depth: 0 }.gen(&Ty::Table(t));
        let style = encode::Style::random(&mut r);
        let data = encode::encode(&s, t, &v, None, &mut r, style);
        let mut files = Files::new();
        let ns = s.tables[t].ns;
        let mut main = String::new();
        for (k, (name, text)) in s.emit().into_iter().enumerate() {
            if k == ns {
                main = name.clone();
            }
            files.insert(name, Node::Text(text));
        }
        files.insert("data.bin".into(), Node::Bytes(data));
        let mut path = s.namespaces[ns].clone();
        path.push(s.tables[t].name.clone());
        let mut events = events(&mut r);
        let mut sys = Sys::random(&mut r);
        let mut faults = vec![];
        let mut diskcap = None;
        match r.below(8) {
            0 => (),
            1 => {
                sys.frag = *r.pick(&[30, 60, 95]);
                sys.eintr = *r.pick(&[0, 10, 40]);
            }
            2 => {
                let at = r.below(events.len());
                events.insert(at, (9, 0, 0));
                if r.chance(1, 4) {
                    faults.push(tty_fault(&mut r, events.len()));
                }
            }
            3 => {
                let k = *r.pick(&[50usize, 5000, 50_000]);
                diskcap = Some(r.below(k) as u64);
            }
            _ => {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                    faults.push(tty_fault(&mut r, events.len()));
                }
            }
        }
        let size = *r.pick(&[(80, 24), (120, 40), (200, 60), (30, 8), (5, 3), (1, 1)]);
        Case { files, args: ["view", &main, &path.join("."), "data.bin"].map(String::from).to_vec(), size, events, sys, faults, diskcap }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let w = World::new(&c.files);
        let got = w.run(&Setup {
            args: c.args.clone(),
            sys: c.sys.clone(),
            faults: &c.faults,
            diskcap: c.diskcap,
            tty: Some((c.size.0, c.size.1, &c.events)),
            ..Default::default()
        });
        got.count(st);
        if !got.trace.iter().any(|l| l.starts_with("tty ") || l.starts_with("FAULT tty") || l.starts_with("FAULT raw")) {
            if got.ok() || got.broke_down().is_some() {
                return viol("no-session", format!("{} without a session: {}", got.verdict(), got.err_text()));
            }
            // planus does not take the schema: not the question here
            st.hit("schema_refused");
            return Ok(());
        }
        let mut sc = Screen::default();
        let (mut at, mut eat) = (0, 0);
        let mut early_text = false;
        // messages that were printed where nobody sees them, and where the user sees them
        let (mut mixed, mut seen) = (None, String::new());
        // trouble after the last user action
        let mut late = 0;
        let (mut restoring, mut in_restoring) = (false, false);
        let (mut panicked, mut reads) = (false, 0);
        for l in &got.trace {
            let f: Vec<&str> = l.split(' ').collect();
            match f[..] {
                ["tty", "rawon"] => {
                    sc.raw = true;
                    st.hit("sessions");
                }
                ["tty", "rawoff"] => {
                    sc.raw = false;
                    restoring = true;
                }
                ["tty", "ttyread"] => {
                    if c.events.get(reads).is_some_and(|e| e.0 == 9) {
                        panicked = true;
                        st.fault("panic_in_the_viewer");
                    }
                    reads += 1;
                    late = 0;
                    st.hit("user_actions");
                }
                ["write", "stdout", _, n] => {
                    for _ in 0..n.parse::<i64>().unwrap().max(0) {
                        sc.feed(got.stdout[at]);
                        at += 1;
                    }
                    early_text |= sc.entered == 0 && !sc.text.is_empty();
                }
                ["write", "stderr", _, n] => {
                    let n = n.parse::<i64>().unwrap().max(0) as usize;
                    let m = String::from_utf8_lossy(&got.stderr[eat..eat + n]).into_owned();
                    if sc.raw || sc.alt {
                        mixed = Some(m);
                    } else {
                        seen += &m;
                    }
                    eat += n;
                }
                ["FAULT", "rawoff", ..] => restoring = true,
                ["FAULT", "stdout", ..] => {
                    late += 1;
                    in_restoring |= restoring;
                }
                _ => (),
            }
        }
        assert!(at == got.stdout.len() && eat == got.stderr.len(), "output that is not in the trace: {at} of {}, {eat} of {}", got.stdout.len(), got.stderr.len());
        let fired = got.fired();
        let what = || {
            let mut s: Vec<String> = fired.iter().map(|f| format!("{} {}", f.0, f.1)).collect();
            if panicked {
                s.push("a panic in the viewer".into());
            }
            if s.is_empty() {
                "nothing went wrong".into()
            } else {
                s.join(", ")
            }
        };
        st.path(simdrv::hash_of(got.path()));
        st.state(simdrv::hash_of((&fired, got.code, sc.raw, sc.alt, sc.hidden, panicked, reads)));
        let outs = fired.iter().filter(|f| f.0 == "stdout").count();
        let raw_refused = got.fired_class(&["rawoff"]);
        // the terminal itself did not take what would have restored it
        let refused = outs > 1 || in_restoring || fired.iter().any(|f| f.1.contains("restoring") || f.1.contains("full"));
        if let Some((sig, text)) = got.broke_down() {
            // the message itself goes to standard output
            let unprinted = sig == "panic" && outs > 0 && text.contains("failed printing to stdout");
            let excused = unprinted || (sig == "panic" && (panicked || refused)) || (got.aborted() && refused && panicked);
            if !excused {
                return viol(sig, format!("{text}\nafter: {}", what()));
            }
        }
        let session = got.trace.iter().any(|l| l == "tty rawon");
        if sc.raw && !raw_refused {
            return viol("raw-mode-left-on", format!("planus ended ({}) with the terminal in raw mode, after: {}", got.verdict(), what()));
        }
        if (sc.alt || sc.hidden) && !refused {
            let s = if sc.alt { "on the alternate screen" } else { "without a cursor" };
            return viol("screen-not-restored", format!("planus ended ({}) with the terminal {s}, after: {}", got.verdict(), what()));
        }
        if early_text || sc.scribbled {
            return viol("scribbled", format!("planus drew on the main screen, after: {}", what()));
        }
        let trouble = !fired.is_empty() || panicked;
        if !trouble {
            if !got.ok() {
                return viol("false-failure", format!("{} ({}), although nothing went wrong", got.verdict(), got.err_text()));
            }
            if !session || !sc.text.is_empty() || !got.stderr.is_empty() {
                return viol("noise", format!("left on the screen after a session without trouble: {:?}{:?}", String::from_utf8_lossy(&sc.text), got.err_text()));
            }
            return Ok(());
        }
        if got.ok() {
            // the session was over, and the terminal is as it was
            if !panicked && late == fired.len() {
                return Ok(());
            }
            return viol("false-success", format!("success was reported in spite of: {}", what()));
        }
        if refused || raw_refused {
            st.hit("terminal_refused_to_be_restored");
            return Ok(());
        }
        if seen.is_empty() && sc.text.is_empty() {
            return match mixed {
                None => viol("silent-failure", format!("{} without a message after: {}", got.verdict(), what())),
                Some(m) => viol("message-lost", format!("{m:?} was printed while the terminal still belonged to the viewer, after: {}", what())),
            };
        }
        if panicked && !seen.contains("simulated mistake") {
            return viol("message-lost", format!("the message of the panic cannot be seen: {}", got.err_text()));
        }
        Ok(())
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut v = vec![];
        let mut put = |f: &dyn Fn(&mut Case)| {
            let mut d = c.clone();
            f(&mut d);
            if serde_json::to_string(&d).unwrap() != serde_json::to_string(c).unwrap() {
                v.push(d);
            }
        };
        for i in 0..c.faults.len() {
            put(&|d| {
                d.faults.remove(i);
            });
        }
        let n = c.events.len();
        let mut size = n;
        while size > 0 {
            for i in (0..n.saturating_sub(1)).step_by(size) {
                put(&|d| {
                    d.events.drain(i..(i + size).min(n - 1));
                });
            }
            size /= 2;
        }
        put(&|d| d.diskcap = None);
        put(&|d| d.sys = Sys::quiet());
        put(&|d| d.size = (80, 24));
        for i in 0..c.faults.len() {
            put(&|d| d.faults[i].nth /= 2);
            put(&|d| d.faults[i].nth -= (d.faults[i].nth > 0) as u32);
        }
        v
    }
    fn rule(&self) -> &'static str {
        "distinct sequences of terminal calls, system calls, faults and results (without sizes)"
    }
    fn describe(&self, c: &Case) -> String {
        let mut s = format!("planus {} in {} x {}\n", c.args.join(" "), c.size.0, c.size.1);
        for e in &c.events {
            s += &match *e {
                (0, k, m) => format!("key {:?} {}\n", char::from_u32(k as u32).unwrap(), if m == 2 { "with ctrl" } else { "" }),
                (1, k, m) => format!("special key {k} modifiers {m}\n"),
                (2, w, h) => format!("resize to {w} x {h}\n"),
                (9, ..) => "the viewer panics\n".to_string(),
                _ => "focus lost\n".to_string(),
            };
        }
        for f in &c.faults {
            s += &format!("fault {}\n", f.describe());
        }
        if let Some(k) = c.diskcap {
            s += &format!("after {k} bytes the terminal takes no more\n");
        }
        s + &format!("{} % of calls short, {} % interrupted\n", c.sys.frag, c.sys.eintr)
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({
            "real": ["the program planus (crates/planus-cli, planus-inspector and all they use), ratatui, the output half of crossterm"],
            "simulated": ["the terminal: raw mode, size, events, what it shows; failing, short and interrupted writes to it", "clock, process id, random bytes, hash seeds, heap addresses"],
            "stub": ["the input half of crossterm (parsing of key codes)", "a mistake of the viewer: a panic in the call that reads an event"],
        })
    }
}
