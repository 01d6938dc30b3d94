//! C08: histories of operations on array cursors, cut off anywhere.
use array_init_cursor::Cursor;
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use simdrv::{hash_of, viol, Check, Stats, Viol};
use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX: usize = 8;

// ---- elements ------------------------------------------------------------------------------
thread_local! {
    /// how often each element was dropped
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}
trait Elem: Sized {
    const NAME: &'static str;
    /// does the drop count tell anything?
    const COUNTED: bool;
    fn make(id: u32) -> Self;
    /// None: cannot tell (a type without content)
    fn id(&self) -> Option<u32>;
}
fn dropped(id: u32) {
    DROPS.with(|d| d.borrow_mut()[id as usize] += 1)
}
struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        dropped(self.0)
    }
}
impl Elem for Tok {
    const NAME: &'static str = "4 bytes, counted drops";
    const COUNTED: bool = true;
    fn make(id: u32) -> Self {
        Tok(id)
    }
    fn id(&self) -> Option<u32> {
        Some(self.0)
    }
}
struct Boxed(Box<u32>);
impl Drop for Boxed {
    fn drop(&mut self) {
        dropped(*self.0)
    }
}
impl Elem for Boxed {
    const NAME: &'static str = "box, counted drops";
    const COUNTED: bool = true;
    fn make(id: u32) -> Self {
        Boxed(Box::new(id))
    }
    fn id(&self) -> Option<u32> {
        Some(*self.0)
    }
}
#[repr(align(16))]
struct Big(u32, #[allow(dead_code)] [u64; 3]);
impl Drop for Big {
    fn drop(&mut self) {
        dropped(self.0)
    }
}
impl Elem for Big {
    const NAME: &'static str = "48 bytes, 16-aligned, counted drops";
    const COUNTED: bool = true;
    fn make(id: u32) -> Self {
        Big(id, [id as u64; 3])
    }
    fn id(&self) -> Option<u32> {
        Some(self.0)
    }
}
impl Elem for u8 {
    const NAME: &'static str = "byte";
    const COUNTED: bool = false;
    fn make(id: u32) -> Self {
        id as u8
    }
    fn id(&self) -> Option<u32> {
        Some(*self as u32)
    }
}
thread_local! {
    static NOTHINGS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
struct Nothing;
impl Drop for Nothing {
    fn drop(&mut self) {
        NOTHINGS.with(|n| n.set(n.get() + 1))
    }
}
impl Elem for Nothing {
    const NAME: &'static str = "zero-sized, counted drops";
    const COUNTED: bool = false;
    fn make(_: u32) -> Self {
        Nothing
    }
    fn id(&self) -> Option<u32> {
        None
    }
}

// ---- cursors of every size -----------------------------------------------------------------
enum Any<'a, T> {
    C0(Cursor<'a, T, 0>),
    C1(Cursor<'a, T, 1>),
    C2(Cursor<'a, T, 2>),
    C3(Cursor<'a, T, 3>),
    C4(Cursor<'a, T, 4>),
    C5(Cursor<'a, T, 5>),
    C6(Cursor<'a, T, 6>),
    C7(Cursor<'a, T, 7>),
    C8(Cursor<'a, T, 8>),
}
use Any::*;
macro_rules! sizes {
    ($($v:ident $n:literal: $($l:literal $lv:ident $r:literal $rv:ident),*;)*) => {
        impl<'a, T: Elem> Any<'a, T> {
            fn len(&self) -> usize {
                match self { $($v(_) => $n,)* }
            }
            fn write(self, l: usize, ids: &mut dyn FnMut() -> u32) -> Any<'a, T> {
                match (self, l) {
                    $($(($v(c), $l) => $rv(c.write::<$l, $r>(std::array::from_fn(|_| T::make(ids())))),)*)*
                    _ => panic!("harness: size"),
                }
            }
            fn split(self, l: usize) -> (Any<'a, T>, Any<'a, T>) {
                match (self, l) {
                    $($(($v(c), $l) => { let (a, b) = c.split::<$l, $r>(); ($lv(a), $rv(b)) })*)*
                    _ => panic!("harness: size"),
                }
            }
            fn finish(self, ids: &mut dyn FnMut() -> u32) {
                match self { $($v(c) => c.finish(std::array::from_fn(|_| T::make(ids()))),)* }
            }
            fn assert_size(self) -> Any<'a, T> {
                match self { $($v(c) => $v(c.assert_size::<$n>()),)* }
            }
        }
        fn cursor<T>(n: usize, raw: *mut MaybeUninit<T>) -> Any<'static, T> {
            unsafe { match n {
                $($n => $v(Cursor::new(&mut *(raw as *mut [MaybeUninit<T>; $n]))),)*
                _ => panic!("harness: size"),
            } }
        }
    };
}
sizes! {
    C0 0: 0 C0 0 C0;
    C1 1: 0 C0 1 C1, 1 C1 0 C0;
    C2 2: 0 C0 2 C2, 1 C1 1 C1, 2 C2 0 C0;
    C3 3: 0 C0 3 C3, 1 C1 2 C2, 2 C2 1 C1, 3 C3 0 C0;
    C4 4: 0 C0 4 C4, 1 C1 3 C3, 2 C2 2 C2, 3 C3 1 C1, 4 C4 0 C0;
    C5 5: 0 C0 5 C5, 1 C1 4 C4, 2 C2 3 C3, 3 C3 2 C2, 4 C4 1 C1, 5 C5 0 C0;
    C6 6: 0 C0 6 C6, 1 C1 5 C5, 2 C2 4 C4, 3 C3 3 C3, 4 C4 2 C2, 5 C5 1 C1, 6 C6 0 C0;
    C7 7: 0 C0 7 C7, 1 C1 6 C6, 2 C2 5 C5, 3 C3 4 C4, 4 C4 3 C3, 5 C5 2 C2, 6 C6 1 C1, 7 C7 0 C0;
    C8 8: 0 C0 8 C8, 1 C1 7 C7, 2 C2 6 C6, 3 C3 5 C5, 4 C4 4 C4, 5 C5 3 C3, 6 C6 2 C2, 7 C7 1 C1, 8 C8 0 C0;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write { c: usize, l: usize },
    Split { c: usize, l: usize },
    Finish { c: usize },
    AssertSize { c: usize },
    /// the cursor goes out of scope
    Drop { c: usize },
    /// the cursor goes out of scope while making the values to write panics
    WritePanics { c: usize, l: usize, after: usize },
    /// a panic in the code that holds all cursors (in a child process: it may abort)
    Crash,
    Forget { c: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    elem: u8,
    n: usize,
    fill: u8,
    ops: Vec<Op>,
    /// what to do with the cursors that are left: finish them or drop them
    finish: bool,
}
const GUARD: usize = 64;

fn run<T: Elem + 'static>(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    DROPS.with(|d| {
        let mut d = d.borrow_mut();
        d.clear();
        d.resize(256, 0);
    });
    NOTHINGS.with(|n| n.set(0));
    let size = std::mem::size_of::<T>();
    // guard, array, guard
    let total = 2 * GUARD + MAX * size;
    let layout = std::alloc::Layout::from_size_align(total, 64).unwrap();
    let base = unsafe { std::alloc::alloc(layout) };
    assert!(!base.is_null());
    unsafe { base.write_bytes(c.fill, total) };
    let raw = unsafe { base.add(GUARD) } as *mut MaybeUninit<T>;
    let r = history::<T>(c, st, raw);
    let r = r.and_then(|slots| {
        // the bytes around the array are as they were
        for i in (0..GUARD).chain(GUARD + c.n * size..total) {
            let b = unsafe { base.add(i).read_volatile() };
            if b != c.fill {
                return viol("outside", format!("the byte {} bytes from the start of the array changed", i as i64 - GUARD as i64));
            }
        }
        for (i, s) in slots.iter().enumerate() {
            let e = unsafe { &*raw.add(i) };
            match s {
                Some(id) => {
                    let e = unsafe { e.assume_init_ref() };
                    if e.id().is_some_and(|x| x != if T::COUNTED { *id } else { *id & 0xff }) {
                        return viol("content", format!("element {i} holds {:?} instead of {id}", e.id()));
                    }
                }
                None => {
                    let b = unsafe { std::slice::from_raw_parts(e.as_ptr() as *const u8, size) };
                    if b.iter().any(|x| *x != c.fill) {
                        return viol("unwritten", format!("element {i} changed although nothing was written to it"));
                    }
                }
            }
        }
        let drops = |id: u32| DROPS.with(|d| d.borrow()[id as usize]);
        if T::COUNTED {
            for (i, s) in slots.iter().enumerate() {
                if let Some(id) = s {
                    if drops(*id) != 0 {
                        return viol("dropped", format!("element {i} was dropped {} times by the cursor", drops(*id)));
                    }
                }
            }
        } else if T::NAME == Nothing::NAME && NOTHINGS.with(|n| n.get()) != 0 {
            return viol("dropped", "zero-sized elements were dropped by the cursor");
        }
        // the owner of the array drops what was written
        for (i, s) in slots.iter().enumerate() {
            if s.is_some() {
                unsafe { raw.add(i).cast::<T>().drop_in_place() };
            }
        }
        if T::COUNTED {
            let n = DROPS.with(|d| d.borrow().iter().any(|x| *x > 1));
            if n {
                return viol("dropped-twice", "an element was dropped twice");
            }
        }
        st.state(hash_of((c.n, c.elem, &slots.iter().map(|s| s.is_some()).collect::<Vec<_>>()[..])));
        st.obs(format!("{slots:?}"));
        Ok(())
    });
    unsafe { std::alloc::dealloc(base, layout) };
    r
}
struct Boom;

/// Which elements are written at the end, with their ids.
fn history<T: Elem + 'static>(c: &Case, st: &mut Stats, raw: *mut MaybeUninit<T>) -> Result<Vec<Option<u32>>, Viol> {
    let mut slots: Vec<Option<u32>> = vec![None; c.n];
    let mut next = 0u32;
    let mut live: Vec<(Any<'static, T>, usize)> = vec![(cursor(c.n, raw), 0)];
    let check_len = |a: &Any<'static, T>, n: usize| if a.len() == n { Ok(()) } else { viol("length", "wrong length") };
    for op in &c.ops {
        if live.is_empty() {
            break;
        }
        let pick = |c: usize| c % live.len();
        match op {
            Op::Write { c, l } => {
                let (a, at) = live.swap_remove(pick(*c));
                let n = a.len();
                let l = l % (n + 1);
                let from = next;
                let rest = a.write(l, &mut || {
                    next += 1;
                    next - 1
                });
                for k in 0..l {
                    slots[at + k] = Some(from + k as u32);
                }
                check_len(&rest, n - l)?;
                live.push((rest, at + l));
                st.hit("write");
            }
            Op::Split { c, l } => {
                let (a, at) = live.swap_remove(pick(*c));
                let n = a.len();
                let l = l % (n + 1);
                let (x, y) = a.split(l);
                check_len(&x, l)?;
                check_len(&y, n - l)?;
                live.push((x, at));
                live.push((y, at + l));
                st.hit("split");
            }
            Op::Finish { c } => {
                let (a, at) = live.swap_remove(pick(*c));
                let n = a.len();
                let from = next;
                a.finish(&mut || {
                    next += 1;
                    next - 1
                });
                for k in 0..n {
                    slots[at + k] = Some(from + k as u32);
                }
                st.hit("finish");
            }
            Op::AssertSize { c } => {
                let (a, at) = live.swap_remove(pick(*c));
                let n = a.len();
                let a = a.assert_size();
                check_len(&a, n)?;
                live.push((a, at));
                st.hit("assert_size");
            }
            Op::Drop { c } => {
                let (a, _) = live.swap_remove(pick(*c));
                let n = a.len();
                st.fault("dropped_before_the_end");
                let r = catch_unwind(AssertUnwindSafe(move || drop(a)));
                if r.is_ok() != (n == 0) {
                    return viol(
                        if n == 0 { "drop-panics" } else { "drop-silent" },
                        format!("dropping a cursor with {n} elements missing {}", if n == 0 { "panics" } else { "goes unnoticed" }),
                    );
                }
            }
            Op::WritePanics { c, l, after } => {
                // The cursor of a write that panics is dropped by unwinding, which aborts unless
                // nothing is missing; the values made so far are dropped.
                let i = pick(*c);
                let n = live[i].0.len();
                let l = l % (n + 1);
                if l == 0 {
                    continue;
                }
                let after = (after % l) as u32;
                st.fault("panic_while_writing");
                let (a, at) = live.swap_remove(i);
                let (ended, _) = in_child(move || {
                    let mut k = 0;
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        a.write(l, &mut || {
                            k += 1;
                            if k > after {
                                std::panic::panic_any(Boom)
                            }
                            k
                        })
                    }));
                });
                if ended {
                    return viol("panic-silent", format!("a panic while writing to a cursor with {n} elements missing goes unnoticed"));
                }
                // in this process the cursor is forgotten by `in_child`
                let _ = at;
            }
            Op::Crash => {
                let missing: usize = live.iter().map(|(a, _)| a.len()).sum();
                st.fault("panic_with_cursors_alive");
                let l = std::mem::take(&mut live);
                let (ended, _) = in_child(move || {
                    let _ = catch_unwind(AssertUnwindSafe(move || {
                        let _l = l;
                        std::panic::panic_any(Boom)
                    }));
                });
                if ended != (missing == 0) {
                    return viol(
                        "crash",
                        format!("a panic with {missing} elements missing {}", if ended { "goes unnoticed" } else { "ends the process" }),
                    );
                }
            }
            Op::Forget { c } => {
                let (a, _) = live.swap_remove(pick(*c));
                std::mem::forget(a);
                st.hit("forget");
            }
        }
    }
    for (a, at) in live {
        let n = a.len();
        if c.finish {
            let from = next;
            a.finish(&mut || {
                next += 1;
                next - 1
            });
            for k in 0..n {
                slots[at + k] = Some(from + k as u32);
            }
        } else {
            let r = catch_unwind(AssertUnwindSafe(move || drop(a)));
            if r.is_ok() != (n == 0) {
                return viol("drop-silent", format!("dropping a cursor with {n} elements missing: panic is {}", r.is_err()));
            }
        }
    }
    // a history without a cut ends with everything written
    let cut = !c.finish || c.ops.iter().any(|o| matches!(o, Op::Drop { .. } | Op::WritePanics { .. } | Op::Crash | Op::Forget { .. }));
    if !cut && slots.iter().any(|s| s.is_none()) {
        return viol("model", "not everything was written");
    }
    if cut {
        st.hit("histories_cut_off");
    } else {
        st.hit("histories_completed");
    }
    Ok(slots)
}
/// Run `f` in a child process; in this one what it captured is forgotten. Did it end normally?
fn in_child(f: impl FnOnce()) -> (bool, i32) {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            f();
            libc::_exit(0);
        }
        std::mem::forget(f);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) != pid {}
        (status == 0, status)
    }
}

struct Cur;
impl Check for Cur {
    type Case = Case;
    fn property(&self) -> &'static str {
        "C08"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(5_000_000);
        if tier == "thorough" {
            (q * 50, 600)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let cuts = rng.chance(1, 2);
        let children = rng.chance(1, 40);
        let ops = (0..rng.below(14))
            .map(|_| {
                let c = rng.below(8);
                let l = rng.below(72);
                match rng.below(20) {
                    0..=6 => Op::Write { c, l },
                    7..=11 => Op::Split { c, l },
                    12..=13 => Op::AssertSize { c },
                    14 => Op::Finish { c },
                    15 if cuts => Op::Drop { c },
                    16 if cuts => Op::Forget { c },
                    17 if cuts && children => Op::WritePanics { c, l, after: rng.below(8) },
                    18 if cuts && children => Op::Crash,
                    _ => Op::Write { c, l: rng.below(3) },
                }
            })
            .collect();
        Case { elem: rng.below(5) as u8, n: rng.below(MAX + 1), fill: *rng.pick(&[0, 0xaa, 0xff, 1]), ops, finish: rng.chance(3, 4) }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let r = catch_unwind(AssertUnwindSafe(|| match c.elem {
            0 => run::<Tok>(c, st),
            1 => run::<Boxed>(c, st),
            2 => run::<Big>(c, st),
            3 => run::<u8>(c, st),
            _ => run::<Nothing>(c, st),
        }));
        st.path(hash_of((c.n, c.elem, format!("{:?}", c.ops))));
        match r {
            Ok(r) => r,
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if s.starts_with("harness") {
                    eprintln!("{s}");
                    std::process::exit(2);
                }
                viol("panic", format!("panic: {s}"))
            }
        }
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        for i in 0..c.ops.len() {
            let mut x = c.clone();
            x.ops.remove(i);
            out.push(x);
        }
        for n in 0..c.n {
            out.push(Case { n, ..c.clone() });
        }
        if c.elem != 3 {
            out.push(Case { elem: 3, ..c.clone() });
        }
        if !c.finish {
            out.push(Case { finish: true, ..c.clone() });
        }
        out
    }
    fn rule(&self) -> &'static str {
        "a seeded tree of cursor operations on an array of 0 to 8 elements of one of five types, completed or cut off; all count; distinct by array size, element type and operations; distinct states are the sets of written elements"
    }
    fn describe(&self, c: &Case) -> String {
        format!("array of {} elements ({}), {:?}, then the remaining cursors are {}", c.n, [Tok::NAME, Boxed::NAME, Big::NAME, u8::NAME, Nothing::NAME][c.elem as usize], c.ops, if c.finish { "finished" } else { "dropped" })
    }
    fn components(&self) -> serde_json::Value {
        serde_json::json!({"real": ["array-init-cursor"], "simulated": ["the array's memory", "the code using the cursor, which drops, forgets or panics"], "stub": []})
    }
}

/// Operations with sizes that do not add up must not compile: each is tried with rustc. (The
/// histories above can only contain what compiles.)
fn refused(dir: &str) -> i32 {
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let repo = concat!(env!("CARGO_MANIFEST_DIR"), "/../../../repo/crates/array-init-cursor/src/lib.rs");
    let d = std::path::Path::new(dir);
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
    let rustc = |args: &[&str]| std::process::Command::new("rustc").current_dir(d).args(args).output().expect("rustc");
    let o = rustc(&["--edition=2021", "--crate-type=rlib", "--crate-name=array_init_cursor", repo, "-o", "libarray_init_cursor.rlib"]);
    if !o.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        return 2;
    }
    let mut rng = Rng::new(simcore::rng::mix_str(base, "C08 refused"));
    // (what, code, legal)
    let mut cases: Vec<(String, bool)> = vec![];
    for k in 0..36usize {
        let n = rng.below(7);
        let l = rng.below(n + 2);
        let wrong = k % 6 != 5;
        let r = if wrong {
            // too few or too many
            let d = if k % 2 == 0 { 1 + rng.below(2) } else { 0 };
            if d > 0 { (n + d).saturating_sub(l) } else if n > l { n - l - 1 } else { n + 1 }
        } else {
            n.saturating_sub(l)
        };
        let legal = l + r == n;
        let ty = ["u8", "String", "[u64; 3]", "()"][rng.below(4)];
        let body = match k % 3 {
            0 => format!("let (a, b) = c.split::<{l}, {r}>(); std::mem::forget(a); std::mem::forget(b);"),
            1 => format!("let r = c.write::<{l}, {r}>(std::array::from_fn(|_| Default::default())); std::mem::forget(r);"),
            _ => {
                let m = if wrong { if n > 0 && k % 2 == 0 { n - 1 } else { n + 1 } } else { n };
                cases.push((format!("use array_init_cursor::Cursor; use std::mem::MaybeUninit;\nfn main() {{ let mut a: [MaybeUninit<{ty}>; {n}] = [const {{ MaybeUninit::uninit() }}; {n}]; let c = Cursor::new(&mut a); let c = c.assert_size::<{m}>(); std::mem::forget(c); }}\n"), m == n));
                continue;
            }
        };
        cases.push((format!("use array_init_cursor::Cursor; use std::mem::MaybeUninit;\nfn main() {{ let mut a: [MaybeUninit<{ty}>; {n}] = [const {{ MaybeUninit::uninit() }}; {n}]; let c = Cursor::new(&mut a); {body} }}\n"), legal));
    }
    cases.push(("use array_init_cursor::Cursor; use std::mem::MaybeUninit;\nfn main() { let mut a: [MaybeUninit<()>; 2] = [MaybeUninit::uninit(); 2]; let c = Cursor::new(&mut a); let (a, b) = c.split::<{ usize::MAX }, 3>(); std::mem::forget(a); std::mem::forget(b); }\n".into(), false));
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad: std::sync::Mutex<Vec<(usize, String)>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((code, legal)) = cases.get(i) else { return };
                let f = format!("p{i}.rs");
                std::fs::write(d.join(&f), code).unwrap();
                let o = rustc(&["--edition=2021", "--extern", "array_init_cursor=libarray_init_cursor.rlib", "-C", "debuginfo=0", &f, "-o", &format!("p{i}")]);
                if o.status.success() != *legal {
                    bad.lock().unwrap().push((i, format!("{}\n{}", if *legal { "refused although the sizes add up" } else { "compiled although the sizes do not add up" }, String::from_utf8_lossy(&o.stderr))));
                } else if !legal && !String::from_utf8_lossy(&o.stderr).contains("E0080") {
                    bad.lock().unwrap().push((i, format!("HARNESS {}", String::from_utf8_lossy(&o.stderr))));
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    if let Some((i, why)) = bad.first() {
        let verif = simdrv::verif_dir();
        let _ = std::fs::create_dir_all(verif.join("replays"));
        if why.starts_with("HARNESS") {
            eprintln!("{}\n{why}", cases[*i].0);
            return 2;
        }
        let f = verif.join(format!("replays/C08-{base}-compile-{i}.rs"));
        std::fs::write(&f, format!("// {}\n{}", why.lines().next().unwrap(), cases[*i].0)).unwrap();
        println!("{}\n{why}", cases[*i].0);
        let ev = serde_json::json!({"property": "C08", "tier": "quick", "seed": base, "level": "exploration", "wall_s": 0, "violations": 1,
            "coverage": {"evaluations": cases.len(), "distinct_nontrivial": cases.len(), "rule": "programs that must or must not compile", "samples": [cases[*i].0]}});
        let _ = std::fs::create_dir_all(verif.join("evidence"));
        let _ = std::fs::write(verif.join("evidence/C08.json"), ev.to_string());
        println!("VIOLATION property=C08 replay={}", f.display());
        return 1;
    }
    println!("C08: {} programs with sizes that do or do not add up compile or are refused as they should", cases.len());
    0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = if a.get(1).map(|s| s.as_str()) == Some("refused") {
        refused(&a[2])
    } else {
        simdrv::main_for(&Cur, &a[1..])
    };
    std::process::exit(r);
}
