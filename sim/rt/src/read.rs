//! C05: damaged buffers in guarded memory. C06: histories on vector views and iterators.
use crate::{alloc, build, hist::*};
use serde::{Deserialize, Serialize};
use simcore::{decode, encode, gen::*, rng::Rng, schema::*};
use simdrv::{hash_of, viol, Check, Stats, Viol};
use simsup::{Cx, RCx};
use std::cell::RefCell;
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Bit { pos: usize, bit: u8 },
    Byte { pos: usize, v: u8 },
    /// overwrite a structural field (offset, length, vtable entry, tag, ...) of the buffer
    Site { n: usize, v: u32 },
    /// add to a structural field
    SiteAdd { n: usize, d: i32 },
    /// copy one structural field over another
    SiteCopy { from: usize, to: usize },
    /// make an offset point at (a bit beside) something that is in the buffer
    Aim { n: usize, at: usize, d: i32 },
    Truncate { len: usize },
    TruncateFront { n: usize },
    Append { n: usize, seed: u64 },
    Move { from: usize, to: usize, len: usize },
    Zero { pos: usize, len: usize },
    Random { len: usize, seed: u64, max: u8 },
    /// move an object to the very end of the buffer and lose its last bytes
    Tail { n: usize, cut: usize },
    /// add to a length and to the one that is read next
    Longer { n: usize, d: i32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub fam: String,
    /// version of the writer and of the reader
    pub wver: usize,
    pub rver: usize,
    pub t: usize,
    pub v: Val,
    /// None: written by planus with this style, otherwise by the independent encoder
    pub foreign: Option<u64>,
    pub style: u64,
    pub muts: Vec<Mut>,
    /// read as this table
    pub root: usize,
    pub exercise: u64,
    pub aligns: Vec<usize>,
    /// C05: instead, so many tables inside one another, converted to owned values or formatted
    #[serde(default)]
    pub deep: Option<(usize, bool)>,
}
pub struct Reading(pub bool);

// ---- guarded memory ------------------------------------------------------------------------
const PAGE: usize = 4096;
const AREA: usize = 2048 * PAGE;
struct Area(*mut u8);
unsafe impl Sync for Area {}
unsafe impl Send for Area {}
/// Memory with inaccessible pages on both sides.
fn area() -> *mut u8 {
    static A: OnceLock<Area> = OnceLock::new();
    A.get_or_init(|| unsafe {
        let p = libc::mmap(std::ptr::null_mut(), AREA + 2 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let p = (p as *mut u8).add(PAGE);
        assert_eq!(libc::mprotect(p as *mut _, AREA, libc::PROT_READ | libc::PROT_WRITE), 0);
        Area(p)
    })
    .0
}
/// Where a buffer lies.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    /// ends where readable memory ends
    End,
    /// starts where readable memory starts
    Start,
    /// somewhere in the middle, with this offset and surrounded by these bytes
    Middle(usize, u8),
}
fn place(bytes: &[u8], p: Place) -> &'static [u8] {
    assert!(bytes.len() < AREA / 2);
    unsafe {
        let a = area();
        let at = match p {
            Place::End => AREA - bytes.len(),
            Place::Start => 0,
            Place::Middle(o, fill) => {
                a.add(8 * PAGE - 256).write_bytes(fill, bytes.len() + 1024);
                8 * PAGE + o
            }
        };
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), a.add(at), bytes.len());
        std::slice::from_raw_parts(a.add(at), bytes.len())
    }
}

fn write(c: &Case) -> Vec<u8> {
    match c.foreign {
        None => {
            let mut b = planus::Builder::new();
            let mut cx = Cx::new();
            cx.set_style(c.style, 20);
            api(&c.fam, c.wver).finish(c.t, &cx, &mut b, &c.v, None);
            b.as_slice().to_vec()
        }
        Some(s) => {
            let mut rng = Rng::new(s);
            let st = encode::Style::random(&mut rng);
            encode::encode(schema(&c.fam, c.wver), c.t, &c.v, None, &mut rng, st)
        }
    }
}
fn width(s: decode::Site) -> usize {
    match s {
        decode::Site::Tag | decode::Site::Nul => 1,
        decode::Site::VtLen | decode::Site::ObjLen | decode::Site::Slot => 2,
        decode::Site::Scalar => 1,
        _ => 4,
    }
}
fn damage(c: &Case, base: Vec<u8>, st: &mut Stats) -> Vec<u8> {
    let s = schema(&c.fam, c.wver);
    let (sites, objs) = {
        let mut d = decode::Dec { s, b: &base, objs: vec![], sites: vec![], budget: 100_000, strict: false };
        let _ = d.root(c.t, None);
        (d.sites, d.objs)
    };
    let mut b = base;
    let get = |b: &[u8], p: usize, w: usize| -> Option<u32> {
        let r = b.get(p..p + w)?;
        let mut x = [0; 4];
        x[..w].copy_from_slice(r);
        Some(u32::from_le_bytes(x))
    };
    let put = |b: &mut [u8], p: usize, w: usize, v: u32| {
        if let Some(r) = b.get_mut(p..p + w) {
            r.copy_from_slice(&v.to_le_bytes()[..w]);
        }
    };
    for m in &c.muts {
        match m {
            Mut::Bit { pos, bit } if !b.is_empty() => {
                let n = b.len();
                b[pos % n] ^= 1 << (bit % 8);
                st.fault("bit_flip");
            }
            Mut::Byte { pos, v } if !b.is_empty() => {
                let n = b.len();
                b[pos % n] = *v;
                st.fault("byte_overwritten");
            }
            Mut::Site { n, v } if !sites.is_empty() => {
                let (k, p) = sites[n % sites.len()];
                put(&mut b, p, width(k), *v);
                st.fault(&format!("overwritten_{k:?}").to_lowercase());
            }
            Mut::SiteAdd { n, d } if !sites.is_empty() => {
                let (k, p) = sites[n % sites.len()];
                if let Some(x) = get(&b, p, width(k)) {
                    put(&mut b, p, width(k), x.wrapping_add(*d as u32));
                    st.fault(&format!("shifted_{k:?}").to_lowercase());
                }
            }
            Mut::SiteCopy { from, to } if !sites.is_empty() => {
                let (k, p) = sites[from % sites.len()];
                let (k2, p2) = sites[to % sites.len()];
                if let Some(x) = get(&b, p, width(k)) {
                    put(&mut b, p2, width(k2), x);
                    st.fault("structural_field_copied");
                }
            }
            Mut::Aim { n, at, d } if !sites.is_empty() && !objs.is_empty() => {
                let offs: Vec<usize> = sites.iter().filter(|s| matches!(s.0, decode::Site::Offset | decode::Site::Root)).map(|s| s.1).collect();
                if !offs.is_empty() {
                    let p = offs[n % offs.len()];
                    let o = &objs[at % objs.len()];
                    put(&mut b, p, 4, (o.pos as u32).wrapping_sub(p as u32).wrapping_add(*d as u32));
                    st.fault("offset_redirected");
                }
            }
            Mut::Truncate { len } => {
                let n = b.len() + 1;
                b.truncate(len % n);
                st.fault("truncated");
            }
            Mut::TruncateFront { n } => {
                let l = b.len() + 1;
                b.drain(..n % l);
                st.fault("beginning_lost");
            }
            Mut::Append { n, seed } => {
                let mut r = Rng::new(*seed);
                for _ in 0..*n {
                    b.push(r.u64() as u8);
                }
                st.fault("garbage_appended");
            }
            Mut::Move { from, to, len } if !b.is_empty() => {
                let n = b.len();
                let (f, t) = (from % n, to % n);
                let l = (*len).min(n - f).min(n - t);
                b.copy_within(f..f + l, t);
                st.fault("block_misplaced");
            }
            Mut::Zero { pos, len } if !b.is_empty() => {
                let n = b.len();
                let p = pos % n;
                let e = (p + len).min(n);
                b[p..e].fill(0);
                st.fault("block_lost");
            }
            Mut::Random { len, seed, max } => {
                let mut r = Rng::new(*seed);
                b = (0..*len).map(|_| r.below(*max as usize + 1) as u8).collect();
                st.fault("arbitrary_bytes");
            }
            Mut::Tail { n, cut } => {
                // Preferably the tags of a union vector, which writers put before its values
                let tags: Vec<&decode::Obj> = objs.iter().filter(|o| o.kind == decode::Kind::Tags).collect();
                let rest: Vec<&decode::Obj> =
                    objs.iter().filter(|o| !matches!(o.kind, decode::Kind::Table | decode::Kind::VTable)).collect();
                let from = if !tags.is_empty() && n % 3 != 0 { &tags } else { &rest };
                if from.is_empty() || b.is_empty() {
                    continue;
                }
                let o = from[n / 3 % from.len()];
                let Some(bytes) = b.get(o.pos..o.end).map(|x| x.to_vec()) else { continue };
                while b.len() % 8 != o.pos % 8 {
                    b.push(0);
                }
                let at = b.len();
                let mut moved = false;
                for (k, p) in &sites {
                    if *k == decode::Site::Offset && get(&b, *p, 4) == Some((o.pos as u32).wrapping_sub(*p as u32)) {
                        put(&mut b, *p, 4, (at - p) as u32);
                        moved = true;
                    }
                }
                if moved {
                    b.extend_from_slice(&bytes);
                    b.truncate((b.len() - cut).max(at));
                    st.fault("object_moved_to_the_end_and_cut");
                }
            }
            Mut::Longer { n, d } => {
                let lens: Vec<usize> = sites.iter().filter(|s| s.0 == decode::Site::Len).map(|s| s.1).collect();
                if !lens.is_empty() {
                    let k = n % lens.len();
                    for p in lens.iter().skip(k).take(2) {
                        if let Some(x) = get(&b, *p, 4) {
                            put(&mut b, *p, 4, x.wrapping_add(*d as u32));
                        }
                    }
                    st.fault("two_lengths_shifted");
                }
            }
            _ => {}
        }
    }
    b
}
#[derive(PartialEq, Clone)]
struct Seen {
    val: Val,
    owned: Option<Result<Val, String>>,
    debug: Option<Result<String, String>>,
    vectors: u64,
    ops: u64,
}
fn look(c: &Case, b: &[u8], p: Place, st: &mut Stats) -> Result<Seen, Viol> {
    let a = api(&c.fam, c.rver);
    let mut cx = RCx::new(b, 20_000);
    if c.exercise != 0 {
        cx.exercise = Some(RefCell::new(Rng::new(c.exercise)));
    }
    cx.lenient = true;
    let val = a.read(c.root, &cx, b);
    if let Some(p2) = cx.problems.borrow().first() {
        let sig: String = p2.split([':', ' ', '(']).next().unwrap_or("").into();
        return viol(format!("seq:{sig}"), format!("{p2} (buffer placed at {p:?})"));
    }
    st.max("longest_vector", cx.max_seq.get() as u64);
    let (mut owned, mut debug) = (None, None);
    if !val.has_cut() {
        owned = Some(a.owned(c.root, b));
        debug = Some(a.debug(c.root, b));
    }
    Ok(Seen { val, owned, debug, vectors: cx.vectors.get(), ops: cx.ops.get() })
}

fn c05(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    let base = write(c);
    let b = damage(c, base.clone(), st);
    if b.len() >= AREA / 2 {
        return Ok(());
    }
    let mut places = vec![Place::End, Place::Start];
    for (i, a) in c.aligns.iter().enumerate() {
        places.push(Place::Middle(*a, [0, 0xff, 0x55, 1][i % 4]));
    }
    let mut first: Option<Seen> = None;
    for p in &places {
        let s = place(&b, *p);
        let seen = look(c, s, *p, st)?;
        if let Some(Ok(v)) = &seen.owned {
            if let Some(d) = diff(&seen.val, v, "root") {
                return viol("owned-differs", format!("accessors and owned conversion disagree: {d}"));
            }
        }
        if let Some(Err(_)) = &seen.owned {
            if !seen.val.has_err() {
                return viol("owned-error", format!("owned conversion fails ({:?}) on a buffer all of whose fields can be read", seen.owned.as_ref().unwrap()));
            }
        }
        if s != &b[..] {
            return viol("buffer-written", "reading changed the buffer");
        }
        match &first {
            None => first = Some(seen),
            Some(f) => {
                if *f != seen {
                    let what = diff(&f.val, &seen.val, "root").unwrap_or_else(|| format!("{:?} / {:?}", f.debug, seen.debug).chars().take(600).collect());
                    return viol("address-dependent", format!("placed at {:?} and at {p:?} the same bytes read differently: {what}", places[0]));
                }
            }
        }
    }
    let f = first.unwrap();
    st.hit(if f.val == Val::Err {
        "refused_at_the_root"
    } else if f.val.has_cut() {
        "too_big_to_walk_completely"
    } else if f.val.has_err() {
        "read_with_errors_inside"
    } else {
        "read_without_error"
    });
    st.add("vectors_walked", f.vectors);
    st.obs((hash_of(&b[..]), hash_of(&f.val), f.debug.map(|d| hash_of(d)), f.ops));
    st.state(hash_of((&f.val, c.root, &c.fam)));
    if f.val != Val::Err && b != base {
        st.path(hash_of((&b[..], c.root, c.rver, &c.fam)));
    }
    Ok(())
}
/// A table that can contain itself and needs nothing else, and the slot of the field.
pub fn chain_of(fam: &str, ver: usize) -> Option<(usize, usize)> {
    let s = schema(fam, ver);
    s.tables.iter().enumerate().find_map(|(t, tab)| {
        let free = tab.live().all(|f| f.mode != Mode::Req);
        let own = tab.live().find(|f| f.ty == Ty::Table(t) && f.mode == Mode::Opt)?;
        free.then_some((t, own.slot))
    })
}
/// `n` tables inside one another, each 8 bytes long.
pub fn chain_bytes(slot: usize, n: usize) -> Vec<u8> {
    let mut b = 4u32.to_le_bytes().to_vec();
    for i in 0..n {
        let last = i + 1 == n;
        // where the vtable is: this table's offset minus the number here
        let to_end = ((n - i) * 8) as i32;
        b.extend((-to_end).to_le_bytes());
        b.extend(if last { [0; 4] } else { 4u32.to_le_bytes() });
    }
    // the last table has a vtable without fields
    let len = 4 + 2 * (slot + 1);
    let mut v = vec![0u8; len];
    v[..2].copy_from_slice(&(len as u16).to_le_bytes());
    v[2] = 8;
    v[len - 2] = 4;
    v.resize(len.next_multiple_of(4), 0);
    b.extend(&v);
    let end = b.len();
    b.extend([4, 0, 8, 0]);
    let p = 4 + (n - 1) * 8;
    b[p..p + 4].copy_from_slice(&(p as i32 - end as i32).to_le_bytes());
    b
}
/// A process of its own reads tables inside one another, because running
/// out of stack ends a process.
fn deep(c: &Case, n: usize, debug: bool, st: &mut Stats) -> Result<(), Viol> {
    let (t, slot) = chain_of(&c.fam, c.rver).unwrap();
    let b = chain_bytes(slot, n);
    let a = api(&c.fam, c.rver);
    let status = unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            let no = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &no);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if debug { a.debug(t, &b).map(std::mem::forget) } else { a.owned(t, &b).map(std::mem::forget) }));
            libc::_exit(match ok {
                Ok(Ok(())) => 0,
                Ok(Err(_)) => 1,
                Err(_) => 3,
            });
        }
        let mut s = 0;
        while libc::waitpid(pid, &mut s, 0) < 0 {}
        s
    };
    let what = if debug { "formatting" } else { "converting to owned values" };
    if libc::WIFSIGNALED(status) {
        let sig = if debug { "deep:formatting" } else { "deep:owned" };
        return viol(if n > 1000 { sig.to_string() } else { format!("{sig}-{n}") }, format!("{what} {n} tables inside one another ended the process with signal {}", libc::WTERMSIG(status)));
    }
    match libc::WEXITSTATUS(status) {
        0 => {}
        1 if n > 64 => {}
        x => return viol("deep:refused", format!("{what} {n} tables inside one another: exit status {x}")),
    }
    st.hit("tables_inside_one_another");
    st.obs((n, debug, status));
    st.state(hash_of(("deep", n, debug, &c.fam)));
    Ok(())
}
fn c06(c: &Case, st: &mut Stats) -> Result<(), Viol> {
    let b = write(c);
    if b.len() >= AREA / 2 {
        return Ok(());
    }
    let s = place(&b, Place::End);
    let a = api(&c.fam, c.rver);
    let mut cx = RCx::new(s, 1_000_000);
    cx.exercise = Some(RefCell::new(Rng::new(c.exercise)));
    cx.keep_log = true;
    let val = a.read(c.t, &cx, s);
    let log = cx.log.borrow();
    if let Some(p) = cx.problems.borrow().first() {
        let sig: String = p.split([':', ' ', '(']).next().unwrap_or("").into();
        let tail = log.len().saturating_sub(12);
        return viol(format!("seq:{sig}"), format!("{p}\nlast operations: {:?}", &log[tail..]));
    }
    let expect = schema(&c.fam, c.rver).view_of(schema(&c.fam, c.wver), &Ty::Table(c.t), &c.v);
    if let Some(d) = diff(&expect, &val, "root") {
        return viol("read-differs", d);
    }
    for l in log.iter() {
        let k: String = l.chars().filter(|c| !c.is_ascii_digit()).collect();
        st.hit(&k.replace("()", ""));
    }
    st.add("view_operations", cx.ops.get());
    st.add("vectors_walked", cx.vectors.get());
    st.max("longest_vector", cx.max_seq.get() as u64);
    st.obs((hash_of(&val), cx.ops.get()));
    st.state(hash_of(&val));
    if cx.ops.get() > 0 {
        st.path(hash_of((&*log, hash_of(&b[..]))));
    }
    Ok(())
}

impl Check for Reading {
    type Case = Case;
    fn property(&self) -> &'static str {
        if self.0 {
            "C06"
        } else {
            "C05"
        }
    }
    fn runs(&self, tier: &str) -> (u64, u64) {
        let q = std::env::var("SIM_RUNS").ok().and_then(|x| x.parse().ok()).unwrap_or(if self.0 { 500_000 } else { 500_000 });
        if tier == "thorough" {
            (q * 100, 900)
        } else {
            (q, 60)
        }
    }
    fn gen(&self, seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let rng = &mut rng;
        let (fam, wver) = pick_family(rng);
        let rver = if rng.chance(1, 2) { wver } else { rng.below(family_len(&fam)) };
        let s = schema(&fam, wver);
        let n_tables = s.tables.len().min(schema(&fam, rver).tables.len());
        let t = rng.below(n_tables);
        let (mut strings, mut old) = (vec![], vec![]);
        let budget = *rng.pick(&[5, 20, 60, 60]);
        let present = *rng.pick(&[30, 70, 95, 100]);
        let max_len = *rng.pick(&[2, 5, 12, 30]);
        // once in a while something big
        let (budget, max_len) = if rng.chance(1, if self.0 { 150 } else { 400 }) { (1500, *rng.pick(&[300, 3000])) } else { (budget, max_len) };
        // and very rarely a vector whose length does not fit into 16 bits
        let huge = self.0 && rng.chance(1, 500);
        let (budget, present) = if huge { (60, 95) } else { (budget, present) };
        let mut v = ValGen { s, rng, strings: &mut strings, old: &mut old, budget, present, max_len, reuse: 20, depth: 0 }.gen(&Ty::Table(t));
        if huge {
            inflate(&mut v, rng);
        }
        let foreign = if rng.chance(1, 2) { Some(rng.u64()) } else { None };
        let mut muts = vec![];
        if !self.0 {
            let n = match rng.below(6) {
                0 => 0,
                1..=3 => 1,
                4 => 2,
                _ => 2 + rng.below(6),
            };
            for _ in 0..n {
                muts.push(gen_mut(rng));
            }
        }
        Case {
            wver,
            rver,
            t,
            v,
            foreign,
            style: if rng.chance(1, 4) { 0 } else { rng.u64() | 1 },
            muts,
            root: if rng.chance(1, 8) { rng.below(schema(&fam, rver).tables.len()) } else { t },
            exercise: if self.0 { rng.u64() | 1 } else if rng.chance(1, 3) { rng.u64() | 1 } else { 0 },
            aligns: (0..2).map(|_| rng.below(64)).collect(),
            deep: if !self.0 && chain_of(&fam, rver).is_some() && rng.chance(1, 3000) {
                Some((*rng.pick(&[2, 10, 64, 500_000]), rng.chance(1, 2)))
            } else {
                None
            },
            fam,
        }
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), Viol> {
        foldhash::sim::set(1, 0);
        if let Some((n, debug)) = c.deep {
            return guarded(|| deep(c, n, debug, st));
        }
        let r = guarded(|| if self.0 { c06(c, st) } else { c05(c, st) });
        if r.is_ok() {
            alloc::check_released();
            if let Some(e) = alloc::error_name() {
                return viol("memory", e);
            }
        }
        r
    }
    fn shrink(&self, c: &Case) -> Vec<Case> {
        let mut out = vec![];
        if let Some((n, debug)) = c.deep {
            if n > 1 {
                out.push(Case { deep: Some((n / 2, debug)), ..c.clone() });
            }
            return out;
        }
        for i in 0..c.muts.len() {
            let mut x = c.clone();
            x.muts.remove(i);
            out.push(x);
        }
        if c.foreign.is_some() {
            out.push(Case { foreign: None, ..c.clone() });
        }
        if c.style != 0 {
            out.push(Case { style: 0, ..c.clone() });
        }
        if c.rver != c.wver {
            out.push(Case { rver: c.wver, ..c.clone() });
        }
        if c.exercise != 0 && !self.0 {
            out.push(Case { exercise: 0, ..c.clone() });
        }
        if !c.aligns.is_empty() {
            out.push(Case { aligns: vec![], ..c.clone() });
        }
        let mut vs = vec![];
        shrink_val(schema(&c.fam, c.wver), &Ty::Table(c.t), &c.v, &mut vs);
        vs.truncate(100);
        for v in vs {
            out.push(Case { v, ..c.clone() });
        }
        // numbers of damages
        for i in 0..c.muts.len() {
            let mut f = |m: Mut| {
                let mut x = c.clone();
                x.muts[i] = m;
                out.push(x);
            };
            match &c.muts[i] {
                Mut::Truncate { len } => {
                    f(Mut::Truncate { len: len / 2 });
                    f(Mut::Truncate { len: len.saturating_sub(1) });
                }
                Mut::Random { len, seed, max } if *len > 0 => {
                    f(Mut::Random { len: len / 2, seed: *seed, max: *max });
                    f(Mut::Random { len: len - 1, seed: *seed, max: *max });
                }
                Mut::Append { n, seed } if *n > 0 => f(Mut::Append { n: n / 2, seed: *seed }),
                _ => {}
            }
        }
        out
    }
    fn rule(&self) -> &'static str {
        if self.0 {
            "a seeded value written by planus or the independent encoder, walked by a seeded history of view and iterator operations on every vector; non-trivial: at least one operation on a view; distinct by the operations and the buffer"
        } else {
            "a seeded buffer with seeded damage, read at several places in guarded memory; non-trivial: the damage changed the buffer and the root could still be opened; distinct by the damaged bytes and the root type; distinct states are the values seen"
        }
    }
    fn describe(&self, c: &Case) -> String {
        if let Some((n, debug)) = c.deep {
            return format!("schema {} version {}: {n} tables inside one another, {}", c.fam, c.rver, if debug { "formatted" } else { "converted to owned values" });
        }
        let v = format!("{:?}", c.v);
        format!(
            "schema {} version {}, table {} = {}{}\nwritten by {}\nread with version {} as table {}, damage {:?}, exercise {:#x}",
            c.fam, c.wver, c.t,
            v.chars().take(1500).collect::<String>(),
            if v.len() > 1500 { "…" } else { "" },
            match c.foreign {
                None => format!("planus (style {:#x})", c.style),
                Some(s) => format!("the independent encoder (layout seed {s:#x})"),
            },
            c.rver, c.root, c.muts, c.exercise
        )
    }
    fn components(&self) -> serde_json::Value {
        build::components()
    }
}
pub fn family_len(f: &str) -> usize {
    match f {
        "ea" | "eb" | "ec" => 3,
        _ => 1,
    }
}
fn gen_mut(rng: &mut Rng) -> Mut {
    let special = |rng: &mut Rng| -> u32 {
        match rng.below(14) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3,
            4 => 4,
            5 => u32::MAX,
            6 => i32::MAX as u32,
            7 => i32::MIN as u32,
            8 => 0xffff,
            9 => 0x8000,
            10 => u32::MAX - rng.below(16) as u32,
            11 => 1 << rng.below(32),
            12 => rng.below(300) as u32,
            _ => rng.u64() as u32,
        }
    };
    let n = rng.below(100_000);
    match rng.below(22) {
        20 => Mut::Tail { n: rng.below(100_000), cut: rng.below(12) },
        21 => Mut::Longer { n, d: *rng.pick(&[1, -1, 2, 4, 8, 16, 100]) },
        0 => Mut::Bit { pos: n, bit: rng.below(8) as u8 },
        1 => Mut::Byte { pos: n, v: rng.u64() as u8 },
        2..=7 => Mut::Site { n, v: special(rng) },
        8..=11 => Mut::SiteAdd { n, d: *rng.pick(&[1, -1, 2, -2, 4, -4, 8, -8, 16, 100, -100, 1000]) },
        12 => Mut::SiteCopy { from: n, to: rng.below(100_000) },
        13 | 14 => Mut::Aim { n, at: rng.below(1000), d: *rng.pick(&[0, 0, 0, 1, 2, 3, 4, -4, -1]) },
        15 => Mut::Truncate { len: n },
        16 => match rng.below(3) {
            0 => Mut::TruncateFront { n: 1 + rng.below(16) },
            1 => Mut::Append { n: rng.below(40), seed: rng.u64() },
            _ => Mut::Truncate { len: rng.below(12) },
        },
        17 => Mut::Move { from: n, to: rng.below(100_000), len: 1 + rng.below(40) },
        18 => Mut::Zero { pos: n, len: 1 + rng.below(64) },
        _ => Mut::Random { len: rng.below(200), seed: rng.u64(), max: *rng.pick(&[1, 4, 12, 40, 255]) },
    }
}
