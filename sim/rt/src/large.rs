//! C02: tables whose inline data does not fit. The offsets in a vtable have 16 bits: a table with
//! more inline data cannot be written down, so a builder that is asked to has to refuse.
use crate::hist::{harness_panic, last_panic};
use fam_kit::v0::g::odd::big::*;
use simcore::rng::{mix, Rng};
use simdrv::{hash_of, viol, Stats, Viol};
use std::panic::{catch_unwind, AssertUnwindSafe};

const FIELDS: [(&str, usize); 20] = [
    ("q0", 64), ("p0", 512), ("a", 20480), ("x", 1), ("p1", 512), ("q1", 64), ("b", 20480), ("q2", 64), ("p2", 512), ("q3", 64),
    ("p3", 512), ("c", 20480), ("s", 4), ("p4", 512), ("q4", 64), ("d", 20480), ("q5", 64), ("p5", 512), ("q6", 64), ("p6", 512),
];

/// Which fields each table of the history has, as bits.
pub fn gen(rng: &mut Rng) -> Vec<u32> {
    (0..1 + rng.below(4))
        .map(|_| {
            let mut m = 0u32;
            let large = [1, 2, 3, 3, 3, 3, 4][rng.below(7)];
            let (p, q) = (*rng.pick(&[30, 100, 100]), *rng.pick(&[30, 70, 100]));
            let mut left = large;
            for (i, (_, n)) in FIELDS.iter().enumerate() {
                let on = match n {
                    20480 => {
                        left -= 1;
                        left >= 0
                    }
                    512 => rng.chance(p, 100),
                    _ => rng.chance(q, 100),
                };
                if on {
                    m |= 1 << i;
                }
            }
            if large < 4 && rng.chance(1, 2) {
                // another one of the large ones
                let at: Vec<usize> = (0..20).filter(|i| FIELDS[*i].1 == 20480).collect();
                let k = rng.below(4);
                if m >> at[k] & 1 == 0 {
                    m |= 1 << at[k];
                    m &= !(1 << at[(0..4).find(|j| m >> at[*j] & 1 == 1).unwrap()]);
                }
            }
            m
        })
        .collect()
}
pub fn show(masks: &[u32]) -> String {
    masks
        .iter()
        .map(|m| {
            let f: Vec<&str> = (0..20).filter(|i| m >> i & 1 == 1).map(|i| FIELDS[i].0).collect();
            format!("build Big with {} ({} bytes inline), clear\n", f.join(", "), inline(*m))
        })
        .collect()
}
fn inline(m: u32) -> usize {
    4 + (0..20).filter(|i| m >> i & 1 == 1).map(|i| FIELDS[i].1).sum::<usize>()
}
fn s64(k: u64) -> S64 {
    S64 { a: mix(k, 1), b: mix(k, 2), c: k, d: mix(k, 3), e: 0, f: !0, g: mix(k, 4), h: mix(k, 5) }
}
fn s512(k: u64) -> S512 {
    let f = |i| s64(mix(k, i));
    S512 { a: f(1), b: f(2), c: f(3), d: f(4), e: f(5), f: f(6), g: f(7), h: f(8) }
}
fn s4096(k: u64) -> S4096 {
    let f = |i| s512(mix(k, i));
    S4096 { a: f(1), b: f(2), c: f(3), d: f(4), e: f(5), f: f(6), g: f(7), h: f(8) }
}
fn s20480(k: u64) -> S20480 {
    let f = |i| s4096(mix(k, i));
    S20480 { a: f(1), b: f(2), c: f(3), d: f(4), e: f(5) }
}
fn value(m: u32, k: u64) -> Box<Big> {
    let on = |i: usize| m >> i & 1 == 1;
    let q = |i: usize| on(i).then(|| s64(mix(k, i as u64)));
    let p = |i: usize| on(i).then(|| s512(mix(k, i as u64)));
    let l = |i: usize| on(i).then(|| s20480(mix(k, i as u64)));
    Box::new(Big {
        q0: q(0),
        p0: p(1),
        a: l(2),
        x: if on(3) { 77 } else { 0 },
        p1: p(4),
        q1: q(5),
        b: l(6),
        q2: q(7),
        p2: p(8),
        q3: q(9),
        p3: p(10),
        c: l(11),
        s: on(12).then(|| "s".repeat(k as usize % 9)),
        p4: p(13),
        q4: q(14),
        d: l(15),
        q5: q(16),
        p5: p(17),
        q6: q(18),
        p6: p(19),
    })
}
/// The table at the root of `b`, looked at without planus.
fn layout(b: &[u8], m: u32) -> Result<(), String> {
    let u32_at = |p: usize| b.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).ok_or("outside");
    let u16_at = |p: usize| b.get(p..p + 2).map(|x| u16::from_le_bytes(x.try_into().unwrap()) as usize).ok_or("outside");
    let t = u32_at(0)?;
    let v = (t as i64 - u32_at(t)? as u32 as i32 as i64) as usize;
    let (n, size) = (u16_at(v)?, u16_at(v + 2)?);
    if t + size > b.len() || v + n > b.len() || size < 4 {
        return Err(format!("the table has {size} bytes at {t}, the vtable {n} bytes at {v}, the buffer {} bytes", b.len()));
    }
    let mut at = vec![(0, 4, "vtable offset")];
    for (i, (name, len)) in FIELDS.iter().enumerate() {
        let o = if 4 + 2 * i + 2 <= n { u16_at(v + 4 + 2 * i)? } else { 0 };
        if (o != 0) != (m >> i & 1 == 1) {
            return Err(format!("field {name} has offset {o}"));
        }
        if o != 0 {
            at.push((o, *len, name));
        }
    }
    at.sort();
    for w in at.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("the fields {} at {} and {} at {} overlap", w[0].2, w[0].0, w[1].2, w[1].0));
        }
    }
    let last = at.last().unwrap();
    if last.0 + last.1 > size {
        return Err(format!("field {} at {} lies outside of the table of {size} bytes", last.2, last.0));
    }
    Ok(())
}

pub fn run(masks: &[u32], st: &mut Stats) -> Result<(), Viol> {
    use planus::ReadAsRoot;
    let mut b = planus::Builder::new();
    for (i, m) in masks.iter().enumerate() {
        let v = value(*m, i as u64);
        let n = inline(*m);
        let r = catch_unwind(AssertUnwindSafe(|| b.finish(&*v, None).to_vec()));
        match r {
            Ok(bytes) => {
                if n > 65535 {
                    return viol("table-too-large", format!("table {i} with {n} bytes of inline data was written, but offsets in a vtable have 16 bits"));
                }
                if let Err(e) = layout(&bytes, *m) {
                    return viol("large-table-malformed", format!("table {i} with {n} bytes of inline data: {e}"));
                }
                let o = match BigRef::read_as_root(&bytes).and_then(Big::try_from) {
                    Ok(o) => Box::new(o),
                    Err(e) => return viol("large-table-unreadable", format!("table {i} with {n} bytes of inline data: {e}")),
                };
                if o != v {
                    return viol("large-table-differs", format!("table {i} with {n} bytes of inline data has other contents when read"));
                }
                st.hit("large_tables");
                st.obs(&bytes[..]);
            }
            Err(_) => {
                let (m, l) = last_panic();
                if harness_panic(&l) {
                    eprintln!("harness panic: {m} at {l}");
                    std::process::exit(2);
                }
                if n <= 65535 {
                    return viol("large-table-refused", format!("table {i} with {n} bytes of inline data: panic: {m} at {l}"));
                }
                st.hit("too_large_tables_refused");
            }
        }
        st.state(hash_of(("large", m)));
        b.clear();
    }
    st.path(hash_of(masks));
    Ok(())
}

/// Room for the huge buffers. None of it is touched, so no memory is needed.
const ROOM: usize = 9 << 29;

/// Bytes before a table, between it and a second one, and before the root.
pub fn huge_gen(rng: &mut Rng) -> Vec<u64> {
    let mut left = (1u64 << 32) + 100_000;
    let mut v: Vec<u64> = (0..3)
        .map(|_| {
            let g = match rng.below(6) {
                0 => rng.below(100_000) as u64,
                1 => (1 << 31) - rng.below(300) as u64,
                2 => (1 << 31) + rng.below(300) as u64,
                3 => (1 << 32) - rng.below(300) as u64,
                4 => (1 << 32) + rng.below(300) as u64,
                _ => 0,
            };
            let g = g.min(left);
            left -= g;
            g
        })
        .collect();
    let k = rng.below(3);
    v.rotate_left(k);
    v
}
pub fn huge_show(g: &[u64]) -> String {
    format!("a string, {} bytes, a table with the string, {} bytes, another table with the string, {} bytes, finish\n", g[0], g[1], g[2])
}
/// A buffer has offsets of 32 bits (and the format asks for less than 2 GiB): more must be refused.
pub fn huge_run(gaps: &[u64], st: &mut Stats) -> Result<(), Viol> {
    use planus::{Builder, ReadAsRoot};
    // one process at a time, for the case that somebody touches the room after all
    let lock = std::fs::File::open("/proc/self/exe").ok();
    if let Some(f) = &lock {
        unsafe { libc::flock(std::os::fd::AsRawFd::as_raw_fd(f), libc::LOCK_EX) };
    }
    if !simdrv::address_space(9 << 30) {
        st.hit("huge_buffers_not_possible_here");
        return Ok(());
    }
    let r = huge_inner(gaps, st);
    simdrv::address_space(3 << 30);
    return r;

    fn huge_inner(gaps: &[u64], st: &mut Stats) -> Result<(), Viol> {
        // may this process have that much?
        let probe = unsafe { libc::mmap(std::ptr::null_mut(), ROOM + 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) };
        if probe == libc::MAP_FAILED {
            st.hit("huge_buffers_not_possible_here");
            return Ok(());
        }
        unsafe { libc::munmap(probe, ROOM + 8192) };
        let mut b = Builder::with_capacity(ROOM);
        let gap = |b: &mut Builder, n: u64| {
            if n > 0 {
                // SAFETY: fresh pages hold zeros
                unsafe { b.write_with(n as usize, 0, |_, _| {}) };
            }
        };
        let table = |b: &mut Builder, s: planus::Offset<str>| {
            let t = Big::builder().q0_as_null().p0_as_null().a_as_null().x(77).p1_as_null().q1_as_null().b_as_null();
            t.q2_as_null().p2_as_null().q3_as_null().p3_as_null().c_as_null().s(s).p4_as_null().q4_as_null().d_as_null().q5_as_null().p5_as_null().q6_as_null().p6_as_null().finish(b)
        };
        let total = gaps.iter().sum::<u64>();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let s = b.create_string("at the very end");
            gap(&mut b, gaps[0]);
            let first = table(&mut b, s);
            gap(&mut b, gaps[1]);
            let second = table(&mut b, s);
            gap(&mut b, gaps[2]);
            if gaps[1] % 2 == 0 { b.finish(second, None).len() } else { b.finish(first, None).len() }
        }));
        st.state(hash_of(("huge", gaps.iter().map(|g| (g >> 31, g % 16)).collect::<Vec<_>>())));
        st.path(hash_of(("huge", gaps)));
        match r {
            Ok(n) => {
                if n as u64 <= total {
                    return viol("huge-buffer-differs", format!("a buffer with {total} bytes in it has a length of {n}"));
                }
                let bytes = b.as_slice();
                let ok = BigRef::read_as_root(bytes).and_then(|r| Ok((r.x()?, r.s()?.map(|s| s.to_string()))));
                if ok.as_ref().ok() != Some(&(77, Some("at the very end".to_string()))) {
                    return viol("huge-buffer-differs", format!("a buffer of {n} bytes was written, but reading it gives {ok:?}"));
                }
                st.hit("huge_buffers_written");
            }
            Err(_) => {
                let (m, l) = last_panic();
                if harness_panic(&l) {
                    eprintln!("harness panic: {m} at {l}");
                    std::process::exit(2);
                }
                if total < (1 << 31) - 1000 {
                    return viol("huge-buffer-refused", format!("a buffer of about {total} bytes: panic: {m} at {l}"));
                }
                st.hit("huge_buffers_refused");
            }
        }
        Ok(())
    }
}
