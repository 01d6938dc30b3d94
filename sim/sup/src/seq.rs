//! Histories of operations on vector views and their iterators, checked against plain slices.
use crate::RCx;
use planus::{UnionVector, Vector, VectorRead, VectorReadUnion};
use simcore::{rng::Rng, schema::Val};
use std::collections::VecDeque;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn size(rng: &mut Rng, len: usize) -> usize {
    match rng.below(10) {
        0 => 1,
        1 => len.max(1),
        2 => len + 1,
        3 => usize::MAX,
        4 => usize::MAX / 2 + 1,
        _ => 1 + rng.below(len.max(1)).min(5),
    }
}
fn skip(rng: &mut Rng, len: usize) -> usize {
    match rng.below(10) {
        0 | 1 => 0,
        2 => len,
        3 => len.saturating_sub(1),
        4 => usize::MAX,
        5 => usize::MAX / 2 + 1,
        _ => rng.below(len + 2).min(3),
    }
}
fn index(rng: &mut Rng, len: usize) -> usize {
    match rng.below(10) {
        0 => len,
        1 => usize::MAX,
        2 => usize::MAX - 1,
        3 => len + 1,
        _ => rng.below(len + 1),
    }
}

macro_rules! exercise {
    ($name:ident, $V:ident, $T:ident: $bound:path, $item:ty) => {
        pub fn $name<'b, $T: $bound + std::fmt::Debug>(
            cx: &RCx,
            v: $V<'b, $T>,
            model: &[Val],
            conv: &dyn Fn($item) -> Val,
            rng: &mut Rng,
        ) -> Result<(), String> {
            let all = |v: $V<'b, $T>| -> Vec<Val> { v.iter().map(|x| conv(x)).collect() };
            let chk = |what: &str, v: $V<'b, $T>, m: &[Val]| -> Result<(), String> {
                if v.len() != m.len() || v.is_empty() != m.is_empty() {
                    return Err(format!("{what}: length {} instead of {}", v.len(), m.len()));
                }
                let a = all(v);
                if !cx.same_all(&a, m) {
                    return Err(format!("{what}: elements {a:?} instead of {m:?}"));
                }
                Ok(())
            };
            let chk_opt =
                |what: &str, v: Option<$V<'b, $T>>, m: Option<&[Val]>| -> Result<(), String> {
                    match (v, m) {
                        (None, None) => Ok(()),
                        (Some(v), Some(m)) => chk(what, v, m),
                        (v, _) => Err(format!(
                            "{what}: is {} of a vector of length {}",
                            if v.is_some() { "Some" } else { "None" },
                            m.map_or(model.len(), |m| m.len())
                        )),
                    }
                };
            let chk_el = |what: &str, x: Option<$item>, m: Option<&Val>| -> Result<(), String> {
                let x = x.map(|x| conv(x));
                if !(x.is_none() && m.is_none() || x.as_ref().zip(m).is_some_and(|(x, m)| cx.same(x, m))) {
                    return Err(format!("{what}: element {x:?} instead of {m:?}"));
                }
                Ok(())
            };
            let mut cur = v;
            let mut m: &[Val] = model;
            let steps = 4 + rng.below(10);
            for _ in 0..steps {
                let len = m.len();
                match rng.below(16) {
                    0 => {
                        cx.op(|| "first/last".into());
                        chk_el("first", cur.first(), m.first())?;
                        chk_el("last", cur.last(), m.last())?;
                    }
                    1 => {
                        let i = index(rng, len);
                        cx.op(|| format!("get({i})"));
                        chk_el(&format!("get({i})"), cur.get(i), m.get(i))?;
                    }
                    2 => {
                        let (a, b) = (index(rng, len), index(rng, len));
                        cx.op(|| format!("get({a}..{b})"));
                        chk_opt(&format!("get({a}..{b})"), cur.get(a..b), m.get(a..b))?;
                        chk_opt(&format!("get({a}..)"), cur.get(a..), m.get(a..))?;
                        chk_opt(&format!("get(..{b})"), cur.get(..b), m.get(..b))?;
                        chk_opt(&format!("get(..={b})"), cur.get(..=b), m.get(..=b))?;
                        chk_opt(&format!("get({a}..={b})"), cur.get(a..=b), m.get(a..=b))?;
                        chk_opt("get(..)", cur.get(..), m.get(..))?;
                    }
                    3 => {
                        let (a, b) = (index(rng, len), index(rng, len));
                        let bound = |k: usize, x: usize| match k {
                            0 => Bound::Included(x),
                            1 => Bound::Excluded(x),
                            _ => Bound::Unbounded,
                        };
                        let bs = (bound(rng.below(3), a), bound(rng.below(3), b));
                        cx.op(|| format!("get({bs:?})"));
                        chk_opt(&format!("get({bs:?})"), cur.get(bs), m.get(bs))?;
                    }
                    4 => {
                        cx.op(|| "split_first".into());
                        match (cur.split_first(), m.split_first()) {
                            (None, None) => {}
                            (Some((x, r)), Some((mx, mr))) => {
                                chk_el("split_first", Some(x), Some(mx))?;
                                chk("split_first", r, mr)?;
                                cur = r;
                                m = mr;
                            }
                            _ => return Err("split_first: wrong presence".into()),
                        }
                    }
                    5 => {
                        cx.op(|| "split_last".into());
                        match (cur.split_last(), m.split_last()) {
                            (None, None) => {}
                            (Some((x, r)), Some((mx, mr))) => {
                                chk_el("split_last", Some(x), Some(mx))?;
                                chk("split_last", r, mr)?;
                                cur = r;
                                m = mr;
                            }
                            _ => return Err("split_last: wrong presence".into()),
                        }
                    }
                    6 => {
                        let i = index(rng, len);
                        cx.op(|| format!("split_at({i})"));
                        match (cur.split_at(i), if i <= len { Some(m.split_at(i)) } else { None }) {
                            (None, None) => {}
                            (Some((a, b)), Some((ma, mb))) => {
                                chk("split_at", a, ma)?;
                                chk("split_at", b, mb)?;
                                if rng.chance(1, 2) {
                                    (cur, m) = (a, ma)
                                } else {
                                    (cur, m) = (b, mb)
                                }
                            }
                            _ => return Err(format!("split_at({i}) of {len}: wrong presence")),
                        }
                    }
                    7 => {
                        cx.op(|| "collect".into());
                        chk("iter", cur, m)?;
                        let r: Vec<Val> = cur.iter().rev().map(|x| conv(x)).collect();
                        let mr: Vec<Val> = m.iter().rev().cloned().collect();
                        if !cx.same_all(&r, &mr) {
                            return Err(format!("rev: {r:?} instead of {mr:?}"));
                        }
                        let r: Vec<Val> = cur.into_iter().map(|x| conv(x)).collect();
                        if !cx.same_all(&r, m) {
                            return Err(format!("into_iter: {r:?} instead of {m:?}"));
                        }
                    }
                    8 => {
                        cx.op(|| "size 0".into());
                        let bad = [
                            catch_unwind(AssertUnwindSafe(|| cur.chunks(0).count())),
                            catch_unwind(AssertUnwindSafe(|| cur.rchunks(0).count())),
                            catch_unwind(AssertUnwindSafe(|| cur.chunks_exact(0).count())),
                            catch_unwind(AssertUnwindSafe(|| cur.rchunks_exact(0).count())),
                            catch_unwind(AssertUnwindSafe(|| cur.windows(0).count())),
                        ];
                        if bad.iter().any(|x| x.is_ok()) {
                            return Err("a chunk or window size of zero is not refused".into());
                        }
                    }
                    9 => {
                        cx.op(|| "debug".into());
                        let _ = format!("{:?}", cur);
                        if rng.chance(1, 3) {
                            // a view of nothing
                            let e = $V::<'b, $T>::new_empty();
                            chk("new_empty", e, &[])?;
                        }
                    }
                    10 => {
                        cx.op(|| "iter".into());
                        iter_history(
                            cx, rng, "iter", cur.iter(),
                            m.iter().collect(),
                            &|x: $item, m: &&Val| {
                                let x = conv(x);
                                if cx.same(&x, m) { Ok(()) } else { Err(format!("{x:?} instead of {m:?}")) }
                            },
                        )?;
                    }
                    k => {
                        let n = size(rng, len);
                        let sub = |x: $V<'b, $T>, m: &&[Val]| chk("part", x, m);
                        match k {
                            11 => iter_history(cx, rng, &format!("chunks({n})"), cur.chunks(n), m.chunks(n).collect(), &sub)?,
                            12 => iter_history(cx, rng, &format!("rchunks({n})"), cur.rchunks(n), m.rchunks(n).collect(), &sub)?,
                            13 => {
                                let it = cur.chunks_exact(n);
                                let mi = m.chunks_exact(n);
                                chk("remainder", it.remainder(), mi.remainder())?;
                                let c = it.clone();
                                iter_history(cx, rng, &format!("chunks_exact({n})"), it, mi.clone().collect(), &sub)?;
                                let mut c = c;
                                c.next();
                                chk("remainder", c.remainder(), mi.remainder())?;
                            }
                            14 => {
                                let it = cur.rchunks_exact(n);
                                let mi = m.rchunks_exact(n);
                                chk("remainder", it.remainder(), mi.remainder())?;
                                let c = it.clone();
                                iter_history(cx, rng, &format!("rchunks_exact({n})"), it, mi.clone().collect(), &sub)?;
                                let mut c = c;
                                c.next_back();
                                chk("remainder", c.remainder(), mi.remainder())?;
                            }
                            _ => iter_history(cx, rng, &format!("windows({n})"), cur.windows(n), m.windows(n).collect(), &sub)?,
                        }
                    }
                }
                if rng.chance(1, 8) {
                    (cur, m) = (v, model);
                }
            }
            Ok(())
        }
    };
}
exercise!(vector, Vector, T: VectorRead<'b>, T);
exercise!(union_vector, UnionVector, T: VectorReadUnion<'b>, planus::Result<T>);

fn iter_history<I, M: Clone>(
    cx: &RCx,
    rng: &mut Rng,
    name: &str,
    mut it: I,
    model: Vec<M>,
    eq: &dyn Fn(I::Item, &M) -> Result<(), String>,
) -> Result<(), String>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone + std::fmt::Debug,
{
    let mut m: VecDeque<M> = model.into();
    let mut trace = String::new();
    let steps = 2 + rng.below(12);
    let cmp = |what: &str, x: Option<I::Item>, m: Option<M>, trace: &str| match (x, m) {
        (None, None) => Ok(()),
        (Some(x), Some(m)) => {
            eq(x, &m).map_err(|e| format!("{name} after{trace}: {what}: {e}"))
        }
        (x, _) => Err(format!(
            "{name} after{trace}: {what} is {}",
            if x.is_some() { "Some" } else { "None" }
        )),
    };
    let lens = |it: &I, m: &VecDeque<M>, trace: &str| {
        if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) {
            Err(format!(
                "{name} after{trace}: len {} and size_hint {:?} instead of {}",
                it.len(),
                it.size_hint(),
                m.len()
            ))
        } else {
            Ok(())
        }
    };
    lens(&it, &m, &trace)?;
    for _ in 0..steps {
        let k = rng.below(8);
        match k {
            0 | 1 => {
                trace += " next";
                cx.op(|| format!("{name} next"));
                cmp("next", it.next(), m.pop_front(), &trace)?;
            }
            2 | 3 => {
                trace += " next_back";
                cx.op(|| format!("{name} next_back"));
                cmp("next_back", it.next_back(), m.pop_back(), &trace)?;
            }
            4 => {
                let n = skip(rng, m.len());
                trace += &format!(" nth({n})");
                cx.op(|| format!("{name} nth({n})"));
                let gone = n.min(m.len());
                m.drain(..gone);
                cmp("nth", it.nth(n), m.pop_front(), &trace)?;
            }
            5 => {
                let n = skip(rng, m.len());
                trace += &format!(" nth_back({n})");
                cx.op(|| format!("{name} nth_back({n})"));
                let keep = m.len() - n.min(m.len());
                m.truncate(keep);
                cmp("nth_back", it.nth_back(n), m.pop_back(), &trace)?;
            }
            6 => {
                trace += " clone";
                cx.op(|| format!("{name} clone"));
                let c = it.clone();
                if rng.chance(1, 2) {
                    if c.count() != m.len() {
                        return Err(format!("{name} after{trace}: wrong count"));
                    }
                } else {
                    cmp("last", c.last(), m.back().cloned(), &trace)?;
                }
            }
            _ => {
                let _ = format!("{it:?}");
            }
        }
        lens(&it, &m, &trace)?;
    }
    // the rest, from either end, and then nothing more
    let mut rest = m.clone();
    loop {
        let (x, y) = if rng.chance(1, 2) {
            (it.next(), rest.pop_front())
        } else {
            (it.next_back(), rest.pop_back())
        };
        let end = y.is_none();
        cmp("rest", x, y, &trace)?;
        if end {
            break;
        }
    }
    for _ in 0..2 {
        if it.next().is_some() || it.next_back().is_some() || it.nth(0).is_some() || it.nth_back(3).is_some() || it.len() != 0 {
            return Err(format!("{name} after{trace}: exhausted iterator yields again"));
        }
    }
    Ok(())
}
