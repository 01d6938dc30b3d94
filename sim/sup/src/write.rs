use planus::*;
use simcore::{
    rng::Rng,
    schema::{Mode, Val},
};
use std::{
    any::{Any, TypeId},
    cell::{Cell, RefCell},
    collections::HashMap,
    mem::MaybeUninit,
};

pub struct SimPanic;

/// Context of one build operation.
pub struct Cx {
    pub rng: RefCell<Rng>,
    /// always take the simplest way
    pub plain: bool,
    /// out of 100: use an offset from the pool if there is one for the same value
    pub reuse: usize,
    pool: RefCell<HashMap<(TypeId, Val), Box<dyn Any>>>,
    /// panic when this many more callbacks have run
    pub fuse: Cell<i64>,
    pub ticks: Cell<u64>,
    pub pool_hits: Cell<u64>,
    pub panicked: Cell<bool>,
}
impl Cx {
    pub fn new() -> Self {
        Cx {
            rng: RefCell::new(Rng::new(0)),
            plain: true,
            reuse: 0,
            pool: Default::default(),
            fuse: Cell::new(-1),
            ticks: Cell::new(0),
            pool_hits: Cell::new(0),
            panicked: Cell::new(false),
        }
    }
    pub fn set_style(&mut self, seed: u64, reuse: usize) {
        self.plain = seed == 0;
        self.reuse = if self.plain { 0 } else { reuse };
        *self.rng.borrow_mut() = Rng::new(seed);
    }
    pub fn forget(&self) {
        self.pool.borrow_mut().clear();
    }
    pub fn choose(&self, n: usize) -> usize {
        if self.plain {
            0
        } else {
            self.rng.borrow_mut().below(n)
        }
    }
    /// Every piece of harness code that planus calls back into starts with this.
    pub fn tick(&self) {
        self.ticks.set(self.ticks.get() + 1);
        let f = self.fuse.get();
        if f >= 0 {
            self.fuse.set(f - 1);
            if f == 0 {
                self.panicked.set(true);
                std::panic::panic_any(SimPanic);
            }
        }
    }
    pub fn lookup<T: Copy + 'static>(&self, v: &Val) -> Option<T> {
        if self.reuse == 0 || self.rng.borrow_mut().below(100) >= self.reuse {
            return None;
        }
        let r = self
            .pool
            .borrow()
            .get(&(TypeId::of::<T>(), v.clone()))
            .map(|x| *x.downcast_ref::<T>().unwrap());
        if r.is_some() {
            self.pool_hits.set(self.pool_hits.get() + 1);
        }
        r
    }
    pub fn store<T: Copy + 'static>(&self, v: &Val, t: T) -> T {
        if !self.plain {
            self.pool
                .borrow_mut()
                .insert((TypeId::of::<T>(), v.clone()), Box::new(t));
        }
        t
    }
}
impl Default for Cx {
    fn default() -> Self {
        Self::new()
    }
}

type F<'a, R> = Box<dyn Fn(&mut Builder) -> R + 'a>;

/// Values serialized by a callback in the middle of the serialization of something else.
pub struct Off<'a, T: ?Sized>(pub F<'a, Offset<T>>);
impl<T: ?Sized> WriteAsOffset<T> for Off<'_, T> {
    fn prepare(&self, b: &mut Builder) -> Offset<T> {
        (self.0)(b)
    }
}
impl<T: ?Sized> WriteAs<Offset<T>> for Off<'_, T> {
    type Prepared = Offset<T>;
    fn prepare(&self, b: &mut Builder) -> Offset<T> {
        (self.0)(b)
    }
}
impl<T: ?Sized> WriteAsOptional<Offset<T>> for Off<'_, T> {
    type Prepared = Offset<T>;
    fn prepare(&self, b: &mut Builder) -> Option<Offset<T>> {
        Some((self.0)(b))
    }
}
unsafe impl<T: ?Sized> VectorWrite<Offset<T>> for Off<'_, T> {
    const STRIDE: usize = <Offset<T> as VectorWrite<Offset<T>>>::STRIDE;
    type Value = Offset<T>;
    fn prepare(&self, b: &mut Builder) -> Offset<T> {
        (self.0)(b)
    }
    unsafe fn write_values(values: &[Offset<T>], bytes: *mut MaybeUninit<u8>, pos: u32) {
        <Offset<T> as VectorWrite<Offset<T>>>::write_values(values, bytes, pos)
    }
}
pub struct OptOff<'a, T: ?Sized>(pub F<'a, Option<Offset<T>>>);
impl<T: ?Sized> WriteAsOptional<Offset<T>> for OptOff<'_, T> {
    type Prepared = Offset<T>;
    fn prepare(&self, b: &mut Builder) -> Option<Offset<T>> {
        (self.0)(b)
    }
}
#[allow(clippy::type_complexity)]
pub struct DefOff<'a, T: ?Sized, D: ?Sized>(
    pub Box<dyn Fn(&mut Builder, &D) -> Option<Offset<T>> + 'a>,
);
impl<T: ?Sized, D: ?Sized> WriteAsDefault<Offset<T>, D> for DefOff<'_, T, D> {
    type Prepared = Offset<T>;
    fn prepare(&self, b: &mut Builder, d: &D) -> Option<Offset<T>> {
        (self.0)(b, d)
    }
}
/// Elements of vectors of scalars and structs, supplied by a callback.
pub struct El<'a, P>(pub F<'a, P>);
unsafe impl<P: VectorWrite<P, Value = P> + WriteAsPrimitive<P>> VectorWrite<P> for El<'_, P> {
    const STRIDE: usize = <P as VectorWrite<P>>::STRIDE;
    type Value = P;
    fn prepare(&self, b: &mut Builder) -> P {
        (self.0)(b)
    }
    unsafe fn write_values(values: &[P], bytes: *mut MaybeUninit<u8>, pos: u32) {
        <P as VectorWrite<P>>::write_values(values, bytes, pos)
    }
}
pub struct Un<'a, U: ?Sized>(pub F<'a, UnionOffset<U>>);
impl<U: ?Sized> WriteAsUnion<U> for Un<'_, U> {
    fn prepare(&self, b: &mut Builder) -> UnionOffset<U> {
        (self.0)(b)
    }
}
impl<U: ?Sized> WriteAsOptionalUnion<U> for Un<'_, U> {
    fn prepare(&self, b: &mut Builder) -> Option<UnionOffset<U>> {
        Some((self.0)(b))
    }
}
pub struct OptUn<'a, U: ?Sized>(pub F<'a, Option<UnionOffset<U>>>);
impl<U: ?Sized> WriteAsOptionalUnion<U> for OptUn<'_, U> {
    fn prepare(&self, b: &mut Builder) -> Option<UnionOffset<U>> {
        (self.0)(b)
    }
}
pub struct UnV<'a, U: ?Sized>(pub F<'a, UnionVectorOffset<U>>);
impl<U: ?Sized> WriteAsUnionVector<U> for UnV<'_, U> {
    fn prepare(&self, b: &mut Builder) -> UnionVectorOffset<U> {
        (self.0)(b)
    }
}
pub struct OptUnV<'a, U: ?Sized>(pub F<'a, Option<UnionVectorOffset<U>>>);
impl<U: ?Sized> WriteAsOptionalUnionVector<U> for OptUnV<'_, U> {
    fn prepare(&self, b: &mut Builder) -> Option<UnionVectorOffset<U>> {
        (self.0)(b)
    }
}
impl<U: ?Sized> WriteAsDefaultUnionVector<U> for OptUnV<'_, U> {
    fn prepare(&self, b: &mut Builder) -> Option<UnionVectorOffset<U>> {
        (self.0)(b)
    }
}

fn void<T>(v: Option<Void>) -> Option<T> {
    v.map(|v| match v {})
}

// ---- plain values -------------------------------------------------------------------------
macro_rules! ints {
    ($($n:ident: $t:ty),*) => {$(
        pub fn $n(v: &Val) -> $t {
            match v { Val::I(i) => *i as $t, x => panic!("{x:?} is not an integer") }
        }
    )*}
}
ints! {g_u8: u8, g_i8: i8, g_u16: u16, g_i16: i16, g_u32: u32, g_i32: i32, g_u64: u64, g_i64: i64}
pub fn g_bool(v: &Val) -> bool {
    matches!(v, Val::B(true))
}
pub fn g_f32(v: &Val) -> f32 {
    match v {
        Val::F32(b) => f32::from_bits(*b),
        x => panic!("{x:?}"),
    }
}
pub fn g_f64(v: &Val) -> f64 {
    match v {
        Val::F64(b) => f64::from_bits(*b),
        x => panic!("{x:?}"),
    }
}
pub fn g_str(v: &Val) -> &str {
    match v {
        Val::S(s) => s,
        x => panic!("{x:?}"),
    }
}
pub fn g_vec(v: &Val) -> &[Val] {
    match v {
        Val::V(s) => s,
        x => panic!("{x:?}"),
    }
}
pub fn g_fields(v: &Val) -> &[Val] {
    match v {
        Val::T(s) | Val::St(s) => s,
        x => panic!("{x:?}"),
    }
}
pub fn g_opt<'a, T>(v: &'a Val, f: impl FnOnce(&'a Val) -> T) -> Option<T> {
    match v {
        Val::Null => None,
        v => Some(f(v)),
    }
}
pub fn v_opt<T>(v: &Option<T>, f: impl FnOnce(&T) -> Val) -> Val {
    match v {
        None => Val::Null,
        Some(v) => f(v),
    }
}

// ---- strings ------------------------------------------------------------------------------
pub fn mk_str(cx: &Cx, b: &mut Builder, v: &Val) -> Offset<str> {
    cx.tick();
    if let Some(o) = cx.lookup(v) {
        return o;
    }
    let s = g_str(v);
    let o = match cx.choose(6) {
        0 => WriteAsOffset::prepare(&s.to_string(), b),
        1 => WriteAsOffset::prepare(s, b),
        2 => b.create_string(s),
        3 => WriteAs::<Offset<str>>::prepare(&Box::<str>::from(s), b),
        4 => b.create_string(s.to_string()),
        _ => WriteAs::<Offset<str>>::prepare(&s, b),
    };
    cx.store(v, o)
}
pub fn a_str_req<'a>(cx: &'a Cx, v: &'a Val) -> Off<'a, str> {
    Off(Box::new(move |b| match cx.choose(3) {
        0 => mk_str(cx, b, v),
        1 => WriteAs::<Offset<str>>::prepare(&g_str(v).to_string(), b),
        _ => WriteAs::<Offset<str>>::prepare(g_str(v), b),
    }))
}
pub fn a_str_opt<'a>(cx: &'a Cx, v: &'a Val) -> OptOff<'a, str> {
    OptOff(Box::new(move |b| {
        if *v == Val::Null {
            cx.tick();
            return match cx.choose(3) {
                0 => WriteAsOptional::<Offset<str>>::prepare(&None::<String>, b),
                1 => void(WriteAsOptional::<Offset<str>>::prepare(&(), b)),
                _ => WriteAsOptional::<Offset<str>>::prepare(&None::<Offset<str>>, b),
            };
        }
        match cx.choose(6) {
            0 => Some(mk_str(cx, b, v)),
            1 => WriteAsOptional::<Offset<str>>::prepare(&Some(g_str(v).to_string()), b),
            2 => WriteAsOptional::<Offset<str>>::prepare(&Some(g_str(v)), b),
            3 => WriteAsOptional::<Offset<str>>::prepare(&g_str(v).to_string(), b),
            4 => {
                let o = mk_str(cx, b, v);
                WriteAsOptional::<Offset<str>>::prepare(&Some(o), b)
            }
            _ => WriteAsOptional::<Offset<str>>::prepare(g_str(v), b),
        }
    }))
}
pub fn a_str_def<'a>(cx: &'a Cx, v: &'a Val) -> DefOff<'a, str, str> {
    DefOff(Box::new(move |b, d| match cx.choose(5) {
        0 => WriteAsDefault::<Offset<str>, str>::prepare(&g_str(v).to_string(), b, d),
        1 => WriteAsDefault::<Offset<str>, str>::prepare(g_str(v), b, d),
        2 => {
            // an explicit offset is written even if it is the default
            Some(mk_str(cx, b, v))
        }
        3 => WriteAsDefault::<Offset<str>, str>::prepare(&Box::<str>::from(g_str(v)), b, d),
        _ => {
            if g_str(v) == d {
                void(WriteAsDefault::<Offset<str>, str>::prepare(&DefaultValue, b, d))
            } else {
                WriteAsDefault::<Offset<str>, str>::prepare(&g_str(v), b, d)
            }
        }
    }))
}

// ---- vectors ------------------------------------------------------------------------------
macro_rules! reprs {
    ($cx:expr, $xs:expr, |$x:ident| $e:expr) => {{
        let xs = $xs;
        match $cx.choose(5) {
            0 => {
                let $x = xs;
                $e
            }
            1 => {
                let $x = &xs[..];
                $e
            }
            2 => {
                let $x = &xs;
                $e
            }
            _ => reprs_arr!(xs, |$x| $e),
        }
    }};
}
macro_rules! reprs_arr {
    ($xs:expr, |$x:ident| $e:expr) => {{
        let xs = $xs;
        match xs.len() {
            1 => {
                let Ok($x) = <[_; 1]>::try_from(xs) else { unreachable!() };
                $e
            }
            2 => {
                let Ok($x) = <[_; 2]>::try_from(xs) else { unreachable!() };
                let $x = &$x;
                $e
            }
            3 => {
                let Ok($x) = <[_; 3]>::try_from(xs) else { unreachable!() };
                $e
            }
            5 => {
                let Ok($x) = <[_; 5]>::try_from(xs) else { unreachable!() };
                $e
            }
            _ => {
                let $x = xs;
                $e
            }
        }
    }};
}

/// Vectors whose elements are of type X. `fs` makes the elements.
pub fn mk_vec<X, P>(cx: &Cx, b: &mut Builder, v: &Val, xs: Vec<X>) -> Offset<[P]>
where
    P: Primitive + 'static,
    X: VectorWrite<P>,
{
    let o = if cx.choose(4) == 1 {
        reprs!(cx, xs, |x| b.create_vector(x))
    } else {
        reprs!(cx, xs, |x| WriteAs::<Offset<[P]>>::prepare(&x, b))
    };
    cx.store(v, o)
}
pub fn mk_vec_opt<X, P>(cx: &Cx, b: &mut Builder, v: &Val, xs: Vec<X>) -> Option<Offset<[P]>>
where
    P: Primitive + 'static,
    X: VectorWrite<P>,
{
    let o = match cx.choose(3) {
        0 => reprs!(cx, xs, |x| WriteAsOptional::<Offset<[P]>>::prepare(&Some(x), b)),
        1 => reprs!(cx, xs, |x| WriteAsOptional::<Offset<[P]>>::prepare(&x, b)),
        _ => return Some(mk_vec(cx, b, v, xs)),
    };
    o.map(|o| cx.store(v, o))
}
pub fn mk_vec_def<X, P>(cx: &Cx, b: &mut Builder, v: &Val, xs: Vec<X>) -> Option<Offset<[P]>>
where
    P: Primitive + 'static,
    X: VectorWrite<P>,
{
    match cx.choose(5) {
        0 => WriteAsDefault::<Offset<[P]>, ()>::prepare(&xs, b, &()),
        1 => WriteAsDefault::<Offset<[P]>, ()>::prepare(&xs[..], b, &()),
        2 => WriteAsDefault::<Offset<[P]>, ()>::prepare(&&xs, b, &()),
        3 if xs.is_empty() => void(WriteAsDefault::<Offset<[P]>, ()>::prepare(
            &DefaultValue,
            b,
            &(),
        )),
        _ => Some(mk_vec(cx, b, v, xs)),
    }
}
fn none_vec<P: Primitive>(cx: &Cx, b: &mut Builder) -> Option<Offset<[P]>> {
    cx.tick();
    match cx.choose(2) {
        0 => WriteAsOptional::<Offset<[P]>>::prepare(&None::<Offset<[P]>>, b),
        _ => void(WriteAsOptional::<Offset<[P]>>::prepare(&(), b)),
    }
}

/// How the elements of a vector are made. Scalars, structs and enums: `one`.
pub trait Elems {
    type P: Primitive + 'static;
    fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Offset<[Self::P]>;
    fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Self::P]>>;
    fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Self::P]>>;
}
/// scalars, enums, structs
pub struct Prims<P>(pub fn(&Val) -> P);
impl<P> Elems for Prims<P>
where
    P: Primitive + Copy + 'static + VectorWrite<P, Value = P> + WriteAsPrimitive<P>,
{
    type P = P;
    fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Offset<[P]> {
        let xs: Vec<P> = g_vec(v).iter().map(self.0).collect();
        match cx.choose(4) {
            1 => mk_vec(cx, b, v, xs.iter().collect()),
            2 => mk_vec(cx, b, v, els(cx, &xs)),
            _ => mk_vec(cx, b, v, xs),
        }
    }
    fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[P]>> {
        let xs: Vec<P> = g_vec(v).iter().map(self.0).collect();
        match cx.choose(4) {
            1 => mk_vec_opt(cx, b, v, xs.iter().collect()),
            2 => mk_vec_opt(cx, b, v, els(cx, &xs)),
            _ => mk_vec_opt(cx, b, v, xs),
        }
    }
    fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[P]>> {
        let xs: Vec<P> = g_vec(v).iter().map(self.0).collect();
        match cx.choose(4) {
            1 => mk_vec_def(cx, b, v, xs.iter().collect()),
            2 => mk_vec_def(cx, b, v, els(cx, &xs)),
            _ => mk_vec_def(cx, b, v, xs),
        }
    }
}
fn els<'a, P: Copy>(cx: &'a Cx, xs: &[P]) -> Vec<El<'a, P>>
where
    P: 'a,
{
    xs.iter()
        .map(|x| {
            let x = *x;
            El(Box::new(move |_: &mut Builder| {
                cx.tick();
                x
            }) as F<'a, P>)
        })
        .collect()
}

/// byte vectors have their own implementations
macro_rules! bytes {
    ($name:ident, $t:ty, $g:ident) => {
        pub struct $name;
        impl Elems for $name {
            type P = $t;
            fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Offset<[$t]> {
                let xs: Vec<$t> = g_vec(v).iter().map($g).collect();
                let o = if cx.choose(4) == 1 {
                    reprs!(cx, xs, |x| b.create_vector(x))
                } else {
                    reprs!(cx, xs, |x| WriteAs::<Offset<[$t]>>::prepare(&x, b))
                };
                cx.store(v, o)
            }
            fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[$t]>> {
                let xs: Vec<$t> = g_vec(v).iter().map($g).collect();
                let o = match cx.choose(2) {
                    0 => reprs!(cx, xs, |x| WriteAsOptional::<Offset<[$t]>>::prepare(&Some(x), b)),
                    _ => reprs!(cx, xs, |x| WriteAsOptional::<Offset<[$t]>>::prepare(&x, b)),
                };
                o.map(|o| cx.store(v, o))
            }
            fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[$t]>> {
                let xs: Vec<$t> = g_vec(v).iter().map($g).collect();
                match cx.choose(5) {
                    0 => WriteAsDefault::<Offset<[$t]>, ()>::prepare(&xs, b, &()),
                    1 => WriteAsDefault::<Offset<[$t]>, ()>::prepare(&xs[..], b, &()),
                    2 => WriteAsDefault::<Offset<[$t]>, ()>::prepare(&&xs, b, &()),
                    3 if xs.is_empty() => void(WriteAsDefault::<Offset<[$t]>, ()>::prepare(
                        &DefaultValue,
                        b,
                        &(),
                    )),
                    _ => Some(self.req(cx, b, v)),
                }
            }
        }
    };
}
bytes!(BytesU8, u8, g_u8);
bytes!(BytesI8, i8, g_i8);

pub struct Strs;
impl Elems for Strs {
    type P = Offset<str>;
    fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Offset<[Offset<str>]> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec(cx, b, v, vs.iter().map(|v| g_str(v).to_string()).collect()),
            1 => mk_vec(cx, b, v, vs.iter().map(g_str).collect()),
            2 => {
                let os: Vec<_> = vs.iter().map(|v| mk_str(cx, b, v)).collect();
                mk_vec(cx, b, v, os)
            }
            _ => mk_vec(cx, b, v, lazy_strs(cx, vs)),
        }
    }
    fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Offset<str>]>> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec_opt(cx, b, v, vs.iter().map(|v| g_str(v).to_string()).collect()),
            1 => mk_vec_opt(cx, b, v, vs.iter().map(g_str).collect()),
            2 => {
                let os: Vec<_> = vs.iter().map(|v| mk_str(cx, b, v)).collect();
                mk_vec_opt(cx, b, v, os)
            }
            _ => mk_vec_opt(cx, b, v, lazy_strs(cx, vs)),
        }
    }
    fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Offset<str>]>> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec_def(cx, b, v, vs.iter().map(|v| g_str(v).to_string()).collect()),
            1 => mk_vec_def(cx, b, v, vs.iter().map(g_str).collect()),
            2 => {
                let os: Vec<_> = vs.iter().map(|v| mk_str(cx, b, v)).collect();
                mk_vec_def(cx, b, v, os)
            }
            _ => mk_vec_def(cx, b, v, lazy_strs(cx, vs)),
        }
    }
}
fn lazy_strs<'a>(cx: &'a Cx, vs: &'a [Val]) -> Vec<Off<'a, str>> {
    vs.iter()
        .map(|v| Off(Box::new(move |b: &mut Builder| mk_str(cx, b, v)) as F<'a, _>))
        .collect()
}

/// tables: how to make the owned value, and how to serialize by any means
pub struct Tabs<T: 'static>(
    pub fn(&Val) -> T,
    pub fn(&Cx, &mut Builder, &Val) -> Offset<T>,
);
impl<T> Tabs<T> {
    fn lazy<'a>(&'a self, cx: &'a Cx, vs: &'a [Val]) -> Vec<Off<'a, T>> {
        vs.iter()
            .map(|v| Off(Box::new(move |b: &mut Builder| (self.1)(cx, b, v)) as F<'a, _>))
            .collect()
    }
}
impl<T: 'static> Elems for Tabs<T>
where
    T: VectorWrite<Offset<T>>,
{
    type P = Offset<T>;
    fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Offset<[Offset<T>]> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec(cx, b, v, vs.iter().map(self.0).collect()),
            1 => {
                let xs: Vec<T> = vs.iter().map(self.0).collect();
                mk_vec(cx, b, v, xs.iter().collect())
            }
            2 => {
                let os: Vec<_> = vs.iter().map(|v| (self.1)(cx, b, v)).collect();
                mk_vec(cx, b, v, os)
            }
            _ => mk_vec(cx, b, v, self.lazy(cx, vs)),
        }
    }
    fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Offset<T>]>> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec_opt(cx, b, v, vs.iter().map(self.0).collect()),
            1 => {
                let os: Vec<_> = vs.iter().map(|v| (self.1)(cx, b, v)).collect();
                mk_vec_opt(cx, b, v, os)
            }
            _ => mk_vec_opt(cx, b, v, self.lazy(cx, vs)),
        }
    }
    fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<Offset<[Offset<T>]>> {
        let vs = g_vec(v);
        match cx.choose(4) {
            0 => mk_vec_def(cx, b, v, vs.iter().map(self.0).collect()),
            1 => {
                let os: Vec<_> = vs.iter().map(|v| (self.1)(cx, b, v)).collect();
                mk_vec_def(cx, b, v, os)
            }
            _ => mk_vec_def(cx, b, v, self.lazy(cx, vs)),
        }
    }
}

pub fn a_vec_req<'a, E: Elems + 'a>(cx: &'a Cx, v: &'a Val, e: E) -> Off<'a, [E::P]> {
    Off(Box::new(move |b| {
        cx.tick();
        if let Some(o) = cx.lookup(v) {
            return o;
        }
        e.req(cx, b, v)
    }))
}
pub fn a_vec_opt<'a, E: Elems + 'a>(cx: &'a Cx, v: &'a Val, e: E) -> OptOff<'a, [E::P]> {
    OptOff(Box::new(move |b| {
        if *v == Val::Null {
            return none_vec(cx, b);
        }
        cx.tick();
        if let Some(o) = cx.lookup::<Offset<[E::P]>>(v) {
            return WriteAsOptional::<Offset<[E::P]>>::prepare(&o, b);
        }
        e.opt(cx, b, v)
    }))
}
pub fn a_vec_def<'a, E: Elems + 'a>(cx: &'a Cx, v: &'a Val, e: E) -> DefOff<'a, [E::P], ()> {
    DefOff(Box::new(move |b, d| {
        cx.tick();
        if let Some(o) = cx.lookup::<Offset<[E::P]>>(v) {
            return WriteAsDefault::<Offset<[E::P]>, ()>::prepare(&o, b, d);
        }
        e.def(cx, b, v)
    }))
}

// ---- tables -------------------------------------------------------------------------------
pub fn a_tab_req<'a, T: 'static>(
    cx: &'a Cx,
    v: &'a Val,
    mk: fn(&Cx, &mut Builder, &Val) -> Offset<T>,
) -> Off<'a, T> {
    Off(Box::new(move |b| mk(cx, b, v)))
}
pub fn a_tab_opt<'a, T: 'static>(
    cx: &'a Cx,
    v: &'a Val,
    own: fn(&Val) -> T,
    mk: fn(&Cx, &mut Builder, &Val) -> Offset<T>,
) -> OptOff<'a, T>
where
    T: WriteAsOptional<Offset<T>, Prepared = Offset<T>>,
{
    OptOff(Box::new(move |b| {
        if *v == Val::Null {
            cx.tick();
            return match cx.choose(3) {
                0 => WriteAsOptional::<Offset<T>>::prepare(&None::<Box<T>>, b),
                1 => void(WriteAsOptional::<Offset<T>>::prepare(&(), b)),
                _ => WriteAsOptional::<Offset<T>>::prepare(&None::<Offset<T>>, b),
            };
        }
        match cx.choose(5) {
            0 => Some(mk(cx, b, v)),
            1 => {
                let x = Some(Box::new(own(v)));
                WriteAsOptional::<Offset<T>>::prepare(&x, b)
            }
            2 => {
                let x = own(v);
                WriteAsOptional::<Offset<T>>::prepare(&Some(&x), b)
            }
            _ => {
                let o = mk(cx, b, v);
                WriteAsOptional::<Offset<T>>::prepare(&Some(o), b)
            }
        }
    }))
}

// ---- unions -------------------------------------------------------------------------------
type MkU<U> = fn(&Cx, &mut Builder, &Val) -> UnionOffset<U>;
pub fn a_un_req<'a, U: 'static>(cx: &'a Cx, v: &'a Val, mk: MkU<U>) -> Un<'a, U> {
    Un(Box::new(move |b| mk(cx, b, v)))
}
pub fn a_un_opt<'a, U: 'static + WriteAsOptionalUnion<U>>(
    cx: &'a Cx,
    v: &'a Val,
    own: fn(&Val) -> U,
    mk: MkU<U>,
) -> OptUn<'a, U> {
    OptUn(Box::new(move |b| {
        if *v == Val::Null {
            cx.tick();
            return match cx.choose(2) {
                0 => WriteAsOptionalUnion::<U>::prepare(&None::<U>, b),
                _ => WriteAsOptionalUnion::<U>::prepare(&(), b),
            };
        }
        match cx.choose(4) {
            0 => Some(mk(cx, b, v)),
            1 => WriteAsOptionalUnion::<U>::prepare(&Some(own(v)), b),
            2 => WriteAsOptionalUnion::<U>::prepare(&Box::new(own(v)), b),
            _ => {
                let o = mk(cx, b, v);
                WriteAsOptionalUnion::<U>::prepare(&Some(o), b)
            }
        }
    }))
}
pub struct Uns<U: 'static>(pub fn(&Val) -> U, pub MkU<U>);
macro_rules! unv {
    ($self:ident, $cx:ident, $b:ident, $v:ident, $tr:path, |$x:ident| $e:expr) => {{
        let vs = g_vec($v);
        match $cx.choose(5) {
            0 => reprs!($cx, vs.iter().map($self.0).collect::<Vec<U>>(), |$x| $e),
            1 => {
                let us: Vec<U> = vs.iter().map($self.0).collect();
                reprs!($cx, us.iter().collect::<Vec<&U>>(), |$x| $e)
            }
            2 => {
                let os: Vec<UnionOffset<U>> = vs.iter().map(|v| ($self.1)($cx, $b, v)).collect();
                reprs!($cx, os, |$x| $e)
            }
            3 => {
                let us: Vec<Box<U>> = vs.iter().map(|v| Box::new(($self.0)(v))).collect();
                reprs!($cx, us, |$x| $e)
            }
            _ => {
                let mk = $self.1;
                let cx = $cx;
                let us: Vec<Un<'_, U>> = vs
                    .iter()
                    .map(|v| Un(Box::new(move |b: &mut Builder| mk(cx, b, v)) as F<'_, _>))
                    .collect();
                reprs!($cx, us, |$x| $e)
            }
        }
    }};
}
impl<U: 'static + WriteAsUnion<U>> Uns<U> {
    pub fn req(&self, cx: &Cx, b: &mut Builder, v: &Val) -> UnionVectorOffset<U> {
        let o = if cx.choose(3) == 1 {
            unv!(self, cx, b, v, WriteAsUnionVector, |x| b.create_union_vector(x))
        } else {
            unv!(self, cx, b, v, WriteAsUnionVector, |x| {
                WriteAsUnionVector::<U>::prepare(&x, b)
            })
        };
        cx.store(v, o)
    }
    fn opt(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<UnionVectorOffset<U>> {
        let o: Option<UnionVectorOffset<U>> = if cx.choose(2) == 1 {
            unv!(self, cx, b, v, WriteAsOptionalUnionVector, |x| {
                WriteAsOptionalUnionVector::<U>::prepare(&Some(x), b)
            })
        } else {
            unv!(self, cx, b, v, WriteAsOptionalUnionVector, |x| {
                WriteAsOptionalUnionVector::<U>::prepare(&x, b)
            })
        };
        o.map(|o| cx.store(v, o))
    }
    fn def(&self, cx: &Cx, b: &mut Builder, v: &Val) -> Option<UnionVectorOffset<U>> {
        if g_vec(v).is_empty() && cx.choose(4) == 1 {
            return WriteAsDefaultUnionVector::<U>::prepare(&DefaultValue, b);
        }
        if cx.choose(4) == 1 {
            let o = self.req(cx, b, v);
            return WriteAsDefaultUnionVector::<U>::prepare(&o, b);
        }
        unv!(self, cx, b, v, WriteAsDefaultUnionVector, |x| {
            WriteAsDefaultUnionVector::<U>::prepare(&x, b)
        })
    }
}
pub fn a_unv_req<'a, U: 'static + WriteAsUnion<U>>(
    cx: &'a Cx,
    v: &'a Val,
    e: Uns<U>,
) -> UnV<'a, U> {
    UnV(Box::new(move |b| {
        cx.tick();
        if let Some(o) = cx.lookup(v) {
            return o;
        }
        e.req(cx, b, v)
    }))
}
pub fn a_unv_opt<'a, U: 'static + WriteAsUnion<U>>(
    cx: &'a Cx,
    v: &'a Val,
    e: Uns<U>,
) -> OptUnV<'a, U> {
    OptUnV(Box::new(move |b| {
        cx.tick();
        if *v == Val::Null {
            return match cx.choose(2) {
                0 => WriteAsOptionalUnionVector::<U>::prepare(&None::<UnionVectorOffset<U>>, b),
                _ => WriteAsOptionalUnionVector::<U>::prepare(&(), b),
            };
        }
        if let Some(o) = cx.lookup::<UnionVectorOffset<U>>(v) {
            return WriteAsOptionalUnionVector::<U>::prepare(&o, b);
        }
        e.opt(cx, b, v)
    }))
}
pub fn a_unv_def<'a, U: 'static + WriteAsUnion<U>>(
    cx: &'a Cx,
    v: &'a Val,
    e: Uns<U>,
) -> OptUnV<'a, U> {
    OptUnV(Box::new(move |b| {
        cx.tick();
        if let Some(o) = cx.lookup::<UnionVectorOffset<U>>(v) {
            return WriteAsDefaultUnionVector::<U>::prepare(&o, b);
        }
        e.def(cx, b, v)
    }))
}

/// Is the value one that the builder chain may spell as `_as_null` / `_as_default`?
pub fn is_omitted(m: &Mode, v: &Val) -> bool {
    match m {
        Mode::Opt => *v == Val::Null,
        Mode::Def(d) => v == d,
        Mode::Req => false,
    }
}
