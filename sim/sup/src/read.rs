use planus::{UnionVector, Vector, VectorRead, VectorReadUnion};
use simcore::{rng::Rng, schema::Val};
use std::cell::{Cell, RefCell};

/// Context of one read.
pub struct RCx {
    pub budget: Cell<i64>,
    depth: Cell<u32>,
    /// the buffer: everything handed out must lie in here
    lo: usize,
    hi: usize,
    pub problems: RefCell<Vec<String>>,
    /// exercise the vector views and iterators
    pub exercise: Option<RefCell<Rng>>,
    busy: Cell<bool>,
    pub ops: Cell<u64>,
    pub vectors: Cell<u64>,
    pub strings: Cell<u64>,
    pub max_seq: Cell<usize>,
    pub log: RefCell<Vec<String>>,
    pub keep_log: bool,
    /// The buffer is damaged: an element may read differently (as an error) through a shorter
    /// view, because planus looks for the vtable of an element no further back than the view.
    pub lenient: bool,
}
impl RCx {
    pub fn new(bytes: &[u8], budget: i64) -> Self {
        let lo = bytes.as_ptr() as usize;
        RCx {
            budget: Cell::new(budget),
            depth: Cell::new(0),
            lo,
            hi: lo + bytes.len(),
            problems: Default::default(),
            exercise: None,
            busy: Cell::new(false),
            ops: Cell::new(0),
            vectors: Cell::new(0),
            strings: Cell::new(0),
            max_seq: Cell::new(0),
            log: Default::default(),
            keep_log: false,
            lenient: false,
        }
    }
    pub fn problem(&self, s: String) {
        let s = if s.len() > 4000 { s.chars().take(4000).collect() } else { s };
        self.problems.borrow_mut().push(s);
    }
    pub fn enter(&self) -> bool {
        self.budget.set(self.budget.get() - 1);
        if self.budget.get() < 0 || self.depth.get() > 150 {
            return false;
        }
        self.depth.set(self.depth.get() + 1);
        true
    }
    pub fn leave(&self) {
        self.depth.set(self.depth.get() - 1);
    }
    fn spend(&self, n: usize) -> bool {
        self.budget.set(self.budget.get() - n as i64);
        self.budget.get() >= 0
    }
    fn inside(&self, what: &str, p: *const u8, len: usize) {
        let p = p as usize;
        if len > 0 && (p < self.lo || p + len > self.hi) {
            self.problem(format!(
                "{what} of {len} bytes at offset {} of a buffer of {} bytes",
                p as i128 - self.lo as i128,
                self.hi - self.lo
            ));
        }
    }
    /// `default` strings do not live in the buffer
    pub fn str(&self, s: &str, default: Option<&str>) -> Val {
        self.strings.set(self.strings.get() + 1);
        if default.is_none_or(|d| d != s) {
            self.inside("string", s.as_ptr(), s.len());
        }
        if !self.spend(s.len() / 64) {
            return Val::Cut;
        }
        match std::str::from_utf8(s.as_bytes()) {
            Ok(_) => Val::S(s.to_string()),
            Err(_) => {
                self.problem("a string handed out is not UTF-8".into());
                Val::Err
            }
        }
    }
    pub fn bytes_u8(&self, s: &[u8]) -> Val {
        self.inside("byte slice", s.as_ptr(), s.len());
        if !self.spend(s.len() / 16) {
            return Val::Cut;
        }
        Val::V(s.iter().map(|b| Val::I(*b as i128)).collect())
    }
    pub fn bytes_i8(&self, s: &[i8]) -> Val {
        self.inside("byte slice", s.as_ptr() as *const u8, s.len());
        if !self.spend(s.len() / 16) {
            return Val::Cut;
        }
        Val::V(s.iter().map(|b| Val::I(*b as i128)).collect())
    }
    fn seq(
        &self,
        len: usize,
        get: &dyn Fn(usize) -> Option<Val>,
        all: &dyn Fn() -> Vec<Val>,
        ex: &dyn Fn(&[Val], &mut Rng) -> Result<(), String>,
    ) -> Val {
        self.vectors.set(self.vectors.get() + 1);
        if len > self.hi - self.lo + 1 {
            self.problem(format!(
                "a vector of {len} elements in a buffer of {} bytes",
                self.hi - self.lo
            ));
            return Val::Err;
        }
        if !self.spend(len / 4) {
            return Val::Cut;
        }
        let mut v = vec![];
        if self.lenient {
            // the way the owned conversion goes
            v = all();
            if v.len() != len {
                self.problem(format!("a vector of length {len} yields {} elements", v.len()));
                return Val::Err;
            }
        }
        for i in 0..len {
            match get(i) {
                Some(_) if self.lenient => {}
                Some(x) => v.push(x),
                None => {
                    self.problem(format!("get({i}) of a vector of length {len} is None"));
                    return Val::Err;
                }
            }
        }
        if get(len).is_some() || get(usize::MAX).is_some() {
            self.problem(format!("get({len}) of a vector of length {len} is Some"));
        }
        if let Some(r) = &self.exercise {
            let total: usize = v.iter().map(|x| x.size()).sum();
            let cut = v.iter().any(|x| x.has_cut());
            // very long ones only if they consist of single numbers
            if !self.busy.get() && !cut && (total < 400 || !self.lenient && len > 65_000 && total == len) {
                self.busy.set(true);
                self.max_seq.set(self.max_seq.get().max(len));
                let mut rng = r.borrow_mut().fork();
                if let Err(e) = ex(&v, &mut rng) {
                    self.problem(e);
                }
                self.busy.set(false);
            }
        }
        Val::V(v)
    }
    pub fn vec<'b, T: VectorRead<'b> + std::fmt::Debug>(
        &self,
        v: Vector<'b, T>,
        conv: impl Fn(T) -> Val,
    ) -> Val {
        self.seq(
            v.len(),
            &|i| v.get(i).map(&conv),
            &|| v.iter().map(&conv).collect(),
            &|model, rng| crate::seq::vector(self, v, model, &conv, rng),
        )
    }
    pub fn uvec<'b, T: VectorReadUnion<'b> + std::fmt::Debug>(
        &self,
        v: UnionVector<'b, T>,
        conv: impl Fn(planus::Result<T>) -> Val,
    ) -> Val {
        self.seq(
            v.len(),
            &|i| v.get(i).map(&conv),
            &|| v.iter().map(&conv).collect(),
            &|model, rng| crate::seq::union_vector(self, v, model, &conv, rng),
        )
    }
    pub(crate) fn same(&self, a: &Val, b: &Val) -> bool {
        a == b || self.lenient && agree(a, b)
    }
    pub(crate) fn same_all(&self, a: &[Val], b: &[Val]) -> bool {
        a.len() == b.len() && a.iter().zip(b).all(|(a, b)| self.same(a, b))
    }
    pub(crate) fn op(&self, s: impl FnOnce() -> String) {
        self.ops.set(self.ops.get() + 1);
        if self.keep_log {
            self.log.borrow_mut().push(s());
        }
    }
}

pub fn opt<T, E>(r: Result<Option<T>, E>, f: impl FnOnce(T) -> Val) -> Val {
    match r {
        Ok(Some(x)) => f(x),
        Ok(None) => Val::Null,
        Err(_) => Val::Err,
    }
}
pub fn req<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> Val) -> Val {
    match r {
        Ok(x) => f(x),
        Err(_) => Val::Err,
    }
}

fn agree(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Err | Val::Cut, _) | (_, Val::Err | Val::Cut) => true,
        (Val::V(x), Val::V(y)) | (Val::St(x), Val::St(y)) | (Val::T(x), Val::T(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| agree(x, y))
        }
        (Val::U(t, x), Val::U(u, y)) => t == u && agree(x, y),
        _ => a == b,
    }
}
