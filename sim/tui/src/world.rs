//! What the viewer looks at: a schema translated by planus, a buffer, and how to draw both.
use planus_types::intermediate::{AbsolutePath, DeclarationIndex, Declarations};
use serde::{Deserialize, Serialize};
use simcore::{encode, gen::*, rng::Rng, schema::*};
use simrt::hist;
use simsup::Cx;
use std::{cell::RefCell, collections::BTreeMap};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Which {
    /// a family of the simulator with compiled accessors
    Fam(String, usize),
    /// a schema made up for this run
    Random(u64, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    pub writer: Which,
    /// what the viewer believes; differs from the writer only in its version
    pub reader: Which,
    pub t: usize,
    pub v: Val,
    /// None: written by planus
    pub foreign: Option<u64>,
    pub style: u64,
    /// instead of the value: so many tables inside one another
    #[serde(default)]
    pub deep: usize,
}
pub struct World {
    pub schema: &'static Schema,
    pub decl: &'static Declarations,
    pub root: DeclarationIndex,
    pub buffer: &'static [u8],
}

/// From this size on: many tables that look alike, so that they share their vtable, and its bytes
/// have that many meanings.
const CROWD: usize = 100;
fn crowd(seed: u64, n: usize) -> Schema {
    let mut rng = Rng::new(seed);
    let mut s = random("rr", seed, 0);
    let first = s.tables.len();
    let field = |k: usize, ty: Ty, mode: Mode| Field {
        key: 10_000 + k as u32,
        name: format!("c{k}"),
        ty,
        mode,
        deprecated: false,
        slot: k,
        explicit_default: false,
        force_align: None,
    };
    // as a heap: the root is one of them
    if seed % 2 == 0 {
        for k in (0..n).rev() {
            let child = |c: usize| if c < n { Ty::Table(first + n - 1 - c) } else { Ty::Int(Int::U32) };
            let fields = vec![field(0, Ty::Int(Int::U32), Mode::Opt), field(1, child(2 * k + 1), Mode::Opt), field(2, child(2 * k + 2), Mode::Opt)];
            s.tables.push(Table { name: format!("Crowd{k}"), ns: 0, explicit_ids: false, fields });
        }
        return s;
    }
    for k in 0..n {
        let ty = if rng.chance(1, 8) { Ty::Str } else { Ty::Int(*rng.pick(&[Int::U32, Int::I32])) };
        let mode = Mode::Opt;
        s.tables.push(Table { name: format!("Crowd{k}"), ns: 0, explicit_ids: false, fields: vec![field(0, ty, mode)] });
    }
    let fields = (0..n)
        .map(|k| {
            let t = Ty::Table(first + k);
            field(k, if rng.chance(1, 6) { Ty::vec(t) } else { t }, Mode::Opt)
        })
        .collect();
    s.tables.push(Table { name: "CrowdRoot".into(), ns: 0, explicit_ids: false, fields });
    s
}
fn schema_of(w: &Which) -> &'static Schema {
    match w {
        Which::Fam(f, v) => hist::schema(f, *v),
        Which::Random(seed, size) => {
            thread_local! {
                static S: RefCell<BTreeMap<(u64, usize), &'static Schema>> = const { RefCell::new(BTreeMap::new()) };
            }
            S.with(|m| *m.borrow_mut().entry((*seed, *size)).or_insert_with(|| Box::leak(Box::new(if *size >= CROWD { crowd(*seed, *size - CROWD) } else { random("rr", *seed, *size) }))))
        }
    }
}
/// None: planus refuses the schema (not the question here).
fn translate(w: &Which) -> Option<&'static Declarations> {
    thread_local! {
        static D: RefCell<BTreeMap<Which, Option<&'static Declarations>>> = const { RefCell::new(BTreeMap::new()) };
    }
    if let Some(d) = D.with(|d| d.borrow().get(w).copied()) {
        return d;
    }
    let dir = std::env::temp_dir().join(format!("simtui-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut files = vec![];
    for (name, text) in schema_of(w).emit() {
        let p = dir.join(name);
        std::fs::write(&p, text).unwrap();
        files.push(p);
    }
    let d = planus_translation::translate_files_with_options(&files, Default::default());
    std::fs::remove_dir_all(&dir).unwrap();
    let d = d.map(|d| &*Box::leak(Box::new(d)));
    D.with(|m| m.borrow_mut().insert(w.clone(), d));
    d
}
pub fn path_of(s: &Schema, ns: usize, name: &str) -> AbsolutePath {
    let mut p = s.namespaces[ns].clone();
    p.push(name.to_string());
    AbsolutePath(p)
}
impl Input {
    pub fn random(rng: &mut Rng, versions: bool) -> Input {
        let writer = if rng.chance(1, 25) {
            Which::Random(rng.below(20) as u64, CROWD + *rng.pick(&[2, 5, 12, 30, 60]))
        } else if rng.chance(2, 5) {
            Which::Random(rng.below(300) as u64, rng.below(5))
        } else {
            let (f, v) = hist::pick_family(rng);
            Which::Fam(f, v)
        };
        let mut reader = writer.clone();
        if let (Which::Fam(f, _), true) = (&writer, versions && rng.chance(1, 3)) {
            reader = Which::Fam(f.clone(), rng.below(simrt::read::family_len(f)));
        }
        let s = schema_of(&writer);
        let t = rng.below(s.tables.len().min(schema_of(&reader).tables.len()));
        let t = if matches!(writer, Which::Random(_, CROWD..)) { s.tables.len() - 1 } else { t };
        let (mut strings, mut old) = (vec![], vec![]);
        let budget = *rng.pick(&[3, 15, 40, 120]);
        let present = *rng.pick(&[30, 70, 95, 100]);
        let max_len = *rng.pick(&[1, 3, 8, 30]);
        // once in a while something big
        let (budget, max_len) = if rng.chance(1, 60) { (600, *rng.pick(&[100, 100, 1000])) } else { (budget, max_len) };
        let (budget, present) = if matches!(writer, Which::Random(_, CROWD..)) { (200, present.max(70)) } else { (budget, present) };
        let v = ValGen { s, rng, strings: &mut strings, old: &mut old, budget, present, max_len, reuse: 20, depth: 0 }.gen(&Ty::Table(t));
        let foreign = if matches!(writer, Which::Random(..)) || rng.chance(1, 2) { Some(rng.u64()) } else { None };
        Input { writer, reader, t, v, foreign, style: if rng.chance(1, 4) { 0 } else { rng.u64() | 1 }, deep: 0 }
    }
    pub fn world(&self) -> Option<World> {
        let decl = translate(&self.reader)?;
        let s = schema_of(&self.writer);
        let bytes = match (self.foreign, &self.writer) {
            (_, Which::Fam(f, ver)) if self.deep > 0 => {
                let (_, slot) = simrt::read::chain_of(f, *ver)?;
                simrt::read::chain_bytes(slot, self.deep)
            }
            (None, Which::Fam(f, ver)) => {
                let mut b = planus::Builder::new();
                let mut cx = Cx::new();
                cx.set_style(self.style, 20);
                hist::api(f, *ver).finish(self.t, &cx, &mut b, &self.v, None);
                b.as_slice().to_vec()
            }
            (seed, _) => {
                let mut rng = Rng::new(seed.unwrap_or(0));
                let st = encode::Style::random(&mut rng);
                encode::encode(s, self.t, &self.v, None, &mut rng, st)
            }
        };
        let r = schema_of(&self.reader);
        let t = &r.tables[self.t];
        let (i, _, _) = decl.declarations.get_full(&path_of(r, t.ns, &t.name))?;
        Some(World { schema: r, decl, root: DeclarationIndex(i), buffer: Box::leak(bytes.into_boxed_slice()) })
    }
    /// Tables inside one another, if a table of this schema can be.
    pub fn deepened(self, n: usize) -> Input {
        match &self.writer {
            Which::Fam(f, v) if self.reader == self.writer => match simrt::read::chain_of(f, *v) {
                Some((t, _)) => Input { t, deep: n, ..self },
                None => self,
            },
            _ => self,
        }
    }
    pub fn shrink(&self) -> Vec<Input> {
        let mut out = vec![];
        if self.deep > 0 {
            if self.deep > 1 {
                out.push(Input { deep: self.deep / 2, ..self.clone() });
            }
            return out;
        }
        if self.reader != self.writer {
            out.push(Input { reader: self.writer.clone(), ..self.clone() });
        }
        if self.foreign.is_some() && matches!(self.writer, Which::Fam(..)) {
            out.push(Input { foreign: None, style: 0, ..self.clone() });
        }
        if self.style != 0 {
            out.push(Input { style: 0, ..self.clone() });
        }
        let mut vs = vec![];
        shrink_val(schema_of(&self.writer), &Ty::Table(self.t), &self.v, &mut vs);
        vs.truncate(80);
        for v in vs {
            out.push(Input { v, ..self.clone() });
        }
        out
    }
    /// a byte of its first vtable has many meanings
    pub fn crowded(&self) -> bool {
        matches!(self.writer, Which::Random(_, CROWD..))
    }
    pub fn describe(&self) -> String {
        let v = format!("{:?}", self.v);
        format!(
            "schema {:?} read as {:?}, table {} = {}{}\nwritten by {}",
            self.writer,
            self.reader,
            schema_of(&self.writer).tables[self.t].name,
            v.chars().take(1500).collect::<String>(),
            if v.len() > 1500 { "…" } else { "" },
            match self.foreign {
                None => format!("planus (style {:#x})", self.style),
                Some(s) => format!("the independent encoder (layout seed {s:#x})"),
            },
        )
    }
}
