//! Independent FlatBuffers encoder: another implementation with its own, randomly chosen but
//! legal layout decisions.
use crate::{rng::Rng, schema::*};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Style {
    /// write fields even if they have the default value
    pub force_defaults: bool,
    pub share_vtables: bool,
    pub share_strings: bool,
    /// drop trailing empty vtable slots
    pub trim_vtables: bool,
    /// put vtables after all objects (negative soffset) instead of before their table
    pub vtables_last: bool,
    pub random_order: bool,
    /// up to this many extra alignment-sized gaps between objects
    pub gaps: usize,
    pub garbage: bool,
    pub fields_by_size: bool,
    /// for unknown-to-schema trailing garbage in tables
    pub table_slack: bool,
    /// let vtables lie before the object that refers to their table. The format allows it, but
    /// no implementation that we know of does it and planus refuses such buffers.
    pub vtables_anywhere: bool,
}
impl Style {
    pub fn random(rng: &mut Rng) -> Self {
        let mut c = || rng.chance(1, 2);
        let mut s = Style {
            force_defaults: c(),
            share_vtables: c(),
            share_strings: c(),
            trim_vtables: c(),
            vtables_last: c(),
            random_order: c(),
            gaps: 0,
            garbage: c(),
            fields_by_size: c(),
            table_slack: c(),
            vtables_anywhere: false,
        };
        s.gaps = rng.below(3);
        s
    }
    pub fn plain() -> Self {
        Style {
            force_defaults: false,
            share_vtables: true,
            share_strings: false,
            trim_vtables: true,
            vtables_last: false,
            random_order: false,
            gaps: 0,
            garbage: false,
            fields_by_size: true,
            table_slack: false,
            vtables_anywhere: false,
        }
    }
}

enum Part {
    Bytes(Vec<u8>),
    /// uoffset to block
    Ref(usize),
    /// signed offset to vtable block
    VRef(usize),
}
struct Block {
    align: usize,
    /// offset within the block that must be aligned
    align_at: usize,
    parts: Vec<(usize, Part)>,
    size: usize,
    is_vtable: bool,
}

pub struct Enc<'a> {
    s: &'a Schema,
    rng: &'a mut Rng,
    st: Style,
    blocks: Vec<Block>,
    strings: HashMap<String, usize>,
    vtables: HashMap<Vec<u8>, usize>,
}

pub fn encode(
    s: &Schema,
    table: usize,
    v: &Val,
    ident: Option<[u8; 4]>,
    rng: &mut Rng,
    st: Style,
) -> Vec<u8> {
    let mut e = Enc {
        s,
        rng,
        st,
        blocks: vec![],
        strings: HashMap::new(),
        vtables: HashMap::new(),
    };
    let root = e.table(table, v);
    e.layout(root, ident)
}

impl Enc<'_> {
    fn block(&mut self, b: Block) -> usize {
        self.blocks.push(b);
        self.blocks.len() - 1
    }
    fn inline(&mut self, ty: &Ty, v: &Val, at: usize, parts: &mut Vec<(usize, Part)>) {
        match (ty, v) {
            (Ty::Bool, Val::B(b)) => parts.push((at, Part::Bytes(vec![*b as u8]))),
            (Ty::Int(i), Val::I(x)) => parts.push((at, Part::Bytes(i.encode(*x)))),
            (Ty::Enum(e), Val::I(x)) => {
                parts.push((at, Part::Bytes(self.s.enums[*e].base.encode(*x))))
            }
            (Ty::F32, Val::F32(x)) => parts.push((at, Part::Bytes(x.to_le_bytes().to_vec()))),
            (Ty::F64, Val::F64(x)) => parts.push((at, Part::Bytes(x.to_le_bytes().to_vec()))),
            (Ty::Struct(i), Val::St(vs)) => {
                let offs = self.s.struct_layout(*i).2;
                let s = self.s;
                for ((f, o), v) in s.structs[*i].fields.iter().zip(offs).zip(vs) {
                    self.inline(&f.1, v, at + o, parts);
                }
            }
            (Ty::Str, Val::S(_)) | (Ty::Table(_), _) | (Ty::Vec(_), _) => {
                let b = self.object(ty, v);
                parts.push((at, Part::Ref(b)));
            }
            x => panic!("cannot encode {x:?}"),
        }
    }
    /// out-of-line object
    fn object(&mut self, ty: &Ty, v: &Val) -> usize {
        match (ty, v) {
            (Ty::Str, Val::S(x)) => {
                if self.st.share_strings {
                    if let Some(b) = self.strings.get(x) {
                        return *b;
                    }
                }
                let mut raw = (x.len() as u32).to_le_bytes().to_vec();
                raw.extend(x.as_bytes());
                raw.push(0);
                let b = self.block(Block {
                    align: 4,
                    align_at: 0,
                    size: raw.len(),
                    parts: vec![(0, Part::Bytes(raw))],
                    is_vtable: false,
                });
                self.strings.insert(x.clone(), b);
                b
            }
            (Ty::Table(t), v) => self.table(*t, v),
            (Ty::Struct(_), v) => {
                let (size, align) = self.s.size_align(ty);
                let mut parts = vec![];
                self.inline(ty, v, 0, &mut parts);
                self.block(Block {
                    align,
                    align_at: 0,
                    size,
                    parts,
                    is_vtable: false,
                })
            }
            (Ty::Vec(e), Val::V(vs)) => {
                let (sz, al) = self.s.size_align(e);
                let mut parts =
                    vec![(0, Part::Bytes((vs.len() as u32).to_le_bytes().to_vec()))];
                for (i, v) in vs.iter().enumerate() {
                    self.inline(e, v, 4 + i * sz, &mut parts);
                }
                self.block(Block {
                    align: al.max(4),
                    align_at: 4,
                    size: 4 + sz * vs.len(),
                    parts,
                    is_vtable: false,
                })
            }
            x => panic!("cannot encode {x:?}"),
        }
    }
    fn table(&mut self, ti: usize, v: &Val) -> usize {
        let Val::T(vs) = v else { panic!("not a table: {v:?}") };
        let s = self.s;
        let t = &s.tables[ti];
        // (slot, size, align, parts relative to 0)
        let mut items: Vec<(usize, usize, usize, Vec<(usize, Part)>)> = vec![];
        for (f, v) in t.live().zip(vs) {
            match (&f.mode, v) {
                (_, Val::Null) => {
                    // an absent union may be written as the tag NONE without a value
                    if matches!(f.ty, Ty::Union(_))
                        && self.st.force_defaults
                        && self.rng.chance(1, 2)
                    {
                        items.push((f.slot - 1, 1, 1, vec![(0, Part::Bytes(vec![0]))]));
                    }
                    continue;
                }
                (Mode::Def(d), v) if v == d && !self.st.force_defaults => continue,
                (Mode::Def(d), v)
                    if v == d && self.rng.chance(1, 3) =>
                {
                    continue
                }
                _ => {}
            }
            match (&f.ty, v) {
                (Ty::Union(u), Val::U(tag, x)) => {
                    let ty = &s.unions[*u].variants[*tag as usize - 1].1;
                    let b = self.object(ty, x);
                    items.push((f.slot - 1, 1, 1, vec![(0, Part::Bytes(vec![*tag]))]));
                    items.push((f.slot, 4, 4, vec![(0, Part::Ref(b))]));
                }
                (Ty::Vec(e), Val::V(xs)) if matches!(**e, Ty::Union(_)) => {
                    let Ty::Union(u) = **e else { unreachable!() };
                    let mut tags = (xs.len() as u32).to_le_bytes().to_vec();
                    let mut parts =
                        vec![(0, Part::Bytes((xs.len() as u32).to_le_bytes().to_vec()))];
                    for (i, x) in xs.iter().enumerate() {
                        let Val::U(tag, x) = x else { panic!() };
                        tags.push(*tag);
                        let b = self.object(&s.unions[u].variants[*tag as usize - 1].1, x);
                        parts.push((4 + 4 * i, Part::Ref(b)));
                    }
                    let tb = self.block(Block {
                        align: 4,
                        align_at: 0,
                        size: tags.len(),
                        parts: vec![(0, Part::Bytes(tags))],
                        is_vtable: false,
                    });
                    let vb = self.block(Block {
                        align: 4,
                        align_at: 0,
                        size: 4 + 4 * xs.len(),
                        parts,
                        is_vtable: false,
                    });
                    items.push((f.slot - 1, 4, 4, vec![(0, Part::Ref(tb))]));
                    items.push((f.slot, 4, 4, vec![(0, Part::Ref(vb))]));
                }
                (ty, v) => {
                    let (sz, al) = s.size_align(ty);
                    let mut parts = vec![];
                    self.inline(ty, v, 0, &mut parts);
                    items.push((f.slot, sz, al, parts));
                }
            }
        }
        if self.st.fields_by_size {
            items.sort_by_key(|i| std::cmp::Reverse(i.2));
        } else {
            self.rng.shuffle(&mut items);
        }
        let align = items.iter().map(|i| i.2).max().unwrap_or(1).max(4);
        let mut off = 4usize;
        let nslots = if self.st.trim_vtables {
            items.iter().map(|i| i.0 + 1).max().unwrap_or(0)
        } else {
            t.n_slots()
        };
        let mut vt = vec![0u8; 4 + 2 * nslots];
        let mut parts = vec![];
        for (slot, sz, al, ps) in items {
            off = off.div_ceil(al) * al;
            vt[4 + 2 * slot..6 + 2 * slot].copy_from_slice(&(off as u16).to_le_bytes());
            for (at, p) in ps {
                parts.push((off + at, p));
            }
            off += sz;
        }
        if self.st.table_slack {
            off += self.rng.below(5);
        }
        let vlen = vt.len() as u16;
        vt[0..2].copy_from_slice(&vlen.to_le_bytes());
        vt[2..4].copy_from_slice(&(off as u16).to_le_bytes());
        let vb = match self.vtables.get(&vt) {
            Some(b) if self.st.share_vtables => *b,
            _ => {
                let b = self.block(Block {
                    align: 2,
                    align_at: 0,
                    size: vt.len(),
                    parts: vec![(0, Part::Bytes(vt.clone()))],
                    is_vtable: true,
                });
                self.vtables.insert(vt, b);
                b
            }
        };
        parts.push((0, Part::VRef(vb)));
        self.block(Block {
            align,
            align_at: 0,
            size: off,
            parts,
            is_vtable: false,
        })
    }
    fn layout(&mut self, root: usize, ident: Option<[u8; 4]>) -> Vec<u8> {
        // Children come after their parents (offsets are unsigned); otherwise any order goes.
        let n = self.blocks.len();
        let mut indeg = vec![0usize; n];
        let kids: Vec<Vec<usize>> = self
            .blocks
            .iter()
            .map(|b| {
                b.parts
                    .iter()
                    .filter_map(|p| match p.1 {
                        Part::Ref(b) => Some(b),
                        _ => None,
                    })
                    .collect()
            })
            .collect();
        let mut kids = kids;
        if !self.st.vtables_last && !self.st.vtables_anywhere {
            let vt_of = |b: usize| {
                self.blocks[b].parts.iter().find_map(|p| match p.1 {
                    Part::VRef(v) => Some(v),
                    _ => None,
                })
            };
            for k in &mut kids {
                let vts: Vec<usize> = k.iter().filter_map(|c| vt_of(*c)).collect();
                k.extend(vts);
            }
        }
        for k in &kids {
            for c in k {
                indeg[*c] += 1;
            }
        }
        let mut ready: Vec<usize> = (0..n)
            .filter(|i| indeg[*i] == 0 && !self.blocks[*i].is_vtable)
            .collect();
        let mut order = vec![];
        let mut vts: Vec<usize> = (0..n).filter(|i| self.blocks[*i].is_vtable).collect();
        if !self.st.vtables_last {
            // sprinkle vtables among the objects
            vts.retain(|v| indeg[*v] == 0);
            ready.append(&mut vts);
        }
        if !self.st.random_order {
            ready.sort();
        }
        while !ready.is_empty() {
            let i = if self.st.random_order {
                self.rng.below(ready.len())
            } else {
                ready.len() - 1
            };
            let b = ready.swap_remove(i);
            order.push(b);
            for c in &kids[b] {
                indeg[*c] -= 1;
                if indeg[*c] == 0 {
                    ready.push(*c);
                }
            }
        }
        order.extend(vts);
        assert_eq!(order.len(), n);
        let mut pos = vec![0usize; n];
        let mut at = if ident.is_some() { 8 } else { 4 };
        for b in &order {
            let bl = &self.blocks[*b];
            if self.st.gaps > 0 {
                at += self.rng.below(self.st.gaps + 1) * 3;
            }
            while (at + bl.align_at) % bl.align != 0 || at % if bl.is_vtable { 2 } else if bl.align_at > 0 { 4 } else { 1 } != 0 {
                at += 1;
            }
            pos[*b] = at;
            at += bl.size;
        }
        let mut out = vec![0u8; at];
        if self.st.garbage {
            for o in &mut out {
                *o = self.rng.u64() as u8;
            }
        }
        out[0..4].copy_from_slice(&(pos[root] as u32).to_le_bytes());
        if let Some(id) = ident {
            out[4..8].copy_from_slice(&id);
        }
        for (i, b) in self.blocks.iter().enumerate() {
            for (o, p) in &b.parts {
                let a = pos[i] + o;
                match p {
                    Part::Bytes(x) => out[a..a + x.len()].copy_from_slice(x),
                    Part::Ref(c) => {
                        out[a..a + 4].copy_from_slice(&((pos[*c] - a) as u32).to_le_bytes())
                    }
                    Part::VRef(c) => out[a..a + 4]
                        .copy_from_slice(&((a as i64 - pos[*c] as i64) as i32).to_le_bytes()),
                }
            }
        }
        out
    }
}
