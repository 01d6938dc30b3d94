//! Independent FlatBuffers decoder and strict verifier. Knows the binary format and the schema
//! model, shares no code with planus.
use crate::schema::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Str,
    Bytes,
    Vector,
    Tags,
    Table,
    VTable,
    Struct,
}
/// Something reachable in the buffer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obj {
    pub kind: Kind,
    pub pos: usize,
    pub end: usize,
}

pub struct Dec<'a> {
    pub s: &'a Schema,
    pub b: &'a [u8],
    pub objs: Vec<Obj>,
    /// positions of 4-byte uoffsets / lengths / vtable slots / tags / soffsets: targets for faults
    pub sites: Vec<(Site, usize)>,
    pub budget: usize,
    /// also check what only a careful writer guarantees (bool is 0/1, no unknown slots)
    pub strict: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Site {
    Root,
    Offset,
    Len,
    Soffset,
    VtLen,
    ObjLen,
    Slot,
    Tag,
    Nul,
    Scalar,
}

type R<T> = Result<T, String>;

pub fn decode(s: &Schema, table: usize, b: &[u8], ident: Option<[u8; 4]>) -> R<(Val, Vec<Obj>)> {
    let mut d = Dec {
        s,
        b,
        objs: vec![],
        sites: vec![],
        budget: 2_000_000,
        strict: true,
    };
    let v = d.root(table, ident)?;
    Ok((v, d.objs))
}

impl Dec<'_> {
    fn u8(&self, p: usize) -> R<u8> {
        self.b.get(p).copied().ok_or(format!("byte at {p} is outside the buffer"))
    }
    fn u16(&self, p: usize, what: &str) -> R<usize> {
        if p % 2 != 0 {
            return Err(format!("{what} at {p} is not 2-aligned"));
        }
        let x = self.b.get(p..p + 2).ok_or(format!("{what} at {p} is outside the buffer"))?;
        Ok(u16::from_le_bytes(x.try_into().unwrap()) as usize)
    }
    fn u32(&self, p: usize, what: &str) -> R<usize> {
        if p % 4 != 0 {
            return Err(format!("{what} at {p} is not 4-aligned"));
        }
        let x = self.b.get(p..p + 4).ok_or(format!("{what} at {p} is outside the buffer"))?;
        Ok(u32::from_le_bytes(x.try_into().unwrap()) as usize)
    }
    fn uoffset(&mut self, p: usize, what: &str) -> R<usize> {
        let o = self.u32(p, what)?;
        self.sites.push((Site::Offset, p));
        if o == 0 {
            return Err(format!("{what} at {p} is a zero offset"));
        }
        if o > i32::MAX as usize {
            return Err(format!("{what} at {p} is too large"));
        }
        if p + o >= self.b.len() {
            return Err(format!("{what} at {p} leads outside the buffer"));
        }
        Ok(p + o)
    }
    fn spend(&mut self) -> R<()> {
        if self.budget == 0 {
            return Err("decoder budget exhausted".into());
        }
        self.budget -= 1;
        Ok(())
    }
    pub fn root(&mut self, table: usize, ident: Option<[u8; 4]>) -> R<Val> {
        if self.b.len() < 4 {
            return Err("buffer shorter than a root offset".into());
        }
        if let Some(id) = ident {
            if self.b.get(4..8) != Some(&id[..]) {
                return Err(format!("file identifier missing: {:?}", self.b.get(4..8)));
            }
        }
        let n = self.sites.len();
        let p = self.uoffset(0, "root offset")?;
        self.sites[n].0 = Site::Root;
        self.table(table, p)
    }
    pub fn table(&mut self, ti: usize, p: usize) -> R<Val> {
        self.spend()?;
        let s = self.s;
        let t = &s.tables[ti];
        let so = self.u32(p, "table")? as u32 as i32;
        self.sites.push((Site::Soffset, p));
        let vt = p as i64 - so as i64;
        if vt < 0 || vt as usize >= self.b.len() {
            return Err(format!("vtable of table {} at {p} is outside the buffer", t.name));
        }
        let vt = vt as usize;
        let vlen = self.u16(vt, "vtable")?;
        let olen = self.u16(vt + 2, "vtable")?;
        self.sites.push((Site::VtLen, vt));
        self.sites.push((Site::ObjLen, vt + 2));
        if vlen < 4 || vlen % 2 != 0 {
            return Err(format!("vtable at {vt} has length {vlen}"));
        }
        if vt + vlen > self.b.len() {
            return Err(format!("vtable at {vt} leaves the buffer"));
        }
        if olen < 4 || p + olen > self.b.len() {
            return Err(format!("table {} at {p} of size {olen} leaves the buffer", t.name));
        }
        self.objs.push(Obj {
            kind: Kind::VTable,
            pos: vt,
            end: vt + vlen,
        });
        self.objs.push(Obj {
            kind: Kind::Table,
            pos: p,
            end: p + olen,
        });
        let nslots = (vlen - 4) / 2;
        let slot = |d: &mut Self, i: usize| -> R<usize> {
            if i < nslots {
                d.sites.push((Site::Slot, vt + 4 + 2 * i));
                let o = d.u16(vt + 4 + 2 * i, "vtable slot")?;
                if o != 0 && (o < 4 || o >= olen) {
                    return Err(format!(
                        "field {i} of table {} at {p} has offset {o} of {olen}",
                        t.name
                    ));
                }
                Ok(o)
            } else {
                Ok(0)
            }
        };
        let mut used: Vec<(usize, usize)> = vec![(0, 4)];
        let mut vals = vec![];
        for f in &t.fields {
            let o = slot(self, f.slot)?;
            let (sz, al) = s.size_align(&f.ty);
            let mut tag_pos = 0;
            if f.has_tag() {
                let is_vec = matches!(f.ty, Ty::Vec(_));
                let tsz = if is_vec { 4 } else { 1 };
                let to = slot(self, f.slot - 1)?;
                if to != 0 {
                    if to + tsz > olen {
                        return Err(format!("tag of {}.{} leaves the table", t.name, f.name));
                    }
                    used.push((to, to + tsz));
                    tag_pos = p + to;
                    if !is_vec {
                        self.sites.push((Site::Tag, tag_pos));
                    }
                }
                let none = to == 0 || (!is_vec && self.u8(tag_pos)? == 0);
                if none != (o == 0) {
                    return Err(format!(
                        "{}.{} has a {} without the other",
                        t.name,
                        f.name,
                        if none { "value" } else { "tag" }
                    ));
                }
            }
            if o != 0 {
                if o + sz > olen {
                    return Err(format!("{}.{} leaves the table", t.name, f.name));
                }
                if (p + o) % al != 0 {
                    return Err(format!(
                        "{}.{} at {} is not {al}-aligned",
                        t.name,
                        f.name,
                        p + o
                    ));
                }
                if f.force_align.is_some_and(|a| (p + o) % a != 0) {
                    return Err(format!("forced alignment of {}.{} is not respected", t.name, f.name));
                }
                used.push((o, o + sz));
            }
            if f.deprecated {
                continue;
            }
            if o == 0 {
                vals.push(match &f.mode {
                    Mode::Req => {
                        return Err(format!("required {}.{} is missing", t.name, f.name))
                    }
                    _ => s.absent(f),
                });
            } else {
                let v = match &f.ty {
                    Ty::Union(u) => {
                        let tag = self.u8(tag_pos)?;
                        self.union(*u, tag, p + o)?
                    }
                    Ty::Vec(e) if matches!(**e, Ty::Union(_)) => {
                        let Ty::Union(u) = **e else { unreachable!() };
                        self.union_vec(u, tag_pos, p + o)?
                    }
                    ty => self.value(ty, p + o)?,
                };
                vals.push(v);
            }
        }
        used.sort();
        for w in used.windows(2) {
            if w[0].1 > w[1].0 {
                return Err(format!("fields of table {} at {p} overlap: {w:?}", t.name));
            }
        }
        if self.strict {
            for i in t.n_slots()..nslots {
                if self.u16(vt + 4 + 2 * i, "vtable slot")? != 0 {
                    return Err(format!("table {} at {p} has unknown field {i}", t.name));
                }
            }
        }
        Ok(Val::T(vals))
    }
    /// `p` is where the inline value (or the offset) is
    pub fn value(&mut self, ty: &Ty, p: usize) -> R<Val> {
        self.spend()?;
        let (sz, al) = self.s.size_align(ty);
        if p % al != 0 {
            return Err(format!("{ty:?} at {p} is not {al}-aligned"));
        }
        let raw = self
            .b
            .get(p..p + sz)
            .ok_or(format!("{ty:?} at {p} is outside the buffer"))?;
        if ty.is_scalar() {
            self.sites.push((Site::Scalar, p));
        }
        Ok(match ty {
            Ty::Bool => {
                if self.strict && raw[0] > 1 {
                    return Err(format!("bool at {p} is {}", raw[0]));
                }
                Val::B(raw[0] != 0)
            }
            Ty::Int(i) => Val::I(i.decode(raw)),
            Ty::F32 => Val::F32(u32::from_le_bytes(raw.try_into().unwrap())),
            Ty::F64 => Val::F64(u64::from_le_bytes(raw.try_into().unwrap())),
            Ty::Enum(e) => {
                let v = self.s.enums[*e].base.decode(raw);
                if self.s.enums[*e].variants.iter().any(|x| x.1 == v) {
                    Val::I(v)
                } else {
                    Val::Err
                }
            }
            Ty::Struct(i) => {
                let offs = self.s.struct_layout(*i).2;
                let fields = &self.s.structs[*i].fields;
                let mut v = vec![];
                for (f, o) in fields.iter().zip(offs) {
                    v.push(self.value(&f.1, p + o)?);
                }
                Val::St(v)
            }
            Ty::Str => {
                let q = self.uoffset(p, "string offset")?;
                self.string(q)?
            }
            Ty::Table(t) => {
                let q = self.uoffset(p, "table offset")?;
                self.table(*t, q)?
            }
            Ty::Vec(e) => {
                let q = self.uoffset(p, "vector offset")?;
                self.vector(e, q)?
            }
            Ty::Union(_) => unreachable!(),
        })
    }
    fn string(&mut self, q: usize) -> R<Val> {
        let n = self.u32(q, "string")?;
        self.sites.push((Site::Len, q));
        let raw = self
            .b
            .get(q + 4..)
            .and_then(|x| x.get(..n))
            .ok_or(format!("string at {q} of length {n} leaves the buffer"))?;
        match self.b.get(q + 4 + n) {
            Some(0) => {}
            x => return Err(format!("string at {q} of length {n} is not terminated ({x:?})")),
        }
        self.sites.push((Site::Nul, q + 4 + n));
        self.objs.push(Obj {
            kind: Kind::Str,
            pos: q,
            end: q + 4 + n + 1,
        });
        match std::str::from_utf8(raw) {
            Ok(s) => Ok(Val::S(s.to_string())),
            Err(_) => Err(format!("string at {q} is not UTF-8")),
        }
    }
    fn vector(&mut self, e: &Ty, q: usize) -> R<Val> {
        let n = self.u32(q, "vector")?;
        self.sites.push((Site::Len, q));
        let (sz, al) = self.s.size_align(e);
        let end = n.checked_mul(sz).map(|x| q + 4 + x);
        if !end.is_some_and(|e| e <= self.b.len()) {
            return Err(format!("vector at {q} of {n} elements leaves the buffer"));
        }
        if n > 0 && (q + 4) % al != 0 {
            return Err(format!("elements of vector at {q} are not {al}-aligned"));
        }
        self.objs.push(Obj {
            kind: if matches!(e, Ty::Int(Int::U8 | Int::I8)) {
                Kind::Bytes
            } else {
                Kind::Vector
            },
            pos: q,
            end: end.unwrap(),
        });
        let mut v = vec![];
        for i in 0..n {
            v.push(self.value(e, q + 4 + i * sz)?);
        }
        Ok(Val::V(v))
    }
    /// `p` is where the uoffset to the value is
    fn union(&mut self, u: usize, tag: u8, p: usize) -> R<Val> {
        let s = self.s;
        let Some((_, ty)) = s.unions[u].variants.get((tag as usize).wrapping_sub(1)) else {
            return Ok(Val::Err);
        };
        let q = self.uoffset(p, "union offset")?;
        let v = match ty {
            Ty::Table(t) => self.table(*t, q)?,
            Ty::Str => self.string(q)?,
            Ty::Struct(_) => {
                let sz = s.size_align(ty).0;
                let v = self.value(ty, q)?;
                self.objs.push(Obj {
                    kind: Kind::Struct,
                    pos: q,
                    end: q + sz,
                });
                v
            }
            _ => unreachable!(),
        };
        Ok(Val::U(tag, Box::new(v)))
    }
    fn union_vec(&mut self, u: usize, tp: usize, vp: usize) -> R<Val> {
        let tq = self.uoffset(tp, "tag vector offset")?;
        let vq = self.uoffset(vp, "value vector offset")?;
        let tn = self.u32(tq, "tag vector")?;
        let vn = self.u32(vq, "value vector")?;
        self.sites.push((Site::Len, tq));
        self.sites.push((Site::Len, vq));
        if tn != vn {
            return Err(format!("union vector has {tn} tags and {vn} values"));
        }
        if tq + 4 + tn > self.b.len() || vq + 4 + 4 * vn > self.b.len() {
            return Err(format!("union vector at {tq}/{vq} leaves the buffer"));
        }
        self.objs.push(Obj {
            kind: Kind::Tags,
            pos: tq,
            end: tq + 4 + tn,
        });
        self.objs.push(Obj {
            kind: Kind::Vector,
            pos: vq,
            end: vq + 4 + 4 * vn,
        });
        let mut v = vec![];
        for i in 0..tn {
            self.sites.push((Site::Tag, tq + 4 + i));
            let tag = self.u8(tq + 4 + i)?;
            v.push(self.union(u, tag, vq + 4 + 4 * i)?);
        }
        Ok(Val::V(v))
    }
}
