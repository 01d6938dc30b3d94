//! Schema and value model. Everything here is independent of planus.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Int {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
}
pub const INTS: [Int; 8] = [
    Int::U8,
    Int::I8,
    Int::U16,
    Int::I16,
    Int::U32,
    Int::I32,
    Int::U64,
    Int::I64,
];
impl Int {
    pub fn size(self) -> usize {
        match self {
            Int::U8 | Int::I8 => 1,
            Int::U16 | Int::I16 => 2,
            Int::U32 | Int::I32 => 4,
            Int::U64 | Int::I64 => 8,
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, Int::I8 | Int::I16 | Int::I32 | Int::I64)
    }
    pub fn min(self) -> i128 {
        if self.signed() {
            -(1i128 << (self.size() * 8 - 1))
        } else {
            0
        }
    }
    pub fn max(self) -> i128 {
        if self.signed() {
            (1i128 << (self.size() * 8 - 1)) - 1
        } else {
            (1i128 << (self.size() * 8)) - 1
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            Int::U8 => "u8",
            Int::I8 => "i8",
            Int::U16 => "u16",
            Int::I16 => "i16",
            Int::U32 => "u32",
            Int::I32 => "i32",
            Int::U64 => "u64",
            Int::I64 => "i64",
        }
    }
    pub fn fbs(self) -> &'static str {
        match self {
            Int::U8 => "ubyte",
            Int::I8 => "byte",
            Int::U16 => "ushort",
            Int::I16 => "short",
            Int::U32 => "uint",
            Int::I32 => "int",
            Int::U64 => "ulong",
            Int::I64 => "long",
        }
    }
    pub fn decode(self, b: &[u8]) -> i128 {
        let mut x: u128 = 0;
        for i in (0..self.size()).rev() {
            x = x << 8 | b[i] as u128;
        }
        let bits = self.size() * 8;
        if self.signed() && (x >> (bits - 1)) & 1 == 1 {
            x as i128 - (1i128 << bits)
        } else {
            x as i128
        }
    }
    pub fn encode(self, v: i128) -> Vec<u8> {
        v.to_le_bytes()[..self.size()].to_vec()
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    Int(Int),
    F32,
    F64,
    Str,
    Enum(usize),
    Struct(usize),
    Table(usize),
    Union(usize),
    Vec(Box<Ty>),
}
impl Ty {
    pub fn vec(t: Ty) -> Ty {
        Ty::Vec(Box::new(t))
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Bool | Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Enum(_))
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Mode {
    Req,
    Opt,
    Def(Val),
}

/// The ways to write a number, one of them for each name and value.
fn way(salt: &str, v: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in salt.bytes().chain(v.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    (h >> 32) % 12
}
fn separated(digits: &str) -> String {
    let n = digits.len() / 2;
    if n == 0 {
        return digits.into();
    }
    format!("{}_{}", &digits[..n], &digits[n..])
}
pub fn spell_int(v: i128, salt: &str) -> String {
    let (sign, u) = (if v < 0 { "-" } else { "" }, v.unsigned_abs());
    match way(salt, u as u64) {
        0 => format!("{sign}{u:#x}"),
        1 => format!("{sign}0x{u:X}"),
        2 => format!("{sign}{}", separated(&u.to_string())),
        3 => format!("{sign}0x{}", separated(&format!("{u:x}"))),
        4 => format!("{sign}00{u}"),
        5 if v >= 0 => format!("+{u}"),
        _ => format!("{sign}{u}"),
    }
}
fn spell_float(v: f64, plain: String, exp: String, salt: &str) -> String {
    let w = way(salt, v.to_bits());
    if v.is_nan() {
        return if w % 2 == 0 { "nan" } else { "NaN" }.into();
    }
    if v.is_infinite() {
        return format!("{}{}", if v < 0.0 { "-" } else { "" }, if w % 2 == 0 { "inf" } else { "infinity" });
    }
    if v.fract() == 0.0 && v.abs() < 1e9 && (v != 0.0 || v.is_sign_positive()) && w < 6 {
        return spell_int(v as i128, salt);
    }
    match w {
        0..=4 => exp,
        5 if v > 0.0 => format!("+{plain}"),
        6 => plain.strip_prefix("0").filter(|x| x.starts_with('.')).map(|x| x.to_string()).unwrap_or(plain),
        7 => plain.strip_suffix("0").filter(|x| x.ends_with('.')).map(|x| x.to_string()).unwrap_or(plain),
        _ => plain,
    }
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Field {
    /// identity across versions
    pub key: u32,
    pub name: String,
    pub ty: Ty,
    pub mode: Mode,
    pub deprecated: bool,
    /// vtable slot of the value (a union type tag sits at `slot - 1`)
    pub slot: usize,
    /// for scalars: whether the default is spelled out in the schema
    pub explicit_default: bool,
    /// alignment forced by the schema
    pub force_align: Option<usize>,
}
impl Field {
    pub fn has_tag(&self) -> bool {
        match &self.ty {
            Ty::Union(_) => true,
            Ty::Vec(t) => matches!(**t, Ty::Union(_)),
            _ => false,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Table {
    pub name: String,
    pub ns: usize,
    pub explicit_ids: bool,
    pub fields: Vec<Field>,
}
impl Table {
    pub fn live(&self) -> impl Iterator<Item = &Field> {
        self.fields.iter().filter(|f| !f.deprecated)
    }
    pub fn n_slots(&self) -> usize {
        self.fields.iter().map(|f| f.slot + 1).max().unwrap_or(0)
    }
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Struct {
    pub name: String,
    pub ns: usize,
    pub fields: Vec<(String, Ty)>,
    pub force_align: Option<usize>,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Enum {
    pub name: String,
    pub ns: usize,
    pub base: Int,
    /// ascending by value
    pub variants: Vec<(String, i128)>,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Union {
    pub name: String,
    pub ns: usize,
    /// tag = index + 1
    pub variants: Vec<(String, Ty)>,
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Schema {
    pub fam: String,
    pub ver: usize,
    pub namespaces: Vec<Vec<String>>,
    pub tables: Vec<Table>,
    pub structs: Vec<Struct>,
    pub enums: Vec<Enum>,
    pub unions: Vec<Union>,
}

/// A value. The same type of value is produced by the generator (what is written), by the
/// independent decoder and by the accessors of the generated code (what is read).
#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Val {
    Null,
    B(bool),
    I(i128),
    F32(u32),
    F64(u64),
    S(String),
    V(Vec<Val>),
    St(Vec<Val>),
    /// one value per live field, in declaration order
    T(Vec<Val>),
    /// tag and value
    U(u8, Box<Val>),
    /// the reader reported an error here
    Err,
    /// the reader ran out of budget here
    Cut,
}
impl Val {
    pub fn any(&self, p: &dyn Fn(&Val) -> bool) -> bool {
        if p(self) {
            return true;
        }
        match self {
            Val::V(v) | Val::St(v) | Val::T(v) => v.iter().any(|x| x.any(p)),
            Val::U(_, v) => v.any(p),
            _ => false,
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            Val::V(v) | Val::St(v) | Val::T(v) => v.iter().map(|x| x.size()).sum(),
            Val::U(_, v) => v.size(),
            Val::S(s) => s.len() / 8,
            _ => 0,
        }
    }
    pub fn has_err(&self) -> bool {
        self.any(&|v| matches!(v, Val::Err))
    }
    pub fn has_cut(&self) -> bool {
        self.any(&|v| matches!(v, Val::Cut))
    }
}

/// First difference between two values, for messages.
pub fn diff(a: &Val, b: &Val, path: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let short = |v: &Val| {
        let s = format!("{v:?}");
        if s.chars().count() > 160 {
            s.chars().take(160).collect::<String>() + "…"
        } else {
            s
        }
    };
    match (a, b) {
        (Val::V(x), Val::V(y)) | (Val::St(x), Val::St(y)) | (Val::T(x), Val::T(y))
            if x.len() == y.len() =>
        {
            for (i, (x, y)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(x, y, &format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            None
        }
        (Val::U(t, x), Val::U(u, y)) if t == u => diff(x, y, &format!("{path}.u{t}")),
        _ => Some(format!("at {path}: expected {}, got {}", short(a), short(b))),
    }
}

impl Schema {
    pub fn id(&self) -> String {
        format!("{}_v{}", self.fam, self.ver)
    }
    pub fn size_align(&self, t: &Ty) -> (usize, usize) {
        match t {
            Ty::Bool => (1, 1),
            Ty::Int(i) => (i.size(), i.size()),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Enum(e) => {
                let s = self.enums[*e].base.size();
                (s, s)
            }
            Ty::Struct(s) => {
                let l = self.struct_layout(*s);
                (l.0, l.1)
            }
            Ty::Str | Ty::Table(_) | Ty::Union(_) | Ty::Vec(_) => (4, 4),
        }
    }
    /// (size, align, offsets)
    pub fn struct_layout(&self, s: usize) -> (usize, usize, Vec<usize>) {
        let st = &self.structs[s];
        let mut off = 0usize;
        let mut align = 1;
        let mut offs = vec![];
        for (_, t) in &st.fields {
            let (sz, al) = self.size_align(t);
            off = off.div_ceil(al) * al;
            offs.push(off);
            off += sz;
            align = align.max(al);
        }
        if let Some(f) = st.force_align {
            align = align.max(f);
        }
        (off.div_ceil(align) * align, align, offs)
    }
    pub fn ns_path(&self, ns: usize) -> String {
        self.namespaces[ns].join(".")
    }
    pub fn fbs_name(&self, ns: usize, name: &str) -> String {
        if self.namespaces[ns].is_empty() {
            name.to_string()
        } else {
            format!("{}.{}", self.ns_path(ns), name)
        }
    }
    pub fn ty_fbs(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "bool".into(),
            Ty::Int(i) => i.fbs().into(),
            Ty::F32 => "float".into(),
            Ty::F64 => "double".into(),
            Ty::Str => "string".into(),
            Ty::Enum(i) => self.fbs_name(self.enums[*i].ns, &self.enums[*i].name),
            Ty::Struct(i) => self.fbs_name(self.structs[*i].ns, &self.structs[*i].name),
            Ty::Table(i) => self.fbs_name(self.tables[*i].ns, &self.tables[*i].name),
            Ty::Union(i) => self.fbs_name(self.unions[*i].ns, &self.unions[*i].name),
            Ty::Vec(t) => format!("[{}]", self.ty_fbs(t)),
        }
    }
    fn ty_ns(&self, t: &Ty) -> Option<usize> {
        match t {
            Ty::Enum(i) => Some(self.enums[*i].ns),
            Ty::Struct(i) => Some(self.structs[*i].ns),
            Ty::Table(i) => Some(self.tables[*i].ns),
            Ty::Union(i) => Some(self.unions[*i].ns),
            Ty::Vec(t) => self.ty_ns(t),
            _ => None,
        }
    }
    fn default_fbs(&self, ty: &Ty, v: &Val, salt: &str) -> String {
        match (ty, v) {
            (_, Val::B(b)) => b.to_string(),
            (Ty::Enum(e), Val::I(i)) => self.enums[*e]
                .variants
                .iter()
                .find(|x| x.1 == *i)
                .unwrap()
                .0
                .clone(),
            (_, Val::I(i)) => spell_int(*i, salt),
            (_, Val::F32(f)) => spell_float(f32::from_bits(*f) as f64, format!("{:?}", f32::from_bits(*f)), format!("{:e}", f32::from_bits(*f)), salt),
            (_, Val::F64(f)) => spell_float(f64::from_bits(*f), format!("{:?}", f64::from_bits(*f)), format!("{:e}", f64::from_bits(*f)), salt),
            (_, Val::S(s)) => format!("{s:?}"),
            (_, Val::V(_)) => "[]".into(),
            x => panic!("no default syntax for {x:?}"),
        }
    }
    /// One file per namespace, each including the files it refers to (possibly cyclically).
    /// Returns (file name, contents).
    pub fn emit(&self) -> Vec<(String, String)> {
        let mut out = vec![];
        for (ns, parts) in self.namespaces.iter().enumerate() {
            let mut deps = std::collections::BTreeSet::new();
            let mut add = |t: &Ty| {
                if let Some(n) = self.ty_ns(t) {
                    if n != ns {
                        deps.insert(n);
                    }
                }
            };
            for t in self.tables.iter().filter(|t| t.ns == ns) {
                t.fields.iter().for_each(|f| add(&f.ty));
            }
            for t in self.structs.iter().filter(|t| t.ns == ns) {
                t.fields.iter().for_each(|f| add(&f.1));
            }
            for t in self.unions.iter().filter(|t| t.ns == ns) {
                t.variants.iter().for_each(|f| add(&f.1));
            }
            let mut s = String::new();
            for d in deps {
                s += &format!("include \"{}_ns{d}.fbs\";\n", self.id());
            }
            if !parts.is_empty() {
                s += &format!("namespace {};\n", parts.join("."));
            }
            for e in self.enums.iter().filter(|t| t.ns == ns) {
                s += &format!("enum {} : {} {{\n", e.name, e.base.fbs());
                for (n, v) in &e.variants {
                    s += &format!("  {n} = {},\n", spell_int(*v, n));
                }
                s += "}\n";
            }
            for e in self.structs.iter().filter(|t| t.ns == ns) {
                s += &format!("struct {} ", e.name);
                if let Some(a) = e.force_align {
                    s += &format!("(force_align: {a}) ");
                }
                s += "{\n";
                for (n, t) in &e.fields {
                    s += &format!("  {n}: {};\n", self.ty_fbs(t));
                }
                s += "}\n";
            }
            for e in self.unions.iter().filter(|t| t.ns == ns) {
                s += &format!("union {} {{\n", e.name);
                for (n, t) in &e.variants {
                    // without a name, they are called after their type, and its namespace if need be
                    let path = self.ty_fbs(t);
                    let parts: Vec<&str> = path.split('.').collect();
                    let long: String = parts.iter().map(|p| p[..1].to_uppercase() + &p[1..]).collect();
                    if *t != Ty::Str && (parts.last() == Some(&n.as_str()) && way(&e.name, n.len() as u64) % 4 != 0 || *n == long) {
                        s += &format!("  {path},\n");
                    } else {
                        s += &format!("  {n}: {path},\n");
                    }
                }
                s += "}\n";
            }
            for e in self.tables.iter().filter(|t| t.ns == ns) {
                s += &format!("table {} {{\n", e.name);
                for f in &e.fields {
                    s += &format!("  {}: {}", f.name, self.ty_fbs(&f.ty));
                    let mut attrs = vec![];
                    match &f.mode {
                        Mode::Req => attrs.push("required".to_string()),
                        Mode::Opt => {
                            if f.ty.is_scalar() {
                                s += " = null";
                            }
                        }
                        Mode::Def(v) => {
                            if f.explicit_default {
                                s += &format!(" = {}", self.default_fbs(&f.ty, v, &f.name));
                            }
                        }
                    }
                    if f.deprecated {
                        attrs.push("deprecated".into());
                    }
                    if let Some(a) = f.force_align {
                        attrs.push(format!("force_align: {a}"));
                    }
                    if e.explicit_ids {
                        attrs.push(format!("id: {}", spell_int(f.slot as i128, &f.name)));
                    }
                    if !attrs.is_empty() {
                        s += &format!(" ({})", attrs.join(", "));
                    }
                    s += ";\n";
                }
                s += "}\n";
            }
            out.push((format!("{}_ns{ns}.fbs", self.id()), s));
        }
        out
    }

    /// The value a reader sees for a field that is not in the buffer.
    pub fn absent(&self, f: &Field) -> Val {
        match &f.mode {
            Mode::Def(v) => v.clone(),
            Mode::Opt => Val::Null,
            Mode::Req => Val::Err,
        }
    }

    /// Smallest valid value of a type.
    pub fn minimal(&self, t: &Ty) -> Val {
        match t {
            Ty::Bool => Val::B(false),
            Ty::Int(_) => Val::I(0),
            Ty::F32 => Val::F32(0),
            Ty::F64 => Val::F64(0),
            Ty::Str => Val::S(String::new()),
            Ty::Enum(e) => Val::I(self.enums[*e].variants[0].1),
            Ty::Struct(s) => Val::St(
                self.structs[*s]
                    .fields
                    .iter()
                    .map(|f| self.minimal(&f.1))
                    .collect(),
            ),
            Ty::Table(t) => Val::T(
                self.tables[*t]
                    .live()
                    .map(|f| match &f.mode {
                        Mode::Req => self.minimal(&f.ty),
                        Mode::Opt => Val::Null,
                        Mode::Def(v) => v.clone(),
                    })
                    .collect(),
            ),
            // The generator guarantees that variant 1 of every union is not recursive.
            Ty::Union(u) => Val::U(1, Box::new(self.minimal(&self.unions[*u].variants[0].1))),
            Ty::Vec(_) => Val::V(vec![]),
        }
    }

    /// What a reader with schema `self` sees of a value `v` of type `ty` written under `w`
    /// (same family, any other version). Declaration indices agree across versions.
    pub fn view_of(&self, w: &Schema, ty: &Ty, v: &Val) -> Val {
        match (ty, v) {
            (Ty::Enum(e), Val::I(i)) => {
                if self.enums[*e].variants.iter().any(|x| x.1 == *i) {
                    v.clone()
                } else {
                    Val::Err
                }
            }
            (Ty::Struct(s), Val::St(vs)) => Val::St(
                self.structs[*s]
                    .fields
                    .iter()
                    .zip(vs)
                    .map(|(f, v)| self.view_of(w, &f.1, v))
                    .collect(),
            ),
            (Ty::Vec(t), Val::V(vs)) => {
                Val::V(vs.iter().map(|v| self.view_of(w, t, v)).collect())
            }
            (Ty::Union(u), Val::U(tag, v)) => match self.unions[*u].variants.get(*tag as usize - 1)
            {
                Some((_, t)) => Val::U(*tag, Box::new(self.view_of(w, t, v))),
                None => Val::Err,
            },
            (Ty::Table(t), Val::T(vs)) => {
                let wt = &w.tables[*t];
                let map: std::collections::HashMap<u32, &Val> =
                    wt.live().map(|f| f.key).zip(vs.iter()).collect();
                Val::T(
                    self.tables[*t]
                        .live()
                        .map(|f| match map.get(&f.key) {
                            Some(Val::Null) | None => self.absent(f),
                            Some(v) => self.view_of(w, &f.ty, v),
                        })
                        .collect(),
                )
            }
            _ => v.clone(),
        }
    }
}
