//! Schema families, legal schema evolution and value generation.
use crate::{rng::Rng, schema::*};

fn f(key: u32, name: &str, ty: Ty, mode: Mode) -> Field {
    Field {
        key,
        name: name.to_string(),
        ty,
        mode,
        deprecated: false,
        slot: 0,
        explicit_default: true,
        force_align: None,
    }
}

/// Assign vtable slots in declaration order (what happens without explicit ids).
fn assign_slots(t: &mut Table) {
    let mut slot = 0;
    for f in &mut t.fields {
        if f.has_tag() {
            slot += 1;
        }
        f.slot = slot;
        slot += 1;
    }
}

pub fn scalars() -> Vec<Ty> {
    let mut v = vec![Ty::Bool];
    v.extend(INTS.iter().map(|i| Ty::Int(*i)));
    v.push(Ty::F32);
    v.push(Ty::F64);
    v
}

pub fn zero(s: &Schema, t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::B(false),
        Ty::Int(_) => Val::I(0),
        Ty::F32 => Val::F32(0),
        Ty::F64 => Val::F64(0),
        Ty::Enum(e) => {
            let vs = &s.enums[*e].variants;
            if vs.iter().any(|v| v.1 == 0) {
                Val::I(0)
            } else {
                Val::I(vs[0].1)
            }
        }
        _ => panic!(),
    }
}

fn nonzero_default(s: &Schema, t: &Ty, rng: &mut Rng) -> Val {
    match t {
        Ty::Bool => Val::B(true),
        Ty::Int(i) => match rng.below(4) {
            0 => Val::I(i.max()),
            1 => Val::I(i.min()),
            2 => Val::I(1),
            _ => Val::I(if i.signed() { -100 } else { 200 }),
        },
        Ty::F32 => Val::F32(rng.pick(&[1.5f32, -0.25, 1024.75, 3.5]).to_bits()),
        Ty::F64 => Val::F64(rng.pick(&[1.5f64, -0.25, 1e10, 0.1]).to_bits()),
        Ty::Enum(e) => {
            let vs = &s.enums[*e].variants;
            Val::I(vs[rng.below(vs.len())].1)
        }
        _ => panic!(),
    }
}

/// Every supported type in every supported mode.
pub fn kit() -> Schema {
    let mut s = Schema {
        fam: "kit".into(),
        ver: 0,
        namespaces: vec![vec!["sim".into()], vec!["sim".into(), "kit".into()]],
        tables: vec![],
        structs: vec![],
        enums: vec![],
        unions: vec![],
    };
    for (i, b) in INTS.iter().enumerate() {
        let mut variants = vec![];
        if b.signed() {
            variants.push(("Low".to_string(), b.min()));
            variants.push(("Neg".to_string(), -3));
        }
        variants.push(("Zero".into(), 0));
        variants.push(("One".into(), 1));
        variants.push(("Seven".into(), 7));
        variants.push(("High".into(), b.max()));
        if i == 2 {
            // no zero: needs explicit defaults
            variants.retain(|v| v.1 != 0);
        }
        s.enums.push(Enum {
            name: format!("En{i}"),
            ns: i % 2,
            base: *b,
            variants,
        });
    }
    let st = |name: &str, ns: usize, fields: Vec<(&str, Ty)>, fa: Option<usize>| Struct {
        name: name.into(),
        ns,
        fields: fields.into_iter().map(|(n, t)| (n.to_string(), t)).collect(),
        force_align: fa,
    };
    use Ty::{Bool, Enum as TE, Struct as TS, Str, Table as TT, Union as TU, F32, F64};
    let i = |x: crate::schema::Int| Ty::Int(x);
    use crate::schema::Int as N;
    s.structs = vec![
        st("One", 0, vec![("a", i(N::U8))], None),
        st(
            "Mix",
            1,
            vec![("a", i(N::U8)), ("b", i(N::U64)), ("c", i(N::I16)), ("d", Bool)],
            None,
        ),
        st(
            "Deep",
            0,
            vec![
                ("m", TS(1)),
                ("y", Bool),
                ("o", TS(0)),
                ("e", TE(3)),
                ("f", F32),
                ("g", TE(0)),
            ],
            None,
        ),
        st("Fa8", 1, vec![("a", i(N::U8)), ("b", i(N::I8))], Some(8)),
        st("Fa16", 1, vec![("d", F64), ("e", i(N::U16))], Some(16)),
        st("Wrap", 0, vec![("i", i(N::I32)), ("s", TS(4)), ("t", i(N::I8))], None),
        st("Fa32", 0, vec![("x", i(N::U32))], Some(32)),
        st("Tri", 0, vec![("a", i(N::U8)), ("b", i(N::U8)), ("c", i(N::U8))], None),
        // more than 255 bytes
        st(
            "Huge",
            1,
            vec![
                ("a", TS(2)), ("b", i(N::U16)), ("c", TS(2)), ("d", TS(4)), ("e", TS(2)), ("f", TE(1)), ("g", TS(5)),
                ("h", TS(1)), ("i", TS(2)), ("j", i(N::U8)),
            ],
            None,
        ),
    ];
    s.unions = vec![
        // 0: everything
        crate::schema::Union {
            name: "Any".into(),
            ns: 0,
            variants: vec![
                ("Str".into(), Str),
                ("Node".into(), TT(0)),
                ("Mix".into(), TS(1)),
                ("Other".into(), Str),
                ("Wide".into(), TS(4)),
                ("Empty".into(), TT(1)),
                ("Deep".into(), TS(2)),
                // a type of the same name in another namespace
                ("SimEmpty".into(), TT(11)),
            ],
        },
        // 1: infallible
        crate::schema::Union {
            name: "Plain".into(),
            ns: 1,
            variants: vec![("A".into(), Str), ("B".into(), TS(0)), ("C".into(), TS(5))],
        },
        // 2: single
        crate::schema::Union {
            name: "Single".into(),
            ns: 1,
            variants: vec![("Only".into(), TS(4))],
        },
    ];
    let mut rng = Rng::new(77);
    let tab = |name: &str, ns: usize, fields: Vec<Field>| {
        let mut t = crate::schema::Table {
            name: name.into(),
            ns,
            explicit_ids: false,
            fields,
        };
        assign_slots(&mut t);
        t
    };
    let mut k = 0u32;
    let mut key = || {
        k += 1;
        k
    };
    // 0 Node (recursive)
    s.tables.push(tab(
        "Node",
        0,
        vec![
            f(key(), "id", i(N::U16), Mode::Def(Val::I(0))),
            f(key(), "name", Str, Mode::Opt),
            f(key(), "next", TT(0), Mode::Opt),
            f(key(), "kids", Ty::vec(TT(0)), Mode::Opt),
            f(key(), "any", TU(0), Mode::Opt),
            f(key(), "anys", Ty::vec(TU(0)), Mode::Opt),
            f(key(), "data", Ty::vec(i(N::U8)), Mode::Opt),
        ],
    ));
    // 1 Empty
    s.tables.push(tab("Empty", 1, vec![]));
    // 2 scalars with implicit zero default
    let mut v = vec![];
    for (n, t) in scalars().into_iter().enumerate() {
        let z = zero(&s, &t);
        let mut x = f(key(), &format!("z{n}"), t, Mode::Def(z));
        x.explicit_default = false;
        v.push(x);
    }
    s.tables.push(tab("Zeros", 0, v));
    // 3 scalars with non-zero defaults, enums
    let mut v = vec![];
    for (n, t) in scalars().into_iter().chain((0..8).map(TE)).enumerate() {
        let d = nonzero_default(&s, &t, &mut rng);
        v.push(f(key(), &format!("d{n}"), t, Mode::Def(d)));
    }
    s.tables.push(tab("Defs", 1, v));
    // 4 optional scalars
    let mut v = vec![];
    for (n, t) in scalars().into_iter().chain((0..8).map(TE)).enumerate() {
        v.push(f(key(), &format!("o{n}"), t, Mode::Opt));
    }
    s.tables.push(tab("Opts", 0, v));
    // 5 strings, structs, tables, unions in every mode
    let mut v = vec![
        f(key(), "s_opt", Str, Mode::Opt),
        f(key(), "s_req", Str, Mode::Req),
        f(key(), "s_def", Str, Mode::Def(Val::S("de\"f é".into()))),
        f(key(), "s_emp", Str, Mode::Def(Val::S("".into()))),
        f(key(), "t_opt", TT(0), Mode::Opt),
        f(key(), "t_req", TT(2), Mode::Req),
        f(key(), "t_emp", TT(1), Mode::Opt),
        f(key(), "u_opt", TU(0), Mode::Opt),
        f(key(), "u_req", TU(0), Mode::Req),
        f(key(), "u_plain", TU(1), Mode::Opt),
        f(key(), "u_plain_req", TU(1), Mode::Req),
        f(key(), "u_single", TU(2), Mode::Opt),
    ];
    for n in 0..8 {
        let m = if n % 3 == 1 { Mode::Req } else { Mode::Opt };
        v.push(f(key(), &format!("st{n}"), TS(n), m));
    }
    s.tables.push(tab("Modes", 0, v));
    // 6 vectors of everything, optional
    let elems: Vec<Ty> = scalars()
        .into_iter()
        .chain([Str, TT(0), TT(1), TT(2)])
        .chain((0..8).map(TS))
        .chain([TE(0), TE(1), TE(2), TE(3), TE(5), TE(6), TE(7)])
        .chain((0..3).map(TU))
        .collect();
    let mut v = vec![];
    for (n, t) in elems.iter().enumerate() {
        v.push(f(key(), &format!("v{n}"), Ty::vec(t.clone()), Mode::Opt));
    }
    s.tables.push(tab("Vecs", 1, v));
    // 7 vectors, required or default
    let mut v = vec![];
    for (n, t) in elems.iter().enumerate() {
        if matches!(n % 5, 0 | 1 | 2) || matches!(t, TU(_) | Str | TT(_)) {
            v.push(f(
                key(),
                &format!("w{n}"),
                Ty::vec(t.clone()),
                if n % 2 == 0 {
                    Mode::Req
                } else {
                    Mode::Def(Val::V(vec![]))
                },
            ));
        }
    }
    s.tables.push(tab("VecModes", 0, v));
    // 8 a hub so that every table is reachable from one root
    let v = vec![
        f(key(), "node", TT(0), Mode::Opt),
        f(key(), "zeros", Ty::vec(TT(2)), Mode::Opt),
        f(key(), "defs", Ty::vec(TT(3)), Mode::Opt),
        f(key(), "opts", Ty::vec(TT(4)), Mode::Opt),
        f(key(), "modes", Ty::vec(TT(5)), Mode::Opt),
        f(key(), "vecs", TT(6), Mode::Opt),
        f(key(), "vec_modes", TT(7), Mode::Opt),
        f(key(), "hub", TT(8), Mode::Opt),
        f(key(), "wide", TT(9), Mode::Opt),
        f(key(), "huge", TS(8), Mode::Opt),
        f(key(), "huges", Ty::vec(TS(8)), Mode::Opt),
        f(key(), "numbers", TT(10), Mode::Opt),
    ];
    s.tables.push(tab("Hub", 0, v));
    // 9 a vtable and an object of more than 255 bytes
    let mut v = vec![];
    for n in 0..150 {
        let live = n % 5 == 3 || !(2..=145).contains(&n);
        let ty = match n % 4 {
            _ if !live => i(N::U8),
            0 => i(N::U64),
            1 => F64,
            2 => TE(3),
            _ => i(N::I64),
        };
        let d = zero(&s, &ty);
        let mut x = f(key(), &format!("x{n}"), ty, if live && n % 2 == 1 { Mode::Opt } else { Mode::Def(d) });
        x.explicit_default = false;
        x.deprecated = !live;
        v.push(x);
    }
    v.push(f(key(), "s", Str, Mode::Opt));
    v.push(f(key(), "u", TU(0), Mode::Opt));
    v.push(f(key(), "h", TS(8), Mode::Opt));
    v.push(f(key(), "t", TT(8), Mode::Opt));
    s.tables.push(tab("WideTable", 1, v));
    // 10 numbers that are hard to write down
    let mut v = vec![];
    for (n, x) in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-310, f64::MAX, 1e300, 1.0, 16.0, -1000.0, 0.1, 12.5].into_iter().enumerate() {
        v.push(f(key(), &format!("d{n}"), F64, Mode::Def(Val::F64(x.to_bits()))));
        let y = match n {
            3 => f32::from_bits(1),
            4 => f32::MAX,
            _ => x as f32,
        };
        v.push(f(key(), &format!("f{n}"), F32, Mode::Def(Val::F32(y.to_bits()))));
    }
    for (n, t) in INTS.iter().enumerate() {
        for (m, x) in [t.min(), t.max(), 100, 37].into_iter().enumerate() {
            v.push(f(key(), &format!("i{n}x{m}"), i(*t), Mode::Def(Val::I(x))));
        }
    }
    s.tables.push(tab("Numbers", 0, v));
    // 11 the same name as in the other namespace
    s.tables.push(tab("Empty", 0, vec![f(key(), "not", Str, Mode::Opt), f(key(), "so", i(N::U16), Mode::Def(Val::I(1)))]));
    s
}

/// A random schema. `size` scales the number of declarations.
pub fn random(fam: &str, seed: u64, size: usize) -> Schema {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut s = Schema {
        fam: fam.into(),
        ver: 0,
        namespaces: vec![
            vec!["n".into(), fam.into()],
            vec!["n".into(), fam.into(), "sub".into()],
        ],
        tables: vec![],
        structs: vec![],
        enums: vec![],
        unions: vec![],
    };
    if rng.chance(1, 2) {
        s.namespaces[1] = vec!["other".into()];
    }
    for i in 0..2 + size / 2 {
        let base = *rng.pick(&INTS);
        let mut vals: Vec<i128> = vec![0];
        for _ in 0..rng.range(1, 5) {
            let v = if base.signed() && rng.chance(1, 3) {
                -(rng.below(100) as i128) - 1
            } else {
                rng.below(100) as i128
            };
            if !vals.contains(&v) {
                vals.push(v);
            }
        }
        vals.sort();
        s.enums.push(Enum {
            name: format!("E{i}"),
            ns: rng.below(2),
            base,
            variants: vals
                .into_iter()
                .enumerate()
                .map(|(n, v)| (format!("X{n}"), v))
                .collect(),
        });
    }
    for i in 0..2 + size / 2 {
        let n = rng.range(1, 6);
        let mut fields = vec![];
        for j in 0..n {
            let t = match rng.below(10) {
                0 | 1 if i > 0 => Ty::Struct(rng.below(i)),
                2 => Ty::Enum(rng.below(s.enums.len())),
                _ => rng.pick(&scalars()).clone(),
            };
            fields.push((format!("m{j}"), t));
        }
        s.structs.push(Struct {
            name: format!("S{i}"),
            ns: rng.below(2),
            fields,
            force_align: None,
        });
        if rng.chance(1, 3) {
            let a = s.struct_layout(i).1;
            s.structs[i].force_align = Some((a * 2).min(32));
        }
    }
    let n_tables = 3 + size;
    let n_unions = 1 + size / 2;
    for i in 0..n_unions {
        let mut variants = vec![];
        variants.push((
            "V0".into(),
            if rng.chance(1, 2) {
                Ty::Str
            } else {
                Ty::Struct(rng.below(s.structs.len()))
            },
        ));
        for j in 1..rng.range(2, 5) {
            let t = match rng.below(4) {
                0 => Ty::Str,
                1 => Ty::Struct(rng.below(s.structs.len())),
                _ => Ty::Table(rng.below(n_tables)),
            };
            // variants are called after their type if nobody gives them a name
            let own = match &t {
                Ty::Table(k) => format!("T{k}"),
                Ty::Struct(k) => s.structs[*k].name.clone(),
                _ => String::new(),
            };
            let free = !own.is_empty() && variants.iter().all(|v: &(String, Ty)| v.0 != own);
            variants.push((if free && j % 2 == 1 { own } else { format!("V{j}") }, t));
        }
        s.unions.push(Union {
            name: format!("U{i}"),
            ns: rng.below(2),
            variants,
        });
    }
    let mut key = 0u32;
    for i in 0..n_tables {
        let n = rng.range(2, 9);
        let mut fields = vec![];
        for j in 0..n {
            key += 1;
            fields.push(random_field(&s, rng, key, &format!("f{j}"), i, n_tables, true));
        }
        let mut t = Table {
            name: format!("Tab{i}"),
            ns: rng.below(2),
            explicit_ids: rng.chance(1, 2),
            fields,
        };
        if t.explicit_ids {
            // slots in random order, union pairs adjacent
            let mut order: Vec<usize> = (0..t.fields.len()).collect();
            rng.shuffle(&mut order);
            let mut slot = 0;
            for o in order {
                if t.fields[o].has_tag() {
                    slot += 1;
                }
                t.fields[o].slot = slot;
                slot += 1;
            }
        } else {
            assign_slots(&mut t);
        }
        s.tables.push(t);
    }
    s
}

/// `rank`: required table fields may only refer to tables below it, so that finite values exist.
fn random_field(
    s: &Schema,
    rng: &mut Rng,
    key: u32,
    name: &str,
    rank: usize,
    n_tables: usize,
    may_require: bool,
) -> Field {
    let base = |rng: &mut Rng| match rng.below(12) {
        0..=4 => rng.pick(&scalars()).clone(),
        5 => Ty::Enum(rng.below(s.enums.len())),
        6 | 7 => Ty::Struct(rng.below(s.structs.len())),
        8 | 9 => Ty::Str,
        10 => Ty::Table(rng.below(n_tables)),
        _ => Ty::Union(rng.below(s.unions.len())),
    };
    let ty = if rng.chance(1, 3) {
        Ty::vec(base(rng))
    } else {
        base(rng)
    };
    let mut explicit = true;
    let mode = match &ty {
        t if t.is_scalar() => match rng.below(3) {
            0 => Mode::Opt,
            1 => {
                explicit = false;
                Mode::Def(zero(s, t))
            }
            _ => Mode::Def(nonzero_default(s, t, rng)),
        },
        Ty::Str => match rng.below(3) {
            0 if may_require => Mode::Req,
            1 => Mode::Def(Val::S(rng.pick(&["", "x", "hello", "é\"q"]).to_string())),
            _ => Mode::Opt,
        },
        Ty::Vec(_) => match rng.below(3) {
            0 if may_require => Mode::Req,
            1 => Mode::Def(Val::V(vec![])),
            _ => Mode::Opt,
        },
        Ty::Table(t) => {
            if may_require && *t < rank && rng.chance(1, 3) {
                Mode::Req
            } else {
                Mode::Opt
            }
        }
        _ => {
            if may_require && rng.chance(1, 3) {
                Mode::Req
            } else {
                Mode::Opt
            }
        }
    };
    let mut x = f(key, name, ty, mode);
    x.explicit_default = explicit;
    x
}

/// One legal evolution step.
pub fn evolve(s: &Schema, seed: u64) -> Schema {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let mut n = s.clone();
    n.ver = s.ver + 1;
    let mut key = 1000 * (s.ver as u32 + 1);
    for e in &mut n.enums {
        if rng.chance(1, 2) {
            let max = e.variants.last().unwrap().1;
            let mut v = max;
            for _ in 0..rng.range(1, 2) {
                v += 1 + rng.below(3) as i128;
                if v <= e.base.max() {
                    e.variants.push((format!("N{}x{v}", n.ver), v));
                }
            }
        }
        if rng.chance(1, 4) {
            let i = rng.below(e.variants.len());
            e.variants[i].0 = format!("R{}{}", n.ver, e.variants[i].0.replace('_', ""));
        }
    }
    if rng.chance(2, 3) {
        // a new table used by new fields
        let i = n.tables.len();
        let mut fields = vec![];
        for j in 0..rng.range(1, 4) {
            key += 1;
            fields.push(random_field(s, rng, key, &format!("f{j}"), i, i, false));
        }
        let mut t = Table {
            name: format!("Tab{i}"),
            ns: rng.below(2),
            explicit_ids: false,
            fields,
        };
        assign_slots(&mut t);
        n.tables.push(t);
    }
    let n_tables = n.tables.len();
    for u in &mut n.unions {
        if rng.chance(1, 2) {
            let t = match rng.below(3) {
                0 => Ty::Str,
                1 => Ty::Struct(rng.below(s.structs.len())),
                _ => Ty::Table(rng.below(n_tables)),
            };
            let name = format!("V{}", u.variants.len());
            u.variants.push((name, t));
        }
    }
    let frozen = n.clone();
    for (ti, t) in n.tables.iter_mut().enumerate().take(s.tables.len()) {
        // rename
        for f in &mut t.fields {
            if rng.chance(1, 6) {
                f.name = format!("{}r{}", f.name, frozen.ver);
            }
        }
        // deprecate
        for f in &mut t.fields {
            if !f.deprecated && !matches!(f.mode, Mode::Req) && rng.chance(1, 8) {
                f.deprecated = true;
            }
        }
        // append
        let add = rng.below(4);
        for j in 0..add {
            key += 1;
            let mut nf = random_field(
                &frozen,
                rng,
                key,
                &format!("a{}_{j}", frozen.ver),
                ti,
                n_tables,
                false,
            );
            let mut slot = t.n_slots();
            if nf.has_tag() {
                slot += 1;
            }
            nf.slot = slot;
            let at = if t.explicit_ids {
                rng.below(t.fields.len() + 1)
            } else {
                t.fields.len()
            };
            t.fields.insert(at, nf);
        }
    }
    n
}

/// The schema families used by the simulator, each a list of versions.
pub fn family(name: &str) -> Vec<Schema> {
    let chain = |name: &str, seed: u64, size: usize, n: usize| {
        let mut v = vec![random(name, seed, size)];
        for i in 1..n {
            let next = evolve(v.last().unwrap(), crate::rng::mix(seed, i as u64));
            v.push(next);
        }
        v
    };
    match name {
        "kit" => vec![kit()],
        "ra" => chain("ra", 11, 5, 1),
        "rb" => {
            // everything in the root namespace
            let mut s = random("rb", 12, 5);
            s.namespaces = vec![vec![]];
            s.tables.iter_mut().for_each(|t| t.ns = 0);
            s.structs.iter_mut().for_each(|t| t.ns = 0);
            s.enums.iter_mut().for_each(|t| t.ns = 0);
            s.unions.iter_mut().for_each(|t| t.ns = 0);
            vec![s]
        }
        "ea" => chain("ea", 21, 2, 3),
        "eb" => chain("eb", 22, 2, 3),
        "ec" => chain("ec", 23, 3, 3),
        "fa" => {
            let mut a = f(0, "a", Ty::Int(Int::U32), Mode::Opt);
            a.force_align = Some(16);
            let mut t = Table {
                name: "Forced".into(),
                ns: 0,
                explicit_ids: false,
                fields: vec![a, f(1, "b", Ty::Int(Int::U16), Mode::Opt), f(2, "c", Ty::Str, Mode::Opt)],
            };
            assign_slots(&mut t);
            vec![Schema {
                fam: "fa".into(),
                ver: 0,
                namespaces: vec![vec!["sim".into()]],
                tables: vec![t],
                structs: vec![],
                enums: vec![],
                unions: vec![],
            }]
        }
        _ => panic!("unknown family {name}"),
    }
}
pub const FAMILIES: [&str; 7] = ["kit", "ra", "rb", "ea", "eb", "ec", "fa"];

/// Value generation. Reuses earlier values on purpose: sharing, caches and equal content are
/// what several properties are about.
pub struct ValGen<'a> {
    pub s: &'a Schema,
    pub rng: &'a mut Rng,
    pub strings: &'a mut Vec<String>,
    pub old: &'a mut Vec<(Ty, Val)>,
    /// remaining number of nodes
    pub budget: isize,
    /// swarm: how likely optional parts are present, in percent
    pub present: usize,
    /// longest vector
    pub max_len: usize,
    /// out of 100: reuse an old value of the same type
    pub reuse: usize,
    /// nesting so far (start at 0); deeper than this everything is as small as possible
    pub depth: usize,
}
pub const MAX_DEPTH: usize = 30;
/// Nesting of a value.
pub fn depth_of(v: &Val) -> usize {
    1 + match v {
        Val::V(v) | Val::St(v) | Val::T(v) => v.iter().map(depth_of).max().unwrap_or(0),
        Val::U(_, v) => depth_of(v),
        _ => 0,
    }
}

pub fn special_int(rng: &mut Rng, i: Int) -> i128 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => i.max(),
        3 => i.min(),
        4 => i.max() - 1,
        5 => (rng.below(256) as i128).min(i.max()),
        _ => i.decode(&rng.u64().to_le_bytes()),
    }
}
pub fn special_f32(rng: &mut Rng) -> u32 {
    match rng.below(9) {
        0 => 0,
        1 => 0x8000_0000,
        2 => f32::INFINITY.to_bits(),
        3 => 0x7fc0_0000,
        4 => 0x7fa0_1234, // signalling NaN with payload
        5 => 1,
        6 => 1.5f32.to_bits(),
        _ => rng.u64() as u32,
    }
}
pub fn special_f64(rng: &mut Rng) -> u64 {
    match rng.below(9) {
        0 => 0,
        1 => 1 << 63,
        2 => f64::NEG_INFINITY.to_bits(),
        3 => 0x7ff8_0000_0000_0000,
        4 => 0x7ff4_0000_0000_1234,
        5 => 1,
        6 => 1.5f64.to_bits(),
        _ => rng.u64(),
    }
}

pub fn gen_string(rng: &mut Rng, strings: &mut Vec<String>) -> String {
    if !strings.is_empty() && rng.chance(1, 2) {
        let s = rng.pick(strings).clone();
        return match rng.below(6) {
            0 => s + "a",
            1 => s + "\0",
            2 => {
                // a prefix
                let n = s.chars().count();
                s.chars().take(rng.below(n + 1)).collect()
            }
            _ => s,
        };
    }
    let len = match rng.below(20) {
        0..=2 => 0,
        3..=15 => rng.below(12),
        16..=18 => rng.below(60),
        _ => rng.below(600),
    };
    let s: String = match rng.below(4) {
        0 => (0..len).map(|_| 'a').collect(),
        1 => (0..len)
            .map(|_| *rng.pick(&['\0', 'é', '🦀', 'x', '\n', '\u{7ff}', '\u{ffff}']))
            .collect(),
        _ => (0..len).map(|_| (b'a' + rng.below(26) as u8) as char).collect(),
    };
    strings.push(s.clone());
    s
}

impl ValGen<'_> {
    pub fn gen(&mut self, t: &Ty) -> Val {
        self.depth += 1;
        let (budget, deep) = (self.budget, self.depth > MAX_DEPTH);
        if deep {
            self.budget = self.budget.min(0);
        }
        let v = self.gen_inner(t);
        if deep {
            self.budget = budget - 1;
        }
        self.depth -= 1;
        v
    }
    fn gen_inner(&mut self, t: &Ty) -> Val {
        self.budget -= 1;
        let share = matches!(t, Ty::Table(_) | Ty::Struct(_) | Ty::Union(_) | Ty::Vec(_));
        if share && self.rng.below(100) < self.reuse {
            let same: Vec<usize> = (0..self.old.len()).filter(|i| self.old[*i].0 == *t).collect();
            if !same.is_empty() {
                let v = self.old[*self.rng.pick(&same)].1.clone();
                if (v.size() as isize) <= self.budget.max(4) && self.depth + depth_of(&v) <= MAX_DEPTH + 5 {
                    self.budget -= v.size() as isize;
                    return v;
                }
            }
        }
        let v = match t {
            Ty::Bool => Val::B(self.rng.chance(1, 2)),
            Ty::Int(i) => Val::I(special_int(self.rng, *i)),
            Ty::F32 => Val::F32(special_f32(self.rng)),
            Ty::F64 => Val::F64(special_f64(self.rng)),
            Ty::Str => Val::S(gen_string(self.rng, self.strings)),
            Ty::Enum(e) => Val::I(self.rng.pick(&self.s.enums[*e].variants).1),
            Ty::Struct(s) => {
                let fields = self.s.structs[*s].fields.clone();
                Val::St(fields.iter().map(|f| self.gen(&f.1)).collect())
            }
            Ty::Union(u) => {
                let vs = self.s.unions[*u].variants.clone();
                let tag = if self.budget <= 0 { 0 } else { self.rng.below(vs.len()) };
                Val::U(tag as u8 + 1, Box::new(self.gen(&vs[tag].1)))
            }
            Ty::Vec(e) => {
                let n = if self.budget <= 0 {
                    0
                } else {
                    match self.rng.below(8) {
                        0 => 0,
                        1 => 1,
                        _ => self.rng.below(self.max_len + 1),
                    }
                };
                let n = if matches!(**e, Ty::Int(Int::U8 | Int::I8)) && self.rng.chance(1, 6) {
                    n * 20
                } else {
                    n
                };
                if e.is_scalar() && self.rng.chance(1, 4) {
                    // low entropy, so that equal vectors are frequent
                    let x = self.gen(e);
                    Val::V(vec![x; n])
                } else {
                    Val::V((0..n).map(|_| self.gen(e)).collect())
                }
            }
            Ty::Table(i) => {
                let fields: Vec<Field> = self.s.tables[*i].live().cloned().collect();
                Val::T(
                    fields
                        .iter()
                        .map(|f| {
                            let heavy = !f.ty.is_scalar();
                            let present = self.rng.below(100) < self.present
                                && !(heavy && self.budget <= 0);
                            match &f.mode {
                                Mode::Req if self.budget <= 0 => self.s.minimal(&f.ty),
                                Mode::Req => self.gen(&f.ty),
                                Mode::Opt if present => self.gen(&f.ty),
                                Mode::Opt => Val::Null,
                                Mode::Def(d) if !present => d.clone(),
                                Mode::Def(d) => norm_default(&self.gen(&f.ty), d),
                            }
                        })
                        .collect(),
                )
            }
        };
        if share && v.size() < 200 {
            if self.old.len() > 60 {
                let i = self.rng.below(self.old.len());
                self.old.swap_remove(i);
            }
            self.old.push((t.clone(), v.clone()));
        }
        v
    }
}

/// Values that compare equal to the default (−0.0 and 0.0) are omitted like the default itself,
/// so such a value legitimately reads back as the default.
pub fn norm_default(v: &Val, d: &Val) -> Val {
    match (v, d) {
        (Val::F32(a), Val::F32(b)) if f32::from_bits(*a) == f32::from_bits(*b) => d.clone(),
        (Val::F64(a), Val::F64(b)) if f64::from_bits(*a) == f64::from_bits(*b) => d.clone(),
        _ => v.clone(),
    }
}

/// Simpler variants of a value of type `t`, biggest simplification first.
pub fn shrink_val(s: &Schema, t: &Ty, v: &Val, out: &mut Vec<Val>) {
    let m = s.minimal(t);
    if *v != m {
        out.push(m);
    } else {
        return;
    }
    match (t, v) {
        (Ty::Str, Val::S(x)) => {
            let n = x.chars().count();
            if n > 1 {
                out.push(Val::S(x.chars().take(n / 2).collect()));
                out.push(Val::S(x.chars().take(n - 1).collect()));
            }
            if x.chars().any(|c| c != 'a') {
                out.push(Val::S("a".repeat(n)));
            }
        }
        (Ty::Int(_), Val::I(x)) if *x != 1 => out.push(Val::I(1)),
        (Ty::Vec(e), Val::V(x)) => {
            if x.len() > 1 {
                out.push(Val::V(x[..x.len() / 2].to_vec()));
                out.push(Val::V(x[x.len() / 2..].to_vec()));
            }
            for i in 0..x.len().min(12) {
                let mut y = x.clone();
                y.remove(i);
                out.push(Val::V(y));
            }
            for i in 0..x.len().min(12) {
                let mut c = vec![];
                shrink_val(s, e, &x[i], &mut c);
                for c in c {
                    let mut y = x.clone();
                    y[i] = c;
                    out.push(Val::V(y));
                }
            }
        }
        (Ty::Struct(i), Val::St(x)) => {
            for (j, f) in s.structs[*i].fields.iter().enumerate() {
                let mut c = vec![];
                shrink_val(s, &f.1, &x[j], &mut c);
                for c in c {
                    let mut y = x.clone();
                    y[j] = c;
                    out.push(Val::St(y));
                }
            }
        }
        (Ty::Union(i), Val::U(tag, x)) => {
            let mut c = vec![];
            shrink_val(s, &s.unions[*i].variants[*tag as usize - 1].1, x, &mut c);
            for c in c {
                out.push(Val::U(*tag, Box::new(c)));
            }
        }
        (Ty::Table(i), Val::T(x)) => {
            for (j, f) in s.tables[*i].live().enumerate() {
                let mut c = vec![];
                match &f.mode {
                    Mode::Opt if x[j] == Val::Null => continue,
                    Mode::Opt => c.push(Val::Null),
                    Mode::Def(d) if x[j] == *d => continue,
                    Mode::Def(d) => c.push(d.clone()),
                    Mode::Req => {}
                }
                shrink_val(s, &f.ty, &x[j], &mut c);
                for c in c {
                    let mut y = x.clone();
                    y[j] = match &f.mode {
                        Mode::Def(d) => norm_default(&c, d),
                        _ => c,
                    };
                    out.push(Val::T(y));
                }
            }
        }
        _ => {}
    }
}
