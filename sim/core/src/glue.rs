//! Rust glue between the code planus generates for a schema and the simulator.
use crate::schema::*;
use std::fmt::Write;

struct G<'a> {
    s: &'a Schema,
}

pub fn rust_path(s: &Schema, ns: usize, name: &str) -> String {
    let mut p = "g".to_string();
    for x in &s.namespaces[ns] {
        p += "::";
        p += x;
    }
    p + "::" + name
}
fn snake(v: &str) -> String {
    let mut o = String::new();
    for (i, c) in v.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('_');
        }
        o.extend(c.to_lowercase());
    }
    o
}

impl G<'_> {
    fn t(&self, i: usize) -> String {
        rust_path(self.s, self.s.tables[i].ns, &self.s.tables[i].name)
    }
    fn st(&self, i: usize) -> String {
        rust_path(self.s, self.s.structs[i].ns, &self.s.structs[i].name)
    }
    fn e(&self, i: usize) -> String {
        rust_path(self.s, self.s.enums[i].ns, &self.s.enums[i].name)
    }
    fn u(&self, i: usize) -> String {
        rust_path(self.s, self.s.unions[i].ns, &self.s.unions[i].name)
    }
    /// name of a function `fn(&Val) -> X` for scalars and structs
    fn conv(&self, t: &Ty) -> String {
        match t {
            Ty::Bool => "g_bool".into(),
            Ty::Int(i) => format!("g_{}", i.rust()),
            Ty::F32 => "g_f32".into(),
            Ty::F64 => "g_f64".into(),
            Ty::Enum(i) => format!("own_e{i}"),
            Ty::Struct(i) => format!("own_s{i}"),
            Ty::Table(i) => format!("own_t{i}"),
            Ty::Union(i) => format!("own_u{i}"),
            Ty::Str => "own_str".into(),
            Ty::Vec(_) => panic!(),
        }
    }
    fn own(&self, t: &Ty, x: &str, boxed: bool) -> String {
        match t {
            Ty::Vec(e) => format!(
                "g_vec({x}).iter().map({}).collect::<Vec<_>>()",
                self.conv(e)
            ),
            Ty::Table(_) if boxed => format!("Box::new({}({x}))", self.conv(t)),
            _ => format!("{}({x})", self.conv(t)),
        }
    }
    /// expression of type Val for `x: &X` (owned)
    fn val(&self, t: &Ty, x: &str) -> String {
        match t {
            Ty::Bool => format!("Val::B(*{x})"),
            Ty::Int(_) => format!("Val::I(*{x} as i128)"),
            Ty::F32 => format!("Val::F32({x}.to_bits())"),
            Ty::F64 => format!("Val::F64({x}.to_bits())"),
            Ty::Enum(i) => format!("Val::I({}::from(*{x}) as i128)", self.s.enums[*i].base.rust()),
            Ty::Struct(i) => format!("val_s{i}({x})"),
            Ty::Table(i) => format!("val_t{i}({x})"),
            Ty::Union(i) => format!("val_u{i}({x})"),
            Ty::Str => format!("Val::S({x}.to_string())"),
            Ty::Vec(e) => format!("Val::V({x}.iter().map(|x| {}).collect())", self.val(e, "x")),
        }
    }
    /// expression of type Val for what an accessor returned (without Result/Option)
    fn rd(&self, t: &Ty, x: &str, default: Option<&str>) -> String {
        match t {
            Ty::Bool => format!("Val::B({x})"),
            Ty::Int(_) => format!("Val::I({x} as i128)"),
            Ty::F32 => format!("Val::F32({x}.to_bits())"),
            Ty::F64 => format!("Val::F64({x}.to_bits())"),
            Ty::Enum(i) => format!("Val::I({}::from({x}) as i128)", self.s.enums[*i].base.rust()),
            Ty::Struct(i) => format!("rd_s{i}(cx, {x})"),
            Ty::Table(i) => format!("rd_t{i}(cx, {x})"),
            Ty::Union(i) => format!("rd_u{i}(cx, {x})"),
            Ty::Str => format!("cx.str({x}, {default:?})"),
            Ty::Vec(e) => match &**e {
                Ty::Int(Int::U8) => format!("cx.bytes_u8({x})"),
                Ty::Int(Int::I8) => format!("cx.bytes_i8({x})"),
                Ty::Union(_) => {
                    format!("cx.uvec({x}, |x| req(x, |x| {}))", self.rd(e, "x", None))
                }
                Ty::Str | Ty::Table(_) | Ty::Enum(_) => {
                    format!("cx.vec({x}, |x| req(x, |x| {}))", self.rd(e, "x", None))
                }
                _ => format!("cx.vec({x}, |x| {})", self.rd(e, "x", None)),
            },
        }
    }
    fn elems(&self, e: &Ty) -> String {
        match e {
            Ty::Int(Int::U8) => "BytesU8".into(),
            Ty::Int(Int::I8) => "BytesI8".into(),
            Ty::Str => "Strs".into(),
            Ty::Table(i) => format!("Tabs(own_t{i}, mk_t{i})"),
            _ => format!("Prims({} as fn(&Val) -> _)", self.conv(e)),
        }
    }
    fn arg(&self, f: &Field, x: &str) -> String {
        let m = match f.mode {
            Mode::Req => "req",
            Mode::Opt => "opt",
            Mode::Def(_) => "def",
        };
        match &f.ty {
            Ty::Str => format!("a_str_{m}(cx, {x})"),
            Ty::Vec(e) => match &**e {
                Ty::Union(u) => format!("a_unv_{m}(cx, {x}, Uns(own_u{u}, mk_u{u}))"),
                e => format!("a_vec_{m}(cx, {x}, {})", self.elems(e)),
            },
            Ty::Table(i) if m == "req" => format!("a_tab_req(cx, {x}, mk_t{i})"),
            Ty::Table(i) => format!("a_tab_opt(cx, {x}, own_t{i}, mk_t{i})"),
            Ty::Union(i) if m == "req" => format!("a_un_req(cx, {x}, mk_u{i})"),
            Ty::Union(i) => format!("a_un_opt(cx, {x}, own_u{i}, mk_u{i})"),
            t if m == "opt" => format!("g_opt({x}, {})", self.conv(t)),
            t => format!("{}({x})", self.conv(t)),
        }
    }

    fn gen(&self) -> String {
        let s = self.s;
        let mut o = String::new();
        macro_rules! w { ($($a:tt)*) => { writeln!(o, $($a)*).unwrap() } }
        w!("fn own_str(v: &Val) -> String {{ g_str(v).to_string() }}");
        for (i, e) in s.enums.iter().enumerate() {
            let (p, b) = (self.e(i), e.base.rust());
            w!("fn own_e{i}(v: &Val) -> {p} {{ <{p} as TryFrom<{b}>>::try_from(g_{b}(v)).ok().expect(\"enum value\") }}");
        }
        for (i, st) in s.structs.iter().enumerate() {
            let p = self.st(i);
            w!("fn own_s{i}(v: &Val) -> {p} {{ let f = g_fields(v); {p} {{");
            for (j, (n, t)) in st.fields.iter().enumerate() {
                w!("  {n}: {},", self.own(t, &format!("&f[{j}]"), false));
            }
            w!("}} }}");
            w!("fn val_s{i}(x: &{p}) -> Val {{ Val::St(vec![");
            for (n, t) in &st.fields {
                w!("  {},", self.val(t, &format!("(&x.{n})")));
            }
            w!("]) }}");
            w!("fn rd_s{i}(cx: &RCx, r: {p}Ref<'_>) -> Val {{ Val::St(vec![");
            for (n, t) in &st.fields {
                if matches!(t, Ty::Enum(_)) {
                    w!("  req(r.{n}(), |x| {}),", self.rd(t, "x", None));
                } else {
                    w!("  {},", self.rd(t, &format!("r.{n}()"), None));
                }
            }
            w!("]) }}");
        }
        for (i, u) in s.unions.iter().enumerate() {
            let p = self.u(i);
            w!("fn own_u{i}(v: &Val) -> {p} {{ match v {{");
            for (j, (n, t)) in u.variants.iter().enumerate() {
                w!("  Val::U({}, x) => {p}::{n}({}),", j + 1, self.own(t, "x", true));
            }
            w!("  x => panic!(\"{{x:?}}\") }} }}");
            w!("fn val_u{i}(x: &{p}) -> Val {{ match x {{");
            for (j, (n, t)) in u.variants.iter().enumerate() {
                w!("  {p}::{n}(x) => Val::U({}, Box::new({})),", j + 1, self.val(t, "x"));
            }
            w!("}} }}");
            w!("fn rd_u{i}(cx: &RCx, r: {p}Ref<'_>) -> Val {{");
            w!("  if !cx.enter() {{ return Val::Cut; }}");
            w!("  let v = match r {{");
            for (j, (n, t)) in u.variants.iter().enumerate() {
                w!("  {p}Ref::{n}(x) => Val::U({}, Box::new({})),", j + 1, self.rd(t, "x", None));
            }
            w!("}}; cx.leave(); v }}");
            w!("fn mk_u{i}(cx: &Cx, b: &mut Builder, v: &Val) -> UnionOffset<{p}> {{");
            w!("  cx.tick(); if let Some(o) = cx.lookup(v) {{ return o; }}");
            w!("  let Val::U(tag, x) = v else {{ panic!() }}; let x = &**x;");
            w!("  let o = match (cx.choose(3), *tag) {{");
            w!("  (0, _) => WriteAsUnion::prepare(&own_u{i}(v), b),");
            for (j, (n, t)) in u.variants.iter().enumerate() {
                let a = match t {
                    Ty::Str => "Off(Box::new(|b: &mut Builder| mk_str(cx, b, x)))".to_string(),
                    Ty::Table(k) => format!("Off(Box::new(|b: &mut Builder| mk_t{k}(cx, b, x)))"),
                    _ => self.own(t, "x", false),
                };
                w!("  (1, {}) => {p}::create_{}(b, {a}),", j + 1, snake(n));
                w!("  (_, {}) => {p}::builder().{}({a}).finish(b),", j + 1, snake(n));
            }
            w!("  x => panic!(\"{{x:?}}\") }}; cx.store(v, o) }}");
        }
        for (i, t) in s.tables.iter().enumerate() {
            let p = self.t(i);
            let live: Vec<&Field> = t.live().collect();
            w!("fn own_t{i}(v: &Val) -> {p} {{ let f = g_fields(v); {p} {{");
            for (j, f) in live.iter().enumerate() {
                let x = if matches!(f.mode, Mode::Opt) {
                    format!("g_opt(&f[{j}], |x| {})", self.own(&f.ty, "x", true))
                } else {
                    self.own(&f.ty, &format!("&f[{j}]"), true)
                };
                w!("  {}: {x},", f.name);
            }
            w!("}} }}");
            w!("fn val_t{i}(x: &{p}) -> Val {{ Val::T(vec![");
            for f in &live {
                if matches!(f.mode, Mode::Opt) {
                    w!("  v_opt(&x.{}, |x| {}),", f.name, self.val(&f.ty, "x"));
                } else {
                    w!("  {},", self.val(&f.ty, &format!("(&x.{})", f.name)));
                }
            }
            w!("]) }}");
            w!("fn rd_t{i}(cx: &RCx, r: {p}Ref<'_>) -> Val {{");
            w!("  if !cx.enter() {{ return Val::Cut; }}");
            w!("  let v = Val::T(vec![");
            for f in &live {
                let d = match &f.mode {
                    Mode::Def(Val::S(s)) => Some(s.as_str()),
                    _ => None,
                };
                let k = if matches!(f.mode, Mode::Opt) { "opt" } else { "req" };
                w!("  {k}(r.{}(), |x| {}),", f.name, self.rd(&f.ty, "x", d));
            }
            w!("  ]); cx.leave(); v }}");
            let args: Vec<String> = live
                .iter()
                .enumerate()
                .map(|(j, f)| self.arg(f, &format!("&f[{j}]")))
                .collect();
            w!("fn mk_t{i}(cx: &Cx, b: &mut Builder, v: &Val) -> Offset<{p}> {{");
            w!("  cx.tick(); if let Some(o) = cx.lookup(v) {{ return o; }}");
            w!("  let f = g_fields(v);");
            w!("  let o = match cx.choose(6) {{");
            w!("  0 => WriteAsOffset::prepare(&own_t{i}(v), b),");
            w!("  1 => WriteAs::<Offset<{p}>>::prepare(&Box::new(own_t{i}(v)), b),");
            let chain = |sub: bool| {
                let mut c = format!("{p}::builder()");
                for (j, f) in live.iter().enumerate() {
                    match f.mode {
                        Mode::Opt if sub && j % 2 == i % 2 => {
                            c += &format!(".{}_as_null()", f.name)
                        }
                        Mode::Def(_) if sub && j % 2 == i % 2 => {
                            c += &format!(".{}_as_default()", f.name)
                        }
                        _ => c += &format!(".{}({})", f.name, args[j]),
                    }
                }
                c
            };
            let mut cond = vec![];
            for (j, f) in live.iter().enumerate() {
                if j % 2 == i % 2 && !matches!(f.mode, Mode::Req) {
                    cond.push(format!("is_omitted(&m[{j}], &f[{j}])"));
                }
            }
            let fin = |c: String| {
                if live.is_empty() {
                    // a builder without fields cannot be chained
                    format!("{{ let x = {c}; x.finish(b) }}")
                } else {
                    format!("{{ let x = {c}; if cx.choose(2) == 0 {{ x.finish(b) }} else {{ WriteAsOffset::prepare(&x, b) }} }}")
                }
            };
            if !cond.is_empty() {
                w!("  2 if {{ let m = modes({}, {i}); {} }} => {},", s.ver, cond.join(" && "), fin(chain(true)));
            }
            w!("  3 => {},", fin(chain(false)));
            let mut all = vec!["b".to_string()];
            all.extend(args.iter().cloned());
            w!("  _ => {p}::create({}),", all.join(", "));
            w!("  }}; cx.store(v, o) }}");
        }
        w!("pub struct V;");
        w!("impl Api for V {{");
        w!("  fn schema(&self) -> &'static Schema {{ &schemas()[{}] }}", s.ver);
        let n = s.tables.len();
        w!("  fn build(&self, t: usize, cx: &Cx, b: &mut Builder, v: &Val) {{ match t {{");
        for i in 0..n {
            w!("    {i} => {{ mk_t{i}(cx, b, v); }}");
        }
        w!("    _ => panic!() }} }}");
        w!("  fn finish(&self, t: usize, cx: &Cx, b: &mut Builder, v: &Val, ident: Option<[u8; 4]>) -> bool {{ match t {{");
        for i in 0..n {
            w!("    {i} => match cx.choose(3) {{ 0 => fin(b, own_t{i}(v), ident), 1 => {{ let o = mk_t{i}(cx, b, v); fin(b, o, ident) }} _ => fin(b, Off(Box::new(|b: &mut Builder| mk_t{i}(cx, b, v))), ident) }}");
        }
        w!("    _ => panic!() }} }}");
        w!("  fn read(&self, t: usize, cx: &RCx, bytes: &[u8]) -> Val {{ match t {{");
        for i in 0..n {
            w!("    {i} => req({}Ref::read_as_root(bytes), |x| rd_t{i}(cx, x)),", self.t(i));
        }
        w!("    _ => panic!() }} }}");
        w!("  fn owned(&self, t: usize, bytes: &[u8]) -> std::result::Result<Val, String> {{ match t {{");
        for i in 0..n {
            w!("    {i} => {{ let r = {p}Ref::read_as_root(bytes).map_err(|e| format!(\"{{e}} {{e:?}}\"))?; let x: {p} = TryFrom::try_from(r).map_err(|e: planus::Error| format!(\"{{e}} {{e:?}}\"))?; Ok(val_t{i}(&x)) }}", p = self.t(i));
        }
        w!("    _ => panic!() }} }}");
        w!("  fn debug(&self, t: usize, bytes: &[u8]) -> std::result::Result<String, String> {{ match t {{");
        for i in 0..n {
            w!("    {i} => dbg_root({}Ref::read_as_root(bytes)),", self.t(i));
        }
        w!("    _ => panic!() }} }}");
        w!("  fn default(&self, t: usize) -> Option<Val> {{ match t {{");
        for (i, t) in s.tables.iter().enumerate() {
            if t.live().all(|f| !matches!(f.mode, Mode::Req)) {
                w!("    {i} => Some(val_t{i}(&<{} as Default>::default())),", self.t(i));
            }
        }
        w!("    _ => None }} }}");
        w!("}}");
        o
    }
}

pub fn glue(s: &Schema) -> String {
    G { s }.gen()
}

/// The whole crate source of a family; `files[i]` is the generated code of version i.
pub fn family_lib(fam: &str, versions: &[Schema]) -> String {
    let mut o = String::new();
    writeln!(o, "fn schemas() -> &'static [Schema] {{ static S: std::sync::OnceLock<Vec<Schema>> = std::sync::OnceLock::new(); S.get_or_init(|| simcore::gen::family({fam:?})) }}").unwrap();
    writeln!(o, "fn modes(ver: usize, t: usize) -> &'static [Mode] {{ static S: std::sync::OnceLock<Vec<Vec<Vec<Mode>>>> = std::sync::OnceLock::new(); &S.get_or_init(|| schemas().iter().map(|s| s.tables.iter().map(|t| t.live().map(|f| f.mode.clone()).collect()).collect()).collect())[ver][t] }}").unwrap();
    for s in versions {
        writeln!(o, "pub mod v{} {{ use super::*;", s.ver).unwrap();
        writeln!(o, "pub mod g {{ include!(\"{}.rs\"); }}", s.id()).unwrap();
        o += &glue(s);
        writeln!(o, "}}").unwrap();
    }
    let l: Vec<String> = versions.iter().map(|s| format!("&v{}::V", s.ver)).collect();
    writeln!(o, "pub fn apis() -> Vec<&'static dyn Api> {{ vec![{}] }}", l.join(", ")).unwrap();
    o
}
