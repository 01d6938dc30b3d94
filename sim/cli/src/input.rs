//! Schemas to feed to the command line.
use crate::os::{Files, Node};
use simcore::rng::Rng;
use std::collections::BTreeMap;

/// (files, the file to start from)
pub type Input = (Files, String);

fn includes(text: &str) -> Vec<String> {
    text.lines()
        .filter_map(|l| l.trim().strip_prefix("include \""))
        .filter_map(|l| l.split('"').next())
        .map(|s| s.to_string())
        .collect()
}
fn norm(base: &str, rel: &str) -> Option<String> {
    let mut parts: Vec<&str> = base.split('/').collect();
    parts.pop();
    for p in rel.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop()?;
            }
            p => parts.push(p),
        }
    }
    Some(parts.join("/"))
}

fn tree(dir: &str) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &std::path::Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                go(&e.path(), &format!("{n}/"), out);
            } else if n.ends_with(".fbs") {
                out.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    go(std::path::Path::new(dir), "", &mut m);
    m
}
/// The schemas that come with planus.
pub fn existing(r: &mut Rng, kind: &str) -> Option<Input> {
    let all = tree(&format!("/repo/test/files/{kind}"));
    let names: Vec<&String> = all.keys().collect();
    if names.is_empty() {
        return None;
    }
    let main = (*r.pick(&names)).clone();
    let mut files = Files::new();
    let mut queue = vec![main.clone()];
    while let Some(f) = queue.pop() {
        let Some(b) = all.get(&f) else { continue };
        if files.contains_key(&f) {
            continue;
        }
        let n = match String::from_utf8(b.clone()) {
            Ok(s) => {
                queue.extend(includes(&s).iter().filter_map(|i| norm(&f, i)));
                Node::Text(s)
            }
            Err(_) => Node::Bytes(b.clone()),
        };
        files.insert(f, n);
    }
    Some((files, main))
}
pub fn generated(r: &mut Rng) -> Input {
    let s = simcore::gen::random("ra", r.u64() % 1_000_000, *r.pick(&[1, 1, 2, 2, 3, 4]));
    let emitted = s.emit();
    // in several directories
    let spread = r.chance(1, 2);
    let place: BTreeMap<String, String> = emitted
        .iter()
        .map(|(n, _)| {
            let d = if spread { *r.pick(&["", "a/", "b/", "b/c/"]) } else { "" };
            (n.clone(), format!("{d}{n}"))
        })
        .collect();
    let mut files = Files::new();
    for (n, text) in &emitted {
        let here = &place[n];
        let up = "../".repeat(here.matches('/').count());
        let mut t = String::new();
        for l in text.lines() {
            match l.strip_prefix("include \"").and_then(|l| l.split('"').next()).and_then(|i| place.get(i)) {
                Some(p) => t += &format!("include \"{}{up}{p}\";\n", if spread && r.chance(1, 3) { "./" } else { "" }),
                None => {
                    t += l;
                    t += "\n";
                }
            }
        }
        files.insert(here.clone(), Node::Text(t));
    }
    // start at the file that reaches the most
    let main = r.pick(&emitted).0.clone();
    (files, place[&main].clone())
}
pub fn valid(r: &mut Rng) -> Input {
    if r.chance(1, 4) {
        if let Some(i) = existing(r, "valid") {
            return i;
        }
    }
    generated(r)
}
pub fn invalid(r: &mut Rng) -> Input {
    if r.chance(1, 4) {
        if let Some(i) = existing(r, "invalid") {
            return i;
        }
    }
    let mut i = valid(r);
    damage(r, &mut i);
    i
}

/// The declarations (and fields) of the files that `mains` reach. They are all part of what is
/// generated from them.
pub fn declared(files: &Files, mains: &[String]) -> Vec<String> {
    let mut seen: Vec<String> = vec![];
    let mut queue = mains.to_vec();
    let mut names = vec![];
    while let Some(f) = queue.pop() {
        let Some(Node::Text(t)) = files.get(&f) else { continue };
        if seen.contains(&f) {
            continue;
        }
        queue.extend(includes(t).iter().filter_map(|i| norm(&f, i)));
        let mut inside = false;
        for l in t.lines() {
            let w: Vec<&str> = l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').collect();
            if let ["table" | "struct" | "enum" | "union", n, ..] = w[..] {
                names.push(n.to_string());
                inside = w[0] == "table" || w[0] == "struct";
            } else if l.starts_with('}') {
                inside = false;
            } else if let (true, Some((n, _))) = (inside && l.starts_with(' '), l.trim().split_once(':')) {
                if !n.is_empty() && !l.contains("deprecated") && l.contains(';') && n.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    names.push(n.to_string());
                }
            }
        }
        seen.push(f);
    }
    names
}
/// A declaration that is missing in generated code, whatever it does to names.
pub fn missing(names: &[String], code: &[u8]) -> Option<String> {
    let plain = |b: &[u8]| -> String { b.iter().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase() as char).collect() };
    let p = plain(code);
    names.iter().find(|n| !p.contains(&plain(n.as_bytes()))).cloned()
}

fn tokens(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        let s = i;
        if c.is_ascii_alphanumeric() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else {
            i += 1;
            while i < b.len() && !t.is_char_boundary(i) {
                i += 1;
            }
        }
        v.push((s, i));
    }
    v
}
const NUMBERS: &[&str] = &[
    "0", "1", "2", "8", "16", "64", "256", "-1", "255", "32763", "32764", "32765", "32766", "32767", "32768", "65534", "65535", "65536", "1000000", "536870912", "1073741824", "2147483647", "2147483648", "4294967295",
    "4294967296", "9223372036854775808", "18446744073709551615", "1e308", "1e400", "0x7fffffff", "0.5", "0x10", "1_000", "1__", "0x_1", "0x1_0", "0XfF", "0x1p4", "0x1.8p1", "0x1p-3", "00", "007", "1.", ".5",
    "5e-1", "1e+2", "1_0.5", "1e", "0x", "nan", "inf", "infinity", "-inf", "-nan", "+1", "+inf", "--1", "- 1", "0b1", "0o7", "1u", "1.0f", "0x10000000000000000", "99999999999999999999999999",
];
/// Values a field can be given, right or wrong.
fn value(r: &mut Rng) -> String {
    if r.chance(3, 5) {
        return r.pick(NUMBERS).to_string();
    }
    let v = ["true", "false", "null", "\"\"", "\"text\"", "\"\\u00e9\\n\"", "[]", "{}", "[1, 2]", "[0x1]", "[[]]", "[\"\"]", "[null]", "A", "Zz.A", "Zz.", "\"A\"", "\"A B\"", "A | B", "x", "sin(0)", "true false"];
    r.pick(&v).to_string()
}
/// Declarations with such values in every place that takes one.
fn declarations(r: &mut Rng) -> String {
    let types = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "int8", "uint64", "float32", "float64", "string", "[int]", "[float]", "[string]", "[bool]", "[ZzE]", "[[int]]", "ZzE", "ZzS", "ZzT", "ZzU", "[ZzU]", "[int:3]"];
    let fields = |r: &mut Rng, n: usize| -> String {
        (0..r.range(1, n))
            .map(|k| {
                let d = if r.chance(3, 4) { format!(" = {}", value(r)) } else { String::new() };
                let a = if r.chance(1, 5) { format!(" ({}: {})", r.pick(&["id", "force_align", "deprecated", "required", "key", "hash"]), value(r)) } else { String::new() };
                format!("  f{k}: {}{d}{a};\n", r.pick(&types))
            })
            .collect()
    };
    let table = fields(r, 4);
    let field = fields(r, 2);
    let attr = if r.chance(1, 3) { format!(" (force_align: {})", value(r)) } else { String::new() };
    let mut out = format!("table ZzT {{\n{table}}}\n");
    out += &if r.chance(1, 3) { format!("struct ZzS{attr} {{\n{field}}}\n") } else { format!("struct ZzS{attr} {{ a: int; }}\n") };
    let of = r.pick(&types);
    let of = if r.chance(1, 2) { "byte" } else { *of };
    out += &format!("enum ZzE: {of}{} {{ A = {}, B, C = {} }}\n", if r.chance(1, 4) { " (bit_flags)" } else { "" }, if r.chance(1, 2) { "0".into() } else { value(r) }, value(r));
    out += &if r.chance(1, 2) { "union ZzU { ZzT }\n".to_string() } else { format!("union ZzU {{ a: ZzT = {}, ZzT, {} }}\n", value(r), r.pick(&types)) };
    out
}
/// Mistakes as people make them.
pub fn damage(r: &mut Rng, (files, main): &mut Input) {
    for _ in 0..r.range(1, 6) {
        let names: Vec<String> = files.keys().filter(|f| matches!(files[*f], Node::Text(_))).cloned().collect();
        if names.is_empty() {
            return;
        }
        let f = r.pick(&names).clone();
        let Some(Node::Text(t)) = files.get(&f).cloned() else { continue };
        let tk = tokens(&t);
        if tk.is_empty() {
            continue;
        }
        let (a, b) = *r.pick(&tk);
        let (c, d) = *r.pick(&tk);
        let idents: Vec<&(usize, usize)> = tk.iter().filter(|x| t.as_bytes()[x.0].is_ascii_alphabetic()).collect();
        let mut n = t.clone();
        match r.below(18) {
            0 => n.replace_range(a..b, ""),
            1 => n.insert_str(b, &format!(" {}", &t[a..b])),
            2 => n.replace_range(a..b, &t[c..d]),
            3 | 4 if !idents.is_empty() => {
                let (a, b) = **r.pick(&idents);
                let (c, d) = **r.pick(&idents);
                n.replace_range(a..b, &t[c..d]);
            }
            5 if !idents.is_empty() => {
                let (a, b) = **r.pick(&idents);
                n.insert_str(b, "_x");
                let _ = a;
            }
            6 => n.truncate(a),
            7 => n.insert_str(a, *r.pick(&["@", "\"", "/*", "é", "}", "(", "0x", "99999999999999999999", "\0", "//"])),
            8 => {
                // the same declaration twice
                let e = t.find("\n}\n").map(|x| x + 3);
                let s = t.find("table ").or(t.find("enum "));
                if let (Some(s), Some(e)) = (s, e) {
                    if s < e {
                        n.push_str(&t[s..e]);
                    }
                }
            }
            9 => n = format!("include \"{}\";\n{n}", r.pick(&["nowhere.fbs", "x/../nowhere.fbs", "."])),
            10 => n = format!("include \"{}\";\n{n}", main.rsplit('/').next().unwrap()),
            11 => {
                let at = t.find(";\n").map(|x| x + 2).unwrap_or(0);
                n.insert_str(at, *r.pick(&["/// text about nothing\n", "attribute \"a\";\n", "rpc_service S { f(A): B; }\n", "root_type T0;\n", "file_identifier \"abcd\";\n"]));
            }
            12 => {
                if let Some(p) = t.find(';') {
                    n.insert_str(p, &format!(" ({})", r.pick(&["shared", "key", "hash: \"fnv1_32\"", "nested_flatbuffer: \"X\"", "unknown1, unknown2: 3", "id: 7", "bit_flags", "required", "deprecated: 1"])));
                }
            }
            13 => {
                // a number out of all proportion
                let nums: Vec<&(usize, usize)> = tk.iter().filter(|x| t.as_bytes()[x.0].is_ascii_digit()).collect();
                if !nums.is_empty() {
                    let (a, b) = **r.pick(&nums);
                    n.replace_range(a..b, r.pick(NUMBERS));
                }
            }
            14 => {
                // attributes with such a number
                let open: Vec<usize> = tk.iter().filter(|x| &t[x.0..x.1] == if x.0 % 2 == 0 { "{" } else { ";" }).map(|x| x.0).collect();
                if !open.is_empty() {
                    let many = r.chance(1, 2);
                    let which = *r.pick(&["force_align", "force_align", "id"]);
                    for k in open.into_iter().rev() {
                        if many || r.chance(1, 3) {
                            let v = if which == "force_align" && r.chance(1, 2) { (1u64 << r.range(8, 31)).to_string() } else { r.pick(NUMBERS).to_string() };
                            n.insert_str(k, &format!(" ({which}: {v})"));
                        }
                    }
                }
            }
            15 | 16 => {
                n.push_str("\n");
                if r.chance(1, 2) {
                    n.push_str(&declarations(r));
                } else {
                    let c = rarity(r);
                    if r.chance(1, 4) {
                        // where something else could be
                        let at = t.find("\n}\n").map_or(0, |x| x + 3);
                        n.insert_str(at, &c);
                    } else {
                        n.push_str(&c);
                    }
                }
            }
            _ => {
                if r.chance(1, 2) && files.len() > 1 {
                    files.remove(&f);
                    continue;
                } else if r.chance(1, 3) {
                    let mut b = t.clone().into_bytes();
                    let k = r.below(b.len());
                    b[k] = 0xff;
                    files.insert(f, Node::Bytes(b));
                    continue;
                }
                n = String::new();
            }
        }
        files.insert(f, Node::Text(n));
    }
}

pub fn unusual(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        declarations(r)
    } else {
        rarity(r)
    }
}
/// Constructions that are rare, right or wrong.
fn rarity(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    let nest = |k: usize, t: &str| format!("{}{t}{}", "[".repeat(k), "]".repeat(k));
    let prim = ["bool", "byte", "ushort", "int", "ulong", "double", "string"];
    let list = |r: &mut Rng, n: usize, f: &mut dyn FnMut(&mut Rng, usize) -> String| -> String { (0..n).map(|k| f(r, k)).collect::<Vec<_>>().concat() };
    let ids = |r: &mut Rng, n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for k in (1..n).rev() {
            v.swap(k, r.below(k + 1));
        }
        if r.chance(1, 2) && n > 0 {
            let k = r.below(n);
            v[k] = r.below(n + 2);
        }
        v
    };
    match r.below(22) {
        0 => {
            // structs that contain each other
            let back = r.below(n);
            let inner = r.pick(&prim).to_string();
            list(r, n, &mut |r, k| {
                let to = if k + 1 == n { if r.chance(3, 4) { format!("Yy{back}") } else { inner.clone() } } else { format!("Yy{}", k + 1) };
                format!("struct Yy{k} {{ a: {}; b: {to}; }}\n", r.pick(&["byte", "int", "ulong", "float"]))
            })
        }
        1 => {
            // tables and unions that need each other
            list(r, n, &mut |r, k| {
                let to = r.below(n);
                let a = *r.pick(&["", "", " (required)", " (deprecated)"]);
                if r.chance(1, 2) {
                    format!("table Yy{k} {{ a: Yy{to}{a}; b: [Yy{to}]{a}; }}\n")
                } else {
                    format!("union Yy{k} {{ Yy{to}, b: Yy{to} }}\n")
                }
            })
        }
        2 => {
            let v = ids(r, n);
            format!("table Yy {{\n{}}}\n", list(r, n, &mut |r, k| format!("  a{k}: {} (id: {});\n", r.pick(&["int", "string", "YyU", "[YyU]"]), v[k]))) + "table YyT {}\nunion YyU { YyT }\n"
        }
        3 => {
            let part = r.below(n);
            format!("table Yy {{\n{}}}\n", list(r, n, &mut |_, k| if k == part { format!("  a{k}: int;\n") } else { format!("  a{k}: int (id: {k});\n") }))
        }
        4 => format!("table Yy {{ a: {}; }}\n", nest(r.range(2, 40), r.pick(&prim))),
        5 => {
            let same = r.below(n);
            format!("table Yy {{ {} }}\n", list(r, n, &mut |r, k| format!("a{}: {}; ", if k > same { same } else { k }, r.pick(&prim))))
        }
        6 => format!("enum YyE: {} {{ {} }}\n", r.pick(&["byte", "ulong", "int", "bool", "float", "YyE", "string"]), list(r, n, &mut |r, k| format!("a{k} = {}, ", if r.chance(1, 2) { r.below(4).to_string() } else { value(r) }))),
        7 => format!("enum YyE: byte {{ {} }}\n", list(r, n, &mut |r, k| format!("a{}, ", if r.chance(1, 4) { 0 } else { k }))),
        8 => format!("union YyU {{ {} }}\n", list(r, n, &mut |r, _| format!("{}{}, ", if r.chance(1, 2) { "x: " } else { "" }, r.pick(&["YyT", "YyT", "YyS", "string", "int", "[YyT]", "YyU", "YyE", "none.there"])))) + "table YyT {}\nstruct YyS { a: int; }\nenum YyE: byte { a }\n",
        9 => {
            // many members
            let n = *r.pick(&[64, 255, 256, 257, 300]);
            match r.below(4) {
                0 => format!("union Yy {{ {} }}\ntable YyT {{}}\n", list(r, n, &mut |_, k| format!("a{k}: YyT, "))),
                1 => format!("enum Yy: {} {{ {} }}\n", r.pick(&["byte", "ubyte", "short"]), list(r, n, &mut |_, k| format!("a{k}, "))),
                2 => format!("struct Yy {{ {} }}\n", list(r, n, &mut |_, k| format!("a{k}: ulong; "))),
                _ => format!("table Yy {{ {} }}\n", list(r, n, &mut |_, k| format!("a{k}: ubyte; "))),
            }
        }
        10 => format!("namespace {};\ntable Yy {{ a: {}; }}\n", r.pick(&["Yy", "a.b.c", "Yy.Yy", "a.a.a", "x"]), r.pick(&["Yy", "Yy.Yy", "a.Yy", "a.b.c.Yy", "x.Yy", "b.c.Yy", "c.Yy"])),
        11 => {
            // comments wherever there is room
            let c = |r: &mut Rng| *r.pick(&["", "", "", "// c\n", "/* c */", "/// d\n", "/** d */", "//! e\n", "/*! e */", "/*\n*/", "/* /* */", "//\n", "///\n", "\t", "\r\n", "/***/", "/**/"]);
            ["table", " Yy ", "{", " a", ":", " int", "=", "1", "(", "deprecated", ")", ";", "b", ":", "[", "Yy", "]", ";", "}", "\nenum ", "E", ":", "byte", "{", "A", "=", "1", ",", "B", ",", "}", "union", " U", "{", "x", ":", "Yy", ",", "}", "struct", " S", "{", "a", ":", "int", ";", "}"].iter().fold(String::new(), |s, t| s + t + c(r))
        }
        12 => {
            let a = ["required", "deprecated", "key", "id: 0", "id: \"0\"", "id", "force_align: 8", "force_align", "force_align: \"8\"", "original_order", "bit_flags", "shared", "hash: \"fnv1_32\"", "nested_flatbuffer: \"Yy\"", "flexbuffer", "csharp_partial", "private", "streaming: \"server\"", "idempotent", "x", "x: -1", "x: 0.5", "required: 0", "required, required"];
            let at = |r: &mut Rng| if r.chance(1, 2) { format!(" ({}, {})", r.pick(&a), r.pick(&a)) } else { format!(" ({})", r.pick(&a)) };
            format!("table Yy{} {{ a: int{}; b: string{}; c: YyS{}; d: [YyE]{}; e: YyU{}; }}\nstruct YyS{} {{ a: int{}; }}\nenum YyE: byte{} {{ A }}\nunion YyU{} {{ Yy }}\n", at(r), at(r), at(r), at(r), at(r), at(r), at(r), at(r), at(r), at(r))
        }
        13 => format!("rpc_service YyR {{ {} }}\ntable Yy {{}}\n", list(r, n, &mut |r, k| format!("m{}(Yy):{}{}; ", r.below(k + 1), r.pick(&["Yy", "YyR", "int"]), r.pick(&["", " (streaming: \"both\")", " (x)"])))),
        14 => {
            let w = ["root_type Yy;", "root_type int;", "root_type nowhere;", "root_type;", "file_identifier \"ABCD\";", "file_identifier \"ABC\";", "file_identifier \"\";", "file_extension \"a\";", "file_extension \"\";", "attribute \"a\";", "attribute a;", "native_include \"x\";", "include \"\";", "include x;", "namespace;", "namespace a;", "namespace a.;", ";", "{}", "table Yy {}", "object {}", "{ \"a\": 1 }"];
            list(r, n, &mut |r, _| format!("{}\n", r.pick(&w)))
        }
        15 => {
            let long = "x".repeat(*r.pick(&[255, 256, 4096, 70000]));
            format!("table {long} {{ {long}: int; }}\n/// {long}\nenum E_{long}: byte {{ {long} }}\n")
        }
        16 => {
            // more and more of the same
            let mut s = String::from("struct Yy0 { a: ulong; }\n");
            for k in 1..*r.pick(&[4, 30, 40, 70]) {
                s += &format!("struct Yy{k} {{ a: Yy{}; b: Yy{}; }}\n", k - 1, k - 1);
            }
            s
        }
        17 => format!("table Yy {{ a: {} = {}; }}\nenum YyE: {} {{ A, B = {} }}\n", r.pick(&["YyE", "[YyE]", "byte", "string"]), r.pick(&["A", "B", "YyE.A", "C", "0", "1", "2", "\"A\"", "A B", "0x1"]), r.pick(&["byte", "ubyte", "long", "ulong"]), value(r)),
        18 => format!("struct Yy {{ {} }}\ntable YyT {{}}\nunion YyU {{ YyT }}\n", list(r, n, &mut |r, k| format!("a{k}: {}{}; ", r.pick(&["int", "string", "[int]", "YyT", "YyU", "Yy", "[int:4]", "[int:0]", "[int:-1]"]), r.pick(&["", "", " = 1", " = null", " (required)", " (deprecated)", " (id: 0)"])))),
        19 => format!("table Yy {{ {} }}\n", list(r, n, &mut |r, k| format!("{}: int; ", [*r.pick(&["table", "struct", "enum", "union", "int", "string", "namespace", "include", "true", "false", "null", "type", "self", "id", "_", "__", "rpc_service"]), "a"][k.min(1)]))),
        20 => "table Yy {".repeat(r.range(1, 20)) + &"}".repeat(r.below(20)) + "\n",
        _ => format!("table Yy {{ a: {} = \"{}\"; }}\n", r.pick(&["string", "int", "[string]"]), r.pick(&["\\", "\\x", "\\u12", "\\u{1}", "\\uD800", "\\uD83D\\uDE00", "\\0", "\\n\\t\\r", "a\nb", "\u{0}", "é", "\\\"", "\u{feff}", "\\x4", "\\x41", "\\xff", "'"])),
    }
}

pub fn show(files: &Files) -> String {
    let mut s = String::new();
    for (p, n) in files {
        match n {
            Node::Text(t) if t.len() < 1500 => s += &format!("--- {p}\n{t}"),
            n => s += &format!("--- {p} ({} bytes)\n", n.bytes().len()),
        }
        if !s.ends_with('\n') {
            s.push('\n');
        }
    }
    s
}

/// Less of everything.
pub fn shrink(files: &Files, keep: &str) -> Vec<Files> {
    let mut out = vec![];
    for f in files.keys().filter(|f| *f != keep) {
        let mut g = files.clone();
        g.remove(f);
        out.push(g);
    }
    for (f, n) in files {
        if let Node::Text(t) = n {
            let lines: Vec<&str> = t.lines().collect();
            let mut size = lines.len();
            while size >= 1 {
                let mut at = 0;
                while at < lines.len() && out.len() < 200 {
                    let rest: Vec<&str> = lines[..at].iter().chain(lines[(at + size).min(lines.len())..].iter()).copied().collect();
                    if rest.len() < lines.len() {
                        let mut g = files.clone();
                        g.insert(f.clone(), Node::Text(rest.join("\n") + "\n"));
                        out.push(g);
                    }
                    at += size;
                }
                size /= 2;
            }
        }
    }
    out
}
