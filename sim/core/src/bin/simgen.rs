//! simgen DIR PLANUS: write the schemas of all families to DIR, run the real `planus rust` on
//! them and write the glue. Files are only touched when their content changes.
//! Exit 3: planus failed on a schema (its diagnostics are on stderr).
use std::{path::Path, process::Command};

/// Declarations whose names are keywords, helpers of the generated code, or become the same
/// name in another language. Nobody uses them, but their code is compiled. The last one is for
/// tables that become too large (C02).
const ODD: &[(&str, &str)] = &[
    (
        "odd1.fbs",
        "namespace odd.a;
table Foo { foo: int; Foo: int; foo_: int = 5; fooBar: string; foo_bar: string; foo_as_default: int; FooBar: [Foo]; }
table foo { type: Foo; self: FOO; Self: FooRef; crate: [foo_ref]; match: FooBuilder; }
struct FOO { a: int; A: ubyte; _a: float; self: FooKind; new: bool; from: long; }
struct FooRef { buffer: ubyte; len: uint; value: ulong; }
table foo_ref { builder: int; create: int; finish: int; prepare: string; read_as_root: bool = true; default: int; offset: int; }
enum FooKind: byte { a, A, _a, ENUM_VALUES, Ok, Err, Self, None, Some, type }
union FooBuilder { Foo, foo, a: Foo, A: foo, self: FOO, none: string, create: FooRef, builder: foo }
union FooBuilderRef { Self: foo_ref, value: FooRef }
enum Builder: ulong { u64, Builder, planus, core }
table Option { Some: string; None: Option; Vec: [string] (required); String: Result; u8: ubyte = 7; }
struct Result { Ok: int; Err: int; }
table Table_ { a: int; }
table Table { a: Table_; b: table_; }
table table_ { }
enum Nothing: ushort { }
union Never { }
",
    ),
    (
        "odd2.fbs",
        "include \"odd1.fbs\";
namespace odd.A;
table Foo { foo: odd.a.Foo; bar: odd.a.foo; own: foo; kind: odd.a.FooKind = type; all: [odd.a.FooBuilder]; }
table foo { foo: Foo; b: odd.a.Builder; }
",
    ),
    (
        "odd3.fbs",
        "include \"odd2.fbs\";
namespace odd.a.super.self;
table crate { a: odd.A.Foo; b: odd.a.Foo; }
struct _ { _: int; __: int; }
",
    ),
    (
        "odd5.fbs",
        "namespace odd.cr;\r\n/// one\rtwo\r\n///\r\n/// \\ \"three\" */ /* {x}\r\ntable A {\r\n  /// a\rb\r\n  a: int;\r\n}\r\n/// c\rd\r\nenum E: byte {\r\n  /// e\rf\r\n  X\r\n}\r\n/// g\rh\r\nunion U {\r\n  /// i\rj\r\n  A\r\n}\r\n/// k\rl\r\nstruct S {\r\n  /// m\rn\r\n  x: int;\r\n}\r\n",
    ),
    (
        "odd4.fbs",
        "namespace odd.big;
struct S64 { a: ulong; b: ulong; c: ulong; d: ulong; e: ulong; f: ulong; g: ulong; h: ulong; }
struct S512 { a: S64; b: S64; c: S64; d: S64; e: S64; f: S64; g: S64; h: S64; }
struct S4096 { a: S512; b: S512; c: S512; d: S512; e: S512; f: S512; g: S512; h: S512; }
struct S20480 { a: S4096; b: S4096; c: S4096; d: S4096; e: S4096; }
table Big {
  q0: S64; p0: S512; a: S20480; x: ubyte; p1: S512; q1: S64; b: S20480; q2: S64; p2: S512;
  q3: S64; p3: S512; c: S20480; s: string; p4: S512; q4: S64; d: S20480; q5: S64; p5: S512; q6: S64; p6: S512;
}
",
    ),
];
fn put(p: &Path, c: &[u8]) {
    if std::fs::read(p).ok().as_deref() != Some(c) {
        std::fs::write(p, c).unwrap();
    }
}
/// Schemas that planus may refuse. If it does not, its code for them has to compile as well.
fn optional() -> Vec<(&'static str, String)> {
    let many = |n: usize| (0..n).map(|i| format!("a{i}: T")).collect::<Vec<_>>().join(", ");
    vec![("odd6.fbs", format!("namespace odd.many;\ntable T {{}}\nunion U {{ {} }}\ntable R {{ u: U; }}\n", many(256)))]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = Path::new(&a[1]);
    let planus = std::fs::canonicalize(&a[2]).unwrap();
    let mut bad = false;
    for f in simcore::gen::FAMILIES {
        let fd = dir.join(f);
        std::fs::create_dir_all(&fd).unwrap();
        let versions = simcore::gen::family(f);
        for s in &versions {
            let mut names = vec![];
            for (n, c) in s.emit() {
                put(&fd.join(&n), c.as_bytes());
                names.push(n);
            }
            if f == "kit" && s.ver == 0 {
                for (n, c) in ODD {
                    put(&fd.join(n), c.as_bytes());
                    names.push(n.to_string());
                }
                for (n, c) in optional() {
                    put(&fd.join(n), c.as_bytes());
                    let out = Command::new(&planus).current_dir(&fd).args(["check", n]).output().unwrap();
                    if out.status.success() {
                        names.push(n.to_string());
                    }
                }
            }
            let tmp = fd.join(format!("{}.tmp", s.id()));
            let _ = std::fs::remove_file(&tmp);
            let out = Command::new(&planus)
                .current_dir(&fd)
                .args(["rust", "--format", "false", "-o"])
                .arg(tmp.file_name().unwrap())
                .args(&names)
                .output()
                .unwrap();
            if !out.status.success() || !tmp.exists() {
                eprintln!("planus rust failed on {}: {}", s.id(), out.status);
                eprintln!("{}", String::from_utf8_lossy(&out.stderr));
                bad = true;
                continue;
            }
            let c = std::fs::read(&tmp).unwrap();
            std::fs::remove_file(&tmp).unwrap();
            put(&fd.join(format!("{}.rs", s.id())), &c);
        }
        put(
            &fd.join("lib.rs"),
            simcore::glue::family_lib(f, &versions).as_bytes(),
        );
    }
    if bad {
        std::process::exit(3);
    }
}
