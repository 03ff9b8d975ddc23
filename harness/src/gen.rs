//! Properties of macros and derives: programs are enumerated, compiled against the current tree
//! and run; every program compares what the macro or derive built with the direct construction.
use crate::run::*;
use std::process::Command;

pub struct Case {
    /// identifies the program in reports
    pub key: String,
    /// statements before it, on the same line
    pub setup: String,
    pub got: String,
    pub want: String,
}
pub fn case(key: impl Into<String>, setup: impl Into<String>, got: impl Into<String>, want: impl Into<String>) -> Case {
    Case { key: key.into(), setup: setup.into(), got: got.into(), want: want.into() }
}

const HEAD: &str = r#"#![allow(warnings)]
#![recursion_limit = "128"]
use std::fmt::Debug;
static BADS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t") }
pub fn ck<T: PartialEq + Debug>(n: usize, got: &T, want: &T) {
    let (a, b) = (format!("{:?}", got), format!("{:?}", want));
    if got != want || a != b { println!("BAD\t{}\t{}\t{}", n, esc(&a), esc(&b)); }
}
fn run(cases: &[(usize, fn() -> Option<()>)]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (n, f) in cases {
        match std::panic::catch_unwind(|| f()) {
            Ok(Some(())) => {}
            Ok(None) => println!("BAD\t{}\treturned before the value was built\t", n),
            Err(_) => println!("BAD\t{}\tpanicked\t", n),
        }
    }
    println!("DONE\t{}", cases.len());
}
"#;

/// Compiles and runs all cases; violations for those that do not compile or differ.
pub fn execute(run: &Run, pre: &str, cases: &[Case], bins: usize) {
    let v = verif();
    let id = run.id.to_lowercase();
    let dir = format!("{}/target/gen/{}", v, run.id);
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::create_dir_all(format!("{}/src/bin", dir));
    let w = |p: &str, t: String| std::fs::write(format!("{}/{}", dir, p), t).expect("write");
    w(
        "Cargo.toml",
        format!(
            r#"[package]
name = "gen-{}"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
graphviz-rust = {{ path = "/repo" }}
dot-structures = {{ path = "/repo/dot-structures" }}
dot-generator = {{ path = "/repo/dot-generator" }}
into-attr = {{ path = "/repo/into-attr" }}
into-attr-derive = {{ path = "/repo/into-attr-derive" }}
[patch.crates-io]
dot-generator = {{ path = "/repo/dot-generator" }}
dot-structures = {{ path = "/repo/dot-structures" }}
into-attr = {{ path = "/repo/into-attr" }}
into-attr-derive = {{ path = "/repo/into-attr-derive" }}
[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false
[profile.dev.package."*"]
opt-level = 2
"#,
            id
        ),
    );
    std::fs::copy(format!("{}/harness/Cargo.lock", v), format!("{}/Cargo.lock", dir)).expect("lock");
    // one case per line, so that compiler errors name their case
    let mut at: Vec<Vec<Option<usize>>> = vec![];
    for b in 0..bins {
        let mut t = format!("{}{}\n", HEAD, pre);
        let mut lines: Vec<Option<usize>> = vec![None; t.lines().count()];
        let mine: Vec<usize> = (b..cases.len()).step_by(bins).collect();
        for &n in &mine {
            let c = &cases[n];
            let l = format!(
                "fn c{n}() -> Option<()> {{ {} let got = {}; let want = {}; ck({n}, &got, &want); Some(()) }}\n",
                c.setup, c.got, c.want
            );
            assert!(l.matches('\n').count() == 1, "{}", l);
            t.push_str(&l);
            lines.push(Some(n));
        }
        t.push_str("fn main() { run(&[");
        for n in &mine {
            t.push_str(&format!("({n}, c{n}), "));
        }
        t.push_str("]) }\n");
        at.push(lines);
        w(&format!("src/bin/{}b{}.rs", id, b), t);
    }
    let o = Command::new("cargo")
        .args(["build", "-q", "--offline", "--bins", "--keep-going", "--color", "never"])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", format!("{}/target", v))
        .env("RUSTFLAGS", "-W semicolon_in_expressions_from_macros -A warnings")
        .output()
        .expect("cargo");
    if !o.status.success() {
        let text = String::from_utf8_lossy(&o.stderr).to_string();
        let mut found = false;
        let mut block = String::new();
        let mut done = std::collections::HashSet::new();
        for l in text.lines().chain(["error"]) {
            if l.starts_with("error") || l.starts_with("warning") {
                if let Some(n) = place(&block, &format!("src/bin/{}b", id), &at) {
                    found = true;
                    if done.insert(n) {
                        let c = &cases[n];
                        let head = block.lines().next().unwrap_or("").to_string();
                        run.violation(
                            &c.key,
                            &format!("does not compile: {} ({})", c.got, head),
                            &format!("{}\nlet got = {};\n\n{}", c.setup, c.got, block),
                        );
                    }
                }
                block.clear();
            }
            block.push_str(l);
            block.push('\n');
        }
        if !found {
            eprintln!("{}", short(&text, 4000));
            eprintln!("the generated programs do not build");
            std::process::exit(2);
        }
        return;
    }
    for b in 0..bins {
        let o = Command::new(format!("{}/target/debug/{}b{}", v, id, b)).output().expect("run");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut total = None;
        for l in text.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p[0] == "DONE" {
                total = p[1].parse::<usize>().ok();
            } else if p[0] == "BAD" {
                let c = &cases[p[1].parse::<usize>().unwrap()];
                run.violation(
                    &c.key,
                    &format!("{} gives {}, expected {}", c.got, p[2], p[3]),
                    &format!("{}\n{}\ngives    {}\nexpected {}", c.setup, c.got, p[2], p[3]),
                );
            }
        }
        match total {
            Some(n) => run.count("traces_validated_against_impl", n as u64),
            None => run.violation("crash", &format!("the programs of group {} ended with {:?}", b, o.status), &text),
        }
    }
    for b in 0..bins {
        let _ = std::fs::remove_file(format!("{}/target/debug/{}b{}", v, id, b));
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn place(block: &str, file: &str, at: &[Vec<Option<usize>>]) -> Option<usize> {
    for l in block.lines() {
        let l = l.trim_start();
        if !(l.starts_with("--> ") || l.starts_with("::: ")) {
            continue;
        }
        if let Some(i) = l.find(file) {
            let mut p = l[i + file.len()..].split(':');
            let b = p.next().and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok());
            let n = p.next().and_then(|x| x.trim().parse::<usize>().ok());
            if let (Some(b), Some(n)) = (b, n) {
                if let Some(Some(c)) = at.get(b).and_then(|a| a.get(n - 1)) {
                    return Some(*c);
                }
            }
        }
    }
    None
}

// ---------------------------------------------------------------- C16

/// The kinds of expressions an argument can be: name, setup, source, text it displays as.
pub fn exprs() -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    vec![
        ("literal", "", "\"a\"", "a"),
        ("raw-literal", "", "r#\"a\"b\"#", "a\"b"),
        ("empty", "", "\"\"", ""),
        ("blank", "", "\"a b\"", "a b"),
        ("quote", "", "\"a\\\"b\\\\\"", "a\"b\\"),
        ("braces", "", "\"{} {0} {{x}}\"", "{} {0} {{x}}"),
        ("non-ascii", "", "\"\u{e4}\u{1F600}\"", "\u{e4}\u{1F600}"),
        ("html", "", "\"<b>x</b>\"", "<b>x</b>"),
        ("number", "", "7", "7"),
        ("negative", "", "-7", "-7"),
        ("float", "", "1.50", "1.5"),
        ("negfloat", "", "-0.25f32", "-0.25"),
        ("char", "", "'c'", "c"),
        ("bool", "", "true", "true"),
        ("byte", "", "b'A'", "65"),
        ("call", "", "f(1)", "1"),
        ("call0", "", "g()", "1"),
        ("format", "", "format!(\"x{}\", 1)", "x1"),
        ("concat", "", "concat!(\"a\", \"b\")", "ab"),
        ("stringify", "", "stringify!(a b)", "a b"),
        ("bracemacro", "", "stringify!{q}", "q"),
        ("string", "let s = String::from(\"S\");", "s", "S"),
        ("reference", "let s = String::from(\"S\");", "&s", "S"),
        ("refref", "let s = String::from(\"S\");", "&&s", "S"),
        ("mutref", "let mut s = String::from(\"S\");", "&mut s", "S"),
        ("method", "let s = String::from(\"S\");", "s.to_lowercase()", "s"),
        ("chain", "let s = String::from(\"S\");", "s.to_lowercase().repeat(2).as_str()", "ss"),
        ("slice", "let s = String::from(\"STU\");", "s[1..].to_string()", "TU"),
        ("refslice", "let s = String::from(\"STU\");", "&s[0..2]", "ST"),
        ("field", "let t = (4,);", "t.0", "4"),
        ("index", "let v = [5];", "v[0]", "5"),
        ("paren", "", "(1 + 2)", "3"),
        ("block", "", "{ 3 }", "3"),
        ("blockstmts", "", "{ let a = 3; a + 1 }", "4"),
        ("if", "let b = true;", "if b { \"x\" } else { \"y\" }", "x"),
        ("iflet", "let o = Some(1);", "if let Some(k) = o { k } else { 0 }", "1"),
        ("match", "let b = true;", "match b { true => 1, _ => 2 }", "1"),
        ("loop", "", "loop { break 5 }", "5"),
        ("labelled", "", "'l: { break 'l 5 }", "5"),
        ("plus", "let n = 3;", "n + 1", "4"),
        ("minus", "let n = 3;", "n - 1", "2"),
        ("times", "let n = 3;", "n * 2", "6"),
        ("less", "let n = 3;", "n < 5", "true"),
        ("greater", "let n = 3;", "n > 5", "false"),
        ("equal", "let n = 3;", "n == 3", "true"),
        ("shift", "let n = 3;", "n << 1", "6"),
        ("and", "let n = 3;", "n & 1", "1"),
        ("or", "let n = 3;", "n | 4", "7"),
        ("andand", "let b = true;", "b && b", "true"),
        ("not", "let b = true;", "!b", "false"),
        ("deref", "let n = 3; let r = &n;", "*r", "3"),
        ("path", "", "m::K", "k"),
        ("constant", "", "KK", "kk"),
        ("assoc", "", "i8::MAX", "127"),
        ("pathcall", "", "m::f(2)", "2"),
        ("abspath", "", "::std::string::String::from(\"z\")", "z"),
        ("selfpath", "", "self::f(6)", "6"),
        ("turbofish", "", "h::<i32>(1)", "1"),
        ("qualified", "", "<i32 as Default>::default()", "0"),
        ("cast", "let n = 3;", "n as i64", "3"),
        ("question", "let o = Some(1);", "o?", "1"),
        ("closure", "", "(|| 1)()", "1"),
        ("closurearg", "", "(|x: i32| x + 1)(1)", "2"),
        ("array", "", "[1, 2].len()", "2"),
        ("vector", "", "vec![1, 2].len()", "2"),
        ("structlit", "", "W { w: 8 }", "w8"),
        ("tuplelit", "", "D(9)", "d9"),
        ("unsafe", "", "unsafe { 1 }", "1"),
        ("quoted", "", "\"\\\"a\\\"\"", "\"a\""),
        ("rawquoted", "", "r#\"\"b\"\"#", "\"b\""),
        ("quotefirst", "", "\"\\\"a\"", "\"a"),
        ("quotelast", "", "\"a\\\"\"", "a\""),
        ("twoquotes", "", "\"\\\"\\\"\"", "\"\""),
        ("onequote", "", "\"\\\"\"", "\""),
        ("angled", "", "\"<a>\"", "<a>"),
        ("angle", "", "\"<\"", "<"),
        ("padded", "", "\"  a \"", "  a "),
        ("tabs", "", "\"\\ta\\t\"", "\ta\t"),
        ("newlines", "", "\"\\na\\r\\n\"", "\na\r\n"),
        ("backslash", "", "\"\\\\\"", "\\"),
        ("backslashn", "", "\"a\\\\nb\\\\l\"", "a\\nb\\l"),
        ("apostrophe", "", "\"it's\"", "it's"),
        ("keyword", "", "\"graph\"", "graph"),
        ("comment", "", "\"/*a*/ // #\"", "/*a*/ // #"),
        ("semicolon", "", "\"a;b,c=d\"", "a;b,c=d"),
        ("arrow", "", "\"a->b--c:n\"", "a->b--c:n"),
        ("nul", "", "\"\\0\"", "\0"),
        ("bom", "", "\"\\u{feff}a\"", "\u{feff}a"),
        ("negzero", "", "-0.0", "-0"),
        ("poszero", "", "0.0", "0"),
        ("wholefloat", "", "3.0", "3"),
        ("bigfloat", "", "1e21", "1000000000000000000000"),
        ("smallfloat", "", "1e-7", "0.0000001"),
        ("f32", "", "0.1f32", "0.1"),
        ("infinity", "", "f64::INFINITY", "inf"),
        ("notanumber", "", "f64::NAN", "NaN"),
        ("zero", "", "0", "0"),
        ("hex", "", "0xff", "255"),
        ("underscored", "", "1_000", "1000"),
        ("suffixed", "", "5u8", "5"),
        ("wide", "", "u128::MAX", "340282366920938463463374607431768211455"),
        ("lowest", "", "i64::MIN", "-9223372036854775808"),
        ("false", "", "false", "false"),
        ("quotechar", "", "'\"'", "\""),
        ("blankchar", "", "' '", " "),
        ("boxed", "let s = Box::new(\"B\");", "s", "B"),
        ("cow", "let s = std::borrow::Cow::Borrowed(\"C\");", "s", "C"),
        ("displaypad", "", "format_args!(\"{:>3}\", 1)", "  1"),
        ("iterator", "", "(1..=3).map(|x| x.to_string()).collect::<Vec<_>>().join(\"-\")", "1-2-3"),
        ("dyn", "let s: Box<dyn std::fmt::Display> = Box::new(1);", "s", "1"),
        ("nested-id", "", "id!(\"n\")", "n"),
        ("rawident", "let r#type = 1;", "r#type", "1"),
        ("named-esc", "let esc = 1;", "esc", "1"),
        ("named-html", "let html = 2;", "html", "2"),
        ("field-esc", "let esc = (3,);", "esc.0", "3"),
        ("method-html", "let html = 2i32;", "html.pow(3)", "8"),
        ("named-attrs", "let attrs = 1;", "attrs", "1"),
        ("named-stmts", "let stmts = 2;", "stmts", "2"),
        ("named-vecs", "let (stmts_vec, attrs_vec, edges_vec) = (1, 2, 3);", "stmts_vec + attrs_vec + edges_vec", "6"),
        ("named-args", "let (id, i, e, p, k, v, l, r) = (1, 2, 3, 4, 5, 6, 7, 8);", "id + i + e + p + k + v + l + r", "36"),
        ("counted", "let k = std::cell::Cell::new(0);", "tick(&k)", "1"),
    ]
}

const PRE16: &str = r#"
use dot_generator::*;
use dot_structures::*;
mod m { pub const K: &str = "k"; pub fn f(i: i32) -> i32 { i } }
const KK: &str = "kk";
fn f(i: i32) -> i32 { i }
fn g() -> i32 { 1 }
fn h<T>(t: T) -> T { t }
pub struct W { w: i32 }
impl std::fmt::Display for W { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "w{}", self.w) } }
pub struct D(i32);
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "d{}", self.0) } }
fn tick(k: &std::cell::Cell<i32>) -> i32 { k.set(k.get() + 1); k.get() }
fn pl(s: &str) -> Id { Id::Plain(s.to_string()) }
fn at(k: &str, v: &str) -> Attribute { Attribute(pl(k), pl(v)) }
fn an() -> Id { Id::Anonymous("".to_string()) }
fn ni(s: &str) -> NodeId { NodeId(pl(s), None) }
fn vn(s: &str) -> Vertex { Vertex::N(ni(s)) }
fn sn(s: &str) -> Stmt { Stmt::Node(Node { id: ni(s), attributes: vec![] }) }
fn some<T>(t: T) -> Option<T> { Some(t) }
struct H<T> { v: T }
impl<T: Clone> H<T> { fn get(&self) -> T { self.v.clone() } }
"#;

fn lit(s: &str) -> String {
    format!("{:?}.to_string()", s)
}
/// The id that a prefix and a displayed text make.
fn idv(p: &str, text: &str) -> String {
    match p {
        "esc " => format!("Id::Escaped({})", lit(&format!("\"{}\"", text))),
        "html " => format!("Id::Html({})", lit(text)),
        _ => format!("Id::Plain({})", lit(text)),
    }
}
const PFX: [&str; 3] = ["", "esc ", "html "];

/// (name, macro with {} for `prefix expr`, direct with {} for the id)
fn id_forms() -> Vec<(&'static str, &'static str, &'static str)> {
    vec![
        ("id", "id!({})", "{}"),
        ("node_id", "node_id!({})", "NodeId({}, None)"),
        ("node_id+port", "node_id!({}, port!(id!(\"p\")))", "NodeId({}, Some(Port(Some(pl(\"p\")), None)))"),
        ("attr key", "attr!({}, \"v\")", "Attribute({}, pl(\"v\"))"),
        ("attr value", "attr!(\"k\", {})", "Attribute(pl(\"k\"), {})"),
        ("attr value of esc key", "attr!(esc \"k\", {})", "Attribute(Id::Escaped(\"\\\"k\\\"\".to_string()), {})"),
        ("attr value of html key", "attr!(html \"k\", {})", "Attribute(Id::Html(\"k\".to_string()), {})"),
        ("attr key of esc value", "attr!({}, esc \"k\")", "Attribute({}, Id::Escaped(\"\\\"k\\\"\".to_string()))"),
        ("attr key of html value", "attr!({}, html \"k\")", "Attribute({}, Id::Html(\"k\".to_string()))"),
        ("subgraph", "subgraph!({})", "Subgraph { id: {}, stmts: vec![] }"),
        ("subgraph list", "subgraph!({}, vec![sn(\"x\"), sn(\"y\")])", "Subgraph { id: {}, stmts: vec![sn(\"x\"), sn(\"y\")] }"),
        ("subgraph items", "subgraph!({}; node!(\"x\"), attr!(\"y\", \"z\"))", "Subgraph { id: {}, stmts: vec![sn(\"x\"), Stmt::Attribute(at(\"y\", \"z\"))] }"),
        ("node", "node!({})", "Node { id: NodeId({}, None), attributes: vec![] }"),
        ("node list", "node!({}, vec![at(\"x\", \"1\"), at(\"y\", \"2\")])", "Node { id: NodeId({}, None), attributes: vec![at(\"x\", \"1\"), at(\"y\", \"2\")] }"),
        ("node items", "node!({}; at(\"x\", \"1\"), at(\"y\", \"2\"))", "Node { id: NodeId({}, None), attributes: vec![at(\"x\", \"1\"), at(\"y\", \"2\")] }"),
        ("node port", "node!({} => port!(, \"n\"))", "Node { id: NodeId({}, Some(Port(None, Some(\"n\".to_string())))), attributes: vec![] }"),
        ("node port list", "node!({} => port!(, \"n\"), vec![at(\"x\", \"1\"), at(\"y\", \"2\")])", "Node { id: NodeId({}, Some(Port(None, Some(\"n\".to_string())))), attributes: vec![at(\"x\", \"1\"), at(\"y\", \"2\")] }"),
        ("node port items", "node!({} => port!(, \"n\"); at(\"x\", \"1\"), at(\"y\", \"2\"))", "Node { id: NodeId({}, Some(Port(None, Some(\"n\".to_string())))), attributes: vec![at(\"x\", \"1\"), at(\"y\", \"2\")] }"),
    ]
}

/// Forms whose argument is a value of a type: (type, name, macro with {}, direct with {}).
fn val_forms() -> Vec<(&'static str, String, String, String)> {
    let mut o: Vec<(&'static str, String, String, String)> = vec![];
    let mut add = |t, n: &str, m: String, d: String| o.push((t, n.to_string(), m, d));
    add("Id", "port id", "port!({})".into(), "Port(Some({}), None)".into());
    add("Id", "port id, side", "port!({}, \"n\")".into(), "Port(Some({}), Some(\"n\".to_string()))".into());
    for p in PFX {
        let i = idv(p, "a");
        add("Port", &format!("node_id port {}", p), format!("node_id!({}\"a\", {{}})", p), format!("NodeId({}, Some({{}}))", i));
        for (n, m, d) in [
            ("", "", "vec![]"),
            ("list", ", vec![at(\"x\", \"1\"), at(\"y\", \"2\")]", "vec![at(\"x\", \"1\"), at(\"y\", \"2\")]"),
            ("items", "; at(\"x\", \"1\"), at(\"y\", \"2\")", "vec![at(\"x\", \"1\"), at(\"y\", \"2\")]"),
        ] {
            add(
                "Port",
                &format!("node {} port, {}", p, n),
                format!("node!({}\"a\" => {{}}{})", p, m),
                format!("Node {{ id: NodeId({}, Some({{}})), attributes: {} }}", i, d),
            );
        }
        for (port, pd) in [("", "None".to_string()), (" => port!(id!(\"q\"))", "Some(Port(Some(pl(\"q\")), None))".into())] {
            let nd = format!("Node {{ id: NodeId({}, {}), attributes: ", i, pd);
            add("Attrs", &format!("node {}{} list", p, port), format!("node!({}\"a\"{}, {{}})", p, port), format!("{}{{}} }}", nd));
            add("Attr", &format!("node {}{} single item", p, port), format!("node!({}\"a\"{}; {{}})", p, port), format!("{}vec![{{}}] }}", nd));
            add(
                "Attr",
                &format!("node {}{} middle item", p, port),
                format!("node!({}\"a\"{}; at(\"x\", \"1\"), {{}}, at(\"y\", \"2\"))", p, port),
                format!("{}vec![at(\"x\", \"1\"), {{}}, at(\"y\", \"2\")] }}", nd),
            );
        }
        add("Stmts", &format!("subgraph {} list", p), format!("subgraph!({}\"a\", {{}})", p), format!("Subgraph {{ id: {}, stmts: {{}} }}", i));
        for k in ["Node", "Attr", "Edge", "Sub", "GAttr", "Stmt"] {
            let wrap = delegate(k);
            add(k, &format!("subgraph {} single item", p), format!("subgraph!({}\"a\"; {{}})", p), format!("Subgraph {{ id: {}, stmts: vec![{}] }}", i, wrap));
            add(
                k,
                &format!("subgraph {} middle item", p),
                format!("subgraph!({}\"a\"; node!(\"x\"), {{}}, node!(\"y\"))", p),
                format!("Subgraph {{ id: {}, stmts: vec![sn(\"x\"), {}, sn(\"y\")] }}", i, wrap),
            );
        }
    }
    for k in ["Node", "Attr", "Edge", "Sub", "GAttr", "Stmt"] {
        let wrap = delegate(k);
        add(k, "stmt", "stmt!({})".into(), wrap.to_string());
        add(
            k,
            "subgraph without id, middle item",
            "subgraph!(; node!(\"x\"), {}, node!(\"y\"))".into(),
            format!("Subgraph {{ id: an(), stmts: vec![sn(\"x\"), {}, sn(\"y\")] }}", wrap),
        );
    }
    for (kind, var) in [("graph", "Graph"), ("node", "Node"), ("edge", "Edge")] {
        add("Attrs", &format!("attrs {} list", kind), format!("attrs!({} {{}})", kind), format!("GraphAttributes::{}({{}})", var));
        add("Attr", &format!("attrs {} single item", kind), format!("attrs!({}; {{}})", kind), format!("GraphAttributes::{}(vec![{{}}])", var));
        add(
            "Attr",
            &format!("attrs {} middle item", kind),
            format!("attrs!({}; at(\"x\", \"1\"), {{}}, at(\"y\", \"2\"))", kind),
            format!("GraphAttributes::{}(vec![at(\"x\", \"1\"), {{}}, at(\"y\", \"2\")])", var),
        );
    }
    // edges: the value as first, second, third vertex, and as the attributes, of every form
    let tails = [
        ("", "vec![]"),
        (", vec![at(\"x\", \"1\"), at(\"y\", \"2\")]", "vec![at(\"x\", \"1\"), at(\"y\", \"2\")]"),
        ("; at(\"x\", \"1\"), at(\"y\", \"2\")", "vec![at(\"x\", \"1\"), at(\"y\", \"2\")]"),
    ];
    for (n, w) in [(2usize, "Pair"), (3, "Chain"), (4, "Chain")] {
        let ty = |vs: &[String]| match w {
            "Pair" => format!("EdgeTy::Pair({})", vs.join(", ")),
            _ => format!("EdgeTy::Chain(vec![{}])", vs.join(", ")),
        };
        for (tm, td) in tails {
            for hole in 0..n {
                for (k, wr) in [("NodeId", "Vertex::N({})"), ("Sub", "Vertex::S({})")] {
                    let m: Vec<String> = (0..n).map(|i| if i == hole { "{}".into() } else { format!("ni(\"n{}\")", i) }).collect();
                    let d: Vec<String> = (0..n).map(|i| if i == hole { wr.into() } else { format!("vn(\"n{}\")", i) }).collect();
                    add(
                        k,
                        &format!("edge of {} vertex {} {}", n, hole, &tm[..tm.len().min(1)]),
                        format!("edge!({}{})", m.join(" => "), tm),
                        format!("Edge {{ ty: {}, attributes: {} }}", ty(&d), td),
                    );
                }
            }
        }
        let m: Vec<String> = (0..n).map(|i| format!("ni(\"n{}\")", i)).collect();
        let d: Vec<String> = (0..n).map(|i| format!("vn(\"n{}\")", i)).collect();
        add("Attrs", &format!("edge of {} list", n), format!("edge!({}, {{}})", m.join(" => ")), format!("Edge {{ ty: {}, attributes: {{}} }}", ty(&d)));
        add("Attr", &format!("edge of {} single item", n), format!("edge!({}; {{}})", m.join(" => ")), format!("Edge {{ ty: {}, attributes: vec![{{}}] }}", ty(&d)));
        add(
            "Attr",
            &format!("edge of {} middle item", n),
            format!("edge!({}; at(\"x\", \"1\"), {{}}, at(\"y\", \"2\"))", m.join(" => ")),
            format!("Edge {{ ty: {}, attributes: vec![at(\"x\", \"1\"), {{}}, at(\"y\", \"2\")] }}", ty(&d)),
        );
    }
    for (p, var, strict) in GRAPHS {
        add("Id", &format!("graph {} id", p), format!("graph!({}{{}})", p), format!("Graph::{} {{ id: {{}}, strict: {}, stmts: vec![] }}", var, strict));
        add("Id", &format!("graph {} id with list", p), format!("graph!({}{{}}, vec![sn(\"x\"), sn(\"y\")])", p), format!("Graph::{} {{ id: {{}}, strict: {}, stmts: vec![sn(\"x\"), sn(\"y\")] }}", var, strict));
        add("Id", &format!("graph {} id with items", p), format!("graph!({}{{}}; node!(\"x\"), node!(\"y\"))", p), format!("Graph::{} {{ id: {{}}, strict: {}, stmts: vec![sn(\"x\"), sn(\"y\")] }}", var, strict));
        add("Stmts", &format!("graph {} list", p), format!("graph!({}id!(\"a\"), {{}})", p), format!("Graph::{} {{ id: pl(\"a\"), strict: {}, stmts: {{}} }}", var, strict));
        for k in ["Node", "Attr", "Edge", "Sub", "GAttr", "Stmt"] {
            let wrap = delegate(k);
            add(k, &format!("graph {} single item", p), format!("graph!({}id!(\"a\"); {{}})", p), format!("Graph::{} {{ id: pl(\"a\"), strict: {}, stmts: vec![{}] }}", var, strict, wrap));
            add(
                k,
                &format!("graph {} middle item", p),
                format!("graph!({}id!(\"a\"); node!(\"x\"), {{}}, node!(\"y\"))", p),
                format!("Graph::{} {{ id: pl(\"a\"), strict: {}, stmts: vec![sn(\"x\"), {}, sn(\"y\")] }}", var, strict, wrap),
            );
        }
    }
    o
}
const GRAPHS: [(&str, &str, bool); 4] = [("", "Graph", false), ("strict ", "Graph", true), ("di ", "DiGraph", false), ("strict di ", "DiGraph", true)];
fn delegate(k: &str) -> &'static str {
    match k {
        "Node" => "Stmt::Node({})",
        "Attr" => "Stmt::Attribute({})",
        "Edge" => "Stmt::Edge({})",
        "Sub" => "Stmt::Subgraph({})",
        "GAttr" => "Stmt::GAttribute({})",
        _ => "{}",
    }
}
/// A value of each type: (macro, direct).
fn value(t: &str) -> (&'static str, &'static str) {
    match t {
        "Id" => ("id!(esc \"i\")", "Id::Escaped(\"\\\"i\\\"\".to_string())"),
        "Port" => ("port!(id!(\"p\"), \"se\")", "Port(Some(pl(\"p\")), Some(\"se\".to_string()))"),
        "Attrs" => ("vec![attr!(\"b\", \"1\"), attr!(\"a\", esc \"2\")]", "vec![at(\"b\", \"1\"), Attribute(pl(\"a\"), Id::Escaped(\"\\\"2\\\"\".to_string()))]"),
        "Attr" => ("attr!(\"b\", html \"1\")", "Attribute(pl(\"b\"), Id::Html(\"1\".to_string()))"),
        "Stmts" => ("vec![stmt!(node!(\"b\")), stmt!(attr!(\"a\", 1))]", "vec![sn(\"b\"), Stmt::Attribute(at(\"a\", \"1\"))]"),
        "Node" => ("node!(\"b\"; attr!(\"k\", 1))", "Node { id: ni(\"b\"), attributes: vec![at(\"k\", \"1\")] }"),
        "NodeId" => ("node_id!(\"b\", port!(id!(\"p\")))", "NodeId(pl(\"b\"), Some(Port(Some(pl(\"p\")), None)))"),
        "Edge" => ("edge!(node_id!(\"b\") => node_id!(\"a\"); attr!(\"k\", 1))", "Edge { ty: EdgeTy::Pair(vn(\"b\"), vn(\"a\")), attributes: vec![at(\"k\", \"1\")] }"),
        "Sub" => ("subgraph!(\"b\"; node!(\"c\"), node!(\"a\"))", "Subgraph { id: pl(\"b\"), stmts: vec![sn(\"c\"), sn(\"a\")] }"),
        "GAttr" => ("attrs!(edge; attr!(\"b\", 1), attr!(\"a\", 2))", "GraphAttributes::Edge(vec![at(\"b\", \"1\"), at(\"a\", \"2\")])"),
        "Stmt" => ("stmt!(attrs!(node; attr!(\"b\", 1)))", "Stmt::GAttribute(GraphAttributes::Node(vec![at(\"b\", \"1\")]))"),
        _ => unreachable!(),
    }
}
/// The ways of writing an expression of that value: (name, setup, source), {} the macro.
fn wraps() -> Vec<(&'static str, &'static str, &'static str)> {
    vec![
        ("macro", "", "{}"),
        ("variable", "let x = {};", "x"),
        ("named-attrs", "let attrs = {};", "attrs"),
        ("named-stmts", "let stmts = {};", "stmts"),
        ("named-attrs_vec", "let attrs_vec = {};", "attrs_vec"),
        ("named-stmts_vec", "let stmts_vec = {};", "stmts_vec"),
        ("named-edges_vec", "let edges_vec = {};", "edges_vec"),
        ("named-node", "let node = {};", "node"),
        ("clone", "let x = {};", "x.clone()"),
        ("call", "", "h({})"),
        ("pathcall", "", "std::convert::identity({})"),
        ("turbofish", "", "h::<_>({})"),
        ("method", "let x = H { v: {} };", "x.get()"),
        ("field", "let x = H { v: {} };", "x.v"),
        ("index", "let x = vec![{}];", "x[0].clone()"),
        ("paren", "", "({})"),
        ("block", "", "{ let y = {}; y }"),
        ("if", "let b = true;", "if b { {} } else { panic!() }"),
        ("match", "let o = Some({});", "match o { Some(y) => y, None => panic!() }"),
        ("question", "", "some({})?"),
        ("unwrap", "", "some({}).unwrap()"),
        ("closure", "let c = || {};", "c()"),
        ("closurecall", "", "(|| {})()"),
        ("deref", "let x = Box::new({});", "*x"),
        ("loop", "", "loop { break {} }"),
        ("unsafe", "", "unsafe { {} }"),
    ]
}

pub fn c16_cases(thorough: bool) -> Vec<Case> {
    let mut o = vec![];
    let es = exprs();
    // no arguments
    for (m, d) in [
        ("port!()", "Port(None, None)"),
        ("id!()", "an()"),
        ("node_id!()", "NodeId(an(), None)"),
        ("subgraph!()", "Subgraph { id: an(), stmts: vec![] }"),
        ("attrs!()", "GraphAttributes::Graph(vec![])"),
        ("node!()", "Node { id: NodeId(an(), None), attributes: vec![] }"),
        ("port!(id!())", "Port(Some(an()), None)"),
        ("port!(id!(), \"\")", "Port(Some(an()), Some(\"\".to_string()))"),
        ("graph!(id!())", "Graph::Graph { id: an(), strict: false, stmts: vec![] }"),
    ] {
        o.push(case(format!("empty:{}", m), "", m, d));
    }
    // every kind of expression in every place of an id or a text, under every prefix
    for (fname, m, d) in id_forms() {
        for p in PFX {
            for (en, setup, src, val) in &es {
                o.push(case(
                    format!("{}:{}{}", fname, p, en),
                    *setup,
                    m.replacen("{}", &format!("{}{}", p, src), 1),
                    d.replacen("{}", &idv(p, val), 1),
                ));
            }
        }
    }
    for (n, m, d) in [("side", "port!(, {})", "Port(None, Some({}))"), ("id side", "port!(id!(\"a\"), {})", "Port(Some(pl(\"a\")), Some({}))")] {
        for (en, setup, src, val) in &es {
            let s = format!("{}.to_string()", src);
            let _ = s;
            o.push(case(format!("port {}:{}", n, en), *setup, m.replacen("{}", src, 1), d.replacen("{}", &lit(val), 1)));
        }
    }
    // pairs of key and value
    for pk in PFX {
        for pv in PFX {
            for (i, (kn, ks, k, kv)) in es.iter().enumerate() {
                for (j, (vn, vs, v, vv)) in es.iter().enumerate() {
                    if !thorough && i != j && (i * 7 + j) % 16 != 0 {
                        continue;
                    }
                    if i != j && [*ks, *vs].iter().any(|s| s.contains("let k ")) {
                        continue;
                    }
                    if i == j && *kn == "counted" || i == j && *kn == "string" && false {
                        continue;
                    }
                    // setups in nested scopes would need names apart; keep pairs whose names do not clash
                    let clash = i != j && !ks.is_empty() && !vs.is_empty();
                    if clash {
                        continue;
                    }
                    let setup = if i == j || vs.is_empty() { ks.to_string() } else { format!("{}{}", ks, vs) };
                    o.push(case(
                        format!("attr:{}{},{}{}", pk, kn, pv, vn),
                        setup,
                        format!("attr!({}{}, {}{})", pk, k, pv, v),
                        format!("Attribute({}, {})", idv(pk, kv), idv(pv, vv)),
                    ));
                }
            }
        }
    }
    // every way of writing a typed argument in every place that takes one
    for (t, fname, m, d) in val_forms() {
        let (vm, vd) = value(t);
        for (wn, setup, src) in wraps() {
            if wn == "index" && t == "" {
                continue;
            }
            o.push(case(
                format!("{}:{}:{}", fname, t, wn),
                setup.replacen("{}", vm, 1),
                m.replacen("{}", &src.replacen("{}", vm, 1), 1),
                d.replacen("{}", vd, 1),
            ));
        }
    }
    arity(&mut o, thorough);
    delegates(&mut o, thorough);
    nesting(&mut o, thorough);
    o
}

/// Every variadic form with 1..n items, next to its list form.
fn arity(o: &mut Vec<Case>, thorough: bool) {
    let mut ns: Vec<usize> = (1..=10).collect();
    ns.extend(if thorough { vec![11, 12, 13, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300] } else { vec![16, 33, 64, 129, 200] });
    for n in ns {
        // names run against the alphabet, some repeat, so that sorting or deduplication shows
        let key = |i: usize| format!("k{}", (n - i) / 2);
        let am: Vec<String> = (0..n).map(|i| format!("attr!(\"{}\", {})", key(i), i)).collect();
        let ad: Vec<String> = (0..n).map(|i| format!("at(\"{}\", \"{}\")", key(i), i)).collect();
        let sm: Vec<String> = (0..n).map(|i| format!("node!(\"{}\"; attr!(\"i\", {}))", key(i), i)).collect();
        let sd: Vec<String> = (0..n)
            .map(|i| format!("Stmt::Node(Node {{ id: ni(\"{}\"), attributes: vec![at(\"i\", \"{}\")] }})", key(i), i))
            .collect();
        let sl: Vec<String> = sm.iter().map(|s| format!("stmt!({})", s)).collect();
        let (am, ad, sm, sd, sl) = (am.join(", "), ad.join(", "), sm.join(", "), sd.join(", "), sl.join(", "));
        for p in PFX {
            let i = idv(p, "a");
            for (pm, pd) in [("", "None"), (" => port!()", "Some(Port(None, None))")] {
                for (sep, a, b) in [("; ", "", ""), (", ", "vec![", "]")] {
                    o.push(case(
                        format!("arity:node {}{}{}{}", p, pm, sep, n),
                        "",
                        format!("node!({}\"a\"{}{}{}{}{})", p, pm, sep, a, am, b),
                        format!("Node {{ id: NodeId({}, {}), attributes: vec![{}] }}", i, pd, ad),
                    ));
                }
            }
            o.push(case(format!("arity:subgraph {}items {}", p, n), "", format!("subgraph!({}\"a\"; {})", p, sm), format!("Subgraph {{ id: {}, stmts: vec![{}] }}", i, sd)));
            o.push(case(format!("arity:subgraph {}list {}", p, n), "", format!("subgraph!({}\"a\", vec![{}])", p, sl), format!("Subgraph {{ id: {}, stmts: vec![{}] }}", i, sd)));
        }
        o.push(case(format!("arity:subgraph items {}", n), "", format!("subgraph!(; {})", sm), format!("Subgraph {{ id: an(), stmts: vec![{}] }}", sd)));
        for (kind, var) in [("graph", "Graph"), ("node", "Node"), ("edge", "Edge")] {
            o.push(case(format!("arity:attrs {} items {}", kind, n), "", format!("attrs!({}; {})", kind, am), format!("GraphAttributes::{}(vec![{}])", var, ad)));
            o.push(case(format!("arity:attrs {} list {}", kind, n), "", format!("attrs!({} vec![{}])", kind, am), format!("GraphAttributes::{}(vec![{}])", var, ad)));
        }
        for (p, var, strict) in GRAPHS {
            let d = format!("Graph::{} {{ id: pl(\"g\"), strict: {}, stmts: vec![{}] }}", var, strict, sd);
            o.push(case(format!("arity:graph {}items {}", p, n), "", format!("graph!({}id!(\"g\"); {})", p, sm), d.clone()));
            o.push(case(format!("arity:graph {}list {}", p, n), "", format!("graph!({}id!(\"g\"), vec![{}])", p, sl), d));
        }
    }
    // edges: vertices x attributes
    let big: &[usize] = if thorough { &[9, 10, 16, 33, 64, 129, 200] } else { &[9, 64, 200] };
    let vs: Vec<usize> = (2..=8).chain(big.iter().copied()).collect();
    for &n in &vs {
        let mut xs: Vec<usize> = (0..=6).collect();
        if thorough || n == 2 || n == 3 {
            xs.extend(big);
        }
        for a in xs {
            if n * a > 4000 {
                continue;
            }
            let name = |i: usize| format!("n{}", (n - i) / 2);
            let sub = |i: usize| i % 3 == 2;
            let vm: Vec<String> = (0..n).map(|i| if sub(i) { format!("subgraph!(\"{}\")", name(i)) } else { format!("node_id!(\"{}\", port!(, {}))", name(i), i) }).collect();
            let vd: Vec<String> = (0..n)
                .map(|i| {
                    if sub(i) {
                        format!("Vertex::S(Subgraph {{ id: pl(\"{}\"), stmts: vec![] }})", name(i))
                    } else {
                        format!("Vertex::N(NodeId(pl(\"{}\"), Some(Port(None, Some(\"{}\".to_string())))))", name(i), i)
                    }
                })
                .collect();
            let am: Vec<String> = (0..a).map(|i| format!("attr!(\"k{}\", {})", (a - i) / 2, i)).collect();
            let ad: Vec<String> = (0..a).map(|i| format!("at(\"k{}\", \"{}\")", (a - i) / 2, i)).collect();
            let ty = if n == 2 { format!("EdgeTy::Pair({})", vd.join(", ")) } else { format!("EdgeTy::Chain(vec![{}])", vd.join(", ")) };
            let d = format!("Edge {{ ty: {}, attributes: vec![{}] }}", ty, ad.join(", "));
            let m = vm.join(" => ");
            if a == 0 {
                o.push(case(format!("arity:edge {}", n), "", format!("edge!({})", m), d.clone()));
            } else {
                o.push(case(format!("arity:edge {} items {}", n, a), "", format!("edge!({}; {})", m, am.join(", ")), d.clone()));
            }
            o.push(case(format!("arity:edge {} list {}", n, a), "", format!("edge!({}, vec![{}])", m, am.join(", ")), d));
        }
    }
}

/// Every sequence of statement kinds in every graph and subgraph form.
fn delegates(o: &mut Vec<Case>, thorough: bool) {
    let kinds = ["Node", "Attr", "Edge", "Sub", "GAttr", "Stmt"];
    let max = if thorough { 4 } else { 3 };
    for len in 1..=max {
        for i in 0..kinds.len().pow(len as u32) {
            let seq: Vec<&str> = (0..len).map(|k| kinds[i / kinds.len().pow(k as u32) % kinds.len()]).collect();
            let m: Vec<String> = seq.iter().map(|k| value(k).0.to_string()).collect();
            let l: Vec<String> = seq.iter().map(|k| format!("stmt!({})", value(k).0)).collect();
            let d: Vec<String> = seq.iter().map(|k| delegate(k).replacen("{}", value(k).1, 1)).collect();
            let (m, l, d) = (m.join(", "), l.join(", "), d.join(", "));
            let key = seq.join("+");
            for (gi, (p, var, strict)) in GRAPHS.iter().enumerate() {
                if len >= 3 && gi != i % 4 {
                    continue;
                }
                let d = format!("Graph::{} {{ id: pl(\"g\"), strict: {}, stmts: vec![{}] }}", var, strict, d);
                o.push(case(format!("seq:graph {}items {}", p, key), "", format!("graph!({}id!(\"g\"); {})", p, m), d.clone()));
                if len < 3 {
                    o.push(case(format!("seq:graph {}list {}", p, key), "", format!("graph!({}id!(\"g\"), vec![{}])", p, l), d));
                }
            }
            for (si, p) in ["\"s\"", "esc \"s\"", "html \"s\"", ""].iter().enumerate() {
                if len >= 3 && si != (i / 4) % 4 {
                    continue;
                }
                let id = match si {
                    3 => "an()".to_string(),
                    _ => idv(PFX[si], "s"),
                };
                let d = format!("Subgraph {{ id: {}, stmts: vec![{}] }}", id, d);
                o.push(case(format!("seq:subgraph {}items {}", p, key), "", format!("subgraph!({}; {})", p, m), d.clone()));
                if len < 3 && si < 3 {
                    o.push(case(format!("seq:subgraph {}list {}", p, key), "", format!("subgraph!({}, vec![{}])", p, l), d));
                }
            }
        }
    }
}

/// Terms nested up to a depth: every way to put a statement into another one.
fn nesting(o: &mut Vec<Case>, thorough: bool) {
    // (macro, direct, kind)
    type T = (String, String, &'static str);
    let st = |t: &T| delegate(t.2).replacen("{}", &t.1, 1);
    let mut level: Vec<T> = vec![
        (value("Node").0.into(), value("Node").1.into(), "Node"),
        (value("Attr").0.into(), value("Attr").1.into(), "Attr"),
        (value("GAttr").0.into(), value("GAttr").1.into(), "GAttr"),
        (value("Edge").0.into(), value("Edge").1.into(), "Edge"),
    ];
    let depth = if thorough { 4 } else { 3 };
    for d in 1..=depth {
        let mut next: Vec<T> = vec![];
        for t in &level {
            let subs = [
                (format!("subgraph!(\"s{}\"; {})", d, t.0), format!("Subgraph {{ id: pl(\"s{}\"), stmts: vec![{}] }}", d, st(t))),
                (format!("subgraph!(esc \"s\", vec![stmt!({}), stmt!(node!(\"l\"))])", t.0), format!("Subgraph {{ id: Id::Escaped(\"\\\"s\\\"\".to_string()), stmts: vec![{}, sn(\"l\")] }}", st(t))),
                (format!("subgraph!(; node!(\"f\"), {})", t.0), format!("Subgraph {{ id: an(), stmts: vec![sn(\"f\"), {}] }}", st(t))),
            ];
            for (i, (m, dd)) in subs.iter().enumerate() {
                next.push((m.clone(), dd.clone(), "Sub"));
                if i == 0 || thorough && d < 4 {
                    next.push((format!("edge!({} => node_id!(\"e\"))", m), format!("Edge {{ ty: EdgeTy::Pair(Vertex::S({}), vn(\"e\")), attributes: vec![] }}", dd), "Edge"));
                    next.push((
                        format!("edge!(node_id!(\"e\") => {} => node_id!(\"f\"); attr!(\"a\", {}))", m, d),
                        format!("Edge {{ ty: EdgeTy::Chain(vec![vn(\"e\"), Vertex::S({}), vn(\"f\")]), attributes: vec![at(\"a\", \"{}\")] }}", dd, d),
                        "Edge",
                    ));
                    next.push((
                        format!("edge!(subgraph!() => {}, vec![attr!(\"a\", {})])", m, d),
                        format!("Edge {{ ty: EdgeTy::Pair(Vertex::S(Subgraph {{ id: an(), stmts: vec![] }}), Vertex::S({})), attributes: vec![at(\"a\", \"{}\")] }}", dd, d),
                        "Edge",
                    ));
                }
            }
        }
        for (i, t) in next.iter().enumerate() {
            let (p, var, strict) = GRAPHS[i % 4];
            o.push(case(
                format!("nest:{}:{}", d, i),
                "",
                format!("graph!({}id!(esc \"g\"); {}, node!(\"z\"))", p, t.0),
                format!("Graph::{} {{ id: Id::Escaped(\"\\\"g\\\"\".to_string()), strict: {}, stmts: vec![{}, sn(\"z\")] }}", var, strict, st(t)),
            ));
        }
        level = next;
    }
    // deep
    for d in [8usize, 16, 30] {
        let (mut m, mut dd) = ("node!(\"i\")".to_string(), "sn(\"i\")".to_string());
        for k in 0..d {
            m = format!("subgraph!(\"s{}\"; {})", k, m);
            dd = format!("Stmt::Subgraph(Subgraph {{ id: pl(\"s{}\"), stmts: vec![{}] }})", k, dd);
        }
        o.push(case(format!("deep:{}", d), "", format!("graph!(id!(\"g\"); {})", m), format!("Graph::Graph {{ id: pl(\"g\"), strict: false, stmts: vec![{}] }}", dd)));
    }
}

fn finish16(run: &Run, cases: &[Case], steps: u64, what: &str) {
    let distinct: std::collections::HashSet<(&str, &str)> = cases.iter().map(|c| (c.setup.as_str(), c.got.as_str())).collect();
    run.count("states", distinct.len() as u64);
    run.count("transitions", steps);
    let step = (cases.len() / 12).max(1);
    for c in cases.iter().step_by(step) {
        run.sample(format!("{} {}", c.setup, c.got));
    }
    run.note("rule", what);
}

pub fn c16(run: &Run) {
    let cases = c16_cases(run.thorough);
    execute(run, PRE16, &cases, 16);
    let steps = cases.iter().map(|c| format!("{}{}", c.setup, c.got).matches('!').count() as u64).sum();
    finish16(run, &cases, steps, "programs: every kind of argument expression in every place of every macro form, every number of items of the bound, every sequence of statement kinds, every nesting; the value of each compared with struct literals");
    run.assume("macros are used with dot_generator::* and dot_structures::* in scope, as documented");
}

// ---------------------------------------------------------------- C17

const PRE17: &str = r#"
use dot_structures::{Attribute, Id};
use graphviz_rust::attributes as a;
use into_attr::IntoAttribute;
fn pl(s: &str) -> Id { Id::Plain(s.to_string()) }
fn at(k: &str, v: &str) -> Attribute { Attribute(pl(k), pl(v)) }
/// decimal digits, written without the formatter of the standard library
fn dec(v: i32) -> String {
    let mut n = (v as i64).abs();
    let mut o = vec![];
    loop { o.push((b'0' + (n % 10) as u8) as char); n /= 10; if n == 0 { break; } }
    if v < 0 { o.push('-'); }
    o.iter().rev().collect()
}
/// a numeral of the DOT language: [-]?(.[0-9]+ | [0-9]+(.[0-9]*)?)
fn numeral(s: &str) -> bool {
    let s = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = match s.split_once('.') { Some((i, f)) => (i, Some(f)), None => (s, None) };
    let d = |s: &str| s.bytes().all(|b| b.is_ascii_digit());
    d(i) && f.map_or(true, d) && (!i.is_empty() || f.map_or(false, |f| !f.is_empty()))
}
/// the attributes that are not what they should be
fn ints(all: bool, key: &str, f: impl Fn(i32) -> Attribute) -> Vec<String> {
    let mut v: Vec<i32> = (-1100..=1100).collect();
    for k in 0..31 { for d in -1..=1i64 { for s in [1, -1] { v.push(((1i64 << k) * s + d) as i32); } } }
    for k in 0..10 { for d in -1..=1i64 { v.push((10i64.pow(k) + d) as i32); v.push((-10i64.pow(k) + d) as i32); } }
    v.extend([i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1]);
    if all { v.extend(-70000..=70000); }
    v.into_iter().filter(|n| f(*n) != at(key, &dec(*n))).map(|n| format!("{} gives {:?}", n, f(n))).take(3).collect()
}
fn floats(all: bool, key: &str, f: impl Fn(f32) -> Attribute) -> Vec<String> {
    let mut bad = vec![];
    for (v, s) in [(0.0f32, "0"), (1.0, "1"), (0.5, "0.5"), (-4.0, "-4"), (0.1, "0.1"), (1.25, "1.25"), (96.0, "96"), (0.0555, "0.0555"), (1e10, "10000000000"), (0.0001, "0.0001"), (-0.75, "-0.75"), (123.456, "123.456")] {
        if f(v) != at(key, s) { bad.push(format!("{} gives {:?}", v, f(v))); }
    }
    let mut bits: Vec<u32> = vec![];
    for h in (0..=0xffffu32).step_by(if all { 1 } else { 16 }) { for l in [0u32, 1, 0xffff] { bits.push(h << 16 | l); } }
    for b in bits {
        let v = f32::from_bits(b);
        if !v.is_finite() { continue; }
        let a = f(v);
        let ok = match &a.1 { Id::Plain(s) => numeral(s) && s.parse::<f32>().map(f32::to_bits) == Ok(b), _ => false };
        if !ok || a.0 != pl(key) { bad.push(format!("{:e} gives {:?}", v, a)); if bad.len() > 2 { break; } }
    }
    bad
}
fn margins(all: bool) -> Vec<String> {
    let mut v: Vec<f32> = vec![0.0, -0.0, 0.1, 0.5, 0.0555, 0.00025, 1.0, -1.5, 2.0, 10.0, 96.0, 100.0, 123.456, 1e10, 1e-10];
    for h in (0..=0xffffu32).step_by(if all { 64 } else { 400 }) { for l in [0u32, 0x1234, 0xffff] { v.push(f32::from_bits(h << 16 | l)); } }
    v.retain(|x| x.is_finite());
    let mut bad = vec![];
    for h in &v {
        for w in &v {
            let a = a::NodeAttributes::margin_separate(*h, *w);
            let t = match &a.1 { Id::Plain(s) => s.clone(), Id::Escaped(s) if s.len() > 1 => s[1..s.len() - 1].to_string(), x => format!("{:?}", x) };
            let one = |s: &str, x: f32| numeral(s) && s.parse::<f32>().map(f32::to_bits) == Ok(x.to_bits());
            let ok = a.0 == pl("margin") && match t.split_once(',') { Some((p, q)) => one(p, *h) && one(q, *w), None => false };
            if !ok { bad.push(format!("{:e}, {:e} gives {:?}", h, w, a)); if bad.len() > 2 { return bad; } }
        }
    }
    bad
}
fn strings(key: &str, f: impl Fn(String) -> Attribute) -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "\"quoted \\\" text\"".into(), "<b>html</b>".into(), "{}{0}{{x}}".into(), "\u{e4}\u{1F600}".into(), "a_".into(), "x".repeat(70000)];
    for c in 0..=255u8 { v.push(format!("{}", c as char)); v.push(format!("a{}b", c as char)); }
    v.into_iter().filter(|s| f(s.clone()) != at(key, s)).map(|s| format!("{:?} gives {:?}", s, f(s.clone()))).take(3).collect()
}
fn colors(key: &str, f: impl Fn(a::color_name) -> Attribute) -> Vec<String> {
    all_colors().into_iter().map(|(n, c)| (n, f(c))).filter(|(n, x)| *x != at(key, n)).map(|(n, x)| format!("{} gives {:?}", n, x)).take(3).collect()
}
"#;

fn owner(c: char) -> &'static str {
    match c {
        'G' => "GraphAttributes",
        'N' => "NodeAttributes",
        'E' => "EdgeAttributes",
        _ => "SubgraphAttributes",
    }
}
/// A literal of a type.
fn typed(ty: &str, v: &str) -> String {
    match ty {
        "String" => lit(v),
        "f32" => format!("({}f32)", v),
        "i32" => format!("({}i32)", v),
        "color_name" => format!("a::color_name::{}", v),
        _ => v.to_string(),
    }
}

pub fn c17(run: &Run) {
    use crate::attrs::*;
    let colors: Vec<&str> = COLORS.split_whitespace().collect();
    let mut o: Vec<Case> = vec![];
    let all = run.thorough;
    let mut inner = 0u64;
    for (name, owners, ty, def) in ATTRS {
        let ways: Vec<(String, String)> = owners.chars().map(|c| (owner(c).into(), format!("a::{}::{}", owner(c), name))).collect();
        for (w, f) in &ways {
            let (set, n) = match *ty {
                "bool" => (format!("[true, false].into_iter().map({}).zip([at({:?}, \"true\"), at({:?}, \"false\")]).filter(|(x, y)| x != y).map(|(x, _)| format!(\"{{:?}}\", x)).collect::<Vec<String>>()", f, name, name), 2),
                "i32" => (format!("ints({}, {:?}, {})", all, name, f), if all { 142_000 } else { 2_500 }),
                "f32" => (format!("floats({}, {:?}, {})", all, name, f), if all { 195_000 } else { 12_300 }),
                "String" => (format!("strings({:?}, {})", name, f), 519),
                _ => (format!("colors({:?}, {})", name, f), colors.len() as u64),
            };
            inner += n;
            o.push(case(format!("{}:{}", name, w), "", set, "Vec::<String>::new()"));
        }
        if let Some(d) = def {
            o.push(case(format!("{}:default", name), "", format!("a::{}::default().into_attr()", name), format!("at({:?}, {:?})", name, d)));
            for (w, f) in &ways {
                o.push(case(format!("{}:default and {}", name, w), "", format!("a::{}::default().into_attr()", name), format!("{}({})", f, typed(ty, d))));
            }
        }
    }
    for (name, own, members, def) in ENUMS {
        for m in members.split_whitespace() {
            let g = m.strip_suffix('_').unwrap_or(m);
            o.push(case(format!("{}::{}:type", name, m), "", format!("a::{}::{}.into_attr()", name, m), format!("at({:?}, {:?})", name, g)));
            for c in own.chars() {
                o.push(case(format!("{}::{}:{}", name, m, owner(c)), "", format!("a::{}::{}(a::{}::{})", owner(c), name, name, m), format!("at({:?}, {:?})", name, g)));
            }
        }
        if !def.is_empty() {
            o.push(case(format!("{}:default", name), "", format!("a::{}::default().into_attr()", name), format!("at({:?}, {:?})", name, def)));
            o.push(case(format!("{}:default value", name), "", format!("a::{}::default()", name), format!("a::{}::{}", name, def)));
        }
    }
    for c in &colors {
        o.push(case(format!("color {}", c), "", format!("a::color_name::{}.to_string()", c), lit(c)));
        o.push(case(format!("color {} as attribute", c), "", format!("a::color_name::{}.into_attr()", c), format!("at(\"color_name\", {:?})", c)));
    }
    // two numbers in one value
    for (h, v, s) in [("0.5", "0.25", "0.5,0.25"), ("1.0", "2.0", "1,2"), ("-1.5", "0.0", "-1.5,0"), ("100.0", "0.001", "100,0.001")] {
        o.push(case(format!("margin_separate {}", s), "", format!("a::NodeAttributes::margin_separate({}, {}).0", h, v), "pl(\"margin\")"));
        o.push(case(
            format!("margin_separate {} text", s),
            "",
            format!("match a::NodeAttributes::margin_separate({}, {}).1 {{ Id::Plain(s) => s, Id::Escaped(s) => s.trim_matches('\"').to_string(), x => format!(\"{{:?}}\", x) }}", h, v),
            lit(s),
        ));
    }
    o.push(case("margin_separate pairs", "", format!("margins({})", run.thorough), "Vec::<String>::new()"));
    let o_last = case(
        "margin_separate id",
        "",
        "match a::NodeAttributes::margin_separate(1.0, 2.0).1 { Id::Plain(s) => numeral(&s), _ => true }",
        "true",
    );
    o.push(o_last);
    let list: Vec<String> = colors.iter().map(|c| format!("({:?}, a::color_name::{})", c, c)).collect();
    let pre = format!("{}fn all_colors() -> Vec<(&'static str, a::color_name)> {{ vec![{}] }}\n", PRE17, list.join(", "));
    execute(run, &pre, &o, 4);
    finish16(run, &o, inner, "the whole table of attributes: every attribute through its type and every owner with every value of its value set, every default, every enum member, every color; one state per table entry");
    run.assume("the tables of attributes, owners, defaults, enum values and colors are those of the Graphviz documentation for the attributes this library offers");
    run.assume("text attributes carry the given text as it is: quoting it is the caller's task");
    run.assume("numbers that are not finite have no DOT numeral and are left out");
}

// ---------------------------------------------------------------- C18

const PRE18: &str = r#"
use dot_generator::*;
use dot_structures::*;
use into_attr::IntoAttribute;
use into_attr_derive::IntoAttribute;
use std::fmt::Display;
fn at(k: &str, v: &str) -> Attribute { Attribute(Id::Plain(k.to_string()), Id::Plain(v.to_string())) }
pub struct Shown(i32, &'static str);
impl Display for Shown { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}/{}", self.0, self.1) } }
"#;

/// Field types with values: (generics of the type, type, value, text).
fn fields() -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
    vec![
        ("", "i8", "-128", "-128"),
        ("", "u8", "200", "200"),
        ("", "i16", "-3", "-3"),
        ("", "i32", "2147483647", "2147483647"),
        ("", "i64", "-9223372036854775808", "-9223372036854775808"),
        ("", "u64", "18446744073709551615", "18446744073709551615"),
        ("", "i128", "1", "1"),
        ("", "usize", "0", "0"),
        ("", "f32", "0.1", "0.1"),
        ("", "f64", "-2.50", "-2.5"),
        ("", "bool", "true", "true"),
        ("", "char", "'_'", "_"),
        ("", "String", "\"te xt_\".to_string()", "te xt_"),
        ("", "String", "\"\\\"q\\\"\".to_string()", "\"q\""),
        ("", "String", "String::new()", ""),
        ("", "String", "\"{} {0} \\u{e4}\\n\".to_string()", "{} {0} \u{e4}\n"),
        ("", "&'static str", "\"s_\"", "s_"),
        ("", "Box<str>", "\"b\".into()", "b"),
        ("", "std::rc::Rc<i32>", "std::rc::Rc::new(5)", "5"),
        ("", "std::borrow::Cow<'static, str>", "\"c\".into()", "c"),
        ("", "Box<dyn Display>", "Box::new(7)", "7"),
        ("", "Shown", "Shown(1, \"x\")", "1/x"),
        ("", "std::num::Wrapping<u8>", "std::num::Wrapping(9)", "9"),
        ("", "std::net::Ipv4Addr", "std::net::Ipv4Addr::new(1, 2, 3, 4)", "1.2.3.4"),
        ("", "std::fmt::Error", "std::fmt::Error", "an error occurred when formatting an argument"),
        ("<'a>", "&'a str", "\"life\"", "life"),
        ("<'a>", "&'a i32", "&4", "4"),
        ("<T: Display>", "T", "6", "6"),
        ("<T: Display + Clone = i32>", "T", "6", "6"),
        ("<'a, T: Display + ?Sized>", "&'a T", "\"un\"", "un"),
        ("<T>", "T", "1", "1"),
    ]
}
/// Type names: (source, key).
const TYPES: &[(&str, &str)] = &[
    ("name", "name"),
    ("Name", "Name"),
    ("a", "a"),
    ("Z", "Z"),
    ("snake_case_name", "snake_case_name"),
    ("CamelCaseName", "CamelCaseName"),
    ("trailing_", "trailing_"),
    ("trailing__", "trailing__"),
    ("_leading", "_leading"),
    ("x1", "x1"),
    ("r#type", "type"),
    ("r#struct", "struct"),
    ("node", "node"),
    ("Graph_", "Graph_"),
    ("v", "v"),
    ("f", "f"),
    ("elem", "elem"),
    ("URL", "URL"),
    ("\u{e4}\u{f6}", "\u{e4}\u{f6}"),
    ("a_very_long_name_of_a_type_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on", "a_very_long_name_of_a_type_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on"),
];
/// Variant names: (source, value).
const VARIANTS: &[(&str, &str)] = &[
    ("a", "a"),
    ("Abc", "Abc"),
    ("box_", "box"),
    ("two__", "two_"),
    ("three___", "three__"),
    ("in_ner_", "in_ner"),
    ("in_ner", "in_ner"),
    ("_lead", "_lead"),
    ("_both_", "_both"),
    ("r#type", "type"),
    ("Self_", "Self"),
    ("B1", "B1"),
    ("none", "none"),
    ("None_", "None"),
    ("v", "v"),
    ("TB", "TB"),
    ("\u{fc}b\u{e4}r_", "\u{fc}b\u{e4}r"),
    ("__", "_"),
];

pub fn c18(run: &Run) {
    let mut o: Vec<Case> = vec![];
    let t = run.thorough;
    // newtype structs: names x fields x the ways a definition can be written
    let vis = ["", "pub ", "pub(crate) "];
    let derives = [
        "#[derive(IntoAttribute)] ",
        "#[allow(dead_code)] #[derive(IntoAttribute)] #[doc = \"doc\"] ",
        "/** doc */ #[derive(IntoAttribute)] #[repr(transparent)] ",
    ];
    for (fi, (gen, ty, val, text)) in fields().iter().enumerate() {
        for (ni, (name, key)) in TYPES.iter().enumerate() {
            for v in 0..3 {
                for fv in 0..3 {
                    for (di, d) in derives.iter().enumerate() {
                        let first = ni == 0 || fi == 3;
                        if !(t || first && (v == fv || di == 0) || (v, fv, di) == (fi % 3, ni % 3, (fi + ni) % 3)) {
                            continue;
                        }
                        let wher = if *gen == "<T>" { " where T: Display" } else { "" };
                        let def = format!("{}{}struct {}{}({}{}){};", d, vis[v], name, gen, vis[fv], ty, wher);
                        o.push(case(
                            format!("newtype:{} {} {}{}{}", name, ty, v, fv, di),
                            def,
                            format!("{}({}).into_attr()", name, val),
                            format!("at({:?}, {:?})", key, text),
                        ));
                    }
                }
            }
        }
    }
    // in other places: modules, through the trait, in a list, through a generic function
    for (fi, (gen, ty, val, text)) in fields().iter().enumerate() {
        let (name, key) = TYPES[fi % TYPES.len()];
        let wher = if *gen == "<T>" { " where T: Display" } else { "" };
        for (w, expr) in [
            ("trait", format!("IntoAttribute::into_attr({}({}))", name, val)),
            ("method", format!("<{}<> as IntoAttribute>::into_attr({}({}))", name, name, val)),
            ("generic", format!("{{ fn g<T: IntoAttribute>(t: T) -> Attribute {{ t.into_attr() }} g({}({})) }}", name, val)),
            ("list", format!("node!(\"n\"; {}({}).into_attr()).attributes.remove(0)", name, val)),
        ] {
            if w == "method" && !gen.is_empty() {
                continue;
            }
            o.push(case(
                format!("{}:{} {}", w, name, ty),
                format!("#[derive(IntoAttribute)] struct {}{}({}){};", name, gen, ty, wher),
                expr,
                format!("at({:?}, {:?})", key, text),
            ));
        }
        o.push(case(
            format!("module:{} {}", name, ty),
            format!("mod m {{ use super::*; use dot_generator::*; use dot_structures::*; use into_attr::IntoAttribute; use into_attr_derive::IntoAttribute; use std::fmt::Display; #[derive(IntoAttribute)] pub struct {}{}(pub {}){}; }}", name, gen, ty, wher),
            format!("m::{}({}).into_attr()", name, val),
            format!("at({:?}, {:?})", key, text),
        ));
    }
    // enums: type names x variant lists x ways; every variant converted
    let mut lists: Vec<Vec<usize>> = (0..VARIANTS.len()).map(|i| vec![i]).collect();
    for i in 0..VARIANTS.len() {
        for j in 0..VARIANTS.len() {
            if i != j {
                lists.push(vec![i, j]);
            }
        }
    }
    if t {
        for i in 0..VARIANTS.len() {
            for j in 0..VARIANTS.len() {
                for k in 0..VARIANTS.len() {
                    if i != j && j != k && i != k {
                        lists.push(vec![i, j, k]);
                    }
                }
            }
        }
    }
    lists.push((0..VARIANTS.len()).collect());
    lists.push((0..VARIANTS.len()).rev().collect());
    for (li, l) in lists.iter().enumerate() {
        for w in 0..5 {
            if !t && l.len() == 2 && w != li % 5 || t && l.len() == 3 && w != li % 5 {
                continue;
            }
            for (ni, (name, key)) in TYPES.iter().enumerate() {
                if l.len() == 1 || ni == (li + w) % TYPES.len() || t && l.len() == 2 && w == 0 {
                    let vs: Vec<String> = l
                        .iter()
                        .enumerate()
                        .map(|(i, v)| match w {
                            1 => format!("{} = {}", VARIANTS[*v].0, 7 - i as i32 * 3),
                            2 => format!("#[doc = \"d\"] {}", VARIANTS[*v].0),
                            _ => VARIANTS[*v].0.to_string(),
                        })
                        .collect();
                    let d = match w {
                        0 => "#[derive(Debug, IntoAttribute)]",
                        1 => "#[derive(IntoAttribute, Debug)] #[repr(i16)] pub",
                        2 => "#[derive(Clone, Copy, Debug, PartialEq, IntoAttribute)] pub(crate)",
                        3 => "#[derive(Debug)] #[derive(IntoAttribute)] /** doc */",
                        _ => "#[derive(IntoAttribute)] #[derive(Debug)] #[allow(non_camel_case_types)] pub",
                    };
                    let got: Vec<String> = l.iter().map(|v| format!("{}::{}.into_attr()", name, VARIANTS[*v].0)).collect();
                    let want: Vec<String> = l.iter().map(|v| format!("at({:?}, {:?})", key, VARIANTS[*v].1)).collect();
                    o.push(case(
                        format!("enum:{} {:?} {}", name, l, w),
                        format!("{} enum {} {{ {}{} }}", d, name, vs.join(", "), if w % 2 == 0 { "," } else { "" }),
                        format!("vec![{}]", got.join(", ")),
                        format!("vec![{}]", want.join(", ")),
                    ));
                }
            }
        }
    }
    // many variants
    for n in [100usize, 300] {
        let vs: Vec<String> = (0..n).map(|i| format!("V{}_", i)).collect();
        o.push(case(
            format!("enum of {}", n),
            format!("#[derive(Debug, IntoAttribute)] enum many {{ {} }}", vs.join(", ")),
            format!("vec![{}]", vs.iter().map(|v| format!("many::{}.into_attr()", v)).collect::<Vec<_>>().join(", ")),
            format!("(0..{}).map(|i| at(\"many\", &format!(\"V{{}}\", i))).collect::<Vec<_>>()", n),
        ));
    }
    execute(run, PRE18, &o, 8);
    let steps = o.iter().map(|c| c.got.matches("into_attr").count() as u64).sum();
    finish16(run, &o, steps, "definitions: every field type x type name x visibility x attribute form, every list of variant names of the bound x type name x definition form, each compiled and converted");
    run.assume("the type is defined where dot_generator::*, dot_structures::* and IntoAttribute are in scope, and an enum's Debug form is the derived one, as the derive macro requires");
}
