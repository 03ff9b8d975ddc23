//! C04 (trivia), C05 (totality), C06 (history independence).
use crate::pcheck::*;
use crate::refdot::*;
use crate::run::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Mutex;

pub const TRIVIA: &[&str] = &[
    "", " ", "\t", "\n", "\r\n", "\r", "  ", "\n\n", " \t\r\n ", "/**/", "/* c */", "/*\n*/", "/*\r*/", "/***/", "/****/", "/* // */", "/* \" */", "/* } ] */",
    "/* a -- b; */", "//c\n", "// c\r\n", "//\n", "\n#c\n", "\n# c\r\n", "\n #c\n", "/*a*//*b*/", "//a\n//b\n", "\n#a\n#b\n", "// /* \n",
    "// \" {\n", "\n# \" { /* // \n", " /*é😀*/ ", "//😀é\n", "/*#*/", "/* *\\ / */", "/* /* */", "\n#\n", "// */\n", "//// x\n", "\t\t\t\t", "/*x*/\n", "\r\n\r\n", "//x\\\n", "/*x\\*/",
];
const FEW: &[&str] = &["", "\n", "\t ", "\r\n", "/*x*/", "/**/", "//c\n", "\n#c\n", "// \"{\n", "/*}*/ "];

pub const BASES: &[&str] = &[
    "strict digraph G { a ; b [ k = v ] ; }",
    "graph { a : p : ne -- b : n -- \"c\" : <h> [ x = 1 , y = -2.5 ; z = \"q\" ] [ w = <b> ] }",
    "digraph \"G g\" { graph [ a = b ] ; node [ c = d , ] edge [ ] e = f }",
    "graph <g> { subgraph s { a } subgraph { b } { c } ; { } }",
    "digraph { { a b } -> c -> { d } [ k = v ] ; e -> subgraph s { f } }",
    "graph { \"a\" + \"b\" ; k = \"c\" + \"d\" + \"\" ; n [ \"x\" + \"y\" = \"z\" + \"w\" ] }",
    "graph { 1 2.5 -3 .4 -.5 6. }",
    "graph 7 { a = 1 ; b : 2 : s ; 3 -- 4 [ 5 = 6 ] }",
    "digraph { a -> b -> c ; subgraph \"s\" { node [ k = v ] d } ; }",
    "strict graph { }",
    "graph { node [ a = b ] [ c = d ] n [ ] [ ] e -- f [ ] }",
    "graph { é -- 日 [ ñ = 😀 ] ; subgraph ж { } }",
    "graph { { a } -- { b } -- { { c } } }",
    "digraph { subgraph a { b } -> subgraph c { d } -> e [ k = v ] ; subgraph f { } }",
    "graph { nodes edges graphs subgraphs digraphs stricts }",
];

fn put(toks: &[Tok], gaps: &[&str]) -> String {
    let mut s = gaps[0].to_string();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(&t.text());
        s.push_str(gaps[i + 1]);
    }
    s
}

fn default_gaps(toks: &[Tok]) -> Vec<&'static str> {
    let mut g = vec![" "; toks.len() + 1];
    g[0] = "";
    *g.last_mut().unwrap() = "";
    g
}

/// The text must give the same tree as the plain rendering of the tokens.
fn same(run: &Run, slot: usize, t: &Tally, text: &str, toks: &[Tok], want: &Verdict) {
    match lex(text) {
        Some(l) if l.toks == toks && !l.lenient && !l.opaque => {
            check(run, slot, t, text, want);
        }
        // the tokens did not stay apart, or readers differ on this comment: whatever the reference says
        _ => {
            check_text(run, slot, t, text);
        }
    }
}

pub fn c04(run: &Run) {
    let t = Tally::default();
    let mut bases: Vec<Vec<Tok>> = BASES.iter().map(|b| lex(b).unwrap().toks).collect();
    let curated = bases.len();
    // all documents with short viable prefixes
    let more = Mutex::new(vec![]);
    let space = Space::new();
    for ids in [Ids::Unique, Ids::Rotate(1), Ids::Rotate(4)] {
        enumerate(run, run.q(5, 6), ids, &space, &|_, d| more.lock().unwrap().push(d.to_vec()));
    }
    let mut more = more.into_inner().unwrap();
    more.sort_by_key(|d| render_sp(d));
    more.dedup();
    bases.extend(more);
    run.count("base_documents", bases.len() as u64);
    // one gap deviates, every kind of trivia
    run.par(bases.len(), 1, |slot, i| {
        let toks = &bases[i];
        let want = judge(&render_sp(toks));
        let g0 = default_gaps(toks);
        for k in 0..=toks.len() {
            for tr in TRIVIA {
                let mut g = g0.clone();
                g[k] = tr;
                same(run, slot, &t, &put(toks, &g), toks, &want);
            }
        }
        // every gap the same
        for tr in TRIVIA {
            let g = vec![*tr; toks.len() + 1];
            same(run, slot, &t, &put(toks, &g), toks, &want);
        }
        // every gap another one
        for s in 0..TRIVIA.len() {
            let g: Vec<&str> = (0..=toks.len()).map(|k| TRIVIA[(k * 7 + s) % TRIVIA.len()]).collect();
            same(run, slot, &t, &put(toks, &g), toks, &want);
        }
    });
    // two gaps deviate
    let nb = run.q(curated, curated + 400);
    run.par(nb, 1, |slot, i| {
        let toks = &bases[i];
        let want = judge(&render_sp(toks));
        let few = run.q(FEW, TRIVIA);
        let few = if i < curated { few } else { FEW };
        for min in [false, true] {
            let mut g0 = default_gaps(toks);
            if min {
                for k in 1..toks.len() {
                    let wl = |t: &Tok| matches!(t, Tok::Id(dot_structures::Id::Plain(_)) | Tok::Kw(..));
                    g0[k] = if wl(&toks[k - 1]) && wl(&toks[k]) { " " } else { "" };
                }
            }
            for a in 0..=toks.len() {
                for b in a + 1..=toks.len() {
                    for x in few {
                        for y in few {
                            let mut g = g0.clone();
                            g[a] = x;
                            g[b] = y;
                            same(run, slot, &t, &put(toks, &g), toks, &want);
                        }
                    }
                }
            }
        }
    });
    // comments at the very end, without a line end
    for toks in &bases[..curated] {
        let want = judge(&render_sp(toks));
        for tail in ["//", "// x", "\n#", "\n# x", "/**/", "//\"", " // é", "\n//x\n//y", "\n"] {
            check(run, 0, &t, &format!("{}{}", render_sp(toks), tail), &want);
            check(run, 0, &t, &format!("{}{}", render_min(toks), tail), &want);
        }
        for head in ["//\n", "# x\n", "#\n#\n", "/*\n\n*/", "\n#x\n//y\n/*z*/", "#!x\n", "  # 1 \"file\"\n"] {
            check(run, 0, &t, &format!("{}{}", head, render_sp(toks)), &want);
        }
    }
    // letter case of keywords: every mask of every keyword, each keyword of each base document
    let case = |s: &str, mask: u32| -> String {
        s.chars()
            .enumerate()
            .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect()
    };
    let kwdocs: Vec<Vec<Tok>> = bases
        .iter()
        .take(run.q(curated + 500, bases.len()))
        .filter(|b| b.iter().any(|t| matches!(t, Tok::Kw(..))))
        .cloned()
        .collect();
    run.par(kwdocs.len(), 1, |slot, i| {
        let toks = &kwdocs[i];
        let want = judge(&render_sp(toks));
        for k in 0..toks.len() {
            if let Tok::Kw(kw, s) = &toks[k] {
                for mask in 0..1u32 << s.len() {
                    let mut x = toks.clone();
                    x[k] = Tok::Kw(*kw, case(s, mask));
                    check(run, slot, &t, &render_sp(&x), &want);
                    check(run, slot, &t, &render_min(&x), &want);
                }
            }
        }
        for mask in 0..256u32 {
            let x: Vec<Tok> = toks
                .iter()
                .map(|t| match t {
                    Tok::Kw(k, s) => Tok::Kw(*k, case(s, mask)),
                    t => t.clone(),
                })
                .collect();
            check(run, slot, &t, &render_sp(&x), &want);
        }
    });
    // separators and splits of attribute lists
    let m = run.q(4, 5);
    let owners = ["a", "a:p:n", "a -- b", "a -- {b} -- c", "node", "edge", "graph", "{x} -- y", "\"q\"", "<h>", "a -- \"q\"", "a:n", "subgraph s {x} -- y"];
    let keys = ["k", "\"q\"", "<h>", "1", "é"];
    let vals = ["v", "\"w\"", "<i>", "-2.5", "6."];
    run.par(owners.len(), 1, |slot, o| {
        for n in 1..=m {
            for rot in 0..5 {
                let attr = |i: usize| format!("{} = {}", keys[(i + rot) % 5], vals[(i + 2 * rot) % 5]);
                let plain = format!("graph {{ {} [ {} ] }}", owners[o], (0..n).map(attr).collect::<Vec<_>>().join(" "));
                let want = judge(&plain);
                assert!(matches!(want, Verdict::Valid(_)), "{}", plain);
                // after each attribute: separator x (stay | new bracket | empty bracket between)
                let choices = 3 * 3;
                let total = (choices as usize).pow(n as u32 - 1) * 3;
                for code in 0..total {
                    let mut c = code / 3;
                    let mut s = format!("graph {{ {} [", owners[o]);
                    for i in 0..n {
                        s.push_str(&attr(i));
                        if i + 1 < n {
                            s.push_str([" ", ",", " ; "][c % 3]);
                            c /= 3;
                            s.push_str(["", "][", "] [ ] ["][c % 3]);
                            c /= 3;
                        }
                    }
                    s.push_str(["", ",", ";"][code % 3]);
                    s.push_str("] }");
                    check(run, slot, &t, &s, &want);
                }
            }
        }
    });
    // semicolons between statements
    let stmts = [
        "a", "a:p:n", "a[k=v]", "a--b", "a--b[k=v]", "{b}", "subgraph s {a}", "k=v", "node[a=b]", "\"q\"", "<h>", "1", "a--{b}", "{a}--b", "k=\"v\"", "a--\"b\"",
        "graph[]", "a:n",
    ];
    let n = stmts.len();
    let depth = run.q(3, 4);
    run.par(n * n, 1, |slot, i| {
        let rest = n.pow(depth as u32 - 2);
        for j in 0..rest {
            let mut idx = vec![i % n, i / n];
            let mut j = j;
            for _ in 0..depth - 2 {
                idx.push(j % n);
                j /= n;
            }
            let plain = format!("graph {{ {} }}", idx.iter().map(|&k| stmts[k]).collect::<Vec<_>>().join(" "));
            let want = judge(&plain);
            assert!(matches!(want, Verdict::Valid(_)), "{}", plain);
            for mask in 0..1 << depth {
                for sep in [" ", "\n", ""] {
                    let mut s = "graph{".to_string();
                    for (k, &x) in idx.iter().enumerate() {
                        s.push_str(stmts[x]);
                        if mask >> k & 1 == 1 {
                            s.push(';');
                            s.push_str(sep);
                        } else {
                            s.push_str(if sep.is_empty() { " " } else { sep });
                        }
                    }
                    s.push('}');
                    check(run, slot, &t, &s, &want);
                }
            }
        }
    });
    // amounts of trivia
    let sizes = size_list(run.q(200, 800), &[1000, 1024, 4096, 65536]);
    run.par(sizes.len(), 1, |slot, i| {
        let n = sizes[i];
        let toks = lex(BASES[1]).unwrap().toks;
        let want = judge(BASES[1]);
        for tr in [" ", "\t", "\n", "\r\n", "/**/", "//\n", "\n#\n", "/*x*/ "] {
            let long = tr.repeat(n);
            for k in [0, 3, 5, 9, toks.len() - 1, toks.len()] {
                let mut g: Vec<&str> = default_gaps(&toks);
                g[k] = &long;
                same(run, slot, &t, &put(&toks, &g), &toks, &want);
            }
        }
        let c = format!("/*{}*/", "c ".repeat(n));
        let l = format!("//{}\n", "é".repeat(n));
        for k in 0..=toks.len() {
            for x in [&c, &l] {
                let mut g: Vec<&str> = default_gaps(&toks);
                g[k] = x;
                same(run, slot, &t, &put(&toks, &g), &toks, &want);
            }
        }
    });
    run.sample("graph{a[k=v][x=y]//c\n}");
    run.sample(put(&bases[1], &vec!["\n#c\n"; bases[1].len() + 1]));
    run.sample("gRaPH { sUbgRAPH { } }");
    let states = bases.iter().map(|b| b.len() as u64 + 1).sum::<u64>();
    run.count("gaps", states);
    space.put(run);
    t.put(run);
    run.note("trivia", format!("{} kinds in every gap; pairs of gaps in {} documents", TRIVIA.len(), nb));
    run.assume("a '#' comment counts only from the start of a line; a lone CR inside a line comment is left open");
}

// ------------------------------------------------------------------------------------------------
// C05

fn cpu_s() -> f64 {
    clock_s(libc::CLOCK_THREAD_CPUTIME_ID)
}
fn clock_s(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

pub const WRAPS: &[(&str, &str)] = &[
    ("{", "}"),
    ("subgraph{", "}"),
    ("subgraph s{", "}"),
    ("a--{", "}"),
    ("{", "}--a"),
    ("a--subgraph s{", "}--b[k=v]"),
    ("{a--b;", ";c}"),
    ("SubGraph \"q\" {x=y ", "}"),
    ("a:p:n--{b ", "}--{c}[k=v][x=y];"),
    ("{{", "}}"),
    ("{}--{", "}"),
    ("subgraph{a}--subgraph{", "}"),
];

pub const CORES: &[&str] = &[
    "", "a", "a[", "a[k", "a[k=", "a[k=v", "a=", "=", "a--", "--", "->", "]", "}", "{", "\"", "<", "a:", "a:b:", ";", ";;", "subgraph", "subgraph s", "node", "node[", "/*", "\"a\"+", "a,b", "+", "1a", "%", "edge --",
];

/// One text family for the deep and growth checks: (name, text for n).
pub fn deep(kind: usize, n: usize) -> Option<(String, String)> {
    let mut k = kind;
    // nested blocks with a core, closed or not
    let nest = WRAPS.len() * CORES.len() * 2;
    if k < nest {
        let w = WRAPS[k % WRAPS.len()];
        k /= WRAPS.len();
        let c = CORES[k % CORES.len()];
        let closed = k / CORES.len() == 0;
        let mut s = String::with_capacity(n * (w.0.len() + w.1.len()) + 40);
        s.push_str("graph{");
        for _ in 0..n {
            s.push_str(w.0);
        }
        s.push_str(c);
        if closed {
            for _ in 0..n {
                s.push_str(w.1);
            }
            s.push('}');
        }
        return Some((format!("nest {:?} core {:?} closed {}", w, c, closed), s));
    }
    k -= nest;
    // two wraps alternating
    let pairs = WRAPS.len() * WRAPS.len() * 3;
    if k < pairs {
        let a = WRAPS[k % WRAPS.len()];
        let b = WRAPS[k / WRAPS.len() % WRAPS.len()];
        let end = ["a", "a[", "}"][k / WRAPS.len() / WRAPS.len()];
        let mut s = "digraph{".to_string();
        for i in 0..n {
            s.push_str(if i % 2 == 0 { a.0 } else { b.0 });
        }
        s.push_str(end);
        for i in (0..n).rev() {
            s.push_str(if i % 2 == 0 { a.1 } else { b.1 });
        }
        s.push('}');
        return Some((format!("alternate {:?} {:?} core {:?}", a, b, end), s));
    }
    k -= pairs;
    let r = |x: &str| x.repeat(n);
    let f = vec![
        format!("graph{{a[l={}{}]}}", r("<"), r(">")),
        format!("graph{{a[l={}]}}", r("<")),
        format!("graph{{a[l=<{}>]}}", r("<a></a>")),
        format!("graph{{a[l={}x", r("<a")),
        format!("graph{{a[l={}>]}}", r("<>")),
        format!("graph{{a[{}]}}", r("k=v,")),
        format!("graph{{a[{}}}", r("k=v,")),
        format!("graph{{a[{}", r("k=v ")),
        format!("graph{{a{}}}", r("[k=v]")),
        format!("graph{{a{}[}}", r("[k=v]")),
        format!("graph{{a{}", r("[")),
        format!("graph{{{}}}", r("a--b ")),
        format!("graph{{{}=}}", r("a--b ")),
        format!("graph{{a{}}}", r("--b")),
        format!("graph{{a{}--}}", r("--b")),
        format!("graph{{a{}[k}}", r("--{b}")),
        format!("graph{{a{}}}", r(":p")),
        format!("graph{{\"a\"{}}}", r("+\"b\"")),
        format!("graph{{\"a\"{}+}}", r("+\"b\"")),
        format!("graph{{\"{}\"}}", r("\\\"")),
        format!("graph{{\"{}", r("\\\"")),
        format!("graph{{\"{}\\\"}}", r("\\\\")),
        format!("graph{{/*{}*/}}", r("*")),
        format!("graph{{/*{}}}", r("/*")),
        format!("graph{{{}}}", r("/**/")),
        format!("graph{{{}}}", r("//\n")),
        format!("graph{{{}}}", r("\n#")),
        format!("{}graph{{}}", r(" ")),
        format!("graph{{{}", r(" ")),
        format!("graph{{{}}}", r("subgraph ")),
        format!("graph{{{}}}", r("subgraph a ")),
        format!("graph{{{}}}", r("node ")),
        format!("graph{{{}}}", r("strict ")),
        format!("{}{{}}", r("graph ")),
        format!("{}{{}}", r("strict ")),
        format!("graph{{{}}}", r(";")),
        format!("graph{{{}}}", r("a;")),
        format!("graph{{a{}}}", r("=b")),
        format!("graph{{{}}}", r("a=b;")),
        format!("graph{{{}=}}", r("a=b;")),
        format!("graph{{{}}}", r("a")),
        format!("graph{{{}}}", r("1")),
        format!("graph{{{}}}", r("1.")),
        format!("graph{{{}}}", r("-")),
        format!("graph{{{}}}", r(".")),
        format!("graph{{{}}}", r("é")),
        format!("graph{{{}}}", r("\u{0}")),
        r("{"),
        r("}"),
        r("\""),
        r("<"),
        r("a"),
        r("graph{"),
        r("graph{}"),
        format!("graph{}", r("{}")),
        format!("graph{{{}}}", r("node[a=b]")),
        format!("graph{{node{}}}", r("[a=b]")),
        format!("graph{{node{}]}}", r("[a=b]")),
        format!("graph{{{}}}", r("subgraph s{a}")),
        format!("graph{{{}[}}", r("subgraph s{a}")),
        format!("graph{{{}}}", r("{a}--")),
        format!("graph{{{}}}", r("a:b:n--")),
    ];
    if k < f.len() {
        let s = f[k].clone();
        return Some((format!("family {} ({})", k, short(&s, 40)), s));
    }
    None
}

pub fn deep_kinds() -> usize {
    let mut n = 0;
    while deep(n, 1).is_some() {
        n += 1;
    }
    n
}

/// Child process: parse the families `from..to` at size n, on a thread with the given stack.
/// Prints the kind before each parse, so that the parent knows what killed it.
pub fn deep_child(args: &[String]) {
    child(args, &|k, n| {
        let (_, s) = deep(k, n)?;
        Some(Box::new(move || graphviz_rust::parse(&s).is_ok()))
    })
}

pub type Work<'a> = Box<dyn FnOnce() -> bool + 'a>;

/// Child process: do the work of the kinds `from..to` at size n; only the work itself is timed.
pub fn child(args: &[String], make: &(dyn Fn(usize, usize) -> Option<Work<'static>> + Sync)) {
    let a: Vec<usize> = args.iter().map(|x| x.parse().unwrap()).collect();
    let (from, to, n, stack) = (a[0], a[1], a[2], a[3]);
    let limit = a[4] as f64;
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    // what is being done, since which CPU time
    let now: Mutex<Option<(usize, f64)>> = Mutex::new(None);
    let all_cpu = || clock_s(libc::CLOCK_PROCESS_CPUTIME_ID);
    let now = &now;
    let work = move || {
        for k in from..to {
            let f = match make(k, n) {
                Some(x) => x,
                None => break,
            };
            println!("S {}", k);
            std::io::stdout().flush().unwrap();
            let c = cpu_s();
            *now.lock().unwrap() = Some((k, all_cpu()));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let d = cpu_s() - c;
            *now.lock().unwrap() = None;
            let w = match r {
                Ok(true) => "ok",
                Ok(false) => "err",
                Err(_) => "panic",
            };
            println!("E {} {} {:.3}", k, if d > limit { "slow" } else { w }, d);
        }
    };
    std::thread::scope(|s| {
        s.spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if let Some((k, c)) = *now.lock().unwrap() {
                let d = all_cpu() - c;
                if d > limit {
                    println!("E {} slow {:.3}", k, d);
                    std::io::stdout().flush().unwrap();
                    unsafe { libc::_exit(3) };
                }
            }
        });
        if stack == 0 {
            work();
        } else {
            std::thread::Builder::new().stack_size(stack).spawn_scoped(s, work).unwrap().join().unwrap();
        }
        println!("DONE");
        std::io::stdout().flush().unwrap();
        unsafe { libc::_exit(0) };
    });
}

pub fn run_deep(run: &Run, cmd: &str, what: &dyn Fn(usize, usize) -> (String, String), from: usize, to: usize, n: usize, stack: usize, limit: usize, oks: &AtomicU64, errs: &AtomicU64) {
    use std::process::{Command, Stdio};
    let mut at = from;
    while at < to && !run.stopped() {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .args([cmd, &at.to_string(), &to.to_string(), &n.to_string(), &stack.to_string(), &limit.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let pid = c.id() as i32;
        let killed = std::sync::Arc::new(AtomicU64::new(0));
        // no progress for too long: kill
        let progress = std::sync::Arc::new(AtomicU64::new(0));
        let done = std::sync::Arc::new(AtomicU64::new(0));
        let th = {
            let (killed, progress, done, stop) = (killed.clone(), progress.clone(), done.clone(), run.stop.clone());
            let budget = (limit as u64) * 4 + 10;
            std::thread::spawn(move || {
                let mut last = (0, std::time::Instant::now());
                while done.load(Relaxed) == 0 {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    if stop.load(Relaxed) {
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        return;
                    }
                    let p = progress.load(Relaxed);
                    if p != last.0 {
                        last = (p, std::time::Instant::now());
                    } else if last.1.elapsed().as_secs() > budget {
                        killed.store(1, Relaxed);
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        return;
                    }
                }
            })
        };
        let out = std::io::BufReader::new(c.stdout.take().unwrap());
        let mut cur: Option<usize> = None;
        let mut finished = false;
        let mut fail: Option<String> = None;
        for l in std::io::BufRead::lines(out).map_while(Result::ok) {
            progress.fetch_add(1, Relaxed);
            let p: Vec<&str> = l.split(' ').collect();
            match p[0] {
                "S" => cur = Some(p[1].parse().unwrap()),
                "E" => {
                    match p[2] {
                        "ok" => oks.fetch_add(1, Relaxed),
                        "err" => errs.fetch_add(1, Relaxed),
                        w => {
                            fail = Some(format!("{} after {} s of CPU time", w, p[3]));
                            let k: usize = p[1].parse().unwrap();
                            report_deep(run, cmd, what, k, n, stack, fail.as_deref().unwrap());
                            0
                        }
                    };
                    cur = None;
                    at = p[1].parse::<usize>().unwrap() + 1;
                }
                "DONE" => finished = true,
                _ => {}
            }
        }
        let st = c.wait().unwrap();
        done.store(1, Relaxed);
        let _ = th.join();
        if finished || run.stopped() {
            return;
        }
        match cur {
            Some(k) => {
                let why = if killed.load(Relaxed) == 1 {
                    "did not return".to_string()
                } else {
                    format!("process died: {}", st)
                };
                report_deep(run, cmd, what, k, n, stack, &why);
                at = k + 1;
            }
            // it gave up on a slow one
            None if st.code() == Some(3) && fail.is_some() => {}
            None => {
                eprintln!("deep child ended early: {} {:?}", st, fail);
                std::process::exit(2);
            }
        }
    }
}

fn report_deep(run: &Run, cmd: &str, what: &dyn Fn(usize, usize) -> (String, String), k: usize, n: usize, stack: usize, why: &str) {
    let (name, s) = what(k, n);
    run.violation(
        &format!("{}:{}:{}", cmd, name, n),
        &format!("{} repeated {} times on a stack of {} bytes: {}", name, n, stack, why),
        &if s.len() < 100000 { s } else { format!("mc {} {} {} {} {} 60", cmd, k, k + 1, n, stack) },
    );
}

pub fn c05(run: &Run) {
    let t = Tally::default();
    let any = Verdict::Lenient(None);
    // 1. every short text
    let ch: Vec<&str> = vec![
        "a", " ", "{", "}", "[", "]", "=", ";", ",", ":", "->", "--", "<", ">", "\"", "+", "1", ".", "/*", "*/", "//", "#", "\n", "\\", "é", "-", "graph", "subgraph", "node", "strict", "n", "\u{0}", "digraph", "edge",
    ];
    let ctx: Vec<(&str, &str)> = vec![("", ""), ("graph{", "}"), ("digraph{a[", "]}"), ("graph{a:", ""), ("graph{{a--", "}}"), ("graph{\"", "}")];
    let k = run.q(4, 5);
    let n = ch.len();
    let total: usize = (0..=k).map(|j| n.pow(j as u32)).sum();
    run.par(total, 1024, |slot, i| {
        let mut i = i;
        let mut len = 0;
        while i >= n.pow(len as u32) {
            i -= n.pow(len as u32);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(ch[i % n]);
            i /= n;
        }
        for (a, b) in &ctx {
            check(run, slot, &t, &format!("{}{}{}", a, s, b), &any);
        }
    });
    run.note("alphabet", format!("strings of <= {} of {} pieces in {} contexts", k, n, ctx.len()));
    // 2. every character of Unicode
    run.par(0x110000, 4096, |slot, c| {
        if let Some(c) = char::from_u32(c as u32) {
            for d in [format!("{}", c), format!("graph{{a{}", c), format!("graph{{\"\\{}", c), format!("graph{{<{}", c), format!("graph{{a:b:{}}}", c)] {
                check(run, slot, &t, &d, &any);
            }
        }
    });
    // 3. every truncation and one-character deletion of larger documents
    let docs: Vec<String> = BASES.iter().map(|s| s.to_string()).chain(sized(3)).chain(WORDS.iter().flat_map(|w| roles(w))).collect();
    run.par(docs.len(), 1, |slot, i| {
        let d = &docs[i];
        for (k, c) in d.char_indices() {
            check(run, slot, &t, &d[..k], &any);
            check(run, slot, &t, &d[k..], &any);
            check(run, slot, &t, &format!("{}{}", &d[..k], &d[k + c.len_utf8()..]), &any);
            check(run, slot, &t, &format!("{}{}{}", &d[..k], c, &d[k..]), &any);
        }
    });
    // rejected texts of every length and alignment: long lines before, at and after the error
    let lens = run.q(1100, 4200);
    let fill = ["é", "日", "😀", "a", "\n", "\"q\" ", "a;é\n", "\r", "\t", "a\u{301}", "\u{0}", "é ", "日\r\n"];
    run.par(lens, 4, |slot, n| {
        let pad = ["", "a", "ab", "abc"];
        for f in fill {
            let k = n / f.len();
            let body = format!("{}{}", pad[n % f.len().min(4)], f.repeat(k));
            for d in [format!("graph{{{}", body), format!("graph{{[{}", body), format!("graph{{a[{}=\"}}", body), format!("{}{{", body), format!("graph{{\"{}\" ]}}", body), format!("graph{{<{}> = }}", body), format!("graph{{}} {}", body), format!("graph{{ ] {}\n}}", body), format!("graph{{/*{}*/\n]{}", body, body)] {
                check(run, slot, &t, &d, &any);
            }
        }
    });
    // 4. depth and growth: every family, on main and thread stacks, each parse bounded in CPU time
    let kinds = deep_kinds();
    run.count("families", kinds as u64);
    let oks = AtomicU64::new(0);
    let errs = AtomicU64::new(0);
    let mut jobs: Vec<(usize, usize, usize, usize, usize)> = vec![];
    let two_mb = 2 << 20;
    let step = kinds.div_ceil(8);
    let mut plan: Vec<(usize, usize, usize)> = vec![
        // size, stack, CPU seconds for one parse; what explodes does so soon
        (32, two_mb, 5),
        (1, two_mb, 5),
        (2, two_mb, 5),
        (3, two_mb, 5),
        (8, two_mb, 5),
        (16, two_mb, 5),
        (24, two_mb, 5),
        (48, two_mb, 5),
        (64, two_mb, 5),
        (100, two_mb, 5),
        (200, two_mb, 10),
        (1000, two_mb, 20),
        (4000, two_mb, 40),
    ];
    if run.thorough {
        plan.extend([(5, two_mb, 5), (40, two_mb, 5), (500, two_mb, 10), (2000, two_mb, 20), (10000, two_mb, 60), (20000, 0, 60), (100000, two_mb, 100), (1000000, 0, 200)]);
    } else {
        plan.extend([(20000, two_mb, 60)]);
    }
    for (n, stack, lim) in &plan {
        let mut a = 0;
        while a < kinds {
            jobs.push((a, (a + step).min(kinds), *n, *stack, *lim));
            a += step;
        }
    }
    run.par(jobs.len(), 1, |_, i| {
        let j = jobs[i];
        run_deep(
            run,
            "deep",
            &|k, n| {
                let (name, s) = deep(k, n).unwrap();
                (format!("parse of {}", name), s)
            },
            j.0, j.1, j.2, j.3, j.4, &oks, &errs,
        );
    });
    run.count("deep_ok", oks.load(Relaxed));
    run.count("deep_err", errs.load(Relaxed));
    run.note("deep_sizes", format!("{:?} (size, thread stack in bytes or 0 for the main thread, CPU seconds allowed)", plan));
    run.sample(deep(3, 4).unwrap().1);
    run.sample(deep(500, 4).unwrap().1);
    run.count("states", total as u64 + kinds as u64 * plan.len() as u64);
    run.count("transitions", t.docs.load(Relaxed) + oks.load(Relaxed) + errs.load(Relaxed));
    run.count("documents", t.docs.load(Relaxed));
    run.count("traces_validated_against_impl", t.docs.load(Relaxed) + oks.load(Relaxed) + errs.load(Relaxed));
    run.assume("growth is judged by a CPU time limit per parse at sizes up to the listed ones, far above polynomial cost and far below exponential cost");
}

// ------------------------------------------------------------------------------------------------
// C06

/// Outcome of one parse, anonymous ids taken out. The clock stands still all the while: ids must
/// be distinct however coarse it is.
pub fn outcome(doc: &str) -> (String, Vec<String>) {
    match std::panic::catch_unwind(|| crate::clock::still(|| graphviz_rust::parse(doc))) {
        Err(_) => ("panic".into(), vec![]),
        Ok(Err(e)) => (format!("Err {}", e), vec![]),
        Ok(Ok(g)) => (format!("{:?}", norm(&g)), anon_ids(&g)),
    }
}

/// Child: outcome of one document in a fresh process.
pub fn one_child(args: &[String]) {
    let doc = std::fs::read_to_string(&args[0]).unwrap();
    print!("{}", outcome(&doc).0);
}

struct Worker {
    tx: Sender<(usize, bool)>,
    rx: Receiver<(String, Vec<String>)>,
}

pub fn c06(run: &Run) {
    let docs: Vec<String> = vec![
        "digraph G { a -> b }".into(),
        "digraph G { a -> c }".into(),
        "graph G { a -- b }".into(),
        "strict graph { a }".into(),
        "graph { { a } subgraph { b } { { c } } }".into(),
        "digraph { a -> { b } -> { c } }".into(),
        "graph G { a -- }".into(),
        "graph {".into(),
        "".into(),
        "graph { a [ k = <b<i>c> , \"x\" = \"y\\\"z\" ] é }".into(),
        "/* c */ graph { // d\n }".into(),
        "graph { a /* }".into(),
        "graph { node [ a = b ] edge [ ] x:p:ne -- y:n }".into(),
        "graph { a \"b".into(),
        // longer ones: with anonymous parts, well-formed or broken at the end
        format!("graph {{ {} }}", (0..12).map(|i| format!("{{ node_{} subgraph {{ x }} }}", i)).collect::<Vec<_>>().join(" ")),
        format!("digraph {{ {} ", (0..30).map(|i| format!("n{} -> {{ m{} }};", i, i)).collect::<Vec<_>>().join(" ")),
    ];
    let n = docs.len();
    // expectation: a fresh process for each document
    let dir = scratch("c06");
    let fresh: Vec<String> = docs
        .iter()
        .enumerate()
        .map(|(i, d)| {
            let p = format!("{}/{}", dir, i);
            std::fs::write(&p, d).unwrap();
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["one", &p]).output().unwrap();
            String::from_utf8_lossy(&o.stdout).to_string()
        })
        .collect();
    rm_scratch(&dir);
    let seen: Mutex<HashMap<String, String>> = Mutex::new(HashMap::new());
    let steps = AtomicU64::new(0);
    let states: Mutex<HashSet<Vec<usize>>> = Mutex::new(HashSet::new());
    let judge_one = |hist: &[(usize, usize)], doc: usize, o: (String, Vec<String>)| {
        steps.fetch_add(1, Relaxed);
        if o.0 != fresh[doc] {
            run.violation(
                &format!("history:{:?}", hist),
                &format!("after history {:?} (document, thread) parse of {:?} gave {} but alone it gives {}", hist, docs[doc], short(&o.0, 200), short(&fresh[doc], 200)),
                &format!("{:?}", hist.iter().map(|h| (&docs[h.0], h.1)).collect::<Vec<_>>()),
            );
        }
        if !o.1.is_empty() {
            let mut s = seen.lock().unwrap();
            for a in o.1 {
                let here = format!("document {:?} in history {:?}", docs[doc], hist);
                if let Some(old) = s.insert(a.clone(), here.clone()) {
                    run.violation(
                        &format!("anon:{:?}", docs[doc]),
                        &format!("anonymous id {:?} given twice: {} and {}", a, old, here),
                        &format!("{:?}", hist.iter().map(|h| (&docs[h.0], h.1)).collect::<Vec<_>>()),
                    );
                }
            }
        }
    };
    // sequences of parses, each on one of the threads; one step at a time
    let depth = run.q(3, 4);
    let threads = 3;
    let total = (n * threads).pow(depth as u32) / threads; // the first thread is the same up to renaming
    let docs2 = docs.clone();
    run.par(8, 1, |_, w| {
        // a private set of worker threads for this explorer thread
        let mk = || {
            let (tx, rx1) = channel::<(usize, bool)>();
            let (tx2, rx) = channel();
            let docs = docs2.clone();
            let h = std::thread::spawn(move || {
                while let Ok((d, print)) = rx1.recv() {
                    let o = outcome(&docs[d]);
                    if print {
                        if let Ok(g) = graphviz_rust::parse(&docs[d]) {
                            let mut c = graphviz_rust::printer::PrinterContext::default();
                            let _ = graphviz_rust::print(g, &mut c);
                        }
                    }
                    if tx2.send(o).is_err() {
                        break;
                    }
                }
            });
            (Worker { tx, rx }, h)
        };
        let mut ws: Vec<_> = (0..threads).map(|_| mk()).collect();
        let mut local = HashSet::new();
        let mut i = w;
        while i < total && !run.stopped() {
            let mut x = i;
            let mut hist: Vec<(usize, usize)> = vec![];
            for s in 0..depth {
                let d = x % n;
                x /= n;
                let th = if s == 0 { 0 } else { x % threads };
                if s > 0 {
                    x /= threads;
                }
                hist.push((d, th));
            }
            // fresh threads now and then, so that thread-local state starts anew
            if i % 64 < 8 {
                ws = (0..threads).map(|_| mk()).collect();
            }
            for s in 0..depth {
                let (d, th) = hist[s];
                ws[th].0.tx.send((d, s % 2 == 0)).unwrap();
                let o = ws[th].0.rx.recv().unwrap();
                judge_one(&hist[..=s], d, o);
                local.insert(hist[..=s].iter().map(|h| h.0 * 4 + h.1).collect::<Vec<_>>());
            }
            i += 8;
        }
        states.lock().unwrap().extend(local);
        for (wk, h) in ws {
            drop(wk.tx);
            let _ = h.join();
        }
    });
    run.count("states", states.lock().unwrap().len() as u64);
    run.count("histories", total as u64);
    // fresh thread for every call: first use of thread-local state, every document twice
    for round in 0..run.q(40, 200) {
        for d in 0..n {
            let doc = docs[d].clone();
            let o = std::thread::spawn(move || outcome(&doc)).join().unwrap();
            judge_one(&[(d, 100 + round)], d, o);
        }
    }
    // every ordered pair of a larger set of documents, and every triple A B A
    let space = Space::new();
    let more: Mutex<Vec<String>> = Mutex::new(vec![]);
    enumerate(run, run.q(5, 6), Ids::Same, &space, &|_, d| more.lock().unwrap().push(render_sp(d)));
    let mut more = more.into_inner().unwrap();
    more.sort();
    more.dedup();
    more.extend(BASES.iter().map(|s| s.to_string()));
    let bad: Vec<String> = more.iter().step_by(3).map(|d| d[..d.len() - 1].to_string()).collect();
    more.extend(bad);
    let m = more.len();
    let stride = (m / run.q(600, 2500)).max(1);
    let more: Vec<String> = more.into_iter().step_by(stride).collect();
    let m = more.len();
    let base: Vec<String> = more.iter().map(|d| outcome(d).0).collect();
    let ids: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
    run.par(m, 1, |_, i| {
        let mut mine = vec![];
        for j in 0..m {
            for (k, which) in [(i, 0), (j, 1), (i, 2)] {
                let o = outcome(&more[k]);
                steps.fetch_add(1, Relaxed);
                if o.0 != base[k] {
                    run.violation(
                        &format!("pair:{}:{}", i, j),
                        &format!("parse number {} of the sequence {:?}, {:?}, {:?} changed its result: {} / {}", which, more[i], more[j], more[i], short(&o.0, 200), short(&base[k], 200)),
                        &format!("{:?}", [&more[i], &more[j], &more[i]]),
                    );
                }
                mine.extend(o.1);
            }
        }
        let mut s = ids.lock().unwrap();
        if s.len() < 4_000_000 {
            for a in mine {
                if !s.insert(a.clone()) {
                    run.violation("anon-pairs", &format!("anonymous id {:?} given twice (documents near {:?})", a, more[i]), &more[i]);
                }
            }
        }
    });
    // the same text again and again, another one in between or not, for every size of it
    let fine: Vec<usize> = (0..run.q(600, 3000)).chain([1 << 12, 1 << 14, 1 << 16]).collect();
    let repeated = Mutex::new(HashSet::new());
    run.par(fine.len(), 8, |slot, i| {
        let _ = slot;
        let n = fine[i];
        let pad = "x".repeat(n);
        let many = format!("digraph {{ {} }}", "{a}->subgraph{b};".repeat(n.min(300)));
        for d in [format!("graph {{ {{ a{} }} subgraph {{ b }} }}", pad), format!("graph {{ {{ a }} /*{}*/ }}", pad), format!("strict digraph {{{} a -> {{ }} [k=\"{}\"] }}", "\n".repeat(n % 7), pad), format!("graph {{ {{ a {} ", pad), many] {
            let first = outcome(&d);
            let mut mine = first.1.clone();
            for step in ["again", "again", "graph { { q } }", "again", "graph {", "again", "again"] {
                if step != "again" {
                    mine.extend(outcome(step).1);
                    continue;
                }
                let o = outcome(&d);
                steps.fetch_add(1, Relaxed);
                if o.0 != first.0 {
                    run.violation(&format!("again:{}", short(&d, 60)), &format!("parse of {:?} gave {} and then {}", short(&d, 200), short(&first.0, 200), short(&o.0, 200)), &d);
                }
                mine.extend(o.1);
            }
            let mut s = repeated.lock().unwrap();
            for a in mine {
                if !s.insert(a.clone()) {
                    run.violation(&format!("anon-again:{}", short(&d, 60)), &format!("anonymous id {:?} given twice when {:?} is parsed repeatedly", a, short(&d, 200)), &d);
                    return;
                }
            }
        }
    });
    run.count("repeated_texts", 5 * fine.len() as u64);
    // long lists of everything, parsed again and again: always the same result, in the same order
    let many: Vec<String> = run.q((1..=40).chain([64, 65, 100, 128, 129, 256, 257]).collect::<Vec<usize>>(), (1..=300).chain([512, 513, 1000]).collect()).into_iter().flat_map(sized).collect();
    run.par(many.len(), 4, |slot, i| {
        let _ = slot;
        let d = &many[many.len() - 1 - i];
        let first = outcome(d);
        let want = match judge(d) {
            Verdict::Valid(g) => Some(format!("{:?}", norm(&g))),
            _ => None,
        };
        for k in 0..3 {
            let o = if k == 2 { std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || outcome(d)).unwrap().join().unwrap()) } else { outcome(d) };
            steps.fetch_add(1, Relaxed);
            if o.0 != first.0 || want.as_ref().is_some_and(|w| *w != o.0) {
                run.violation(&format!("same:{}", short(d, 60)), &format!("parse of {:?} gave {} and then {}", short(d, 200), short(&first.0, 200), short(&o.0, 200)), d);
                break;
            }
        }
    });
    run.count("long_lists", many.len() as u64);
    // a small text after a large one, on the same thread, for every size of the large one
    let mut sizes: Vec<usize> = vec![];
    for k in 4..run.q(21, 25) {
        sizes.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
    }
    let mut small: Vec<(String, String)> = docs.iter().cloned().zip(fresh.iter().cloned()).collect();
    for d in ["graph{}", "digraph{}", "graph{a}", "graph{a--b}", "strict graph{}", "graph{{}}", "graph{a[b=c]}", "graph g{}", "graph{a=b}", "graph{\"\"}", "graph{<>}"] {
        match judge(d) {
            Verdict::Valid(g) => small.push((d.to_string(), format!("{:?}", norm(&g)))),
            v => panic!("{} {:?}", d, v),
        }
    }
    run.par(sizes.len(), 1, |slot, i| {
        let _ = slot;
        let n = sizes[sizes.len() - 1 - i];
        let big = [
            format!("graph {{ /*{}*/ }}", "x".repeat(n)),
            format!("strict digraph {{ a [ k = \"{}\" ] {{ b }} }}", "x".repeat(n)),
            format!("graph {{ {} }}", "a;".repeat(n / 2)),
            format!("graph {{ {} ", "{ a } \n".repeat(n / 7)),
            format!("strict graph {{ {}", "[".repeat(n.min(3000))),
            "}".repeat(n),
            " ".repeat(n),
        ];
        // a fresh thread: what a thread remembers is of this history only
        std::thread::scope(|s| {
            for b in &big {
                let small = &small;
                let (seen, steps) = (&seen, &steps);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        for (doc, want) in small.iter().skip(if n > 40_000 { i % 7 } else { 0 }).step_by(if n > 40_000 { 7 } else { 1 }) {
                            let _ = std::panic::catch_unwind(|| graphviz_rust::parse(b).is_ok());
                            let o = outcome(doc);
                            steps.fetch_add(1, Relaxed);
                            if o.0 != *want {
                                run.violation(
                                    &format!("after {} bytes", b.len()),
                                    &format!("after {:?} ({} bytes) parse of {:?} gave {} but alone it gives {}", short(b, 60), b.len(), doc, short(&o.0, 200), short(want, 200)),
                                    &format!("{}\n{}", b, doc),
                                );
                                return;
                            }
                            let mut s = seen.lock().unwrap();
                            for a in o.1 {
                                if let Some(old) = s.insert(a.clone(), format!("document {:?} after one of {} bytes", doc, b.len())) {
                                    run.violation(&format!("anon:{:?}", doc), &format!("anonymous id {:?} given twice: {} and document {:?} after one of {} bytes", a, old, doc, b.len()), doc);
                                }
                            }
                        }
                    })
                    .unwrap()
                    .join()
                    .unwrap();
            }
        });
    });
    run.count("large_before_small", 7 * sizes.len() as u64);
    // ids of one document with many anonymous parts, and ids of several threads at once
    let big = format!("graph {{ {} }}", "{ a }".repeat(run.q(20000, 100000)));
    let all: Mutex<Vec<String>> = Mutex::new(vec![]);
    run.par(8, 1, |_, _| {
        let o = outcome(&big);
        all.lock().unwrap().extend(o.1);
    });
    let mut all = all.into_inner().unwrap();
    let k = all.len();
    all.sort();
    all.dedup();
    if all.len() != k {
        run.violation("anon-big", &format!("{} of {} anonymous ids of one large document parsed by 8 threads are not distinct", k - all.len(), k), "graph { { a }{ a }... }");
    }
    run.count("anonymous_ids", k as u64 + seen.lock().unwrap().len() as u64 + ids.lock().unwrap().len() as u64);
    run.count("transitions", steps.load(Relaxed));
    run.count("traces_validated_against_impl", steps.load(Relaxed));
    run.count("pair_documents", m as u64);
    run.sample(format!("{:?}", [(&docs[4], 0), (&docs[6], 1), (&docs[4], 2)]));
    run.sample(format!("{:?}", [&more[1], &more[m / 2], &more[1]]));
    // two calls at the same time, stopped between instructions
    crate::race::all(run);
    run.assume("two calls that run at the same time are stopped before every instruction that touches static memory or memory atomically (thorough: both of them); memory that safe Rust cannot share is not a scheduling point");
}

pub fn scratch(name: &str) -> String {
    let d = format!("{}/mc-{}-{}", std::env::temp_dir().display(), name, std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn rm_scratch(d: &str) {
    assert!(d.contains("/mc-"));
    let _ = std::fs::remove_dir_all(d);
}

/// The word ids: every word that is an id by the grammar of DOT.
pub fn words() -> Vec<dot_structures::Id> {
    use dot_structures::{Graph, Stmt};
    let one = |w: &&&str| match judge(&format!("graph{{{}}}", w)) {
        Verdict::Valid(Graph::Graph { stmts, .. }) => matches!(stmts.as_slice(), [Stmt::Node(n)] if n.id.1.is_none() && n.id.0 == crate::shapes::word(w)),
        _ => false,
    };
    WORDS.iter().filter(one).map(|w| crate::shapes::word(w)).collect()
}
