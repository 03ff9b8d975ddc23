//! C08: libcgraph, the library Graphviz itself reads DOT with, as the judge of printed text.
use crate::pcheck::{self, Ids, WORDS};
use crate::pcheck2::BASES;
use crate::pr::{self, ctx, safe, Plan};
use crate::refdot::{self, Verdict};
use crate::refprint::{self, Cfg};
use crate::run::*;
use crate::shapes::{self, Names};
use graphviz_rust::printer::DotPrinter;
use libc::{c_char, c_int, c_void, FILE};
use std::cell::RefCell;
use std::ffi::{CStr, CString};
use std::io::{BufRead, BufReader};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};

type P = *mut c_void;
macro_rules! api {
    ($($n:ident ( $($a:ty),* ) $(-> $r:ty)?;)*) => {
        #[allow(dead_code)]
        pub struct Cgraph { $($n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Cgraph {
            unsafe fn bind(h: P) -> Cgraph {
                Cgraph { $($n: std::mem::transmute(sym(h, stringify!($n))),)* }
            }
        }
    };
}
api! {
    agread(*mut FILE, P) -> P;
    agclose(P) -> c_int;
    agreseterrors() -> c_int;
    agsetfile(*const c_char);
    agseterrf(unsafe extern "C" fn(*mut c_char) -> c_int) -> P;
    agnameof(P) -> *const c_char;
    agisdirected(P) -> c_int;
    agisstrict(P) -> c_int;
    agfstnode(P) -> P;
    agnxtnode(P, P) -> P;
    agfstout(P, P) -> P;
    agnxtout(P, P) -> P;
    agfstsubg(P) -> P;
    agnxtsubg(P) -> P;
    agnxtattr(P, c_int, P) -> P;
    agxget(P, P) -> *const c_char;
    aghtmlstr(*const c_char) -> c_int;
}
unsafe fn sym(h: P, n: &str) -> P {
    let n = CString::new(n).unwrap();
    let p = libc::dlsym(h, n.as_ptr());
    assert!(!p.is_null(), "no {:?} in libcgraph", n);
    p
}
/// Agsym_t: two link pointers, name, default value.
#[repr(C)]
struct Sym {
    link: [P; 2],
    name: *const c_char,
    defval: *const c_char,
}
const AGRAPH: c_int = 0;
const AGNODE: c_int = 1;
/// an out edge; agnxtattr takes it as the kind of edges too
const AGEDGE: c_int = 2;
/// Agedge_t: the object (tag 16 bytes, data pointer), two sequence/id links (16 bytes each), node.
unsafe fn head(e: P) -> P {
    *((e as *const u8).add(24 + 32) as *const P)
}

unsafe extern "C" fn quiet(_: *mut c_char) -> c_int {
    ERRORS.fetch_add(1, Relaxed);
    0
}
static ERRORS: AtomicU64 = AtomicU64::new(0);

impl Cgraph {
    pub fn load() -> Option<Cgraph> {
        unsafe {
            let h = libc::dlopen(c"libcgraph.so.6".as_ptr(), libc::RTLD_NOW);
            if h.is_null() {
                return None;
            }
            let c = Cgraph::bind(h);
            (c.agseterrf)(quiet);
            Some(c)
        }
    }
    unsafe fn text(&self, s: *const c_char, o: &mut String) {
        if s.is_null() {
            o.push_str("(none)");
            return;
        }
        o.push_str(if (self.aghtmlstr)(s) != 0 { "html" } else { "" });
        o.push_str(&format!("{:?} ", CStr::from_ptr(s).to_string_lossy()));
    }
    unsafe fn attrs(&self, root: P, kind: c_int, obj: P, o: &mut String) {
        o.push('[');
        let mut a = (self.agnxtattr)(root, kind, std::ptr::null_mut());
        while !a.is_null() {
            self.text((*(a as *const Sym)).name, o);
            o.push('=');
            self.text((self.agxget)(obj, a), o);
            a = (self.agnxtattr)(root, kind, a);
        }
        o.push(']');
    }
    unsafe fn defaults(&self, g: P, o: &mut String) {
        for kind in [AGRAPH, AGNODE, AGEDGE] {
            o.push_str(["graph(", "node(", "edge("][kind as usize]);
            let mut a = (self.agnxtattr)(g, kind, std::ptr::null_mut());
            while !a.is_null() {
                self.text((*(a as *const Sym)).name, o);
                o.push('=');
                self.text((*(a as *const Sym)).defval, o);
                a = (self.agnxtattr)(g, kind, a);
            }
            o.push(')');
        }
    }
    /// A form that does not depend on where strings happen to lie in memory (agwrite's does).
    unsafe fn dump(&self, root: P, g: P, o: &mut String) {
        self.defaults(g, o);
        self.attrs(root, AGRAPH, g, o);
        o.push_str(" {");
        let mut n = (self.agfstnode)(g);
        while !n.is_null() {
            self.text((self.agnameof)(n), o);
            if g == root {
                self.attrs(root, AGNODE, n, o);
            }
            let mut e = (self.agfstout)(g, n);
            while !e.is_null() {
                o.push_str("-> ");
                self.text((self.agnameof)(head(e)), o);
                o.push_str("key ");
                self.text((self.agnameof)(e), o);
                self.attrs(root, AGEDGE, e, o);
                e = (self.agnxtout)(g, e);
            }
            o.push_str("; ");
            n = (self.agnxtnode)(g, n);
        }
        let mut subs = vec![];
        let mut s = (self.agfstsubg)(g);
        while !s.is_null() {
            let name = CStr::from_ptr((self.agnameof)(s)).to_string_lossy().to_string();
            // anonymous subgraphs are numbered in the order in which they were read
            match name.strip_prefix('%').and_then(|x| x.parse::<u64>().ok()) {
                Some(n) => subs.push((0, n, String::new(), s)),
                None => subs.push((1, 0, name, s)),
            }
            s = (self.agnxtsubg)(s);
        }
        subs.sort_by(|a, b| (a.0, a.1, &a.2).cmp(&(b.0, b.1, &b.2)));
        for (_, _, name, s) in subs {
            o.push_str("subgraph ");
            o.push_str(&format!("{:?} ", name));
            self.dump(root, s, o);
        }
        o.push_str("} ");
    }
    /// The graph Graphviz reads from a text, in its own canonical form.
    pub fn canon(&self, text: &str) -> Result<String, String> {
        if text.contains('\0') || text.is_empty() {
            return Err("not a C string".into());
        }
        unsafe {
            (self.agsetfile)(c"t".as_ptr());
            ERRORS.store(0, Relaxed);
            (self.agreseterrors)();
            let f = libc::fmemopen(text.as_ptr() as *mut c_void, text.len(), c"r".as_ptr());
            assert!(!f.is_null());
            let g = (self.agread)(f, std::ptr::null_mut());
            if g.is_null() || ERRORS.load(Relaxed) > 0 {
                if !g.is_null() {
                    (self.agclose)(g);
                }
                // the scanner keeps what it has read of the text, let it run to the end
                loop {
                    let g = (self.agread)(f, std::ptr::null_mut());
                    if g.is_null() {
                        break;
                    }
                    (self.agclose)(g);
                }
                libc::fclose(f);
                return Err("Graphviz reports a syntax error".into());
            }
            let mut s = String::new();
            if (self.agisstrict)(g) != 0 {
                s.push_str("strict ");
            }
            s.push_str(if (self.agisdirected)(g) != 0 { "digraph " } else { "graph " });
            let name = CStr::from_ptr((self.agnameof)(g)).to_string_lossy().to_string();
            if !name.starts_with('%') {
                self.text((self.agnameof)(g), &mut s);
            }
            self.dump(g, g, &mut s);
            (self.agclose)(g);
            let more = (self.agread)(f, std::ptr::null_mut());
            let bad = !more.is_null() || ERRORS.load(Relaxed) > 0;
            if !more.is_null() {
                (self.agclose)(more);
            }
            libc::fclose(f);
            if bad {
                return Err("Graphviz finds more after the graph".into());
            }
            Ok(s)
        }
    }
}

thread_local! {
    static CG: Cgraph = Cgraph::load().expect("libcgraph.so.6");
    static LAST: RefCell<(String, Result<String, String>)> = RefCell::new((String::new(), Err(String::new())));
}

pub fn c08(run: &Run) {
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    if Cgraph::load().is_none() {
        panic!("libcgraph.so.6 is not there");
    }
    let exe = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..workers)
        .map(|k| {
            Command::new(&exe)
                .args(["C08", if run.thorough { "thorough" } else { "quick" }, &k.to_string(), &workers.to_string()])
                .stdout(Stdio::piped())
                .spawn()
                .unwrap()
        })
        .collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = kids
            .into_iter()
            .map(|mut k| {
                s.spawn(move || {
                    let out = BufReader::new(k.stdout.take().unwrap());
                    for l in out.lines() {
                        let l = l.unwrap_or_default();
                        let p: Vec<&str> = l.split('\t').collect();
                        match p.as_slice() {
                            ["COUNT", k, v] => run.count(k, v.parse().unwrap()),
                            ["SAMPLE", t] => run.sample(unesc(t)),
                            ["V", a, b, c] => run.violation(&unesc(a), &unesc(b), &unesc(c)),
                            _ => println!("{}", l),
                        }
                    }
                    k.wait().unwrap()
                })
            })
            .collect();
        for h in hs {
            let st = h.join().unwrap();
            if !matches!(st.code(), Some(0) | Some(1)) {
                panic!("a worker ended with {:?}", st);
            }
        }
    });
    run.assume("libcgraph.so.6 (Graphviz 2.43) reads DOT as Graphviz does; names that start with % are left out; its graph is compared through its API: nodes, edges, ports, subgraphs, attributes, defaults, html or not");
    run.note("bounds", format!("skeletons of weight <= {}; documents of <= {} tokens, every word in every role, sizes <= {}", run.q(4, 5), run.q(6, 8), run.q(20, 80)));
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

/// One worker process: its share of the space.
pub fn shard(run: &Run) {
    let p = Plan {
        full: run.q(1, 2),
        mid: run.q(2, 3),
        wide: run.q(4, 5),
        size: run.q(16, 28),
        prod: run.q(4, 5),
        eq: run.q(5, 6),
        big: false,
        seps: vec!["\n", "", " ", "\r\n"],
        steps: vec![2, 0],
        sizes: vec![90, 0],
        names: run.q(vec![Names::Unique, Names::Same, Names::Rotate(0), Names::Rotate(4)], pr::all_names()),
    };
    let n = AtomicU64::new(0);
    let read = AtomicU64::new(0);
    let rejected = AtomicU64::new(0);
    pr::space(run, &p, &|_slot, g, c| {
        n.fetch_add(1, Relaxed);
        let plain = refprint::plain(g);
        // libcgraph takes a name that starts with % for one it has made up
        if plain.contains('\0') || (plain.contains("\"%") || plain.contains("<%")) {
            return;
        }
        let want = LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.0 != plain {
                *l = (plain.clone(), CG.with(|cg| cg.canon(&plain)));
            }
            l.1.clone()
        });
        if want.is_err() {
            rejected.fetch_add(1, Relaxed);
            return;
        }
        let text = safe(|| g.print(&mut ctx(c))).unwrap_or_else(|e| format!("panic: {}", e));
        let got = CG.with(|cg| cg.canon(&text));
        read.fetch_add(1, Relaxed);
        if got != want {
            run.violation(
                &pr::case_key(g, c),
                &format!("Graphviz reads {:?} from the printed text {:?}, but the graph is {:?}", got.map(|x| short(&x, 200)), short(&text, 250), want.map(|x| short(&x, 200))),
                &pr::case_replay(g, c, &format!("printed:\n{}", text)),
            );
        }
    });
    let docs = AtomicU64::new(0);
    let cfgs = [
        Cfg::default(),
        Cfg { semi: true, size: 0, mult: true, ..Cfg::default() },
        Cfg { sep: String::new(), ..Cfg::default() },
        Cfg { mult: true, comma: false, size: 20, step: 0, ..Cfg::default() },
    ];
    let doc = |slot: usize, d: &str, cfgs: &[Cfg]| {
        if d.contains('\0') || (d.contains("\"%") || d.contains("<%")) {
            return;
        }
        let p = match run.call(slot, d, || graphviz_rust::parse(d)) {
            Ok(Ok(p)) => p,
            _ => return,
        };
        let want = CG.with(|cg| cg.canon(d));
        if want.is_err() {
            rejected.fetch_add(1, Relaxed);
            return;
        }
        docs.fetch_add(1, Relaxed);
        for c in cfgs {
            let text = safe(|| p.print(&mut ctx(c))).unwrap_or_else(|e| format!("panic: {}", e));
            let got = CG.with(|cg| cg.canon(&text));
            read.fetch_add(1, Relaxed);
            if got != want {
                run.violation(
                    &format!("document {} @ {:?}", short(d, 200), c),
                    &format!("Graphviz reads {:?} from {:?} but {:?} from print(parse(it)) = {:?}", want.as_ref().map(|x| short(x, 200)), short(d, 200), got.map(|x| short(&x, 200)), short(&text, 200)),
                    &format!("document: {}\nconfiguration: {:?}\nprinted: {}", d, c, text),
                );
            }
        }
    };
    let space = pcheck::Space::new();
    let depth = run.q(6, 8);
    for ids in [Ids::Unique, Ids::Same] {
        pcheck::enumerate(run, depth - (ids == Ids::Same) as usize, ids, &space, &|slot, t| {
            doc(slot, &pcheck::render_sp(t), &cfgs[..2]);
        });
    }
    for s in 0..pcheck::CLASSES {
        pcheck::enumerate(run, run.q(4, 6), Ids::Rotate(s), &space, &|slot, t| {
            doc(slot, &pcheck::render_min(t), &cfgs[..2]);
        });
    }
    run.par(BASES.len(), 1, |slot, i| doc(slot, BASES[i], &cfgs));
    run.par(WORDS.len(), 1, |slot, i| {
        for d in pcheck::roles(WORDS[i]) {
            doc(slot, &d, &cfgs);
        }
    });
    let ns: Vec<usize> = (1..=run.q(20, 80)).chain([128, 256]).collect();
    run.par(ns.len(), 1, |slot, i| {
        for (k, d) in pcheck::sized(ns[i]).into_iter().enumerate() {
            // libcgraph takes cubic time on edges nested in edges
            if ns[i] <= 28 || k < 27 {
                doc(slot, &d, &cfgs[..2]);
            }
        }
    });
    // one document with everything, for the sample
    if let Verdict::Valid(g) = refdot::judge(BASES[0]) {
        run.sample(format!("{:?} -> {:?}", refprint::plain(&g), CG.with(|cg| cg.canon(&g.print(&mut ctx(&Cfg::default()))))));
    }
    let _ = shapes::KINDS;
    run.count("cases", n.load(Relaxed));
    run.count("states", n.load(Relaxed) + docs.load(Relaxed));
    run.count("transitions", read.load(Relaxed));
    run.count("traces_validated_against_impl", read.load(Relaxed));
    run.count("documents", docs.load(Relaxed));
    run.count("not_read_by_graphviz", rejected.load(Relaxed));
}
