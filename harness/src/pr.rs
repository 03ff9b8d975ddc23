//! Printer properties C07, C09, C10, C11 (and the space shared with C08).
use crate::pcheck::WORDS;
use crate::refdot::{self, norm, Verdict};
use crate::refprint::{self, value_printer, Cfg, Layout};
use crate::run::*;
use crate::shapes::{self, Names, Shapes, KINDS};
use dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};

pub fn apply(cfg: &Cfg, c: &mut PrinterContext) {
    if cfg.semi {
        c.with_semi();
    }
    if cfg.mult {
        c.with_node_mult_attr_s_l();
    }
    if !cfg.comma {
        c.with_no_node_mult_attr_s_l_comma();
    }
    if cfg.step != 2 {
        c.with_indent_step(cfg.step);
    }
    if cfg.sep.is_empty() {
        c.always_inline();
    } else if cfg.sep != "\n" {
        c.with_line_sep(cfg.sep.clone());
    }
    if cfg.size != 90 {
        c.with_inline_size(cfg.size);
    }
    for (k, n) in &cfg.vals {
        let n = *n;
        c.with_attr_value_printer(k.clone(), Box::new(move |v, s, i, t| value_printer(n, v, s, i, t)));
    }
}
pub fn ctx(cfg: &Cfg) -> PrinterContext {
    let mut c = PrinterContext::default();
    apply(cfg, &mut c);
    c
}

/// The configurations of a grid.
pub fn grid(seps: &[&str], steps: &[usize], sizes: &[usize]) -> Vec<Cfg> {
    let mut o = vec![];
    for sep in seps {
        for step in steps {
            for size in sizes {
                for semi in [false, true] {
                    for (mult, comma) in [(false, true), (true, true), (true, false)] {
                        o.push(Cfg { semi, mult, comma, step: *step, sep: sep.to_string(), size: *size, vals: vec![] });
                    }
                }
            }
        }
    }
    o
}
/// The configurations with an indent step and size that matter, without and with each other setting.
pub fn small_grid() -> Vec<Cfg> {
    let mut o = grid(&["\n", ""], &[2], &[90, 0]);
    o.extend([
        Cfg { mult: false, comma: false, ..Cfg::default() },
        Cfg { step: 0, ..Cfg::default() },
        Cfg { step: 5, size: 30, mult: true, ..Cfg::default() },
        Cfg { sep: " ".into(), ..Cfg::default() },
        Cfg { sep: "\r\n".into(), size: 20, semi: true, ..Cfg::default() },
        Cfg { size: usize::MAX, mult: true, comma: false, ..Cfg::default() },
    ]);
    o
}
/// `cfg` with the inline size set around every edge length that occurs.
pub fn around(g: &Graph, cfg: &Cfg) -> Vec<Cfg> {
    let mut sizes: Vec<usize> = vec![];
    let mut todo = vec![0, usize::MAX];
    let mut seen: Vec<usize> = vec![];
    while let Some(s) = todo.pop() {
        if seen.len() > 24 {
            break;
        }
        seen.push(s);
        let (_, lens) = refprint::graph(g, &Cfg { size: s, ..cfg.clone() });
        for l in lens {
            for x in [l.saturating_sub(1), l, l + 1] {
                if !sizes.contains(&x) {
                    sizes.push(x);
                    todo.push(x);
                }
            }
        }
    }
    sizes.into_iter().map(|size| Cfg { size, ..cfg.clone() }).collect()
}

pub fn safe<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn case_key(g: &Graph, c: &Cfg) -> String {
    format!("{} @ {:?}", short(&refprint::plain(g), 200), c)
}
pub fn case_replay(g: &Graph, c: &Cfg, more: &str) -> String {
    format!("graph: {:?}\nconfiguration: {:?}\n{}", g, c, more)
}

/// How much of the space a check visits.
pub struct Plan {
    /// up to this weight: every kind, every naming, the full grid and every inline size around an edge
    pub full: usize,
    /// up to this weight: two namings, the full grid
    pub mid: usize,
    /// up to this weight: one naming, the small grid
    pub wide: usize,
    pub size: usize,
    /// vertices of an edge with every combination of vertex forms, attribute counts and body sizes
    pub prod: usize,
    /// ids in a graph for which every pattern of equal ids is visited
    pub eq: usize,
    /// also sizes up to 300
    pub big: bool,
    pub seps: Vec<&'static str>,
    pub steps: Vec<usize>,
    pub sizes: Vec<usize>,
    pub names: Vec<Names>,
}

pub fn all_names() -> Vec<Names> {
    let mut v = vec![Names::Unique, Names::Same, Names::Long(12), Names::Long(30), Names::Keys(0)];
    v.extend((0..9).map(Names::Rotate));
    v
}

/// Every (graph, configuration) of the plan.
pub fn space(run: &Run, p: &Plan, f: &(dyn Fn(usize, &Graph, &Cfg) + Sync)) {
    let sh = shapes::shapes(p.wide);
    let full = grid(&p.seps, &p.steps, &p.sizes);
    let small = small_grid();
    let graphs = AtomicU64::new(0);
    let lists: Vec<(usize, &Vec<Stmt>)> = sh.lists.iter().enumerate().flat_map(|(w, l)| l.iter().map(move |x| (w, x))).collect();
    let go = |slot: usize, g: &Graph, cs: &[Cfg]| {
        graphs.fetch_add(1, Relaxed);
        let what = refprint::plain(g);
        let r = run.call(slot, &what, || {
            for c in cs {
                if run.stopped() {
                    return;
                }
                f(slot, g, c);
            }
        });
        if let Err(e) = r {
            run.violation(&format!("panic:{}", short(&what, 200)), &format!("panic: {} | graph {}", e, short(&what, 400)), &what);
        }
    };
    run.par(lists.len(), 16, |slot, i| {
        let (w, l) = lists[i];
        if w <= p.full {
            for kind in 0..KINDS {
                for n in &p.names {
                    let g = shapes::graph(kind, *n, l);
                    go(slot, &g, &full);
                    if matches!(n, Names::Unique | Names::Rotate(_)) {
                        for base in &small {
                            if !base.sep.is_empty() {
                                go(slot, &g, &around(&g, base));
                            }
                        }
                    }
                }
            }
        } else if w <= p.mid {
            for (k, n) in [(i, Names::Unique), (i + 1 + i / 8, Names::Rotate(i))] {
                let g = shapes::graph(k % KINDS, n, l);
                go(slot, &g, &full);
                go(slot, &g, &around(&g, &small[i % 3]));
            }
        } else {
            let g = shapes::graph(i % KINDS, if i % 2 == 0 { Names::Unique } else { Names::Rotate(i / 2) }, l);
            go(slot, &g, &small);
            if w == p.mid + 1 {
                go(slot, &g, &around(&g, &small[i % 6]));
            }
        }
    });
    // every pattern of equal ids
    let few: Vec<(usize, &Vec<Stmt>)> = lists.iter().map(|(_, l)| (shapes::slots(l), *l)).filter(|x| x.0 <= p.eq).collect();
    let pats: Vec<Vec<u64>> = (0..=p.eq + 1).map(shapes::patterns).collect();
    run.par(few.len(), 4, |slot, i| {
        let (n, l) = few[i];
        for (j, code) in pats[n].iter().enumerate() {
            // an anonymous graph takes no id
            go(slot, &shapes::graph(4 + (i + j) % 4, Names::Pattern(*code, i + j / 2), l), &small);
        }
        if n < p.eq {
            for (j, code) in pats[n + 1].iter().enumerate() {
                go(slot, &shapes::graph((i + j) % 4, Names::Pattern(*code, i + j / 2), l), &small[..2]);
            }
        }
    });
    if run.shard.map(|s| s.0 == 0).unwrap_or(true) {
        run.count("equality_patterns", few.iter().map(|x| pats[x.0].len() as u64).sum());
    }
    // sizes
    let ns: Vec<usize> = (1..=p.size).chain([64, 100, 127, 128, 129, 200, 255, 256, 257, 300]).filter(|n| *n <= p.size || p.big).collect();
    run.par(ns.len(), 1, |slot, k| {
        for (j, l) in shapes::sized(ns[k]).iter().enumerate() {
            let g = shapes::mk(j + k, Id::Plain("g".into()), l.clone());
            go(slot, &g, &small);
            if ns[k] <= 12 {
                go(slot, &g, &full);
                go(slot, &g, &around(&g, &small[j % 6]));
            }
        }
    });
    // combined sizes
    let prods = shapes::products(p.prod, 3);
    run.par(prods.len(), 16, |slot, i| {
        let g = shapes::graph(i / 2 + i % 2, if i % 3 == 0 { Names::Unique } else { Names::Rotate(i / 3) }, &prods[i]);
        go(slot, &g, &small);
        if i % 2 == 0 {
            go(slot, &g, &around(&g, &small[i / 2 % 6]));
        }
    });
    // words
    let words: Vec<Id> = crate::pcheck2::words();
    run.par(words.len(), 1, |slot, k| {
        for (j, l) in shapes::roles(&words[k]).iter().enumerate() {
            let g = shapes::mk(j, Id::Plain("g".into()), l.clone());
            go(slot, &g, &small);
            let g = shapes::mk(j + 1, words[k].clone(), l.clone());
            go(slot, &g, &small[..2]);
        }
    });
    // a chain of two vertices is a pair
    for l in sh.lists.iter().take(3).flatten() {
        let mut two = false;
        let m = l
            .iter()
            .map(|s| match s {
                Stmt::Edge(Edge { ty: EdgeTy::Pair(a, b), attributes }) => {
                    two = true;
                    Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![a.clone(), b.clone()]), attributes: attributes.clone() })
                }
                s => s.clone(),
            })
            .collect::<Vec<_>>();
        if two {
            for kind in 0..2 {
                let g = shapes::graph(kind, Names::Unique, &m);
                go(0, &g, &small);
            }
        }
    }
    for i in [lists.len() / 3, lists.len() / 2, lists.len() - 2] {
        let g = shapes::graph(i, Names::Rotate(i), lists[i].1);
        run.sample(format!("{} @ {:?}", refprint::plain(&g), small[i % small.len()]));
    }
    run.count("graphs", graphs.load(Relaxed));
    if run.shard.map(|s| s.0 == 0).unwrap_or(true) {
        run.count("skeletons", lists.len() as u64);
        run.count("words", words.len() as u64);
        run.count("combined_sizes", prods.len() as u64);
    }
    run.note("bounds", format!("weight <= {} (all kinds, {} namings, {} configurations), <= {} ({} configurations), <= {} ({} configurations); sizes up to {} {}", p.full, p.names.len(), full.len(), p.mid, full.len(), p.wide, small.len(), p.size, if p.big { "and 300" } else { "" }));
}

/// Chains of two vertices become pairs.
pub fn pairs(g: &Graph) -> Graph {
    fn sub(s: &Subgraph) -> Subgraph {
        Subgraph { id: s.id.clone(), stmts: s.stmts.iter().map(stmt).collect() }
    }
    fn vert(v: &Vertex) -> Vertex {
        match v {
            Vertex::S(s) => Vertex::S(sub(s)),
            v => v.clone(),
        }
    }
    fn stmt(s: &Stmt) -> Stmt {
        match s {
            Stmt::Subgraph(s) => Stmt::Subgraph(sub(s)),
            Stmt::Edge(e) => Stmt::Edge(Edge {
                ty: match &e.ty {
                    EdgeTy::Pair(a, b) => EdgeTy::Pair(vert(a), vert(b)),
                    EdgeTy::Chain(v) if v.len() == 2 => EdgeTy::Pair(vert(&v[0]), vert(&v[1])),
                    EdgeTy::Chain(v) => EdgeTy::Chain(v.iter().map(vert).collect()),
                },
                attributes: e.attributes.clone(),
            }),
            s => s.clone(),
        }
    }
    match g {
        Graph::Graph { id, strict, stmts } => Graph::Graph { id: id.clone(), strict: *strict, stmts: stmts.iter().map(stmt).collect() },
        Graph::DiGraph { id, strict, stmts } => Graph::DiGraph { id: id.clone(), strict: *strict, stmts: stmts.iter().map(stmt).collect() },
    }
}

pub fn c07(run: &Run) {
    let p = Plan {
        full: run.q(2, 2),
        mid: run.q(2, 3),
        wide: run.q(4, 5),
        size: run.q(24, 64),
        prod: run.q(4, 6),
        eq: run.q(5, 6),
        big: true,
        seps: run.q(vec!["\n", "", " ", "\r\n"], vec!["\n", "", " ", "\r\n", "\t", "\r", "\n \n"]),
        steps: run.q(vec![2, 0], vec![2, 0, 1, 5]),
        sizes: run.q(vec![90, 0], vec![90, 0, 24, usize::MAX]),
        names: run.q(vec![Names::Unique, Names::Same, Names::Rotate(0), Names::Rotate(3), Names::Rotate(6)], all_names()),
    };
    let n = AtomicU64::new(0);
    space(run, &p, &|_slot, g, c| {
        n.fetch_add(1, Relaxed);
        round_trip(run, g, c);
    });
    let n = n.load(Relaxed);
    run.count("states", n);
    run.count("transitions", 3 * n);
    run.count("traces_validated_against_impl", n);
    run.assume("ids of nodes, ports and attributes are valid DOT ids; edges have two or more vertices; a port id without compass point is not itself a compass word");
}

fn round_trip(run: &Run, g: &Graph, c: &Cfg) {
    let bad = |m: String, text: &str| {
        run.violation(
            &case_key(g, c),
            &format!("{} | printed: {}", m, short(text, 300)),
            &case_replay(g, c, &format!("printed:\n{}", text)),
        )
    };
    let text = match safe(|| g.print(&mut ctx(c))) {
        Ok(t) => t,
        Err(e) => return bad(format!("print panicked: {}", e), ""),
    };
    let p = match safe(|| graphviz_rust::parse(&text)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return bad(format!("the printed text does not parse: {}", e), &text),
        Err(e) => return bad(format!("parse panicked: {}", e), &text),
    };
    if norm(&p) != pairs(&norm(g)) {
        return bad(format!("parsing the printed text gives another graph: {}", short(&format!("{:?}", p), 400)), &text);
    }
    match safe(|| graphviz_rust::print(p, &mut ctx(c))) {
        Ok(t) if t == text || text != g_text(&pairs(g), c) => {}
        Ok(t) => bad(format!("printing the parsed graph again gives another text: {}", short(&t, 300)), &text),
        Err(e) => bad(format!("printing again panicked: {}", e), &text),
    }
}
// the text of a chain of two differs from that of the pair it is read as; there the fixpoint starts one step later
fn g_text(g: &Graph, c: &Cfg) -> String {
    safe(|| g.print(&mut ctx(c))).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10(run: &Run) {
    let p = Plan {
        full: run.q(2, 2),
        mid: run.q(3, 4),
        wide: run.q(4, 5),
        size: run.q(40, 100),
        prod: run.q(4, 6),
        eq: run.q(5, 6),
        big: true,
        seps: vec!["\n", "", " ", "\r\n", "; ", "//x\n", "é"],
        steps: vec![2, 0, 1, 4, 7],
        sizes: vec![90, 0, 24],
        names: run.q(vec![Names::Unique, Names::Same, Names::Long(12), Names::Rotate(0), Names::Rotate(5)], all_names()),
    };
    let n = AtomicU64::new(0);
    space(run, &p, &|_slot, g, c| {
        n.fetch_add(1, Relaxed);
        let want = refprint::graph(g, c).0;
        same_text(run, g, c, &want, safe(|| g.print(&mut ctx(c))), "Graph::print");
    });
    run.count("layouts", n.load(Relaxed));
    run.count("states", n.load(Relaxed));
    run.count("transitions", n.load(Relaxed));
    run.count("traces_validated_against_impl", n.load(Relaxed));
    fragments(run, run.q(2, 3), &[]);
    setters(run, run.q(3, 4));
    constructor(run);
}

fn same_text(run: &Run, g: &Graph, c: &Cfg, want: &str, got: Result<String, String>, what: &str) {
    match got {
        Ok(t) if t == want => {}
        Ok(t) => run.violation(
            &case_key(g, c),
            &format!("{}: got {:?} expected {:?} with {:?}", what, short(&t, 250), short(want, 250), c),
            &case_replay(g, c, &format!("{}\ngot:\n{}\nexpected:\n{}", what, t, want)),
        ),
        Err(e) => run.violation(&case_key(g, c), &format!("{}: panic: {} with {:?}", what, e, c), &case_replay(g, c, what)),
    }
}

fn frag_bad(run: &Run, what: &str, val: &dyn std::fmt::Debug, c: &Cfg, want: &str, got: Result<String, String>) {
    if got.as_deref() != Ok(want) {
        run.violation(
            &format!("{} {} @ {:?}", what, short(&format!("{:?}", val), 200), c),
            &format!("{}::print: got {:?} expected {:?} with {:?}", what, got, want, c),
            &format!("{:?}\nconfiguration: {:?}\ngot: {:?}\nexpected: {:?}", val, c, got, want),
        );
    }
}

/// Every fragment of every small graph, printed by itself with a fresh context.
fn fragments(run: &Run, max: usize, vals: &[Vec<(Id, usize)>]) {
    let sh: Shapes = shapes::shapes(max);
    let mut cfgs = grid(&["\n", "", " "], &[2, 5], &[90, 0]);
    if !vals.is_empty() {
        cfgs = vals
            .iter()
            .flat_map(|v| small_grid().into_iter().map(move |c| Cfg { vals: v.clone(), ..c }))
            .collect();
    }
    let names = if vals.is_empty() {
        vec![Names::Unique, Names::Rotate(0), Names::Rotate(4), Names::Long(25)]
    } else {
        vec![Names::Keys(0), Names::Keys(1)]
    };
    let n = AtomicU64::new(0);
    let lists: Vec<&Vec<Stmt>> = sh.lists.iter().flatten().collect();
    run.par(lists.len(), 4, |_slot, i| {
        for nm in &names {
            let l = shapes::Namer::new(*nm).list(lists[i]);
            for c in &cfgs {
                let lay = Layout::new(c, false);
                macro_rules! chk {
                    ($what:expr, $v:expr, $want:expr) => {{
                        n.fetch_add(1, Relaxed);
                        let want: String = $want;
                        let got = safe(|| $v.print(&mut ctx(c)));
                        frag_bad(run, $what, &$v, c, &want, got);
                    }};
                }
                chk!("Vec<Stmt>", l, lay.stmts(&l));
                if l.len() != 1 {
                    continue;
                }
                let s = &l[0];
                chk!("Stmt", s, lay.stmt(s));
                match s {
                    Stmt::Node(x) => {
                        chk!("Node", x, lay.node(x));
                        chk!("NodeId", x.id, lay.node_id(&x.id));
                        chk!("Id", x.id.0, lay.id(&x.id.0));
                        if let Some(p) = &x.id.1 {
                            chk!("Port", p, lay.port(p));
                        }
                        chk!("Vec<Attribute>", x.attributes, lay.attrs(&x.attributes));
                    }
                    Stmt::Attribute(x) => chk!("Attribute", x, lay.attr(x)),
                    Stmt::GAttribute(x) => chk!("GraphAttributes", x, lay.gattr(x)),
                    Stmt::Subgraph(x) => {
                        chk!("Subgraph", x, lay.sub(x));
                        let v = Vertex::S(x.clone());
                        chk!("Vertex", v, lay.vertex(&v));
                    }
                    Stmt::Edge(x) => {
                        chk!("Edge", x, lay.edge(x));
                        match &x.ty {
                            EdgeTy::Pair(a, b) => {
                                chk!("Vertex", a, lay.vertex(a));
                                chk!("Vertex", b, lay.vertex(b));
                            }
                            EdgeTy::Chain(v) => {
                                for v in v {
                                    chk!("Vertex", v, lay.vertex(v));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    run.count("fragments", n.load(Relaxed));
    run.count("traces_validated_against_impl", n.load(Relaxed));
}

#[derive(Clone, Debug)]
pub enum Set {
    Inline,
    Semi,
    Mult,
    NoComma,
    Step(usize),
    Sep(&'static str),
    Size(usize),
    Val(Id, usize),
}
pub fn set_model(s: &Set, c: &mut Cfg) {
    match s {
        Set::Inline => c.sep = String::new(),
        Set::Semi => c.semi = true,
        Set::Mult => c.mult = true,
        Set::NoComma => c.comma = false,
        Set::Step(n) => c.step = *n,
        Set::Sep(s) => c.sep = s.to_string(),
        Set::Size(n) => c.size = *n,
        Set::Val(i, n) => c.vals.push((i.clone(), *n)),
    }
}
pub fn set_real(s: &Set, c: &mut PrinterContext) {
    match s {
        Set::Inline => c.always_inline(),
        Set::Semi => c.with_semi(),
        Set::Mult => c.with_node_mult_attr_s_l(),
        Set::NoComma => c.with_no_node_mult_attr_s_l_comma(),
        Set::Step(n) => c.with_indent_step(*n),
        Set::Sep(s) => c.with_line_sep(s.to_string()),
        Set::Size(n) => c.with_inline_size(*n),
        Set::Val(i, n) => {
            let n = *n;
            c.with_attr_value_printer(i.clone(), Box::new(move |v, s, i, t| value_printer(n, v, s, i, t)))
        }
    };
}
pub fn setter_alphabet() -> Vec<Set> {
    vec![
        Set::Inline,
        Set::Semi,
        Set::Mult,
        Set::NoComma,
        Set::Step(0),
        Set::Step(2),
        Set::Step(3),
        Set::Sep("\n"),
        Set::Sep(""),
        Set::Sep("\r\n"),
        Set::Sep(" "),
        Set::Size(0),
        Set::Size(20),
        Set::Size(90),
        Set::Size(1000),
    ]
}

pub fn probes() -> Vec<Graph> {
    let docs = [
        "digraph g { a; k=v; node[x=1,y=2]; subgraph s { b[p=q,r=s]; c -> d; subgraph { e } } a -> b -> {c; d} [u=1,v=2,w=3]; x -> y [k=v,l=w] }",
        "strict graph { subgraph { subgraph t { a -- subgraph u { b; c -- d [x=y] } -- e [k=v,l=w] } } z [k=\"a long label that takes this edge over the limit of ninety bytes\"] ; a -- b [k=\"a long label that takes this edge over the limit of ninety bytes\",m=n] }",
        "graph \"g\" {}",
        "digraph h { a -> b }",
        "strict digraph <h> { subgraph x {} edge [] graph [a=b] a:p:n -> { subgraph y { q -> r -> s [t=u,v=w] } } }",
    ];
    docs.iter()
        .map(|d| match refdot::judge(d) {
            Verdict::Valid(g) => g,
            v => panic!("{} {:?}", d, v),
        })
        .collect()
}

/// All sequences of at most `max` settings, from both constructors.
fn setters(run: &Run, max: usize) {
    let al = setter_alphabet();
    let graphs = probes();
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = seqs.len();
        for i in from..to {
            for a in 0..al.len() {
                let mut s = seqs[i].clone();
                s.push(a);
                seqs.push(s);
            }
        }
        from = to;
    }
    let n = AtomicU64::new(0);
    run.par(seqs.len(), 16, |_slot, i| {
        for start in 0..2 {
            let mut c = Cfg::default();
            let mut real = match start {
                0 => PrinterContext::default(),
                _ => {
                    c = Cfg { semi: true, step: 4, sep: "\n".into(), size: 40, ..c };
                    PrinterContext::new(true, 4, "\n".into(), 40)
                }
            };
            for k in &seqs[i] {
                set_model(&al[*k], &mut c);
                set_real(&al[*k], &mut real);
            }
            for g in &graphs {
                n.fetch_add(1, Relaxed);
                let want = refprint::graph(g, &c).0;
                let h: Vec<_> = seqs[i].iter().map(|k| al[*k].clone()).collect();
                // a fresh context each time: traces of earlier prints are C09's business
                let mut one = match start {
                    0 => PrinterContext::default(),
                    _ => PrinterContext::new(true, 4, "\n".into(), 40),
                };
                for s in &h {
                    set_real(s, &mut one);
                }
                same_text(run, g, &c, &want, safe(|| g.print(&mut one)), &format!("after {:?} from constructor {}", h, start));
            }
            drop(real);
        }
    });
    run.count("setter_histories", seqs.len() as u64 * 2);
    run.count("states", seqs.len() as u64 * 2);
    run.count("transitions", n.load(Relaxed));
    run.count("traces_validated_against_impl", n.load(Relaxed));
    run.note("setter_bound", format!("all sequences of at most {} of {} settings", max, al.len()));
}

fn constructor(run: &Run) {
    let graphs = probes();
    let mut n = 0;
    for semi in [false, true] {
        for step in [0, 1, 2, 3, 4, 8] {
            for sep in ["\n", "", " ", "\r\n", ";\n"] {
                for size in [0, 1, 10, 20, 60, 90, 91, 1000, usize::MAX] {
                    let c = Cfg { semi, step, sep: sep.into(), size, ..Cfg::default() };
                    for g in &graphs {
                        n += 1;
                        let want = refprint::graph(g, &c).0;
                        same_text(run, g, &c, &want, safe(|| g.print(&mut PrinterContext::new(semi, step, sep.into(), size))), "PrinterContext::new");
                        same_text(run, g, &c, &want, safe(|| graphviz_rust::print(g.clone(), &mut PrinterContext::new(semi, step, sep.into(), size))), "graphviz_rust::print");
                    }
                }
            }
        }
    }
    run.count("constructor_cases", n);
    run.count("traces_validated_against_impl", 2 * n);
}

// ---------------------------------------------------------------------------------------------
// C09

#[derive(Clone, Debug)]
enum Op {
    Set(Set),
    Print(usize),
    /// graphviz_rust::print
    PrintFn(usize),
    Frag(usize),
}

fn history_graphs() -> Vec<Graph> {
    let docs = [
        "graph a { x -- y }",
        "digraph b { x -> y -> {z; w} [k=v, l=w] }",
        "strict graph c { subgraph s { subgraph t { p [a=b, c=d] ; p -- q [k=v, m=\"a long label that takes this edge over the limit of ninety bytes, so it stays\"] } u } k=v }",
        "strict digraph { { a -> subgraph big { b; c; d [x=y,z=w]; subgraph inner { e -> f [label=\"a long label that takes this edge over the limit of ninety bytes\", m=n] } } -> g [o=p,q=r] } node [s=t,u=v] z }",
        "graph e {}",
    ];
    docs.iter()
        .map(|d| match refdot::judge(d) {
            Verdict::Valid(g) => g,
            v => panic!("{} {:?}", d, v),
        })
        .collect()
}

pub fn c09(run: &Run) {
    let graphs = history_graphs();
    let frag_docs = probes();
    let stmts_of = |g: &Graph| match g {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => stmts.clone(),
    };
    let frags: Vec<Vec<Stmt>> = vec![stmts_of(&frag_docs[0]), stmts_of(&frag_docs[1]), stmts_of(&frag_docs[4])];
    let mut al: Vec<Op> = (0..graphs.len()).map(Op::Print).collect();
    al.push(Op::PrintFn(1));
    al.extend((0..frags.len()).map(Op::Frag));
    al.extend([
        Op::Set(Set::Inline),
        Op::Set(Set::Semi),
        Op::Set(Set::Mult),
        Op::Set(Set::NoComma),
        Op::Set(Set::Step(0)),
        Op::Set(Set::Step(4)),
        Op::Set(Set::Sep("\r\n")),
        Op::Set(Set::Sep("\n")),
        Op::Set(Set::Size(0)),
        Op::Set(Set::Size(1000)),
        Op::Set(Set::Val(Id::Plain("k".into()), 0)),
        Op::Set(Set::Val(Id::Plain("k".into()), 2)),
    ]);
    let max = run.q(4, 5);
    let starts: Vec<Option<(bool, usize, &str, usize)>> = vec![None, Some((true, 3, "\n", 30)), Some((false, 2, "", 90))];
    let first: Vec<(usize, usize)> = (0..starts.len()).flat_map(|s| (0..al.len()).map(move |a| (s, a))).collect();
    let states = AtomicU64::new(0);
    let prints = AtomicU64::new(0);
    run.count("operations", al.len() as u64);

    let judge_history = |h: &[usize], start: usize| {
        // replay the history on one context, comparing every print with a fresh context
        let mk = || match starts[start] {
            None => PrinterContext::default(),
            Some((a, b, c, d)) => PrinterContext::new(a, b, c.into(), d),
        };
        let mut c = match starts[start] {
            None => Cfg::default(),
            Some((semi, step, sep, size)) => Cfg { semi, step, sep: sep.into(), size, ..Cfg::default() },
        };
        let mut set: Vec<Set> = vec![];
        let mut real = mk();
        let names = || h.iter().map(|k| format!("{:?}", al[*k])).collect::<Vec<_>>().join(", ");
        for k in h {
            match &al[*k] {
                Op::Set(s) => {
                    set.push(s.clone());
                    set_model(s, &mut c);
                    set_real(s, &mut real);
                }
                Op::Print(i) => {
                    let _ = safe(|| graphs[*i].print(&mut real));
                }
                Op::PrintFn(i) => {
                    let _ = safe(|| graphviz_rust::print(graphs[*i].clone(), &mut real));
                }
                Op::Frag(i) => {
                    let _ = safe(|| {
                        frags[*i].print(&mut real);
                        for s in &frags[*i] {
                            match s {
                                Stmt::Edge(e) => e.print(&mut real),
                                Stmt::Subgraph(e) => e.print(&mut real),
                                Stmt::Node(e) => e.print(&mut real),
                                s => s.print(&mut real),
                            };
                        }
                    });
                }
            }
        }
        states.fetch_add(1, Relaxed);
        for g in &graphs {
            prints.fetch_add(1, Relaxed);
            let mut fresh = mk();
            for s in &set {
                set_real(s, &mut fresh);
            }
            let want = safe(|| g.print(&mut fresh));
            let before = g.clone();
            let got = safe(|| g.print(&mut real));
            if got != want || want.is_err() {
                run.violation(
                    &format!("{} ; {} start {}", names(), short(&refprint::plain(g), 80), start),
                    &format!("after [{}] a graph prints as {:?}, with a fresh context and the same settings as {:?}", names(), got.map(|x| short(&x, 250)), want.map(|x| short(&x, 250))),
                    &format!("constructor: {:?}\nhistory: {}\ngraph: {:?}", starts[start], names(), g),
                );
                return false;
            }
            if &before != g {
                run.violation(&names(), "printing modified the graph", &names());
                return false;
            }
        }
        true
    };
    run.par(first.len(), 1, |slot, i| {
        let (start, a) = first[i];
        let _ = run.call(slot, &format!("histories starting with {:?}", al[a]), || judge_history(&[a], start));
        // every further operation, depth first
        fn rec(h: &mut Vec<usize>, n: usize, left: usize, f: &mut dyn FnMut(&[usize]) -> bool) {
            for a in 0..n {
                h.push(a);
                if f(h) && left > 1 {
                    rec(h, n, left - 1, f);
                }
                h.pop();
            }
        }
        let mut h = vec![a];
        rec(&mut h, al.len(), max - 1, &mut |h| {
            if run.stopped() {
                return false;
            }
            let r = run.call(slot, "history", || judge_history(h, start));
            if let Err(e) = &r {
                run.violation(&format!("panic {:?}", h), &format!("panic {} in history {:?}", e, h.iter().map(|k| format!("{:?}", al[*k])).collect::<Vec<_>>()), &format!("{:?}", h));
            }
            matches!(r, Ok(true))
        });
    });
    // every small graph as the earlier print (and twice), the probes after it
    let sh = shapes::shapes(run.q(3, 4));
    let lists: Vec<&Vec<Stmt>> = sh.lists.iter().flatten().collect();
    let cfgs = small_grid();
    let pr = probes();
    run.par(lists.len(), 8, |slot, i| {
        for kind in [i % 2, 2 + (i + 1) % 2] {
            let g = shapes::graph(kind, if i % 3 == 0 { Names::Rotate(i / 3) } else { Names::Unique }, lists[i]);
            let what = refprint::plain(&g);
            let r = run.call(slot, &what, || {
                for (j, c) in cfgs.iter().enumerate() {
                    let mut real = ctx(c);
                    let alone = g.print(&mut real);
                    let again = g.print(&mut real);
                    prints.fetch_add(3, Relaxed);
                    if alone != again {
                        run.violation(&case_key(&g, c), &format!("printing a graph twice gives {:?} and then {:?}", short(&alone, 250), short(&again, 250)), &case_replay(&g, c, &again));
                    }
                    let p = &pr[(i + j) % pr.len()];
                    let got = p.print(&mut real);
                    let want = p.print(&mut ctx(c));
                    if got != want {
                        run.violation(
                            &case_key(&g, c),
                            &format!("after printing {} twice a graph prints as {:?}, with a fresh context as {:?}", short(&what, 200), short(&got, 250), short(&want, 250)),
                            &case_replay(&g, c, &format!("then printed: {}", refprint::plain(p))),
                        );
                    }
                }
            });
            states.fetch_add(cfgs.len() as u64, Relaxed);
            if let Err(e) = r {
                run.violation(&format!("panic {}", short(&what, 200)), &format!("panic {} printing {} with a shared context", e, short(&what, 200)), &what);
            }
        }
    });
    let ns: Vec<usize> = (1..=run.q(40, 120)).chain([200, 300]).collect();
    let mut big: Vec<Graph> = vec![];
    for (k, n) in ns.iter().enumerate() {
        big.extend(shapes::sized(*n).into_iter().map(|l| shapes::mk(k, Id::Plain("g".into()), l)));
    }
    big.extend(shapes::products(run.q(3, 5), 3).into_iter().enumerate().map(|(i, l)| shapes::graph(i / 2 + i % 2, Names::Unique, &l)));
    // every length of an edge, with and without a subgraph, around every limit
    let after = [lengths(run.q(150, 400)), pr[1].clone()];
    run.par(big.len(), 8, |slot, k| {
        {
            let g = &big[k];
            let what = refprint::plain(&g);
            let r = run.call(slot, &what, || {
                for c in &cfgs {
                    let mut real = ctx(c);
                    let alone = g.print(&mut real);
                    let again = g.print(&mut real);
                    prints.fetch_add(2, Relaxed);
                    if alone != again || alone != g.print(&mut ctx(c)) {
                        run.violation(&case_key(g, c), &format!("printing a graph twice gives {:?} and then {:?}", short(&alone, 250), short(&again, 250)), &case_replay(g, c, &again));
                    }
                    // and what is printed after it
                    for p in &after {
                        let got = p.print(&mut real);
                        let want = p.print(&mut ctx(c));
                        prints.fetch_add(1, Relaxed);
                        if got != want {
                            run.violation(
                                &case_key(g, c),
                                &format!("after printing {} twice a graph prints as {:?}, with a fresh context as {:?}", short(&what, 200), short(&got, 250), short(&want, 250)),
                                &case_replay(g, c, &format!("then printed: {}", refprint::plain(p))),
                            );
                        }
                    }
                }
            });
            if let Err(e) = r {
                run.violation(&format!("panic {}", short(&what, 200)), &format!("panic {} printing {}", e, short(&what, 200)), &what);
            }
        }
    });
    // many prints with one context
    let mut real = PrinterContext::default();
    let want: Vec<String> = graphs.iter().map(|g| g.print(&mut PrinterContext::default())).collect();
    for i in 0..run.q(3000, 100_000) {
        let k = (i * 7 + i / 5) % graphs.len();
        if graphs[k].print(&mut real) != want[k] {
            run.violation("long", &format!("print number {} with one context differs from a fresh one", i), &format!("{}", i));
            break;
        }
    }
    run.count("states", states.load(Relaxed));
    run.count("transitions", prints.load(Relaxed));
    run.count("traces_validated_against_impl", prints.load(Relaxed));
    run.note("bounds", format!("all histories of at most {} operations from {} constructors, then every graph; every graph of weight <= {} before a probe", max, starts.len(), run.q(3, 4)));
    run.sample(format!("{:?} then every graph of {:?}", al[1], graphs.iter().map(refprint::plain).collect::<Vec<_>>()));
}

/// A graph whose edges have every length up to `n`.
fn lengths(n: usize) -> Graph {
    let mut o = String::from("digraph lengths {");
    for i in 0..n {
        let k = "x".repeat(i);
        o.push_str(&format!("e -> e{k}; s -> {{ s{k} }}; t -> t [ k = v, l = \"{k}\" ]; n [ k = v, l = \"{k}\" ];"));
    }
    o.push('}');
    match refdot::judge(&o) {
        Verdict::Valid(g) => g,
        v => panic!("{:?}", v),
    }
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn c11(run: &Run) {
    let keys = shapes::keys();
    let mut regs: Vec<Vec<(Id, usize)>> = vec![vec![]];
    let single: Vec<(Id, usize)> = keys.iter().flat_map(|k| (0..15).map(move |n| (k.clone(), n))).collect();
    for s in &single {
        regs.push(vec![s.clone()]);
    }
    let short_list: Vec<(Id, usize)> = keys.iter().take(4).flat_map(|k| (0..3).map(move |n| (k.clone(), n))).collect();
    for a in &short_list {
        for b in &short_list {
            regs.push(vec![a.clone(), b.clone()]);
        }
    }
    let tiny: Vec<(Id, usize)> = keys.iter().take(3).flat_map(|k| (0..2).map(move |n| (k.clone(), n))).collect();
    for a in &tiny {
        for b in &tiny {
            for c in &tiny {
                regs.push(vec![a.clone(), b.clone(), c.clone()]);
            }
        }
    }
    let with: Vec<usize> = (0..regs.len()).collect();
    let few: Vec<usize> = with.iter().copied().filter(|i| regs[*i].len() <= 1 || i % 17 == 0).collect();
    let cfgs = {
        let mut c = small_grid();
        c.extend(grid(&["\n", "\r\n"], &[0, 3], &[40]));
        c
    };
    let max = run.q(3, 4);
    let sh = shapes::shapes(max);
    let lists: Vec<(usize, &Vec<Stmt>)> = sh.lists.iter().enumerate().flat_map(|(w, l)| l.iter().map(move |x| (w, x))).filter(|(_, l)| has_attr(l)).collect();
    let n = AtomicU64::new(0);
    let one = |slot: usize, g: &Graph, rs: &[usize], cs: &[Cfg]| {
        let what = refprint::plain(g);
        let r = run.call(slot, &what, || {
            for r in rs {
                for c in cs {
                    if run.stopped() {
                        return;
                    }
                    n.fetch_add(1, Relaxed);
                    let c = Cfg { vals: regs[*r].clone(), ..c.clone() };
                    let want = refprint::graph(g, &c).0;
                    same_text(run, g, &c, &want, safe(|| g.print(&mut ctx(&c))), "value printers");
                }
            }
        });
        if let Err(e) = r {
            run.violation(&format!("panic:{}", short(&what, 200)), &format!("panic: {} | graph {}", e, short(&what, 400)), &what);
        }
    };
    run.par(lists.len(), 2, |slot, i| {
        let (w, l) = lists[i];
        if w <= 2 {
            for s in 0..keys.len() {
                let g = shapes::graph(i + s, Names::Keys(s), l);
                one(slot, &g, &with, &cfgs[..run.q(8, cfgs.len())]);
                one(slot, &g, &few, &cfgs);
            }
        } else if w == 3 {
            for s in [0, 1] {
                let g = shapes::graph(i + s, Names::Keys(s), l);
                let rs: Vec<usize> = run.q(few.iter().copied().skip(i % 3).step_by(3).collect(), few.clone());
                one(slot, &g, &rs, &cfgs);
            }
        } else {
            let g = shapes::graph(i, Names::Keys(i), l);
            let rs: Vec<usize> = few.iter().copied().skip(i % 7).step_by(7).collect();
            one(slot, &g, &rs, &cfgs[..6]);
        }
    });
    // values of every kind, keys of every kind
    let words: Vec<Id> = crate::pcheck2::words();
    run.par(words.len(), 1, |slot, k| {
        let w = &words[k];
        let other = &words[(k + 1) % words.len()];
        for (j, l) in shapes::roles(w).iter().enumerate() {
            let g = shapes::mk(j, Id::Plain("g".into()), l.clone());
            let what = refprint::plain(&g);
            let r = run.call(slot, &what, || {
                for base in &cfgs {
                    for v in [
                        vec![(w.clone(), 0)],
                        vec![(Id::Plain("k".into()), 1)],
                        vec![(other.clone(), 0)],
                        vec![(other.clone(), 0), (w.clone(), 2), (Id::Plain("k".into()), 0), (w.clone(), 1)],
                    ] {
                        n.fetch_add(1, Relaxed);
                        let c = Cfg { vals: v, ..base.clone() };
                        let want = refprint::graph(&g, &c).0;
                        same_text(run, &g, &c, &want, safe(|| g.print(&mut ctx(&c))), "value printers");
                    }
                }
            });
            if let Err(e) = r {
                run.violation(&format!("panic:{}", short(&what, 200)), &format!("panic: {} | graph {}", e, short(&what, 400)), &what);
            }
        }
    });
    // sizes
    let ns: Vec<usize> = (1..=run.q(24, 80)).chain([128, 256]).collect();
    run.par(ns.len(), 1, |slot, k| {
        for (j, l) in shapes::sized(ns[k]).iter().enumerate() {
            let g = shapes::mk(j, Id::Plain("g".into()), l.clone());
            let what = refprint::plain(&g);
            let _ = run.call(slot, &what, || {
                for base in &cfgs {
                    let c = Cfg { vals: vec![(Id::Plain("k0".into()), 0), (Id::Plain("k1".into()), 2), (Id::Plain(format!("k{}", ns[k] - 1)), 1), (Id::Plain("label".into()), 0)], ..base.clone() };
                    n.fetch_add(1, Relaxed);
                    let want = refprint::graph(&g, &c).0;
                    same_text(run, &g, &c, &want, safe(|| g.print(&mut ctx(&c))), "value printers");
                }
            });
        }
    });
    // combined sizes
    let prods: Vec<Vec<Stmt>> = shapes::products(run.q(3, 5), 3).into_iter().filter(|l| has_attr(l)).collect();
    run.par(prods.len(), 8, |slot, i| {
        let g = shapes::graph(i / 2 + i % 2, Names::Keys(i), &prods[i]);
        let rs: Vec<usize> = with.iter().copied().skip(i % 23).step_by(23).collect();
        one(slot, &g, &rs, &cfgs[..6]);
    });
    // many registrations
    for m in [1usize, 2, 3, 4, 7, 8, 16, 17, 31, 32, 33, 64, 100, 300] {
        let attrs: Vec<Attribute> = (0..m).map(|i| Attribute(Id::Plain(format!("k{}", i)), Id::Plain(format!("v{}", i)))).collect();
        let g = shapes::mk(0, Id::Plain("g".into()), vec![Stmt::Node(shapes::nodev(NodeId(Id::Plain("x".into()), None), attrs.clone())), Stmt::GAttribute(GraphAttributes::Edge(attrs))]);
        for c in &cfgs {
            let c = Cfg { vals: (0..m).map(|i| (Id::Plain(format!("k{}", i)), i % 3)).collect(), ..c.clone() };
            n.fetch_add(1, Relaxed);
            let want = refprint::graph(&g, &c).0;
            same_text(run, &g, &c, &want, safe(|| g.print(&mut ctx(&c))), "many value printers");
        }
    }
    fragments(run, 2, &regs[..run.q(40, 120)].to_vec());
    // registrations interleaved with settings
    let al: Vec<Set> = vec![
        Set::Val(keys[0].clone(), 0),
        Set::Val(keys[0].clone(), 1),
        Set::Val(keys[1].clone(), 2),
        Set::Val(keys[2].clone(), 0),
        Set::Inline,
        Set::Semi,
        Set::Mult,
        Set::Step(5),
        Set::Sep("\r\n"),
        Set::Size(30),
    ];
    let g1: Vec<Graph> = lists.iter().filter(|(w, _)| *w == 2).step_by(7).map(|(_, l)| shapes::graph(1, Names::Keys(4), l)).collect();
    let d = run.q(3, 4);
    let total = al.len().pow(d as u32);
    run.par(total, 16, |_slot, i| {
        let mut h = vec![];
        let mut x = i;
        for _ in 0..d {
            h.push(al[x % al.len()].clone());
            x /= al.len();
        }
        let mut c = Cfg::default();
        h.iter().for_each(|s| set_model(s, &mut c));
        for g in &g1 {
            let mut real = PrinterContext::default();
            h.iter().for_each(|s| set_real(s, &mut real));
            n.fetch_add(1, Relaxed);
            let want = refprint::graph(g, &c).0;
            same_text(run, g, &c, &want, safe(|| g.print(&mut real)), "settings and value printers");
        }
    });
    let n = n.load(Relaxed);
    run.count("states", n);
    run.count("transitions", n);
    run.count("traces_validated_against_impl", n);
    run.count("registrations", regs.len() as u64);
    run.note("bounds", format!("all registration sequences of length <= 3 over small alphabets ({}), all skeletons with attributes of weight <= {}, {} configurations, {} words as key and value", regs.len(), max, cfgs.len(), words.len()));
    run.sample(format!("{:?}", regs[regs.len() - 1]));
}

fn has_attr(l: &[Stmt]) -> bool {
    fn sub(s: &Subgraph) -> bool {
        has_attr(&s.stmts)
    }
    fn v(v: &Vertex) -> bool {
        matches!(v, Vertex::S(s) if sub(s))
    }
    l.iter().any(|s| match s {
        Stmt::Node(n) => !n.attributes.is_empty(),
        Stmt::Attribute(_) => true,
        Stmt::GAttribute(GraphAttributes::Graph(l) | GraphAttributes::Node(l) | GraphAttributes::Edge(l)) => !l.is_empty(),
        Stmt::Subgraph(s) => sub(s),
        Stmt::Edge(e) => {
            !e.attributes.is_empty()
                || match &e.ty {
                    EdgeTy::Pair(a, b) => v(a) || v(b),
                    EdgeTy::Chain(l) => l.iter().any(v),
                }
        }
    })
}
