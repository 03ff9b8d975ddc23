//! C20: printing returns, in time that does not explode. C21: equality, clones and hashes of the
//! structures.
use crate::pcheck2::{child, run_deep, Work};
use crate::pr::{ctx, small_grid};
use crate::refprint::{self, Cfg};
use crate::run::*;
use crate::shapes::{self, anon, mk, Names};
use dot_structures::*;
use graphviz_rust::printer::DotPrinter;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering::*};

fn p(s: &str) -> Id {
    Id::Plain(s.into())
}
fn vn(s: &str) -> Vertex {
    Vertex::N(NodeId(p(s), None))
}
fn nd(s: &str) -> Stmt {
    Stmt::Node(Node { id: NodeId(p(s), None), attributes: vec![] })
}
fn at(n: usize) -> Vec<Attribute> {
    (0..n).map(|i| Attribute(p(&format!("k{}", i)), p("v"))).collect()
}
fn pair(a: Vertex, b: Vertex, n: usize) -> Stmt {
    Stmt::Edge(Edge { ty: EdgeTy::Pair(a, b), attributes: at(n) })
}
fn chain(v: Vec<Vertex>, n: usize) -> Stmt {
    Stmt::Edge(Edge { ty: EdgeTy::Chain(v), attributes: at(n) })
}

// ------------------------------------------------------------------------------------------------
// C20

const PWRAPS: usize = 12;
fn pwrap(kind: usize, l: Vec<Stmt>) -> Vec<Stmt> {
    let named = |l: Vec<Stmt>| Subgraph { id: p("s"), stmts: l };
    let bare = |l: Vec<Stmt>| Subgraph { id: anon(), stmts: l };
    match kind {
        0 => vec![Stmt::Subgraph(named(l))],
        1 => vec![nd("a"), Stmt::Subgraph(bare(l)), nd("b")],
        2 => vec![pair(vn("a"), Vertex::S(bare(l)), 0)],
        3 => vec![pair(Vertex::S(named(l)), vn("a"), 1)],
        4 => vec![chain(vec![vn("a"), Vertex::S(named(l)), vn("b")], 0)],
        5 => vec![pair(Vertex::S(bare(vec![])), Vertex::S(bare(l)), 2)],
        6 => vec![chain(vec![Vertex::S(bare(l)), vn("x"), Vertex::S(named(vec![nd("m")]))], 2)],
        7 => vec![nd("n"), pair(vn("a"), vn("b"), 3), chain(vec![vn("a"), vn("b"), Vertex::S(bare(l))], 1)],
        8 => vec![pair(vn("a"), Vertex::S(bare(l)), 0), nd("z"), pair(vn("y"), vn("z"), 0)],
        9 => vec![chain(vec![vn("a"), vn("b"), Vertex::S(named(l)), Vertex::S(named(vec![]))], 0)],
        10 => vec![Stmt::GAttribute(GraphAttributes::Node(at(2))), Stmt::Subgraph(named(vec![pair(vn("a"), Vertex::S(named(l)), 0)]))],
        _ => vec![pair(vn("label_of_a_long_name_that_does_not_fit_on_one_line_together_with_anything_else_at_all"), Vertex::S(bare(l)), 1)],
    }
}

fn pcfgs() -> Vec<Cfg> {
    let mut c = small_grid();
    c.extend([
        Cfg { size: usize::MAX, ..Cfg::default() },
        Cfg { size: 0, mult: true, semi: true, step: 1, ..Cfg::default() },
        Cfg { size: 4000, step: 4, ..Cfg::default() },
        Cfg { sep: String::new(), size: usize::MAX, mult: true, ..Cfg::default() },
        Cfg { vals: vec![(p("k0"), 0), (p("label"), 7)], mult: true, ..Cfg::default() },
    ]);
    c
}

fn flats(n: usize) -> Vec<Vec<Stmt>> {
    let long = "x".repeat(n);
    let quoted = Id::Escaped(format!("\"{}\"", "\\\"é\n".repeat(n)));
    let html = Id::Html(format!("<{}{}>", "<b>".repeat(n), "</b>".repeat(n)));
    vec![
        vec![nd("a"); n],
        vec![Stmt::Node(Node { id: NodeId(p("a"), None), attributes: at(n) })],
        vec![pair(vn("a"), vn("b"), n)],
        vec![chain(vec![vn("a"); n.max(2)], 1)],
        vec![chain(vec![Vertex::S(Subgraph { id: anon(), stmts: vec![nd("a"), pair(vn("c"), vn("d"), 2)] }); n.max(2)], 2)],
        vec![pair(vn("a"), Vertex::S(Subgraph { id: p("s"), stmts: vec![pair(vn("c"), vn("d"), 2); n] }), 0)],
        vec![chain(vec![vn("a"), vn("b"), Vertex::S(Subgraph { id: p("s"), stmts: vec![nd("m"); n] })], 0)],
        vec![Stmt::Subgraph(Subgraph { id: anon(), stmts: vec![pair(vn("c"), vn("d"), 0)] }); n],
        vec![Stmt::GAttribute(GraphAttributes::Graph(at(n))), Stmt::GAttribute(GraphAttributes::Node(at(n))), Stmt::GAttribute(GraphAttributes::Edge(at(n)))],
        vec![pair(vn(&long), Vertex::N(NodeId(p(&long), Some(Port(Some(p(&long)), Some("n".into()))))), 1)],
        vec![Stmt::Attribute(Attribute(p("label"), quoted.clone())), pair(Vertex::N(NodeId(quoted, None)), vn("b"), 0)],
        vec![Stmt::Node(Node { id: NodeId(html.clone(), None), attributes: vec![Attribute(p("label"), html)] })],
        vec![Stmt::Attribute(Attribute(p("label"), p(&long))); 3],
        vec![Stmt::Subgraph(Subgraph { id: p(&long), stmts: vec![] }), pair(Vertex::S(Subgraph { id: p(&long), stmts: vec![nd(&long)] }), vn("b"), 2)],
    ]
}

/// (description, graph, configuration) of one kind.
fn pcase(kind: usize, n: usize) -> Option<(String, Graph, Cfg)> {
    let cfgs = pcfgs();
    let cfg = cfgs[kind % cfgs.len()].clone();
    let k = kind / cfgs.len();
    let (what, l) = if k < PWRAPS * PWRAPS {
        let (a, b) = (k / PWRAPS, k % PWRAPS);
        let mut l = vec![nd("in")];
        for i in (0..n).rev() {
            l = pwrap(if i % 2 == 0 { a } else { b }, l);
        }
        (format!("nested {} {}", a, b), l)
    } else {
        let f = k - PWRAPS * PWRAPS;
        (format!("flat {}", f), flats(n).into_iter().nth(f)?)
    };
    Some((what, mk(k + kind, p("g"), l), cfg))
}

pub fn pdeep_child(args: &[String]) {
    child(args, &|k, n| {
        let (_, g, c) = pcase(k, n)?;
        let f: Work<'static> = Box::new(move || {
            let t = g.print(&mut ctx(&c));
            // taking a deep graph apart is not what is measured
            std::mem::forget(g);
            !t.is_empty()
        });
        Some(f)
    })
}

pub fn c20(run: &Run) {
    // every graph of the shape space and each of its parts
    let sh = shapes::shapes(run.q(4, 5));
    let cfgs = pcfgs();
    let lists: Vec<&Vec<Stmt>> = sh.lists.iter().flatten().collect();
    let n = AtomicU64::new(0);
    let one = |slot: usize, g: &Graph| {
        let what = refprint::plain(g);
        for c in &cfgs {
            n.fetch_add(1, Relaxed);
            let r = run.call(slot, &what, || {
                let mut x = ctx(c);
                let mut len = g.print(&mut x).len();
                let (Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. }) = g;
                len += id.print(&mut x).len();
                for s in stmts {
                    len += s.print(&mut x).len();
                    match s {
                        Stmt::Node(a) => len += a.print(&mut x).len() + a.id.print(&mut x).len() + a.attributes.print(&mut x).len(),
                        Stmt::Edge(a) => len += a.print(&mut x).len() + a.attributes.print(&mut x).len(),
                        Stmt::Subgraph(a) => len += a.print(&mut x).len() + a.stmts.print(&mut x).len(),
                        Stmt::Attribute(a) => len += a.print(&mut x).len(),
                        Stmt::GAttribute(a) => len += a.print(&mut x).len(),
                    }
                }
                len + g.print(&mut x).len()
            });
            match r {
                Ok(l) if l > 0 => {}
                r => run.violation(&format!("print:{} @ {:?}", short(&what, 200), c), &format!("printing with {:?} gives {:?} | graph {}", c, r, short(&what, 400)), &format!("{:?}\n{:?}", g, c)),
            }
        }
    };
    run.par(lists.len(), 32, |slot, i| one(slot, &shapes::graph(i, if i % 2 == 0 { Names::Unique } else { Names::Rotate(i / 2) }, lists[i])));
    let prods = shapes::products(run.q(4, 6), 3);
    run.par(prods.len(), 32, |slot, i| one(slot, &shapes::graph(i, Names::Rotate(i), &prods[i])));
    for w in crate::pcheck2::words() {
        for (j, l) in shapes::roles(&w).iter().enumerate() {
            one(0, &shapes::mk(j, w.clone(), l.clone()));
        }
    }
    // texts that no document could hold, in every place, as every kind of id
    let odd = ["", "\"", "<", ">", "\\", "\"\\", "a\"b", "\"a", "a\"", "<a", "\"\"\"", "é", "\u{1F600}", "\"é\"", "<é>", "\0", "\n", "\r\n", "\t", " ", "  a  ", ";", "]", "}", "{", "->", "--", "//", "/*", "#", "=", ":", ",", "%", "{}", "{0}", "\u{feff}", "\u{301}", "x\u{80}y"];
    let mut ids: Vec<Id> = vec![];
    for t in odd {
        for k in [Id::Plain, Id::Escaped, Id::Html, Id::Anonymous] {
            ids.push(k(t.to_string()));
            for w in [15usize, 85, 90, 91] {
                ids.push(k(t.repeat(w)));
            }
        }
    }
    run.par(ids.len(), 2, |slot, i| {
        for (j, l) in shapes::roles(&ids[i]).iter().enumerate() {
            one(slot, &shapes::mk(i + j, ids[i].clone(), l.clone()));
        }
        let (Id::Plain(t) | Id::Escaped(t) | Id::Html(t) | Id::Anonymous(t)) = &ids[i];
        for q in [Port(None, Some(t.clone())), Port(Some(ids[i].clone()), Some(t.clone()))] {
            let v = Vertex::N(NodeId(ids[i].clone(), Some(q)));
            one(slot, &shapes::mk(i, anon(), vec![pair(v.clone(), v.clone(), 0), chain(vec![v.clone()], 1), chain(vec![v], 0)]));
        }
    });
    // depth and growth
    let mut kinds = 0;
    while pcase(kinds, 1).is_some() {
        kinds += 1;
    }
    let nested = PWRAPS * PWRAPS * cfgs.len();
    let (oks, errs) = (AtomicU64::new(0), AtomicU64::new(0));
    let two_mb = 2 << 20;
    let mut plan: Vec<(usize, usize, usize)> = [32usize, 1, 2, 3, 5, 8, 12, 16, 20, 24, 28, 48, 64, 100].iter().map(|n| (*n, two_mb, 5)).collect();
    plan.extend(run.q(vec![(300, two_mb, 20)], vec![(200, two_mb, 10), (300, two_mb, 20), (600, two_mb, 60), (1000, 256 << 20, 120)]));
    let mut jobs = vec![];
    for (n, stack, lim) in &plan {
        let step = kinds.div_ceil(16);
        let mut a = 0;
        while a < kinds {
            jobs.push((a, (a + step).min(kinds), *n, *stack, *lim));
            a += step;
        }
    }
    for (n, lim) in run.q(vec![(1000, 20), (5000, 60)], vec![(1000, 20), (5000, 60), (20000, 100)]) {
        for a in (nested..kinds).step_by(16) {
            jobs.push((a, (a + 16).min(kinds), n, two_mb, lim));
        }
    }
    // very long ones: all but the chain of subgraphs, which takes quadratic time; few settings
    for f in (0..(kinds - nested) / cfgs.len()).filter(|f| *f != 4) {
        for c in [0, 7, cfgs.len() - 1] {
            let k = nested + f * cfgs.len() + c;
            jobs.push((k, k + 1, run.q(60000, 150000), two_mb, 100));
        }
    }
    let name = |k: usize, n: usize| {
        let (w, g, c) = pcase(k, n).unwrap();
        let t = if n <= 300 { format!("{}\n{:?}", refprint::plain(&g), c) } else { format!("{} {}\n{:?}", w, n, c) };
        std::mem::forget(g);
        (format!("print of {} with {:?}", w, c), t)
    };
    run.par(jobs.len(), 1, |_, i| {
        let j = jobs[i];
        run_deep(run, "pdeep", &name, j.0, j.1, j.2, j.3, j.4, &oks, &errs);
    });
    let (n, d) = (n.load(Relaxed), oks.load(Relaxed) + errs.load(Relaxed));
    run.count("families", kinds as u64);
    run.count("pumped_prints", d);
    run.count("states", n + d);
    run.count("transitions", n * 4 + d);
    run.count("traces_validated_against_impl", n + d);
    run.note("sizes", format!("{:?} (size, stack, CPU seconds allowed); flat families also 1000 and more", plan));
    run.sample(name(3 * cfgs.len(), 3).1);
    run.sample(name(nested / 2 + 5, 2).1);
    run.assume("growth is judged by a CPU time limit per print at sizes up to the listed ones, far above polynomial cost and far below exponential cost");
}

// ------------------------------------------------------------------------------------------------
// C21

/// An encoding of a value that names every part of it; equal texts, equal values.
mod enc {
    use super::*;
    pub fn id(i: &Id) -> String {
        let (k, s) = match i {
            Id::Html(s) => ('h', s),
            Id::Escaped(s) => ('e', s),
            Id::Plain(s) => ('p', s),
            Id::Anonymous(s) => ('a', s),
        };
        format!("{}{}:{}", k, s.len(), s)
    }
    pub fn port(x: &Port) -> String {
        format!("({},{})", x.0.as_ref().map(id).unwrap_or("-".into()), x.1.as_ref().map(|c| format!("{}:{}", c.len(), c)).unwrap_or("-".into()))
    }
    pub fn node_id(n: &NodeId) -> String {
        format!("N{}{}", id(&n.0), n.1.as_ref().map(port).unwrap_or("-".into()))
    }
    pub fn attr(a: &Attribute) -> String {
        format!("A{}={}", id(&a.0), id(&a.1))
    }
    pub fn attrs(l: &[Attribute]) -> String {
        format!("[{}]", l.iter().map(attr).collect::<Vec<_>>().join(","))
    }
    pub fn vert(v: &Vertex) -> String {
        match v {
            Vertex::N(n) => node_id(n),
            Vertex::S(s) => sub(s),
        }
    }
    pub fn sub(s: &Subgraph) -> String {
        format!("S{}{}", id(&s.id), list(&s.stmts))
    }
    pub fn list(l: &[Stmt]) -> String {
        format!("{{{}}}", l.iter().map(stmt).collect::<Vec<_>>().join(";"))
    }
    pub fn edge(e: &Edge) -> String {
        let t = match &e.ty {
            EdgeTy::Pair(a, b) => format!("P{}-{}", vert(a), vert(b)),
            EdgeTy::Chain(v) => format!("C{}", v.iter().map(vert).collect::<Vec<_>>().join("-")),
        };
        format!("E{}{}", t, attrs(&e.attributes))
    }
    pub fn gattr(g: &GraphAttributes) -> String {
        match g {
            GraphAttributes::Graph(l) => format!("Gg{}", attrs(l)),
            GraphAttributes::Node(l) => format!("Gn{}", attrs(l)),
            GraphAttributes::Edge(l) => format!("Ge{}", attrs(l)),
        }
    }
    pub fn node(n: &Node) -> String {
        format!("O{}{}", node_id(&n.id), attrs(&n.attributes))
    }
    pub fn stmt(s: &Stmt) -> String {
        match s {
            Stmt::Node(n) => node(n),
            Stmt::Subgraph(s) => sub(s),
            Stmt::Attribute(a) => format!("={}", attr(a)),
            Stmt::GAttribute(g) => gattr(g),
            Stmt::Edge(e) => edge(e),
        }
    }
    pub fn graph(g: &Graph) -> String {
        match g {
            Graph::Graph { id: i, strict, stmts } => format!("graph {} {} {}", strict, id(i), list(stmts)),
            Graph::DiGraph { id: i, strict, stmts } => format!("digraph {} {} {}", strict, id(i), list(stmts)),
        }
    }
}

/// Every place of a graph that can be changed.
#[derive(Default)]
struct Places<'a> {
    ids: Vec<&'a mut Id>,
    compass: Vec<&'a mut Option<String>>,
}
/// The places that hold lists and alternatives, reached one at a time.
enum Spot<'a> {
    Attrs(&'a mut Vec<Attribute>),
    Stmts(&'a mut Vec<Stmt>),
    Edge(&'a mut EdgeTy),
    Node(&'a mut NodeId),
    Stmt(&'a mut Stmt),
}

impl<'a> Places<'a> {
    fn node_id(&mut self, n: &'a mut NodeId) {
        self.ids.push(&mut n.0);
        if let Some(Port(i, c)) = &mut n.1 {
            if let Some(i) = i {
                self.ids.push(i);
            }
            self.compass.push(c);
        }
    }
    fn attrs(&mut self, l: &'a mut [Attribute]) {
        for a in l {
            self.ids.push(&mut a.0);
            self.ids.push(&mut a.1);
        }
    }
    fn vert(&mut self, v: &'a mut Vertex) {
        match v {
            Vertex::N(n) => self.node_id(n),
            Vertex::S(s) => {
                self.ids.push(&mut s.id);
                self.list(&mut s.stmts)
            }
        }
    }
    fn list(&mut self, l: &'a mut [Stmt]) {
        for s in l {
            match s {
                Stmt::Node(n) => {
                    self.node_id(&mut n.id);
                    self.attrs(&mut n.attributes)
                }
                Stmt::Subgraph(s) => {
                    self.ids.push(&mut s.id);
                    self.list(&mut s.stmts)
                }
                Stmt::Attribute(a) => self.attrs(std::slice::from_mut(a)),
                Stmt::GAttribute(GraphAttributes::Graph(l) | GraphAttributes::Node(l) | GraphAttributes::Edge(l)) => self.attrs(l),
                Stmt::Edge(e) => {
                    match &mut e.ty {
                        EdgeTy::Pair(a, b) => {
                            self.vert(a);
                            self.vert(b)
                        }
                        EdgeTy::Chain(v) => v.iter_mut().for_each(|v| self.vert(v)),
                    }
                    self.attrs(&mut e.attributes)
                }
            }
        }
    }
    fn graph(g: &'a mut Graph) -> Places<'a> {
        let mut p = Places::default();
        let (Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. }) = g;
        p.ids.push(id);
        p.list(stmts);
        p
    }
}

/// Calls `f` with each spot, in order.
fn spots(g: &mut Graph, f: &mut dyn FnMut(Spot)) {
    fn vert(v: &mut Vertex, f: &mut dyn FnMut(Spot)) {
        match v {
            Vertex::N(n) => f(Spot::Node(n)),
            Vertex::S(s) => list(&mut s.stmts, f),
        }
    }
    fn list(l: &mut Vec<Stmt>, f: &mut dyn FnMut(Spot)) {
        f(Spot::Stmts(l));
        for s in l {
            f(Spot::Stmt(s));
            match s {
                Stmt::Node(n) => {
                    f(Spot::Node(&mut n.id));
                    f(Spot::Attrs(&mut n.attributes))
                }
                Stmt::Subgraph(s) => list(&mut s.stmts, f),
                Stmt::Attribute(_) => {}
                Stmt::GAttribute(GraphAttributes::Graph(l) | GraphAttributes::Node(l) | GraphAttributes::Edge(l)) => f(Spot::Attrs(l)),
                Stmt::Edge(e) => {
                    f(Spot::Edge(&mut e.ty));
                    match &mut e.ty {
                        EdgeTy::Pair(a, b) => {
                            vert(a, f);
                            vert(b, f)
                        }
                        EdgeTy::Chain(v) => v.iter_mut().for_each(|v| vert(v, f)),
                    }
                    f(Spot::Attrs(&mut e.attributes))
                }
            }
        }
    }
    let (Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. }) = g;
    list(stmts, f)
}

const ID_EDITS: usize = 12;
fn edit_id(i: &mut Id, how: usize) {
    let s = match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) | Id::Anonymous(s) => s.clone(),
    };
    let kind = |k: usize, s: String| match k {
        0 => Id::Plain(s),
        1 => Id::Escaped(s),
        2 => Id::Html(s),
        _ => Id::Anonymous(s),
    };
    let same = match i {
        Id::Plain(_) => 0,
        Id::Escaped(_) => 1,
        Id::Html(_) => 2,
        Id::Anonymous(_) => 3,
    };
    *i = match how {
        0..=3 => kind(how, s),
        4 => kind(same, format!("{}x", s)),
        5 => kind(same, format!("x{}", s)),
        6 => kind(same, s.to_uppercase()),
        7 => kind(same, format!("{} ", s)),
        8 => kind(same, s.chars().skip(1).collect()),
        9 => kind(same, s.trim_matches(|c| c == '"' || c == '<' || c == '>').to_string()),
        10 => kind(1, format!("\"{}\"", s)),
        _ => kind(same, format!("{}\0", s)),
    };
}

/// Every graph that differs from `g` in one place (some of them may be equal to it after all).
fn mutants(g: &Graph) -> Vec<Graph> {
    let mut o = vec![];
    let (mut ids, mut comp) = (0, 0);
    {
        let mut c = g.clone();
        let pl = Places::graph(&mut c);
        ids += pl.ids.len();
        comp += pl.compass.len();
    }
    for i in 0..ids {
        for how in 0..ID_EDITS {
            let mut c = g.clone();
            edit_id(Places::graph(&mut c).ids[i], how);
            o.push(c);
        }
        // two ids change places
        if i + 1 < ids {
            let mut c = g.clone();
            {
                let mut pl = Places::graph(&mut c).ids;
                let (a, b) = pl.split_at_mut(i + 1);
                std::mem::swap(&mut *a[i], &mut *b[0]);
            }
            o.push(c);
        }
    }
    for i in 0..comp {
        for new in [None, Some("n".to_string()), Some("N".into()), Some("ne".into()), Some(String::new()), Some("_".into())] {
            let mut c = g.clone();
            *Places::graph(&mut c).compass[i] = new;
            o.push(c);
        }
    }
    let mut n = 0;
    spots(&mut g.clone(), &mut |_| n += 1);
    for i in 0..n {
        for how in 0..6 {
            let mut c = g.clone();
            let mut k = 0;
            spots(&mut c, &mut |s| {
                k += 1;
                if k != i + 1 {
                    return;
                }
                match s {
                    Spot::Attrs(l) => match how {
                        0 => l.push(Attribute(p("z"), p("z"))),
                        1 => drop(l.pop()),
                        2 => l.reverse(),
                        3 => l.extend(l.clone()),
                        4 => {
                            if let Some(a) = l.first_mut() {
                                std::mem::swap(&mut a.0, &mut a.1)
                            }
                        }
                        _ => {
                            if !l.is_empty() {
                                l.remove(0);
                            }
                        }
                    },
                    Spot::Stmts(l) => match how {
                        0 => l.push(nd("z")),
                        1 => drop(l.pop()),
                        2 => l.reverse(),
                        3 => l.extend(l.clone()),
                        4 => {
                            let x = std::mem::take(l);
                            l.push(Stmt::Subgraph(Subgraph { id: anon(), stmts: x }))
                        }
                        _ => l.insert(0, Stmt::GAttribute(GraphAttributes::Node(vec![]))),
                    },
                    Spot::Edge(e) => {
                        let old = std::mem::replace(e, EdgeTy::Chain(vec![]));
                        let (was_pair, mut v) = match old {
                            EdgeTy::Pair(a, b) => (true, vec![a, b]),
                            EdgeTy::Chain(v) => (false, v),
                        };
                        match how {
                            0 => v.push(vn("z")),
                            1 => drop(v.pop()),
                            2 => v.reverse(),
                            3 => v.insert(0, vn("z")),
                            4 => {
                                if let Some(f) = v.first_mut() {
                                    *f = Vertex::S(Subgraph { id: anon(), stmts: vec![] });
                                }
                            }
                            _ => {}
                        }
                        *e = if v.len() == 2 && (was_pair != (how == 5)) {
                            let b = v.pop().unwrap();
                            EdgeTy::Pair(v.pop().unwrap(), b)
                        } else {
                            EdgeTy::Chain(v)
                        };
                    }
                    Spot::Node(x) => {
                        x.1 = match how {
                            0 => None,
                            1 => Some(Port(None, None)),
                            2 => Some(Port(Some(p("z")), None)),
                            3 => Some(Port(None, Some("s".into()))),
                            4 => Some(Port(Some(p("s")), None)),
                            _ => Some(Port(Some(p("z")), Some("s".into()))),
                        }
                    }
                    Spot::Stmt(s) => {
                        if let Stmt::GAttribute(a) = s {
                            let (GraphAttributes::Graph(l) | GraphAttributes::Node(l) | GraphAttributes::Edge(l)) = a;
                            let l = std::mem::take(l);
                            *a = match how {
                                0 => GraphAttributes::Graph(l),
                                1 => GraphAttributes::Node(l),
                                _ => GraphAttributes::Edge(l),
                            };
                        } else if how == 0 {
                            *s = Stmt::Attribute(Attribute(p("a"), p("b")));
                        } else if how == 1 {
                            *s = Stmt::Subgraph(Subgraph { id: anon(), stmts: vec![] });
                        } else if how == 2 {
                            *s = nd("a");
                        }
                    }
                }
            });
            o.push(c);
        }
    }
    for kind in 0..4 {
        let (Graph::Graph { id, stmts, .. } | Graph::DiGraph { id, stmts, .. }) = g.clone();
        o.push(mk(kind, id, stmts));
    }
    o
}

/// Gives the anonymous parts ids as the parser does; some of them share one.
fn anon_ids(mut g: Graph, i: usize) -> Graph {
    for (k, id) in Places::graph(&mut g).ids.into_iter().enumerate() {
        if let Id::Anonymous(t) = id {
            *t = format!("{}", 1844674407370955161u64 + (k % (i % 3 + 1)) as u64);
        }
    }
    g
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// All pairs of the values: equal exactly if their encodings are.
fn all_pairs<T: PartialEq + Clone + std::fmt::Debug + Sync>(run: &Run, what: &str, v: &[T], enc: fn(&T) -> String, n: &AtomicU64) {
    let e: Vec<String> = v.iter().map(enc).collect();
    run.par(v.len(), 16, |slot, i| {
        let r = run.call(slot, what, || {
            let c = v[i].clone();
            if enc(&c) != e[i] || c != v[i] || v[i] != c {
                return Some((i, "its clone is another value".to_string()));
            }
            for j in 0..v.len() {
                let want = e[i] == e[j];
                if (v[i] == v[j]) != want || (v[i] != v[j]) == want {
                    return Some((j, format!("compared equal: {}, written the same: {}", v[i] == v[j], want)));
                }
            }
            None
        });
        n.fetch_add(v.len() as u64, Relaxed);
        match r {
            Ok(None) => {}
            Ok(Some((j, m))) => run.violation(&format!("{}:{:?}:{:?}", what, v[i], v[j]), &format!("{}: {:?} and {:?}: {}", what, v[i], v[j], m), &format!("{:#?}\n{:#?}\n{}", v[i], v[j], m)),
            Err(m) => run.violation(&format!("{}:panic:{:?}", what, v[i]), &format!("{}: comparing {:?} panics: {}", what, v[i], m), &m),
        }
    });
}

/// The same values, made another way.
fn id_again(i: &Id) -> Id {
    let f = |s: &String| {
        let mut o = String::with_capacity(2 * s.len() + 40);
        s.chars().for_each(|c| o.push(c));
        o
    };
    match i {
        Id::Html(s) => Id::Html(f(s)),
        Id::Escaped(s) => Id::Escaped(f(s)),
        Id::Plain(s) => Id::Plain(f(s)),
        Id::Anonymous(s) => Id::Anonymous(f(s)),
    }
}
fn port_again(x: &Port) -> Port {
    Port(x.0.as_ref().map(id_again), x.1.as_ref().map(|c| c.chars().rev().collect::<Vec<_>>().into_iter().rev().collect()))
}
fn node_again(n: &NodeId) -> NodeId {
    NodeId(id_again(&n.0), n.1.as_ref().map(port_again))
}

fn hashes<T: Eq + Hash + Clone + std::fmt::Debug>(run: &Run, what: &str, v: &[T], enc: fn(&T) -> String, again: fn(&T) -> T) {
    let mut by: HashMap<String, u64> = HashMap::new();
    let mut set: HashSet<T> = HashSet::new();
    let mut map: HashMap<T, usize> = HashMap::new();
    let mut last: HashMap<String, usize> = HashMap::new();
    for (i, x) in v.iter().enumerate() {
        let e = enc(x);
        let h = hash(x);
        let a = again(x);
        if a != *x || *x != a || hash(&a) != h || enc(&a) != e {
            run.violation(&format!("again:{}:{:?}", what, x), &format!("{:?} made another way is not equal or has another hash", x), &format!("{:?}", x));
        }
        if *by.entry(e.clone()).or_insert(h) != h || hash(&x.clone()) != h {
            run.violation(&format!("hash:{}:{:?}", what, x), &format!("two equal values {:?} have different hashes", x), &format!("{:?}", x));
        }
        let new = last.insert(e, i).is_none();
        if set.insert(x.clone()) != new || map.insert(x.clone(), i).is_none() != new {
            run.violation(&format!("set:{}:{:?}", what, x), &format!("a hash set or map takes {:?} for {}", x, if new { "a value it holds" } else { "a new value" }), &format!("{:?}", x));
        }
    }
    for x in v {
        if map.get(x) != last.get(&enc(x)) || !set.contains(x) || map.get(&again(x)) != last.get(&enc(x)) || !set.contains(&again(x)) {
            run.violation(&format!("map:{}:{:?}", what, x), &format!("a hash map finds {:?} under {:?}", map.get(x), x), &format!("{:?}", x));
        }
    }
}

pub fn c21(run: &Run) {
    let n = AtomicU64::new(0);
    // ids, ports, node ids: all pairs
    let texts = ["", "a", "A", "b", "aa", "a ", " a", "\"a\"", "<a>", "1", "1.0", "01", "-1", "é", "e\u{301}", "\u{e9}", "n", "_", "a\0", "a\n", "\"\"", "<>", "\\\"", "node", "Node", "html a", "esc a", "anon a", "html html a", "Plain(a)", "p1:a"];
    let mut ids: Vec<Id> = vec![];
    for t in texts {
        for k in [Id::Plain, Id::Escaped, Id::Html, Id::Anonymous] {
            ids.push(k(t.to_string()));
        }
    }
    // long ones that differ in one character
    for len in [15usize, 16, 23, 24, 31, 32, 33, 64, 255, 256, 257, 1000] {
        for at in [0, 1, len / 2, len - 2, len - 1] {
            let mut s = vec![b'x'; len];
            s[at] = b'y';
            ids.push(Id::Plain(String::from_utf8(s).unwrap()));
        }
        ids.push(Id::Escaped("x".repeat(len)));
        ids.push(Id::Plain("x".repeat(len)));
    }
    ids.extend(ids[..20].to_vec());
    all_pairs(run, "ids", &ids, enc::id, &n);
    hashes(run, "ids", &ids, enc::id, id_again);
    for i in &ids {
        let want = match i {
            Id::Html(t) => format!("html {}", t),
            Id::Escaped(t) => format!("esc {}", t),
            Id::Plain(t) => t.clone(),
            Id::Anonymous(t) => format!("anon {}", t),
        };
        let mut buf = String::from("^");
        use std::fmt::Write;
        let _ = write!(buf, "{}{}$", i, i);
        if i.to_string() != want || buf != format!("^{}{}$", want, want) {
            run.violation(&format!("display:{:?}", i), &format!("{:?} is displayed as {:?}", i, i.to_string()), &format!("{:?}", i));
        }
    }
    let few: Vec<Id> = ids[..run.q(24, 48)].to_vec();
    let comp = [None, Some("n"), Some("N"), Some("ne"), Some("_"), Some(""), Some("a"), Some("e")];
    let mut ports = vec![];
    for i in few.iter().map(Some).chain([None]) {
        for c in comp {
            ports.push(Port(i.cloned(), c.map(|c| c.to_string())));
        }
    }
    ports.extend(ports[..10].to_vec());
    all_pairs(run, "ports", &ports, enc::port, &n);
    hashes(run, "ports", &ports, enc::port, port_again);
    let mut nodes = vec![];
    for i in &few {
        for q in ports.iter().step_by(3).map(Some).chain([None]) {
            nodes.push(NodeId(i.clone(), q.cloned()));
        }
    }
    all_pairs(run, "node ids", &nodes, enc::node_id, &n);
    hashes(run, "node ids", &nodes, enc::node_id, node_again);
    let mut attrs = vec![];
    for i in &few {
        for j in &few {
            attrs.push(Attribute(i.clone(), j.clone()));
        }
    }
    all_pairs(run, "attributes", &attrs, enc::attr, &n);
    // all pairs of small graphs, statements, edges, ...
    let sh = shapes::shapes(3);
    let mut stmts: Vec<Stmt> = vec![];
    let sh4 = shapes::shapes(4);
    for s in sh.stmts.iter().flatten().chain(sh4.stmts[4].iter().step_by(run.q(3, 1))) {
        let l = std::slice::from_ref(s);
        let k = shapes::slots(l);
        for code in if k <= 3 { shapes::patterns(k) } else { vec![0] } {
            for pool in 0..2 {
                stmts.extend(shapes::Namer::new(Names::Pattern(code, pool)).list(l));
            }
        }
    }
    let step = run.q(2, 1);
    let stmts: Vec<Stmt> = stmts.into_iter().step_by(step).collect();
    run.count("statements_compared_with_each_other", stmts.len() as u64);
    all_pairs(run, "statements", &stmts, enc::stmt, &n);
    let pick = |f: &dyn Fn(&Stmt) -> bool| stmts.iter().filter(|s| f(s)).cloned().collect::<Vec<_>>();
    let edges: Vec<Edge> = pick(&|s| matches!(s, Stmt::Edge(_))).into_iter().filter_map(|s| if let Stmt::Edge(e) = s { Some(e) } else { None }).collect();
    all_pairs(run, "edges", &edges, enc::edge, &n);
    let subs: Vec<Subgraph> = pick(&|s| matches!(s, Stmt::Subgraph(_))).into_iter().filter_map(|s| if let Stmt::Subgraph(e) = s { Some(e) } else { None }).collect();
    all_pairs(run, "subgraphs", &subs, enc::sub, &n);
    let ns: Vec<Node> = pick(&|s| matches!(s, Stmt::Node(_))).into_iter().filter_map(|s| if let Stmt::Node(e) = s { Some(e) } else { None }).collect();
    all_pairs(run, "nodes", &ns, enc::node, &n);
    let ga: Vec<GraphAttributes> = pick(&|s| matches!(s, Stmt::GAttribute(_))).into_iter().filter_map(|s| if let Stmt::GAttribute(e) = s { Some(e) } else { None }).collect();
    all_pairs(run, "attribute statements", &ga, enc::gattr, &n);
    let mut verts: Vec<Vertex> = subs.into_iter().map(Vertex::S).collect();
    verts.extend(nodes.iter().step_by(5).cloned().map(Vertex::N));
    all_pairs(run, "vertices", &verts, enc::vert, &n);
    let graphs: Vec<Graph> = sh.lists[..3]
        .iter()
        .flatten()
        .enumerate()
        .flat_map(|(i, l)| (0..shapes::KINDS).step_by(1 + i % 2).flat_map(move |k| [shapes::graph(k, Names::Unique, l), anon_ids(shapes::graph(k, Names::Unique, l), i + k), shapes::graph(k, Names::Same, l)]))
        .collect();
    run.count("graphs_compared_with_each_other", graphs.len() as u64);
    all_pairs(run, "graphs", &graphs, enc::graph, &n);
    // every graph against everything that differs from it in one place
    let w = run.q(4, 5);
    let wide = shapes::shapes(w);
    let mut lists: Vec<Vec<Stmt>> = wide.lists.iter().enumerate().flat_map(|(k, l)| l.iter().step_by(if k == w { run.q(7, 5) } else { 1 }).cloned()).collect();
    lists.extend(shapes::products(run.q(3, 4), 2));
    for k in run.q(vec![3, 17, 60], vec![3, 17, 60, 200]) {
        lists.extend(shapes::sized(k));
    }
    let muts = AtomicU64::new(0);
    run.par(lists.len(), 8, |slot, i| {
        let mut g = shapes::graph(i, if i % 2 == 0 { Names::Unique } else { Names::Rotate(i / 2) }, &lists[i]);
        if i % 5 != 0 {
            g = anon_ids(g, i);
        }
        let what = refprint::plain(&g);
        let e = enc::graph(&g);
        let r = run.call(slot, &what, || {
            for m in mutants(&g) {
                muts.fetch_add(1, Relaxed);
                let want = enc::graph(&m) == e;
                if (m == g) != want || (g == m) != want || (g != m) == want {
                    return Some(format!("{:?} and {:?} compare equal: {}, are written the same: {}", g, m, m == g, want));
                }
            }
            // a clone is a value of its own
            let mut c = g.clone();
            if enc::graph(&c) != e {
                return Some(format!("the clone of {:?} is {:?}", g, c));
            }
            c.add_stmt(nd("added"));
            if enc::graph(&g) != e || c == g {
                return Some(format!("a change of its clone changes {:?}", g));
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some(m)) => run.violation(&format!("mutant:{}", short(&what, 200)), &short(&m, 900), &m),
            Err(m) => run.violation(&format!("panic:{}", short(&what, 200)), &format!("panic: {} | {}", m, short(&what, 300)), &what),
        }
    });
    let (n, m) = (n.load(Relaxed), muts.load(Relaxed));
    run.count("pairs_compared", n);
    run.count("one_place_differences", m);
    run.count("states", lists.len() as u64 + graphs.len() as u64 + stmts.len() as u64 + ids.len() as u64 + ports.len() as u64 + nodes.len() as u64);
    run.count("transitions", n + m);
    run.count("traces_validated_against_impl", n + m);
    run.note("bounds", format!("all pairs of {} ids, {} ports, {} node ids, {} attributes, {} statements, {} graphs; every graph of weight <= {} against all its one-place changes", ids.len(), ports.len(), nodes.len(), attrs.len(), stmts.len(), graphs.len(), w));
    run.sample(format!("{:?} / {:?}", graphs[graphs.len() / 2], graphs[graphs.len() / 2 + 1]));
}
