//! C19: construction histories against a model, conversions and constructors over the shape space.
use crate::pr::safe;
use crate::refdot::norm;
use crate::run::*;
use crate::shapes::{self, anon, mk, Names};
use dot_structures::*;
use graphviz_rust::parse;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use std::sync::atomic::{AtomicU64, Ordering::*};

fn p(s: &str) -> Id {
    Id::Plain(s.into())
}
fn a(k: &str, v: &str) -> Attribute {
    Attribute(p(k), p(v))
}
fn ni(s: &str) -> NodeId {
    NodeId(p(s), None)
}
fn vn(s: &str) -> Vertex {
    Vertex::N(ni(s))
}
fn gid(k: usize) -> Id {
    [p("g"), Id::Escaped("\"g h\"".into()), Id::Html("<g>".into()), anon()][k].clone()
}
fn node(s: &str, at: Vec<Attribute>) -> Stmt {
    Stmt::Node(Node { id: ni(s), attributes: at })
}
/// What one step of a history can add.
fn alphabet() -> Vec<Stmt> {
    let pair = |x: &str, y: &str, at| Stmt::Edge(Edge { ty: EdgeTy::Pair(vn(x), vn(y)), attributes: at });
    vec![
        node("a", vec![]),
        node("a", vec![a("k", "1"), a("j", "2")]),
        node("b", vec![a("k", "1")]),
        Stmt::Attribute(a("k", "1")),
        Stmt::Attribute(a("k", "2")),
        Stmt::GAttribute(GraphAttributes::Graph(vec![a("k", "1")])),
        Stmt::GAttribute(GraphAttributes::Node(vec![a("k", "1")])),
        Stmt::GAttribute(GraphAttributes::Node(vec![a("k", "2"), a("b", "1")])),
        Stmt::GAttribute(GraphAttributes::Edge(vec![])),
        pair("a", "b", vec![]),
        pair("b", "a", vec![a("k", "1")]),
        Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![vn("a"), vn("b"), vn("a")]), attributes: vec![a("k", "1")] }),
        Stmt::Subgraph(Subgraph { id: p("s"), stmts: vec![] }),
        Stmt::Subgraph(Subgraph { id: anon(), stmts: vec![node("a", vec![])] }),
    ]
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Add(usize),
    Open(usize),
    /// the open subgraph becomes a statement
    Close,
    /// the open subgraph becomes the end of an edge
    Join,
}

#[derive(Clone)]
struct State {
    /// the implementation's values: the graph and the open subgraphs
    g: Graph,
    open: Vec<Subgraph>,
    /// the model: (open id, statements) per level
    model: Vec<Vec<Stmt>>,
}

fn sub_id(k: usize) -> Id {
    [p("s"), anon(), Id::Escaped("\"s t\"".into())][k].clone()
}

struct Hist<'a> {
    run: &'a Run,
    slot: usize,
    kind: usize,
    alpha: &'a [Stmt],
    states: AtomicU64,
    steps: AtomicU64,
    ends: AtomicU64,
}

impl Hist<'_> {
    fn fail(&self, h: &[Op], what: &str, got: String, want: String) {
        self.run.violation(
            &format!("history:{}:{:?}", self.kind, h),
            &format!("after {:?} on a graph of kind {}: {}: {} instead of {}", h, self.kind, what, short(&got, 300), short(&want, 300)),
            &format!("kind: {}\nhistory: {:?}\n{}\ngot      {}\nexpected {}\nalphabet: {:#?}", self.kind, h, what, got, want, self.alpha),
        );
    }
    fn want_graph(&self, stmts: &[Stmt]) -> Graph {
        mk(self.kind, gid(self.kind), stmts.to_vec())
    }
    fn add(&self, s: &mut State, stmt: Stmt) {
        match s.open.last_mut() {
            Some(o) => o.add_stmt(stmt),
            None => s.g.add_stmt(stmt),
        }
    }
    fn step(&self, s: &State, op: Op) -> Option<State> {
        let mut n = s.clone();
        match op {
            Op::Add(i) => {
                self.add(&mut n, self.alpha[i].clone());
                n.model.last_mut().unwrap().push(self.alpha[i].clone());
            }
            Op::Open(k) => {
                n.open.push(Subgraph { id: sub_id(k), stmts: vec![] });
                n.model.push(vec![]);
            }
            Op::Close | Op::Join => {
                let o = n.open.pop()?;
                let m = Subgraph { id: o.id.clone(), stmts: n.model.pop().unwrap() };
                let (stmt, ms) = if let Op::Close = op {
                    (Stmt::from(o), Stmt::Subgraph(m))
                } else {
                    let e = Edge { ty: EdgeTy::Pair(Vertex::from(ni("a")), Vertex::from(o)), attributes: vec![] };
                    let me = Edge { ty: EdgeTy::Pair(vn("a"), Vertex::S(m)), attributes: vec![] };
                    (Stmt::from(e), Stmt::Edge(me))
                };
                self.add(&mut n, stmt);
                n.model.last_mut().unwrap().push(ms);
            }
        }
        Some(n)
    }
    fn same(&self, h: &[Op], s: &State) -> bool {
        let w = self.want_graph(&s.model[0]);
        if s.g != w || format!("{:?}", s.g) != format!("{:?}", w) {
            self.fail(h, "the graph", format!("{:?}", s.g), format!("{:?}", w));
            return false;
        }
        for (o, m) in s.open.iter().zip(&s.model[1..]) {
            if o.stmts != *m || format!("{:?}", o.stmts) != format!("{:?}", m) {
                self.fail(h, "an open subgraph", format!("{:?}", o.stmts), format!("{:?}", m));
                return false;
            }
        }
        true
    }
    /// the finished graph equals, prints and parses like the one written directly
    fn end(&self, h: &[Op], s: &State) {
        let mut s = s.clone();
        while !s.open.is_empty() {
            s = self.step(&s, Op::Close).unwrap();
        }
        self.ends.fetch_add(1, Relaxed);
        let w = self.want_graph(&s.model[0]);
        let (x, y) = (s.g.print(&mut PrinterContext::default()), w.print(&mut PrinterContext::default()));
        if s.g != w || x != y {
            return self.fail(h, "the finished graph", format!("{:?}\n{}", s.g, x), format!("{:?}\n{}", w, y));
        }
        match parse(&x) {
            Ok(g) if norm(&g) == norm(&w) => {}
            r => self.fail(h, "the finished graph, printed and parsed", format!("{:?}", r), format!("{:?}", w)),
        }
    }
    fn explore(&self, h: &mut Vec<Op>, s: &State, left: usize) {
        if self.run.stopped() {
            return;
        }
        self.states.fetch_add(1, Relaxed);
        if h.len() % 2 == 0 || left == 0 {
            self.end(h, s);
        }
        if left == 0 {
            return;
        }
        let mut ops: Vec<Op> = (0..self.alpha.len()).map(Op::Add).collect();
        if s.open.len() < 2 {
            ops.extend((0..3).map(Op::Open));
        }
        if !s.open.is_empty() {
            ops.extend([Op::Close, Op::Join]);
        }
        for op in ops {
            let before = format!("{:?}", s.g);
            let n = self.step(s, op).unwrap();
            self.steps.fetch_add(1, Relaxed);
            h.push(op);
            if format!("{:?}", s.g) != before {
                self.fail(h, "the graph that was copied before the last step", format!("{:?}", s.g), before);
            }
            if self.same(h, &n) {
                self.explore(h, &n, left - 1);
            }
            h.pop();
        }
    }
}

fn cases_of(w: &str) -> Vec<String> {
    (0..1u32 << w.len())
        .map(|m| w.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect())
        .collect()
}

/// Conversions and constructors, over every value of the shape space.
fn conversions(run: &Run, slot: usize, names: Names, s: &Stmt, n: &AtomicU64) {
    wrapped(run, slot, &shapes::Namer::new(names).list(std::slice::from_ref(s)).pop().unwrap(), n)
}

fn wrapped(run: &Run, slot: usize, s: &Stmt, n: &AtomicU64) {
    let bad = |what: &str, got: String, want: String| {
        run.violation(
            &format!("conversion:{}:{}", what, short(&want, 200)),
            &format!("{} gives {} instead of {}", what, short(&got, 300), short(&want, 300)),
            &format!("{}\ngot      {}\nexpected {}", what, got, want),
        )
    };
    macro_rules! ck {
        ($what:expr, $got:expr, $want:expr) => {{
            n.fetch_add(1, Relaxed);
            let want = $want;
            match run.call(slot, $what, || $got) {
                Ok(g) => {
                    if g != want || format!("{:?}", g) != format!("{:?}", want) {
                        bad($what, format!("{:?}", g), format!("{:?}", want));
                    }
                }
                Err(e) => bad($what, format!("a panic: {}", e), format!("{:?}", want)),
            }
        }};
    }
    let vert = |v: &Vertex| match v {
        Vertex::N(x) => ck!("Vertex::from(NodeId)", Vertex::from(x.clone()), Vertex::N(x.clone())),
        Vertex::S(x) => ck!("Vertex::from(Subgraph)", Vertex::from(x.clone()), Vertex::S(x.clone())),
    };
    match s {
        Stmt::Node(x) => {
            ck!("Stmt::from(Node)", Stmt::from(x.clone()), s.clone());
            ck!("Node::new", Node::new(x.id.clone(), x.attributes.clone()), Node { id: x.id.clone(), attributes: x.attributes.clone() });
        }
        Stmt::Subgraph(x) => {
            ck!("Stmt::from(Subgraph)", Stmt::from(x.clone()), s.clone());
            vert(&Vertex::S(x.clone()));
            // the same subgraph, statement by statement
            let mut b = Subgraph { id: x.id.clone(), stmts: vec![] };
            for y in &x.stmts {
                b.add_stmt(y.clone());
            }
            ck!("add_stmt of all statements", b, x.clone());
        }
        Stmt::Attribute(x) => ck!("Stmt::from(Attribute)", Stmt::from(x.clone()), s.clone()),
        Stmt::Edge(x) => {
            ck!("Stmt::from(Edge)", Stmt::from(x.clone()), s.clone());
            match &x.ty {
                EdgeTy::Pair(x, y) => {
                    vert(x);
                    vert(y)
                }
                EdgeTy::Chain(v) => v.iter().for_each(vert),
            }
        }
        Stmt::GAttribute(x) => {
            ck!("Stmt::from(GraphAttributes)", Stmt::from(x.clone()), s.clone());
            let (w, l) = match x {
                GraphAttributes::Graph(l) => ("graph", l),
                GraphAttributes::Node(l) => ("node", l),
                GraphAttributes::Edge(l) => ("edge", l),
            };
            for t in cases_of(w) {
                ck!(&format!("GraphAttributes::new({:?}, ..)", t), GraphAttributes::new(&t, l.clone()), x.clone());
            }
        }
    }
    for kind in 0..4 {
        for id in 0..4 {
            let mut g = mk(kind, gid(id), vec![node("f", vec![]), s.clone()]);
            g.add_stmt(s.clone());
            ck!("Graph::add_stmt", g.clone(), mk(kind, gid(id), vec![node("f", vec![]), s.clone(), s.clone()]));
        }
    }
    let mut b = Subgraph { id: p("s"), stmts: vec![s.clone(), node("f", vec![])] };
    b.add_stmt(s.clone());
    ck!("Subgraph::add_stmt", b.clone(), Subgraph { id: p("s"), stmts: vec![s.clone(), node("f", vec![]), s.clone()] });
}

pub fn c19(run: &Run) {
    let alpha = alphabet();
    let depth = run.q(5, 6);
    let tot = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
    // histories: split by kind and first two steps
    let n = alpha.len() + 3;
    run.par(4 * n, 1, |slot, i| {
        let (kind, first) = (i / n, i % n);
        let h = Hist { run, slot, kind, alpha: &alpha, states: 0.into(), steps: 0.into(), ends: 0.into() };
        let s0 = State { g: mk(kind, gid(kind), vec![]), open: vec![], model: vec![vec![]] };
        let op = if first < alpha.len() { Op::Add(first) } else { Op::Open(first - alpha.len()) };
        let r = run.call(slot, &format!("histories of kind {} starting with {:?}", kind, op), || {
            let s = h.step(&s0, op).unwrap();
            h.steps.fetch_add(1, Relaxed);
            if h.same(&[op], &s) {
                h.explore(&mut vec![op], &s, depth - 1);
            }
        });
        if let Err(e) = r {
            run.violation(&format!("panic:{}:{:?}", kind, op), &format!("a history of kind {} starting with {:?} panics: {}", kind, op, e), &format!("{:?}", op));
        }
        for (t, c) in tot.iter().zip([&h.states, &h.steps, &h.ends]) {
            t.fetch_add(c.load(Relaxed), Relaxed);
        }
    });
    // long histories: n statements of the alphabet in every rotation, on every kind and on a subgraph
    let long = run.q((5usize..40).chain([64, 65, 100, 127, 128, 129, 255, 256, 257, 1000]).collect::<Vec<_>>(), (5..300).chain([511, 512, 513, 1000, 1024, 5000, 65537]).collect());
    let runs = long.len() * alpha.len() * 5;
    run.par(runs, 1, |slot, i| {
        let (len, rot, kind) = (long[i / (alpha.len() * 5)], i / 5 % alpha.len(), i % 5);
        let want: Vec<Stmt> = (0..len).map(|k| alpha[(k * (rot + 1) + rot) % alpha.len()].clone()).collect();
        let r = run.call(slot, &format!("{} statements", len), || {
            if kind == 4 {
                let mut s = Subgraph { id: p("s"), stmts: vec![] };
                want.iter().for_each(|x| s.add_stmt(x.clone()));
                s == Subgraph { id: p("s"), stmts: want.clone() }
            } else {
                let mut g = mk(kind, p("g"), vec![]);
                want.iter().for_each(|x| g.add_stmt(x.clone()));
                g == mk(kind, p("g"), want.clone())
            }
        });
        tot[1].fetch_add(len as u64, Relaxed);
        if !matches!(r, Ok(true)) {
            run.violation(
                &format!("long:{}:{}:{}", len, rot, kind),
                &format!("{} statements added one by one (rotation {}, kind {}) are not those of the graph: {:?}", len, rot, kind, r),
                &format!("{:?}", want),
            );
        }
    });
    // conversions over the shape space
    let w = run.q(3, 4);
    let sh = shapes::shapes(w);
    let all: Vec<&Stmt> = sh.stmts.iter().flatten().collect();
    let conv = AtomicU64::new(0);
    let names = [Names::Unique, Names::Same, Names::Rotate(0), Names::Rotate(3)];
    run.par(all.len() * names.len(), 64, |slot, i| {
        conversions(run, slot, names[i % names.len()], all[i / names.len()], &conv);
    });
    // every pattern of equal ids in the small ones
    let few: Vec<(usize, &Stmt)> = all.iter().map(|s| (shapes::slots(std::slice::from_ref(*s)), *s)).filter(|x| x.0 <= run.q(5, 6)).collect();
    run.par(few.len(), 8, |slot, i| {
        for (j, code) in shapes::patterns(few[i].0).into_iter().enumerate() {
            conversions(run, slot, Names::Pattern(code, i + j), few[i].1, &conv);
        }
    });
    // values that are not worth drawing, or not even DOT: they are wrapped unchanged all the same
    let ids = [p("a"), p(""), p(" a b\n"), p("\"q\""), p("7"), p("node"), Id::Escaped("a".into()), Id::Escaped("\"\"".into()), Id::Html("x".into()), Id::Html("<>".into()), anon(), Id::Anonymous("".into()), Id::Anonymous("7".into())];
    let mut odd: Vec<Stmt> = vec![];
    for i in &ids {
        for j in &ids {
            let port = |x: &Id, c: Option<&str>| NodeId(i.clone(), Some(Port(Some(x.clone()), c.map(|c| c.to_string()))));
            let (v, w) = (Vertex::N(NodeId(i.clone(), None)), Vertex::S(Subgraph { id: j.clone(), stmts: vec![] }));
            let at = |n: usize| vec![Attribute(i.clone(), j.clone()); n];
            odd.extend([
                Stmt::Attribute(Attribute(i.clone(), j.clone())),
                Stmt::Node(Node { id: port(j, None), attributes: at(2) }),
                Stmt::Node(Node { id: port(j, Some("")), attributes: vec![] }),
                Stmt::Node(Node { id: port(j, Some("ne")), attributes: at(1) }),
                Stmt::Node(Node { id: NodeId(i.clone(), Some(Port(None, Some("x y".into())))), attributes: at(3) }),
                Stmt::Node(Node { id: NodeId(i.clone(), Some(Port(None, None))), attributes: vec![] }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![]), attributes: at(2) }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![v.clone()]), attributes: at(1) }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![w.clone()]), attributes: vec![] }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![v.clone(), w.clone()]), attributes: at(2) }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![v.clone(), v.clone()]), attributes: vec![] }),
                Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![v.clone(), v.clone(), v.clone()]), attributes: vec![] }),
                Stmt::Edge(Edge { ty: EdgeTy::Pair(w.clone(), v.clone()), attributes: at(1) }),
                Stmt::Edge(Edge { ty: EdgeTy::Pair(v.clone(), v.clone()), attributes: at(2) }),
                Stmt::Edge(Edge { ty: EdgeTy::Pair(Vertex::N(port(j, None)), w.clone()), attributes: vec![] }),
                Stmt::GAttribute(GraphAttributes::Node(at(2))),
                Stmt::GAttribute(GraphAttributes::Edge(at(3))),
                Stmt::GAttribute(GraphAttributes::Graph(at(1))),
                Stmt::Subgraph(Subgraph { id: i.clone(), stmts: vec![Stmt::Subgraph(Subgraph { id: j.clone(), stmts: vec![] }); 2] }),
                Stmt::Subgraph(Subgraph { id: i.clone(), stmts: vec![Stmt::Edge(Edge { ty: EdgeTy::Chain(vec![v.clone(), w]), attributes: vec![] })] }),
            ]);
        }
    }
    run.par(odd.len(), 8, |slot, i| wrapped(run, slot, &odd[i], &conv));
    run.count("odd_values", odd.len() as u64);
    let sizes: Vec<usize> = (1..41).chain(run.q(vec![63, 64, 65, 128, 129, 257, 300, 1000], (41..300).chain([511, 512, 513, 1000, 1024, 1025, 3000]).collect())).collect();
    let sized = [Names::Unique, Names::Same, Names::Keys(0), Names::Rotate(1)];
    run.par(sizes.len(), 1, |slot, i| {
        for (j, l) in shapes::sized(sizes[i]).iter().enumerate() {
            // long lists of small statements: a few of them will do
            let few = if l.len() > 3 { vec![&l[0], &l[l.len() / 2], &l[l.len() - 1]] } else { l.iter().collect() };
            for s in few {
                for n in sized {
                    conversions(run, slot, n, s, &conv);
                }
            }
            // the whole list as a subgraph
            if j < 8 {
                conversions(run, slot, sized[j % 2], &Stmt::Subgraph(Subgraph { id: p("s"), stmts: l.clone() }), &conv);
            }
        }
    });
    run.count("states", tot[0].load(Relaxed));
    run.count("transitions", tot[1].load(Relaxed));
    run.count("traces_validated_against_impl", tot[2].load(Relaxed));
    run.count("conversions", conv.load(Relaxed));
    run.note("rule", format!("every history of up to {} steps over {} statements, opening, closing and joining subgraphs, on graphs of 4 kinds, compared with a list model after every step", depth, alpha.len()));
    for h in ["Add(0) Add(0)", "Open(1) Add(9) Join", "Add(6) Add(7)"] {
        run.sample(h);
    }
    run.assume("values are compared by the derived equality and by their Debug form");
    let _ = safe(|| ());
}
