//! The bounded space of graph values: every skeleton up to a weight, then ids put into it.
use crate::pcheck::id_of;
use crate::refdot::is_compass;
use dot_structures::*;

fn ph() -> Id {
    Id::Plain(String::new())
}
pub fn anon() -> Id {
    Id::Anonymous(String::new())
}
fn ports() -> Vec<Option<Port>> {
    vec![
        None,
        Some(Port(Some(ph()), None)),
        Some(Port(None, Some(String::new()))),
        Some(Port(Some(ph()), Some(String::new()))),
    ]
}
fn at(n: usize) -> Vec<Attribute> {
    (0..n).map(|_| Attribute(ph(), ph())).collect()
}

/// Skeletons by weight. `stmts[w]`: single statements of weight w, `lists[w]`: statement lists.
pub struct Shapes {
    pub stmts: Vec<Vec<Stmt>>,
    pub verts: Vec<Vec<Vertex>>,
    pub lists: Vec<Vec<Vec<Stmt>>>,
}

/// Weights: a node, attribute, attribute statement or subgraph 1, each attribute, port 1;
/// an edge 1, each vertex beyond two 1, a subgraph as vertex 1 plus its body.
pub fn shapes(max: usize) -> Shapes {
    let mut s = Shapes { stmts: vec![vec![]], verts: vec![], lists: vec![vec![vec![]]] };
    for w in 0..=max {
        // vertices of weight w (plain node id weighs 0)
        let mut v = vec![];
        if w == 0 {
            v.push(Vertex::N(NodeId(ph(), None)));
        } else {
            if w == 1 {
                v.extend(ports().into_iter().skip(1).map(|p| Vertex::N(NodeId(ph(), p))));
            }
            for id in [anon(), ph()] {
                for b in &s.lists[w - 1] {
                    v.push(Vertex::S(Subgraph { id: id.clone(), stmts: b.clone() }));
                }
            }
        }
        s.verts.push(v);
        if w == 0 {
            continue;
        }
        let mut o = vec![];
        for (i, p) in ports().into_iter().enumerate() {
            let k = 1 + (i > 0) as usize;
            if w >= k {
                o.push(Stmt::Node(nodev(NodeId(ph(), p), at(w - k))));
            }
        }
        if w == 1 {
            o.push(Stmt::Attribute(Attribute(ph(), ph())));
        }
        o.push(Stmt::GAttribute(GraphAttributes::Graph(at(w - 1))));
        o.push(Stmt::GAttribute(GraphAttributes::Node(at(w - 1))));
        o.push(Stmt::GAttribute(GraphAttributes::Edge(at(w - 1))));
        for id in [anon(), ph()] {
            for b in &s.lists[w - 1] {
                o.push(Stmt::Subgraph(Subgraph { id: id.clone(), stmts: b.clone() }));
            }
        }
        // edges: 1 + (vertices - 2) + weights of vertices + attributes
        for nv in 2..=(w + 1) {
            let left = w - 1 - (nv - 2);
            for na in 0..=left {
                for vs in vert_seqs(&s.verts, nv, left - na) {
                    let ty = if nv == 2 {
                        let mut it = vs.into_iter();
                        EdgeTy::Pair(it.next().unwrap(), it.next().unwrap())
                    } else {
                        EdgeTy::Chain(vs)
                    };
                    o.push(Stmt::Edge(Edge { ty, attributes: at(na) }));
                }
            }
        }
        s.stmts.push(o);
        let mut l = vec![];
        for first in 1..=w {
            for a in &s.stmts[first] {
                for rest in &s.lists[w - first] {
                    let mut x = vec![a.clone()];
                    x.extend(rest.iter().cloned());
                    l.push(x);
                }
            }
        }
        s.lists.push(l);
    }
    s
}

fn vert_seqs(verts: &[Vec<Vertex>], n: usize, w: usize) -> Vec<Vec<Vertex>> {
    if n == 0 {
        return if w == 0 { vec![vec![]] } else { vec![] };
    }
    let mut o = vec![];
    for k in 0..=w {
        if k >= verts.len() {
            break;
        }
        let rest = vert_seqs(verts, n - 1, w - k);
        for v in &verts[k] {
            for r in &rest {
                let mut x = vec![v.clone()];
                x.extend(r.iter().cloned());
                o.push(x);
            }
        }
    }
    o
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Names {
    /// every id different
    Unique,
    /// every id the same
    Same,
    /// the i-th id from class i + s
    Rotate(usize),
    /// plain ids padded to a length
    Long(usize),
    /// attribute keys from a small pool of look-alikes, the rest unique
    Keys(usize),
    /// the i-th id is number (code / 16^i) % 16 of a pool: every pattern of equal ids
    Pattern(u64, usize),
    /// the id at one place is the given word, the rest unique
    Word(usize, usize),
}

/// The words that are ids.
pub fn words() -> &'static [Id] {
    static W: std::sync::OnceLock<Vec<Id>> = std::sync::OnceLock::new();
    W.get_or_init(crate::pcheck2::words)
}

/// Every way to put word `k` in one place of a list, for all lists.
pub fn worded<'a>(lists: &'a [(usize, &'a Vec<Stmt>)], k: usize) -> impl Iterator<Item = Graph> + 'a {
    lists.iter().enumerate().flat_map(move |(i, (n, l))| (0..=*n).map(move |at| graph(i + at + k, Names::Word(k, at), l)))
}

/// All ways n ids can be equal to or different from each other, as codes of `Names::Pattern`.
pub fn patterns(n: usize) -> Vec<u64> {
    fn go(i: usize, n: usize, used: u64, code: u64, o: &mut Vec<u64>) {
        if i == n {
            o.push(code);
            return;
        }
        for d in 0..=used {
            go(i + 1, n, used.max(d + 1), code | d << (4 * i), o);
        }
    }
    let mut o = vec![];
    go(0, n, 0, 0, &mut o);
    o
}

/// The number of ids in a graph made from the list (its own id not counted).
pub fn slots(l: &[Stmt]) -> usize {
    let mut n = Namer::new(Names::Unique);
    n.list(l);
    n.i
}

pub const COMPASS: &[&str] = &["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"];

pub struct Namer {
    names: Names,
    i: usize,
    c: usize,
}

impl Namer {
    pub fn new(names: Names) -> Namer {
        Namer { names, i: 0, c: match names {
            Names::Rotate(s) => s,
            _ => 0,
        } }
    }
    fn next(&mut self) -> Id {
        let i = self.i;
        self.i += 1;
        match self.names {
            Names::Word(k, at) if at == i => words()[k].clone(),
            Names::Unique | Names::Keys(_) | Names::Word(..) => Id::Plain(format!("v{}", i)),
            Names::Same => Id::Plain("a".into()),
            Names::Rotate(s) => id_of(i + s, i),
            Names::Pattern(code, pool) => {
                let d = (code >> (4 * (i % 16))) as usize & 15;
                let p: [&[&str]; 2] = [&["a", "b", "c", "d", "f"], &["a", "\"a\"", "A", "<a>", "aa"]];
                match p[pool % 2].get(d) {
                    Some(w) => word(w),
                    None => Id::Plain(format!("v{}", d)),
                }
            }
            Names::Long(n) => Id::Plain(format!("{:x<w$}", format!("v{}", i), w = n)),
        }
    }
    fn id(&mut self, id: &Id) -> Id {
        match id {
            Id::Anonymous(_) => anon(),
            _ => self.next(),
        }
    }
    fn compass(&mut self) -> String {
        self.c += 1;
        COMPASS[(self.c - 1) % COMPASS.len()].to_string()
    }
    fn port(&mut self, p: &Port) -> Port {
        let i = p.0.as_ref().map(|_| {
            let i = self.next();
            match &i {
                // a port that is named like a compass point cannot be told from it
                Id::Plain(s) if is_compass(s) && p.1.is_none() => Id::Plain(s.repeat(3)),
                _ => i,
            }
        });
        Port(i, p.1.as_ref().map(|_| self.compass()))
    }
    fn node_id(&mut self, n: &NodeId) -> NodeId {
        let i = self.next();
        NodeId(i, n.1.as_ref().map(|p| self.port(p)))
    }
    pub fn attrs(&mut self, l: &[Attribute]) -> Vec<Attribute> {
        l.iter()
            .map(|_| {
                let k = match self.names {
                    Names::Keys(s) => {
                        self.c += 1;
                        keys()[(self.c + s) % keys().len()].clone()
                    }
                    _ => self.next(),
                };
                let v = self.next();
                Attribute(k, v)
            })
            .collect()
    }
    fn vert(&mut self, v: &Vertex) -> Vertex {
        match v {
            Vertex::N(n) => Vertex::N(self.node_id(n)),
            Vertex::S(s) => Vertex::S(self.sub(s)),
        }
    }
    fn sub(&mut self, s: &Subgraph) -> Subgraph {
        let id = self.id(&s.id);
        Subgraph { id, stmts: self.list(&s.stmts) }
    }
    fn stmt(&mut self, s: &Stmt) -> Stmt {
        match s {
            Stmt::Node(n) => {
                let id = self.node_id(&n.id);
                Stmt::Node(nodev(id, self.attrs(&n.attributes)))
            }
            Stmt::Attribute(a) => Stmt::Attribute(self.attrs(std::slice::from_ref(a)).pop().unwrap()),
            Stmt::GAttribute(g) => Stmt::GAttribute(match g {
                GraphAttributes::Graph(l) => GraphAttributes::Graph(self.attrs(l)),
                GraphAttributes::Node(l) => GraphAttributes::Node(self.attrs(l)),
                GraphAttributes::Edge(l) => GraphAttributes::Edge(self.attrs(l)),
            }),
            Stmt::Subgraph(s) => Stmt::Subgraph(self.sub(s)),
            Stmt::Edge(e) => {
                let ty = match &e.ty {
                    EdgeTy::Pair(a, b) => {
                        let a = self.vert(a);
                        EdgeTy::Pair(a, self.vert(b))
                    }
                    EdgeTy::Chain(v) => EdgeTy::Chain(v.iter().map(|v| self.vert(v)).collect()),
                };
                Stmt::Edge(Edge { ty, attributes: self.attrs(&e.attributes) })
            }
        }
    }
    pub fn list(&mut self, l: &[Stmt]) -> Vec<Stmt> {
        l.iter().map(|s| self.stmt(s)).collect()
    }
}

pub fn keys() -> Vec<Id> {
    vec![
        Id::Plain("k".into()),
        Id::Escaped("\"k\"".into()),
        Id::Plain("K".into()),
        Id::Html("<k>".into()),
        Id::Plain("kk".into()),
    ]
}

/// kind: 0 graph, 1 digraph, 2 strict graph, 3 strict digraph; +4: anonymous
pub const KINDS: usize = 8;
pub fn graph(kind: usize, names: Names, l: &[Stmt]) -> Graph {
    let mut n = Namer::new(names);
    let id = if kind & 4 != 0 { anon() } else { n.next() };
    let stmts = n.list(l);
    mk(kind, id, stmts)
}
pub fn mk(kind: usize, id: Id, stmts: Vec<Stmt>) -> Graph {
    let strict = kind & 2 != 0;
    if kind & 1 != 0 {
        Graph::DiGraph { id, strict, stmts }
    } else {
        Graph::Graph { id, strict, stmts }
    }
}

fn e(n: &str) -> Vertex {
    Vertex::N(NodeId(Id::Plain(n.into()), None))
}
fn a(i: usize) -> Attribute {
    Attribute(Id::Plain(format!("k{}", i)), Id::Plain(format!("v{}", i)))
}
fn named(n: String, stmts: Vec<Stmt>) -> Subgraph {
    Subgraph { id: Id::Plain(n), stmts }
}
fn node(n: String) -> Stmt {
    Stmt::Node(nodev(NodeId(Id::Plain(n), None), vec![]))
}
fn chain(v: Vec<Vertex>, attributes: Vec<Attribute>) -> Stmt {
    let ty = if v.len() == 2 {
        let mut i = v.into_iter();
        EdgeTy::Pair(i.next().unwrap(), i.next().unwrap())
    } else {
        EdgeTy::Chain(v)
    };
    Stmt::Edge(Edge { ty, attributes })
}

/// Statement lists in which one construct has size n (n >= 1).
/// The value itself, without the constructor under test.
pub fn nodev(id: NodeId, attributes: Vec<Attribute>) -> Node {
    Node { id, attributes }
}

pub fn sized(n: usize) -> Vec<Vec<Stmt>> {
    let nodes: Vec<Stmt> = (0..n).map(|i| node(format!("n{}", i))).collect();
    let attrs: Vec<Attribute> = (0..n).map(a).collect();
    let mut o: Vec<Vec<Stmt>> = vec![
        nodes.clone(),
        (0..n).map(|_| node("same".into())).collect(),
        (0..n).map(|i| chain(vec![e(&format!("a{}", i)), e("b")], vec![a(i)])).collect(),
        (0..n).map(|i| Stmt::Subgraph(named(format!("s{}", i), vec![node("x".into())]))).collect(),
        (0..n).map(|i| Stmt::Attribute(a(i))).collect(),
        (0..n).map(|i| Stmt::GAttribute(GraphAttributes::Edge(vec![a(i)]))).collect(),
        vec![Stmt::Node(nodev(NodeId(Id::Plain("x".into()), None), attrs.clone()))],
        vec![Stmt::GAttribute(GraphAttributes::Graph(attrs.clone())), Stmt::GAttribute(GraphAttributes::Node(attrs.clone())), Stmt::GAttribute(GraphAttributes::Edge(attrs.clone()))],
        vec![chain(vec![e("a"), e("b")], attrs.clone()), node("z".into())],
        vec![chain(vec![e("a"), e("b"), e("c")], attrs.clone()), node("z".into())],
        vec![Stmt::Subgraph(named("s".into(), nodes.clone())), node("z".into())],
        vec![chain((0..n + 1).map(|i| e(&format!("c{}", i))).collect(), vec![]), node("z".into())],
        vec![chain((0..n + 1).map(|i| e(&format!("c{}", i))).collect(), vec![a(0), a(1)])],
        vec![chain((0..n + 1).map(|i| Vertex::S(named(format!("s{}", i), vec![node(format!("m{}", i))]))).collect(), vec![a(0)])],
        vec![chain(vec![Vertex::S(named("s".into(), nodes.clone())), e("t")], vec![a(0)])],
        vec![chain(vec![e("t"), Vertex::S(Subgraph { id: anon(), stmts: nodes.clone() })], vec![a(0), a(1)])],
        vec![node("x".repeat(n)), chain(vec![e(&"y".repeat(n)), e("b")], vec![])],
        vec![chain(vec![e(&"é".repeat(n)), e("b"), e("c")], vec![]), node("z".into())],
        vec![chain(vec![e("a"), Vertex::S(named("日".repeat(n), vec![node("q".into()), node("r".into())]))], vec![a(0), a(1)])],
        vec![Stmt::Attribute(Attribute(Id::Plain("label".into()), Id::Escaped(format!("\"{}\"", "é\n".repeat(n)))))],
        vec![Stmt::Attribute(Attribute(Id::Plain("label".into()), Id::Html(format!("<{}{}>", "<b>".repeat(n), "</b>".repeat(n)))))],
    ];
    // nesting
    let nest = |f: &dyn Fn(usize, Vec<Stmt>) -> Vec<Stmt>| {
        let mut l = vec![node("in".into())];
        for i in 0..n {
            l = f(i, l);
        }
        l
    };
    o.push(nest(&|i, l| vec![Stmt::Subgraph(named(format!("s{}", i), l))]));
    o.push(nest(&|i, l| vec![node(format!("b{}", i)), Stmt::Subgraph(Subgraph { id: anon(), stmts: l }), Stmt::Node(nodev(NodeId(Id::Plain("z".into()), None), vec![a(0), a(1)]))]));
    o.push(nest(&|i, l| vec![chain(vec![e(&format!("b{}", i)), Vertex::S(named(format!("s{}", i), l))], vec![])]));
    o.push(nest(&|i, l| vec![chain(vec![Vertex::S(Subgraph { id: anon(), stmts: l }), e(&format!("b{}", i)), e("c")], vec![a(i), a(i + 1)])]));
    o.push(nest(&|i, l| {
        if i % 2 == 0 {
            vec![Stmt::Subgraph(named(format!("s{}", i), l)), chain(vec![e("x"), e("y")], vec![a(0)])]
        } else {
            vec![chain(vec![Vertex::S(named(format!("t{}", i), l)), e("y")], vec![a(0), a(1)])]
        }
    }));
    o
}

/// Statement lists in which the sizes and forms of one statement are combined freely: an edge of
/// 2 to `nv` vertices, up to two of them of any form and the rest plain, with 0 to `na` attributes;
/// a node with any port and a subgraph or attribute statement of any kind, with 0 to 2 * `na` of
/// what they hold; each alone and between two others.
pub fn products(nv: usize, na: usize) -> Vec<Vec<Stmt>> {
    let fill: [&dyn Fn() -> Stmt; 5] = [
        &|| Stmt::Node(nodev(NodeId(ph(), None), vec![])),
        &|| Stmt::Node(nodev(NodeId(ph(), None), at(2))),
        &|| chain(vec![Vertex::N(NodeId(ph(), None)), Vertex::N(NodeId(ph(), None))], at(1)),
        &|| Stmt::GAttribute(GraphAttributes::Edge(at(1))),
        &|| Stmt::Attribute(Attribute(ph(), ph())),
    ];
    let body = |n: usize, from: usize| (0..n).map(|i| fill[(from + i) % fill.len()]()).collect::<Vec<_>>();
    let mut verts: Vec<Vertex> = ports().into_iter().skip(1).map(|p| Vertex::N(NodeId(ph(), p))).collect();
    for n in 0..=3 {
        for id in [anon(), ph()] {
            verts.push(Vertex::S(Subgraph { id, stmts: body(n, n) }));
        }
    }
    verts.push(Vertex::S(Subgraph { id: anon(), stmts: vec![Stmt::Subgraph(Subgraph { id: ph(), stmts: body(2, 0) })] }));
    let plain = || Vertex::N(NodeId(ph(), None));
    let mut o: Vec<Stmt> = vec![];
    for n in 2..=nv {
        let mut seqs: Vec<Vec<Vertex>> = vec![];
        for i in 0..n {
            for x in &verts {
                let mut v: Vec<Vertex> = (0..n).map(|_| plain()).collect();
                v[i] = x.clone();
                seqs.push(v.clone());
                for j in i + 1..n {
                    for y in &verts {
                        v[j] = y.clone();
                        seqs.push(v.clone());
                        v[j] = plain();
                    }
                }
            }
        }
        for v in seqs {
            for k in 0..=na {
                o.push(chain(v.clone(), at(k)));
            }
        }
    }
    for k in 0..=2 * na {
        for p in ports() {
            o.push(Stmt::Node(nodev(NodeId(ph(), p), at(k))));
        }
        o.push(Stmt::GAttribute(GraphAttributes::Graph(at(k))));
        o.push(Stmt::GAttribute(GraphAttributes::Node(at(k))));
        o.push(Stmt::GAttribute(GraphAttributes::Edge(at(k))));
        for id in [anon(), ph()] {
            for from in 0..fill.len() {
                let l = body(k, from);
                o.push(Stmt::Subgraph(Subgraph { id: id.clone(), stmts: l.clone() }));
                o.push(Stmt::Subgraph(Subgraph { id: id.clone(), stmts: vec![Stmt::Subgraph(Subgraph { id: id.clone(), stmts: l })] }));
            }
        }
    }
    o.into_iter().enumerate().flat_map(|(i, s)| [vec![s.clone()], vec![fill[i % 5](), s, fill[(i / 5 + 1) % 5]()]]).collect()
}

/// A graph with the id `w` in every role, and one per role.
pub fn roles(w: &Id) -> Vec<Vec<Stmt>> {
    let p = |s: &str| Id::Plain(s.into());
    let n = |i: Id, port: Option<Port>| NodeId(i, port);
    let mut o = vec![
        vec![Stmt::Node(nodev(n(w.clone(), None), vec![]))],
        vec![Stmt::Node(nodev(n(w.clone(), None), vec![a(0)])), node("t".into())],
        vec![Stmt::Attribute(Attribute(w.clone(), p("v"))), node("t".into())],
        vec![Stmt::Attribute(Attribute(p("k"), w.clone())), node("t".into())],
        vec![Stmt::Node(nodev(n(p("x"), None), vec![Attribute(w.clone(), p("v"))]))],
        vec![Stmt::Node(nodev(n(p("x"), None), vec![Attribute(p("k"), w.clone())]))],
        vec![Stmt::Node(nodev(n(p("x"), None), vec![a(0), Attribute(p("k"), w.clone()), Attribute(w.clone(), p("v")), a(0), Attribute(w.clone(), w.clone())]))],
        vec![
            Stmt::GAttribute(GraphAttributes::Graph(vec![Attribute(w.clone(), p("v"))])),
            Stmt::GAttribute(GraphAttributes::Node(vec![Attribute(p("k"), w.clone())])),
            Stmt::GAttribute(GraphAttributes::Edge(vec![Attribute(w.clone(), w.clone()), a(1)])),
        ],
        vec![Stmt::Subgraph(Subgraph { id: w.clone(), stmts: vec![] })],
        vec![Stmt::Subgraph(Subgraph { id: w.clone(), stmts: vec![node("t".into()), Stmt::Attribute(Attribute(w.clone(), w.clone()))] }), node("u".into())],
        vec![chain(vec![Vertex::N(n(w.clone(), None)), e("b")], vec![])],
        vec![chain(vec![e("b"), Vertex::N(n(w.clone(), None)), Vertex::N(n(w.clone(), None))], vec![Attribute(w.clone(), w.clone())])],
        vec![chain(vec![Vertex::N(n(w.clone(), None)), Vertex::N(n(w.clone(), None))], vec![Attribute(p("k"), w.clone()), Attribute(w.clone(), p("v"))])],
        vec![chain(vec![Vertex::S(Subgraph { id: w.clone(), stmts: vec![node("q".into())] }), Vertex::N(n(w.clone(), None))], vec![])],
        vec![Stmt::Node(nodev(n(p("x"), Some(Port(Some(w.clone()), Some("ne".into())))), vec![]))],
        vec![chain(vec![Vertex::N(n(w.clone(), Some(Port(Some(w.clone()), Some("_".into()))))), Vertex::N(n(w.clone(), Some(Port(None, Some("c".into())))))], vec![a(0)])],
    ];
    let compass = matches!(w, Id::Plain(s) if is_compass(s));
    if !compass {
        o.push(vec![Stmt::Node(nodev(n(p("x"), Some(Port(Some(w.clone()), None))), vec![a(0)]))]);
        o.push(vec![chain(vec![Vertex::N(n(w.clone(), Some(Port(Some(w.clone()), None)))), e("b"), Vertex::N(n(p("c"), Some(Port(Some(w.clone()), None))))], vec![])]);
    }
    o
}

/// The words of the parser checks as ids.
pub fn word(w: &str) -> Id {
    if w.starts_with('"') {
        Id::Escaped(w.into())
    } else if w.starts_with('<') {
        Id::Html(w.into())
    } else {
        Id::Plain(w.into())
    }
}
