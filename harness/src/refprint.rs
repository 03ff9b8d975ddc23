//! The layout model: what the settings ask for, written down independently of src/printer.rs.
use dot_structures::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub semi: bool,
    pub mult: bool,
    pub comma: bool,
    pub step: usize,
    pub sep: String,
    pub size: usize,
    /// custom value printers, in order of registration: the attribute id and which printer
    pub vals: Vec<(Id, usize)>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { semi: false, mult: false, comma: true, step: 2, sep: "\n".into(), size: 90, vals: vec![] }
    }
}

/// Custom value printers; the model and the implementation use the same functions.
pub fn value_printer(kind: usize, v: &str, sep: &str, indent: &str, step: usize) -> String {
    match kind {
        0 => format!("\"0:{}|{}|{}|{}\"", v, sep, indent, step),
        1 => format!("\"1:{}|{}|{}|{}\"", step, indent, sep, v),
        2 => format!("\"{}{}x{}{}\"", sep, indent, sep, v),
        3 => String::new(),
        4 => v.to_string(),
        6 => format!(" {}\t ", v),
        7 => format!("\n{}{}\r\n\n", indent, v),
        8 => format!("%s{{}}\\n\\é日{}$1", v),
        9 => format!("<{}<b/>>", v),
        10 => format!("{},;]}}[{{=--->#//", v),
        11 => format!("\"{}\" ", "x".repeat(200)),
        12 => "0".into(),
        13 => format!("\"{}\"", v),
        14 => format!("{}\0{}", v, v),
        _ => v.chars().filter(|c| c.is_alphanumeric()).rev().collect(),
    }
}

#[derive(Clone, Copy)]
struct At {
    depth: usize,
    one_line: bool,
}

pub struct Layout<'a> {
    c: &'a Cfg,
    bond: &'static str,
    /// lengths (bytes) of the expanded text of every edge that could be put on one line
    pub edges: std::cell::RefCell<Vec<usize>>,
}

fn idt(i: &Id) -> &str {
    match i {
        Id::Html(s) | Id::Escaped(s) | Id::Plain(s) => s,
        Id::Anonymous(_) => "",
    }
}

impl<'a> Layout<'a> {
    pub fn new(c: &'a Cfg, directed: bool) -> Self {
        Layout { c, bond: if directed { "->" } else { "--" }, edges: Default::default() }
    }
    fn sep(&self, at: At) -> &str {
        if at.one_line {
            ""
        } else {
            &self.c.sep
        }
    }
    fn ind(&self, at: At) -> String {
        if at.one_line {
            String::new()
        } else {
            " ".repeat(self.c.step * at.depth)
        }
    }
    fn top(&self, depth: usize) -> At {
        At { depth, one_line: self.c.sep.is_empty() }
    }
    fn deeper(&self, at: At) -> At {
        At { depth: at.depth + 1, ..at }
    }

    pub fn id(&self, i: &Id) -> String {
        idt(i).into()
    }
    pub fn port(&self, p: &Port) -> String {
        let mut s = String::new();
        if let Some(i) = &p.0 {
            s += ":";
            s += idt(i);
        }
        if let Some(c) = &p.1 {
            s += ":";
            s += c;
        }
        s
    }
    pub fn node_id(&self, n: &NodeId) -> String {
        let mut s = self.id(&n.0);
        if let Some(p) = &n.1 {
            s += &self.port(p);
        }
        s
    }
    fn attr_at(&self, a: &Attribute, at: At) -> String {
        let v = match self.c.vals.iter().rev().find(|(k, _)| *k == a.0) {
            Some((_, kind)) => value_printer(*kind, idt(&a.1), self.sep(at), &self.ind(at), self.c.step),
            None => idt(&a.1).to_string(),
        };
        idt(&a.0).to_string() + "=" + &v
    }
    fn attrs_at(&self, l: &[Attribute], at: At) -> String {
        let texts: Vec<String> = l.iter().map(|a| self.attr_at(a, at)).collect();
        match texts.len() {
            0 => String::new(),
            1 => format!("[{}]", texts[0]),
            _ if !self.c.mult => {
                let mut s = String::from("[");
                for (i, t) in texts.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    s.push_str(t);
                }
                s + "]"
            }
            n => {
                let inner = self.deeper(at);
                let mut s = String::from("[");
                s += self.sep(at);
                for (i, t) in texts.iter().enumerate() {
                    s += &self.ind(inner);
                    s += t;
                    if i + 1 < n && (self.c.comma || at.one_line) {
                        s += ",";
                    }
                    s += self.sep(at);
                }
                s + &self.ind(at) + "]"
            }
        }
    }
    fn gattr_at(&self, g: &GraphAttributes, at: At) -> String {
        let (w, l) = match g {
            GraphAttributes::Graph(l) => ("graph", l),
            GraphAttributes::Node(l) => ("node", l),
            GraphAttributes::Edge(l) => ("edge", l),
        };
        if l.is_empty() {
            w.to_string() + "[]"
        } else {
            w.to_string() + &self.attrs_at(l, at)
        }
    }
    fn node_at(&self, n: &Node, at: At) -> String {
        self.node_id(&n.id) + &self.attrs_at(&n.attributes, at)
    }
    fn sub_at(&self, s: &Subgraph, at: At) -> String {
        let mut o = format!("subgraph {} {{", idt(&s.id));
        o += self.sep(at);
        o += &self.stmts_at(&s.stmts, self.deeper(at));
        o += self.sep(at);
        o + &self.ind(at) + "}"
    }
    fn vert_at(&self, v: &Vertex, at: At) -> String {
        match v {
            Vertex::N(n) => self.node_id(n),
            Vertex::S(s) => self.sub_at(s, at),
        }
    }
    fn edge_text(&self, e: &Edge, at: At) -> String {
        let (vs, gap): (Vec<&Vertex>, &str) = match &e.ty {
            EdgeTy::Pair(a, b) => (vec![a, b], " "),
            EdgeTy::Chain(v) => (v.iter().collect(), ""),
        };
        let mut o = String::new();
        for (i, v) in vs.iter().enumerate() {
            if i > 0 {
                o += " ";
                o += self.bond;
                o += " ";
            }
            o += &self.vert_at(v, at);
        }
        if !e.attributes.is_empty() {
            o += gap;
            o += &self.attrs_at(&e.attributes, at);
        }
        o
    }
    fn edge_at(&self, e: &Edge, at: At) -> String {
        let t = self.edge_text(e, at);
        if at.one_line {
            return t;
        }
        self.edges.borrow_mut().push(t.len());
        if t.len() <= self.c.size {
            self.edge_text(e, At { one_line: true, ..at })
        } else {
            t
        }
    }
    fn stmt_at(&self, s: &Stmt, at: At) -> String {
        let t = match s {
            Stmt::Node(n) => self.node_at(n, at),
            Stmt::Subgraph(s) => self.sub_at(s, at),
            Stmt::Attribute(a) => self.attr_at(a, at),
            Stmt::GAttribute(g) => self.gattr_at(g, at),
            Stmt::Edge(e) => self.edge_at(e, at),
        };
        self.ind(at) + &t + if self.c.semi { ";" } else { "" }
    }
    fn stmts_at(&self, l: &[Stmt], at: At) -> String {
        let mut o = String::new();
        for (i, s) in l.iter().enumerate() {
            if i > 0 {
                if !at.one_line {
                    o += self.sep(at);
                } else if !matches!(o.chars().last(), Some(';') | Some(']') | Some('}')) {
                    o += " ";
                }
            }
            o += &self.stmt_at(s, at);
        }
        o
    }

    pub fn attr(&self, a: &Attribute) -> String {
        self.attr_at(a, self.top(0))
    }
    pub fn attrs(&self, a: &[Attribute]) -> String {
        self.attrs_at(a, self.top(0))
    }
    pub fn gattr(&self, a: &GraphAttributes) -> String {
        self.gattr_at(a, self.top(0))
    }
    pub fn node(&self, a: &Node) -> String {
        self.node_at(a, self.top(0))
    }
    pub fn sub(&self, a: &Subgraph) -> String {
        self.sub_at(a, self.top(0))
    }
    pub fn vertex(&self, a: &Vertex) -> String {
        self.vert_at(a, self.top(0))
    }
    pub fn edge(&self, a: &Edge) -> String {
        self.edge_at(a, self.top(0))
    }
    pub fn stmt(&self, a: &Stmt) -> String {
        self.stmt_at(a, self.top(0))
    }
    pub fn stmts(&self, a: &[Stmt]) -> String {
        self.stmts_at(a, self.top(0))
    }
    pub fn body(&self, a: &[Stmt]) -> String {
        self.stmts_at(a, self.top(1))
    }
}

/// The text of a graph and the lengths of its edges' expanded texts.
pub fn graph(g: &Graph, c: &Cfg) -> (String, Vec<usize>) {
    let (word, directed, id, strict, stmts) = match g {
        Graph::Graph { id, strict, stmts } => ("graph", false, id, strict, stmts),
        Graph::DiGraph { id, strict, stmts } => ("digraph", true, id, strict, stmts),
    };
    let l = Layout::new(c, directed);
    let body = l.body(stmts);
    let t = format!(
        "{}{} {} {{{}{}{}}}",
        if *strict { "strict " } else { "" },
        word,
        idt(id),
        c.sep,
        body,
        c.sep
    );
    (t, l.edges.into_inner())
}

/// A plain rendering, token by token, that owes nothing to the printer's layout.
pub fn plain(g: &Graph) -> String {
    fn p(o: &mut String, t: &str) {
        o.push_str(t);
        o.push(' ');
    }
    fn nid(o: &mut String, n: &NodeId) {
        p(o, idt(&n.0));
        if let Some(port) = &n.1 {
            if let Some(i) = &port.0 {
                p(o, ":");
                p(o, idt(i));
            }
            if let Some(c) = &port.1 {
                p(o, ":");
                p(o, c);
            }
        }
    }
    fn attrs(o: &mut String, l: &[Attribute]) {
        for a in l {
            p(o, "[");
            p(o, idt(&a.0));
            p(o, "=");
            p(o, idt(&a.1));
            p(o, "]");
        }
    }
    fn body(o: &mut String, l: &[Stmt], bond: &str) {
        p(o, "{");
        for s in l {
            match s {
                Stmt::Node(n) => {
                    nid(o, &n.id);
                    attrs(o, &n.attributes);
                }
                Stmt::Attribute(a) => {
                    p(o, idt(&a.0));
                    p(o, "=");
                    p(o, idt(&a.1));
                }
                Stmt::GAttribute(g) => {
                    let (w, l) = match g {
                        GraphAttributes::Graph(l) => ("graph", l),
                        GraphAttributes::Node(l) => ("node", l),
                        GraphAttributes::Edge(l) => ("edge", l),
                    };
                    p(o, w);
                    if l.is_empty() {
                        p(o, "[ ]");
                    }
                    attrs(o, l);
                }
                Stmt::Subgraph(s) => sub(o, s, bond),
                Stmt::Edge(e) => {
                    let vs: Vec<&Vertex> = match &e.ty {
                        EdgeTy::Pair(a, b) => vec![a, b],
                        EdgeTy::Chain(v) => v.iter().collect(),
                    };
                    for (i, v) in vs.iter().enumerate() {
                        if i > 0 {
                            p(o, bond);
                        }
                        match v {
                            Vertex::N(n) => nid(o, n),
                            Vertex::S(s) => sub(o, s, bond),
                        }
                    }
                    attrs(o, &e.attributes);
                }
            }
            p(o, ";");
        }
        p(o, "}");
    }
    fn sub(o: &mut String, s: &Subgraph, bond: &str) {
        p(o, "subgraph");
        p(o, idt(&s.id));
        body(o, &s.stmts, bond);
    }
    let mut o = String::new();
    let (word, bond, id, strict, stmts) = match g {
        Graph::Graph { id, strict, stmts } => ("graph", "--", id, strict, stmts),
        Graph::DiGraph { id, strict, stmts } => ("digraph", "->", id, strict, stmts),
    };
    if *strict {
        p(&mut o, "strict");
    }
    p(&mut o, word);
    p(&mut o, idt(id));
    body(&mut o, stmts, bond);
    o
}
