//! Reference reader for DOT, written from the published grammar
//! (https://graphviz.org/doc/info/lang.html) and independent of the code under test:
//! a hand written lexer and a recursive descent recogniser that builds the expected tree.
//!
//! The verdict has three values. `Valid`: the text follows the published grammar, so the library must
//! accept it and return exactly this tree. `Lenient`: the published grammar says nothing or
//! readers differ (keywords used as ids, `--` in a digraph, `#` in the middle of a line, ...): nothing is
//! demanded except, where a tree is given, that an accepting reader returns it.
//! `Invalid`: must be rejected.
use dot_structures::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kw {
    Strict,
    Graph,
    Digraph,
    Subgraph,
    Node,
    Edge,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Tok {
    Id(Id),
    Kw(Kw, String),
    LBrace,
    RBrace,
    LBrack,
    RBrack,
    Eq,
    Semi,
    Comma,
    Colon,
    Plus,
    Arrow, // ->
    Line,  // --
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Id,
    Str,
    Kw(Kw),
    LBrace,
    RBrace,
    LBrack,
    RBrack,
    Eq,
    Semi,
    Comma,
    Colon,
    Plus,
    Arrow,
    Line,
    Eof,
}

impl Tok {
    pub fn kind(&self) -> Kind {
        match self {
            Tok::Id(Id::Escaped(_)) => Kind::Str,
            Tok::Id(_) => Kind::Id,
            Tok::Kw(k, _) => Kind::Kw(*k),
            Tok::LBrace => Kind::LBrace,
            Tok::RBrace => Kind::RBrace,
            Tok::LBrack => Kind::LBrack,
            Tok::RBrack => Kind::RBrack,
            Tok::Eq => Kind::Eq,
            Tok::Semi => Kind::Semi,
            Tok::Comma => Kind::Comma,
            Tok::Colon => Kind::Colon,
            Tok::Plus => Kind::Plus,
            Tok::Arrow => Kind::Arrow,
            Tok::Line => Kind::Line,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Tok::Id(Id::Plain(s)) | Tok::Id(Id::Escaped(s)) | Tok::Id(Id::Html(s)) => s.clone(),
            Tok::Id(Id::Anonymous(_)) => unreachable!(),
            Tok::Kw(_, s) => s.clone(),
            Tok::LBrace => "{".into(),
            Tok::RBrace => "}".into(),
            Tok::LBrack => "[".into(),
            Tok::RBrack => "]".into(),
            Tok::Eq => "=".into(),
            Tok::Semi => ";".into(),
            Tok::Comma => ",".into(),
            Tok::Colon => ":".into(),
            Tok::Plus => "+".into(),
            Tok::Arrow => "->".into(),
            Tok::Line => "--".into(),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Valid(Graph),
    Lenient(Option<Graph>),
    Invalid,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// byte range of each token
    pub spans: Vec<(usize, usize)>,
    pub lenient: bool,
    /// lenient without a defined tree
    pub opaque: bool,
}

fn id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}
fn id_cont(c: char) -> bool {
    id_start(c) || c.is_ascii_digit()
}

pub fn keyword(s: &str) -> Option<Kw> {
    match s.to_ascii_lowercase().as_str() {
        "strict" => Some(Kw::Strict),
        "graph" => Some(Kw::Graph),
        "digraph" => Some(Kw::Digraph),
        "subgraph" => Some(Kw::Subgraph),
        "node" => Some(Kw::Node),
        "edge" => Some(Kw::Edge),
        _ => None,
    }
}

/// `None`: not a sequence of DOT tokens.
pub fn lex(src: &str) -> Option<Lexed> {
    let mut out = Lexed {
        toks: vec![],
        spans: vec![],
        lenient: false,
        opaque: false,
    };
    let b: Vec<(usize, char)> = src.char_indices().collect();
    let n = b.len();
    let at = |i: usize| -> Option<char> {
        if i < n {
            Some(b[i].1)
        } else {
            None
        }
    };
    let off = |i: usize| -> usize {
        if i < n {
            b[i].0
        } else {
            src.len()
        }
    };
    let mut i = 0;
    // nothing but blanks since the last line feed
    let mut line_start = true;
    // the previous token was an unquoted id that ended exactly here
    let mut glued_num: Option<usize> = None;
    if at(0) == Some('\u{feff}') {
        out.opaque = true;
    }
    while let Some(c) = at(i) {
        match c {
            ' ' | '\t' | '\r' => {
                i += 1;
                continue;
            }
            '\n' => {
                i += 1;
                line_start = true;
                continue;
            }
            '/' if at(i + 1) == Some('*') => {
                let mut j = i + 2;
                loop {
                    match (at(j), at(j + 1)) {
                        (Some('*'), Some('/')) => break,
                        (None, _) => return None,
                        _ => j += 1,
                    }
                }
                if b[i..j].iter().any(|x| x.1 == '\n') {
                    line_start = true;
                }
                i = j + 2;
                continue;
            }
            '/' if at(i + 1) == Some('/') || false => {
                i = line_comment(&at, i, &mut out);
                continue;
            }
            '#' => {
                if !line_start {
                    out.lenient = true;
                }
                i = line_comment(&at, i, &mut out);
                continue;
            }
            _ => {}
        }
        line_start = false;
        let s = i;
        let tok = match c {
            '{' => {
                i += 1;
                Tok::LBrace
            }
            '}' => {
                i += 1;
                Tok::RBrace
            }
            '[' => {
                i += 1;
                Tok::LBrack
            }
            ']' => {
                i += 1;
                Tok::RBrack
            }
            '=' => {
                i += 1;
                Tok::Eq
            }
            ';' => {
                i += 1;
                Tok::Semi
            }
            ',' => {
                i += 1;
                Tok::Comma
            }
            ':' => {
                i += 1;
                Tok::Colon
            }
            '+' => {
                i += 1;
                Tok::Plus
            }
            '-' if at(i + 1) == Some('-') => {
                i += 2;
                Tok::Line
            }
            '-' if at(i + 1) == Some('>') => {
                i += 2;
                Tok::Arrow
            }
            '"' => {
                i += 1;
                loop {
                    match at(i) {
                        None => return None,
                        Some('"') => break,
                        Some('\\') => {
                            at(i + 1)?;
                            i += 2;
                        }
                        Some(_) => i += 1,
                    }
                }
                i += 1;
                Tok::Id(Id::Escaped(src[off(s)..off(i)].to_string()))
            }
            '<' => {
                let mut depth = 0usize;
                loop {
                    match at(i) {
                        None => return None,
                        Some('<') => depth += 1,
                        Some('>') => {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                        Some(_) => {}
                    }
                    i += 1;
                }
                i += 1;
                Tok::Id(Id::Html(src[off(s)..off(i)].to_string()))
            }
            c if id_start(c) => {
                while at(i).map(id_cont).unwrap_or(false) {
                    i += 1;
                }
                let t = &src[off(s)..off(i)];
                match keyword(t) {
                    Some(k) => Tok::Kw(k, t.to_string()),
                    None => Tok::Id(Id::Plain(t.to_string())),
                }
            }
            c if c == '-' || c == '.' || c.is_ascii_digit() => {
                let mut j = i;
                if c == '-' {
                    j += 1;
                }
                let digits = |mut j: usize| {
                    while at(j).map(|c| c.is_ascii_digit()).unwrap_or(false) {
                        j += 1;
                    }
                    j
                };
                let k = digits(j);
                if k > j {
                    j = k;
                    if at(j) == Some('.') {
                        j = digits(j + 1);
                    }
                } else if at(j) == Some('.') {
                    let k = digits(j + 1);
                    if k == j + 1 {
                        return None;
                    }
                    j = k;
                } else {
                    return None;
                }
                i = j;
                Tok::Id(Id::Plain(src[off(s)..off(i)].to_string()))
            }
            _ => return None,
        };
        // "badly delimited number": an unquoted id that starts where another one ended
        let unquoted = matches!(tok, Tok::Id(Id::Plain(_)) | Tok::Kw(..));
        if unquoted && glued_num == Some(s) {
            out.lenient = true;
        }
        glued_num = if unquoted { Some(i) } else { None };
        out.toks.push(tok);
        out.spans.push((off(s), off(i)));
    }
    Some(out)
}

fn line_comment(at: &dyn Fn(usize) -> Option<char>, mut i: usize, out: &mut Lexed) -> usize {
    loop {
        match at(i) {
            None | Some('\n') => return i,
            // a lone carriage return ends a line for some readers and not for others
            Some('\r') if at(i + 1) != Some('\n') => {
                out.opaque = true;
                i += 1;
            }
            Some(_) => i += 1,
        }
    }
}

/// Where the grammar stood when the tokens ran out, and what it would have taken.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Stuck {
    pub at_end: bool,
    pub stack: Vec<u8>,
    pub expected: Vec<Kind>,
}

pub struct Parser<'a> {
    t: &'a [Tok],
    i: usize,
    /// accept keywords where an id is expected
    relaxed: bool,
    /// something the published grammar does not settle was used
    pub lenient: bool,
    pub opaque: bool,
    exp: Vec<Kind>,
    stack: Vec<u8>,
    digraph: bool,
    max_stack: usize,
}

type R<T> = Result<T, ()>;

// labels of grammar positions, recorded in the stack for state identification
const F_HEAD: u8 = 1;
const F_BODY: u8 = 2;
const F_SUBHEAD: u8 = 3;
const F_SUBBODY: u8 = 4;
const F_EDGE: u8 = 5; // after an edge operator
const F_ATTRS: u8 = 6; // inside an attribute list
const F_AVAL: u8 = 7;
const F_PORT1: u8 = 8;
const F_PORT2: u8 = 9;
const F_TAIL: u8 = 10; // behind the graph
const F_GATTR: u8 = 11;
const F_NSTMT: u8 = 12; // after a node id at statement level
const F_ESTMT: u8 = 13; // after an edge's vertex

impl<'a> Parser<'a> {
    fn new(t: &'a [Tok], relaxed: bool) -> Self {
        Parser {
            t,
            i: 0,
            relaxed,
            lenient: false,
            opaque: false,
            exp: vec![],
            stack: vec![],
            digraph: false,
            max_stack: 0,
        }
    }
    fn is(&mut self, k: Kind) -> bool {
        if self.i >= self.t.len() {
            if !self.exp.contains(&k) {
                self.exp.push(k);
            }
            return false;
        }
        self.t[self.i].kind() == k
    }
    fn eat(&mut self, k: Kind) -> bool {
        let r = self.is(k);
        if r {
            self.i += 1;
        }
        r
    }
    fn need(&mut self, k: Kind) -> R<()> {
        if self.eat(k) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn push(&mut self, l: u8) {
        self.stack.push(l);
        self.max_stack = self.max_stack.max(self.stack.len());
    }
    fn pop(&mut self) {
        self.stack.pop();
    }
    fn is_kw_at(&self, j: usize) -> bool {
        matches!(self.t.get(j), Some(Tok::Kw(..)))
    }
    /// is there an id here (in relaxed mode also a keyword)
    fn is_id(&mut self) -> bool {
        let a = self.is(Kind::Id);
        let b = self.is(Kind::Str);
        a || b || (self.relaxed && self.is_kw_at(self.i))
    }
    fn id(&mut self) -> R<Id> {
        if !self.is_id() {
            return Err(());
        }
        match self.t[self.i].clone() {
            Tok::Id(Id::Escaped(s)) => {
                self.i += 1;
                let mut joined = s;
                while self.eat(Kind::Plus) {
                    if !self.is(Kind::Str) {
                        return Err(());
                    }
                    if let Tok::Id(Id::Escaped(s)) = &self.t[self.i] {
                        joined.pop();
                        joined.push_str(&s[1..]);
                    }
                    self.i += 1;
                }
                Ok(Id::Escaped(joined))
            }
            Tok::Id(id) => {
                self.i += 1;
                Ok(id)
            }
            Tok::Kw(_, s) => {
                self.opaque = true;
                self.i += 1;
                Ok(Id::Plain(s))
            }
            _ => Err(()),
        }
    }

    fn graph(&mut self) -> R<Graph> {
        self.push(F_HEAD);
        let strict = self.eat(Kind::Kw(Kw::Strict));
        let di = if self.eat(Kind::Kw(Kw::Digraph)) {
            true
        } else {
            self.need(Kind::Kw(Kw::Graph))?;
            false
        };
        self.digraph = di;
        let id = if self.is_id() { self.id()? } else { anon() };
        self.need(Kind::LBrace)?;
        self.pop();
        self.push(F_BODY);
        let stmts = self.stmts()?;
        self.pop();
        self.push(F_TAIL);
        if self.i < self.t.len() {
            return Err(());
        }
        self.exp.push(Kind::Eof);
        Ok(if di {
            Graph::DiGraph { id, strict, stmts }
        } else {
            Graph::Graph { id, strict, stmts }
        })
    }

    /// statements up to and including the closing brace
    fn stmts(&mut self) -> R<Vec<Stmt>> {
        let mut v = vec![];
        loop {
            if self.eat(Kind::RBrace) {
                return Ok(v);
            }
            let s = self.stmt()?;
            v.push(s);
            self.eat(Kind::Semi);
        }
    }

    fn is_gattr(&mut self) -> Option<&'static str> {
        for (k, n) in [(Kw::Graph, "graph"), (Kw::Node, "node"), (Kw::Edge, "edge")] {
            if self.is(Kind::Kw(k)) {
                return Some(n);
            }
        }
        None
    }

    fn is_subgraph(&mut self) -> bool {
        if self.is(Kind::LBrace) {
            return true;
        }
        if !self.is(Kind::Kw(Kw::Subgraph)) {
            return false;
        }
        if !self.relaxed {
            return true;
        }
        // relaxed: `subgraph` is an id unless a body follows
        let j = self.i + 1;
        match self.t.get(j) {
            None | Some(Tok::LBrace) => true,
            Some(Tok::Id(_)) | Some(Tok::Kw(..)) => {
                let mut j = j + 1;
                while matches!(self.t.get(j), Some(Tok::Plus)) {
                    j += 2;
                }
                matches!(self.t.get(j), None | Some(Tok::LBrace))
            }
            _ => false,
        }
    }

    fn subgraph(&mut self) -> R<Subgraph> {
        self.push(F_SUBHEAD);
        let mut id = anon();
        if self.eat(Kind::Kw(Kw::Subgraph)) {
            if self.is_id() {
                id = self.id()?;
            }
        }
        self.need(Kind::LBrace)?;
        self.pop();
        self.push(F_SUBBODY);
        let stmts = self.stmts()?;
        self.pop();
        Ok(Subgraph { id, stmts })
    }

    fn edge_op(&mut self) -> bool {
        let want = if self.digraph { Kind::Arrow } else { Kind::Line };
        if self.eat(want) {
            return true;
        }
        let other = if self.digraph { Kind::Line } else { Kind::Arrow };
        if self.i < self.t.len() && self.t[self.i].kind() == other {
            // the published rule: -> in digraphs and -- in graphs; readers differ in strictness
            self.lenient = true;
            self.i += 1;
            return true;
        }
        false
    }

    fn vertex(&mut self) -> R<Vertex> {
        if self.is_subgraph() {
            Ok(Vertex::S(self.subgraph()?))
        } else {
            Ok(Vertex::N(self.node_id()?))
        }
    }

    fn node_id(&mut self) -> R<NodeId> {
        let id = self.id()?;
        if !self.eat(Kind::Colon) {
            return Ok(NodeId(id, None));
        }
        self.push(F_PORT1);
        let p = self.id()?;
        self.pop();
        if self.eat(Kind::Colon) {
            self.push(F_PORT2);
            let c = self.id()?;
            self.pop();
            match c {
                Id::Plain(s) if is_compass(&s) => return Ok(NodeId(id, Some(Port(Some(p), Some(s))))),
                _ => {
                    self.opaque = true;
                    return Ok(NodeId(id, Some(Port(Some(p), None))));
                }
            }
        }
        Ok(NodeId(
            id,
            Some(match p {
                Id::Plain(s) if is_compass(&s) => Port(None, Some(s)),
                p => Port(Some(p), None),
            }),
        ))
    }

    fn attr_lists(&mut self) -> R<Vec<Attribute>> {
        let mut v = vec![];
        while self.eat(Kind::LBrack) {
            self.push(F_ATTRS);
            while !self.eat(Kind::RBrack) {
                let k = self.id()?;
                self.push(F_AVAL);
                self.need(Kind::Eq)?;
                let val = self.id()?;
                self.pop();
                v.push(Attribute(k, val));
                if !self.eat(Kind::Comma) {
                    self.eat(Kind::Semi);
                }
            }
            self.pop();
        }
        Ok(v)
    }

    fn stmt(&mut self) -> R<Stmt> {
        if let Some(ty) = self.is_gattr() {
            let attr = matches!(self.t.get(self.i + 1), Some(Tok::LBrack) | None);
            if attr || !self.relaxed {
                self.i += 1;
                self.push(F_GATTR);
                if !self.is(Kind::LBrack) {
                    return Err(());
                }
                self.pop();
                let a = self.attr_lists()?;
                return Ok(Stmt::GAttribute(match ty {
                    "graph" => GraphAttributes::Graph(a),
                    "node" => GraphAttributes::Node(a),
                    _ => GraphAttributes::Edge(a),
                }));
            }
        }
        if self.is_subgraph() {
            let s = self.subgraph()?;
            return self.edge_or(Vertex::S(s));
        }
        let n = self.node_id()?;
        if n.1.is_none() && self.eat(Kind::Eq) {
            self.push(F_AVAL);
            let v = self.id()?;
            self.pop();
            return Ok(Stmt::Attribute(Attribute(n.0, v)));
        }
        self.edge_or(Vertex::N(n))
    }

    fn edge_or(&mut self, head: Vertex) -> R<Stmt> {
        let mut chain = vec![head];
        while self.edge_op() {
            self.push(F_EDGE);
            let v = self.vertex()?;
            self.pop();
            chain.push(v);
        }
        let edge = chain.len() > 1;
        let node = !edge && matches!(chain[0], Vertex::N(_));
        self.push(if edge { F_ESTMT } else { F_NSTMT });
        let attrs = if edge || node {
            self.attr_lists()?
        } else {
            if self.i < self.t.len() && self.t[self.i] == Tok::LBrack {
                // subgraph{} [a=b]: taken by Graphviz, not in the published grammar
                self.opaque = true;
                self.attr_lists()?;
            }
            vec![]
        };
        self.pop();
        if !edge {
            return Ok(match chain.pop().unwrap() {
                Vertex::N(id) => Stmt::Node(Node {
                    id,
                    attributes: attrs,
                }),
                Vertex::S(s) => Stmt::Subgraph(s),
            });
        }
        let ty = if chain.len() == 2 {
            let b = chain.pop().unwrap();
            EdgeTy::Pair(chain.pop().unwrap(), b)
        } else {
            EdgeTy::Chain(chain)
        };
        Ok(Stmt::Edge(Edge {
            ty,
            attributes: attrs,
        }))
    }
}

pub fn anon() -> Id {
    Id::Anonymous(String::new())
}

pub fn is_compass(s: &str) -> bool {
    matches!(
        s,
        "n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"
    )
}

/// The strict grammar on a token sequence: the tree, or where it got stuck.
pub fn parse_tokens(t: &[Tok]) -> Result<(Graph, bool, bool), Stuck> {
    let mut p = Parser::new(t, false);
    match p.graph() {
        Ok(g) => Ok((g, p.lenient, p.opaque)),
        Err(()) => {
            let mut expected = p.exp.clone();
            expected.sort();
            Err(Stuck {
                at_end: p.i >= t.len(),
                stack: p.stack.clone(),
                expected: if p.i >= t.len() { expected } else { vec![] },
            })
        }
    }
}

/// Grammar position after `t` (which must be a viable prefix or a complete document).
pub fn position(t: &[Tok]) -> Option<Stuck> {
    match parse_tokens(t) {
        Ok(_) => Some(Stuck {
            at_end: true,
            stack: vec![F_TAIL],
            expected: vec![Kind::Eof],
        }),
        Err(s) if s.at_end => Some(s),
        Err(_) => None,
    }
}

/// Shortest continuation from a viable prefix to a complete document (token kinds).
pub fn complete(prefix: &[Tok], fresh: &mut dyn FnMut() -> String) -> Vec<Tok> {
    let mut t = prefix.to_vec();
    loop {
        let s = position(&t).expect("viable prefix");
        let e = &s.expected;
        let has = |k: Kind| e.contains(&k);
        let next = if has(Kind::Eof) {
            return t;
        } else if has(Kind::RBrace) {
            Tok::RBrace
        } else if has(Kind::RBrack) {
            Tok::RBrack
        } else if has(Kind::Eq) && !has(Kind::Semi) {
            Tok::Eq
        } else if has(Kind::LBrace) && !has(Kind::Colon) && !s.stack.ends_with(&[F_EDGE]) {
            Tok::LBrace
        } else if has(Kind::Id) {
            let f = fresh();
            if s.stack.ends_with(&[F_PORT2]) {
                Tok::Id(Id::Plain("ne".into()))
            } else {
                Tok::Id(Id::Plain(f))
            }
        } else if has(Kind::Str) {
            Tok::Id(Id::Escaped(format!("\"{}\"", fresh())))
        } else if has(Kind::LBrack) {
            Tok::LBrack
        } else if has(Kind::Kw(Kw::Graph)) {
            Tok::Kw(Kw::Graph, "graph".into())
        } else {
            panic!("no completion from {:?}", s)
        };
        t.push(next);
    }
}

pub fn judge(src: &str) -> Verdict {
    let l = match lex(src) {
        None => {
            return if src.starts_with('\u{feff}') {
                Verdict::Lenient(None)
            } else {
                Verdict::Invalid
            }
        }
        Some(l) => l,
    };
    if l.opaque {
        return Verdict::Lenient(None);
    }
    match parse_tokens(&l.toks) {
        Ok((_, _, true)) => Verdict::Lenient(None),
        Ok((g, len, false)) => {
            if len || l.lenient {
                Verdict::Lenient(Some(g))
            } else {
                Verdict::Valid(g)
            }
        }
        Err(_) => {
            // with keywords as ids, or comma separated node lists, readers differ
            let mut p = Parser::new(&l.toks, true);
            if p.graph().is_ok() {
                return Verdict::Lenient(None);
            }
            Verdict::Invalid
        }
    }
}

/// Replace the ids of anonymous graphs and subgraphs by the empty one.
pub fn norm(g: &Graph) -> Graph {
    fn id(i: &Id) -> Id {
        match i {
            Id::Anonymous(_) => anon(),
            i => i.clone(),
        }
    }
    fn sub(s: &Subgraph) -> Subgraph {
        Subgraph {
            id: id(&s.id),
            stmts: s.stmts.iter().map(stmt).collect(),
        }
    }
    fn vert(v: &Vertex) -> Vertex {
        match v {
            Vertex::N(n) => Vertex::N(n.clone()),
            Vertex::S(s) => Vertex::S(sub(s)),
        }
    }
    fn stmt(s: &Stmt) -> Stmt {
        match s {
            Stmt::Subgraph(s) => Stmt::Subgraph(sub(s)),
            Stmt::Edge(e) => Stmt::Edge(Edge {
                ty: match &e.ty {
                    EdgeTy::Pair(a, b) => EdgeTy::Pair(vert(a), vert(b)),
                    EdgeTy::Chain(v) => EdgeTy::Chain(v.iter().map(vert).collect()),
                },
                attributes: e.attributes.clone(),
            }),
            s => s.clone(),
        }
    }
    match g {
        Graph::Graph {
            id: i,
            strict,
            stmts,
        } => Graph::Graph {
            id: id(i),
            strict: *strict,
            stmts: stmts.iter().map(stmt).collect(),
        },
        Graph::DiGraph {
            id: i,
            strict,
            stmts,
        } => Graph::DiGraph {
            id: id(i),
            strict: *strict,
            stmts: stmts.iter().map(stmt).collect(),
        },
    }
}

/// All anonymous ids of a graph, in order.
pub fn anon_ids(g: &Graph) -> Vec<String> {
    fn id(i: &Id, o: &mut Vec<String>) {
        if let Id::Anonymous(s) = i {
            o.push(s.clone())
        }
    }
    fn sub(s: &Subgraph, o: &mut Vec<String>) {
        id(&s.id, o);
        s.stmts.iter().for_each(|s| stmt(s, o));
    }
    fn vert(v: &Vertex, o: &mut Vec<String>) {
        if let Vertex::S(s) = v {
            sub(s, o)
        }
    }
    fn stmt(s: &Stmt, o: &mut Vec<String>) {
        match s {
            Stmt::Subgraph(s) => sub(s, o),
            Stmt::Edge(e) => match &e.ty {
                EdgeTy::Pair(a, b) => {
                    vert(a, o);
                    vert(b, o)
                }
                EdgeTy::Chain(v) => v.iter().for_each(|v| vert(v, o)),
            },
            _ => {}
        }
    }
    let mut o = vec![];
    match g {
        Graph::Graph { id: i, stmts, .. } | Graph::DiGraph { id: i, stmts, .. } => {
            id(i, &mut o);
            stmts.iter().for_each(|s| stmt(s, &mut o));
        }
    }
    o
}
