//! Parser properties C01..C06: the reference reader is the model, every model path is replayed on
//! `graphviz_rust::parse`.
use crate::refdot::*;
use crate::run::*;
use dot_structures::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Default)]
pub struct Tally {
    pub docs: AtomicU64,
    pub valid: AtomicU64,
    pub invalid: AtomicU64,
    pub lenient: AtomicU64,
}

impl Tally {
    pub fn put(&self, run: &Run) {
        run.count("documents", self.docs.load(Relaxed));
        run.count("documents_valid", self.valid.load(Relaxed));
        run.count("documents_invalid", self.invalid.load(Relaxed));
        run.count("documents_unsettled", self.lenient.load(Relaxed));
        run.count(
            "traces_validated_against_impl",
            self.valid.load(Relaxed) + self.invalid.load(Relaxed),
        );
    }
}

/// Compare parse(doc) with the verdict.
pub fn check(run: &Run, slot: usize, t: &Tally, doc: &str, v: &Verdict) -> bool {
    t.docs.fetch_add(1, Relaxed);
    let got = run.call(slot, doc, || graphviz_rust::parse(doc));
    let bad = match (&got, v) {
        (Err(p), _) => Some(format!("parse panicked ({})", p)),
        (Ok(Err(e)), Verdict::Valid(_)) => Some(format!("a well-formed document was rejected: {}", e)),
        (Ok(Ok(_)), Verdict::Invalid) => Some("a malformed document was accepted".to_string()),
        (Ok(Ok(g)), Verdict::Valid(want)) | (Ok(Ok(g)), Verdict::Lenient(Some(want))) => {
            let g = norm(g);
            if &g != want {
                Some(format!("wrong structure: got {:?} expected {:?}", g, want))
            } else {
                None
            }
        }
        _ => None,
    };
    match v {
        Verdict::Valid(_) => t.valid.fetch_add(1, Relaxed),
        Verdict::Invalid => t.invalid.fetch_add(1, Relaxed),
        Verdict::Lenient(_) => t.lenient.fetch_add(1, Relaxed),
    };
    if let Some(m) = bad {
        run.violation(
            &format!("parse:{}", short(doc, 120)),
            &format!("{} | input: {}", short(&m, 700), short(doc, 300)),
            doc,
        );
        return false;
    }
    true
}

pub fn check_text(run: &Run, slot: usize, t: &Tally, doc: &str) -> bool {
    let v = judge(doc);
    check(run, slot, t, doc, &v)
}

// ---------------------------------------------------------------------------------------------
// token level exploration

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ids {
    Unique,
    Same,
    Rotate(usize),
}

pub const CLASSES: usize = 9;
/// The i-th identifier of a document, by class.
pub fn id_of(class: usize, i: usize) -> Id {
    match class % CLASSES {
        0 => Id::Plain(format!("v{}", i)),
        1 => Id::Escaped(format!("\"q {} ; }}\"", i)),
        2 => Id::Html(format!("<b{}<i>]</i>>", i)),
        3 => Id::Plain(format!("-{}.5", i)),
        4 => Id::Plain(format!("{}", i)),
        5 => Id::Plain(format!("ж_{}", i)),
        6 => Id::Escaped(format!("\"\\\"{}\\\\\"", i)),
        7 => Id::Plain(["n", "se", "c", "_", "nw"][i % 5].to_string()),
        _ => Id::Plain(format!("Nodes{}", i)),
    }
}

fn mk_id(ids: Ids, i: usize) -> Tok {
    Tok::Id(match ids {
        Ids::Unique => id_of(0, i),
        Ids::Same => Id::Plain("a".into()),
        Ids::Rotate(s) => id_of(i + s, i),
    })
}

/// The alphabet of tokens for position `i` of a document.
fn alphabet(ids: Ids, i: usize) -> Vec<Tok> {
    vec![
        mk_id(ids, i),
        Tok::Id(Id::Escaped(format!("\"s{}\"", if ids == Ids::Same { 0 } else { i }))),
        Tok::LBrace,
        Tok::RBrace,
        Tok::LBrack,
        Tok::RBrack,
        Tok::Eq,
        Tok::Semi,
        Tok::Comma,
        Tok::Colon,
        Tok::Plus,
        Tok::Arrow,
        Tok::Line,
        Tok::Kw(Kw::Subgraph, "subgraph".into()),
        Tok::Kw(Kw::Node, "node".into()),
        Tok::Kw(Kw::Edge, "edge".into()),
        Tok::Kw(Kw::Graph, "graph".into()),
        Tok::Kw(Kw::Digraph, "digraph".into()),
        Tok::Kw(Kw::Strict, "strict".into()),
        Tok::Id(Id::Plain("ne".into())),
    ]
}

fn wordlike(t: &Tok) -> bool {
    matches!(t, Tok::Id(Id::Plain(_)) | Tok::Kw(..))
}

pub fn render_sp(t: &[Tok]) -> String {
    t.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ")
}

/// As few spaces as possible.
pub fn render_min(t: &[Tok]) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 && wordlike(x) && wordlike(&t[i - 1]) {
            s.push(' ');
        }
        s.push_str(&x.text());
    }
    s
}

pub struct Space {
    pub states: Mutex<HashSet<Stuck>>,
    pub trans: Mutex<HashSet<(Stuck, Kind)>>,
}

impl Space {
    pub fn new() -> Space {
        Space {
            states: Mutex::new(HashSet::new()),
            trans: Mutex::new(HashSet::new()),
        }
    }
    pub fn put(&self, run: &Run) {
        run.count("states", self.states.lock().unwrap().len() as u64);
        run.count("transitions", self.trans.lock().unwrap().len() as u64);
    }
}

/// Viable one-token extensions of `prefix`. With `ops` the operator must fit the graph kind.
fn viable(prefix: &[Tok], ids: Ids, strs: bool) -> Vec<(Tok, Stuck)> {
    let di = prefix.iter().take(2).any(|t| t.kind() == Kind::Kw(Kw::Digraph));
    let mut out = vec![];
    let mut t = prefix.to_vec();
    for (k, tok) in alphabet(ids, prefix.len()).into_iter().enumerate() {
        if (tok == Tok::Arrow && !di) || (tok == Tok::Line && di) {
            continue;
        }
        if k == 1 && !strs {
            continue;
        }
        // the extra compass token only where a compass point is read
        t.push(tok.clone());
        if k == 19 {
            let p = position(prefix).unwrap();
            if !p.stack.ends_with(&[9]) {
                t.pop();
                continue;
            }
        }
        if k == 0 && position(prefix).map(|p| p.stack.ends_with(&[9])).unwrap_or(false) {
            t.pop();
            continue;
        }
        if let Some(s) = position(&t) {
            out.push((tok, s));
        }
        t.pop();
    }
    out
}

/// Calls `f` on every viable token sequence of length <= depth that extends one of `roots`.
fn explore(
    run: &Run,
    roots: &[Vec<Tok>],
    depth: usize,
    ids: Ids,
    strs: bool,
    space: &Space,
    f: &(dyn Fn(usize, &[Tok]) + Sync),
) {
    // split into tasks
    let mut tasks: Vec<(Vec<Tok>, usize)> = vec![];
    let mut cur: Vec<(Vec<Tok>, usize)> = roots.iter().map(|r| (r.clone(), depth)).collect();
    let split = 4.min(depth);
    for _ in 0..split {
        let mut nxt = vec![];
        for (p, d) in cur {
            if let Some(ps) = position(&p) {
                let mut sp = space.trans.lock().unwrap();
                space.states.lock().unwrap().insert(ps.clone());
                for (tok, _) in viable(&p, ids, strs) {
                    sp.insert((ps.clone(), tok.kind()));
                    let mut q = p.clone();
                    q.push(tok);
                    nxt.push((q, d - 1));
                }
            }
            tasks.push((p, 0));
        }
        cur = nxt;
    }
    tasks.extend(cur);
    run.par(tasks.len(), 1, |slot, i| {
        let (p, d) = &tasks[i];
        let mut st = HashSet::new();
        let mut tr = HashSet::new();
        let mut p = p.clone();
        dfs(run, slot, &mut p, *d, ids, strs, &mut st, &mut tr, f);
        space.states.lock().unwrap().extend(st);
        space.trans.lock().unwrap().extend(tr);
    });
}

fn dfs(
    run: &Run,
    slot: usize,
    p: &mut Vec<Tok>,
    d: usize,
    ids: Ids,
    strs: bool,
    st: &mut HashSet<Stuck>,
    tr: &mut HashSet<(Stuck, Kind)>,
    f: &(dyn Fn(usize, &[Tok]) + Sync),
) {
    if run.stopped() {
        return;
    }
    f(slot, p);
    let ps = match position(p) {
        Some(s) => s,
        None => return,
    };
    st.insert(ps.clone());
    if d == 0 {
        return;
    }
    for (tok, _) in viable(p, ids, strs) {
        tr.insert((ps.clone(), tok.kind()));
        p.push(tok);
        dfs(run, slot, p, d - 1, ids, strs, st, tr, f);
        p.pop();
    }
}

fn close(p: &[Tok], ids: Ids) -> Vec<Tok> {
    let mut n = 0;
    complete(p, &mut || {
        n += 1;
        if ids == Ids::Same {
            "a".into()
        } else {
            format!("z{}", n)
        }
    })
}

fn kw(k: Kw) -> Tok {
    Tok::Kw(
        k,
        match k {
            Kw::Strict => "strict",
            Kw::Graph => "graph",
            Kw::Digraph => "digraph",
            Kw::Subgraph => "subgraph",
            Kw::Node => "node",
            Kw::Edge => "edge",
        }
        .into(),
    )
}

pub fn heads() -> Vec<Vec<Tok>> {
    vec![
        vec![kw(Kw::Graph), Tok::LBrace],
        vec![kw(Kw::Digraph), Tok::LBrace],
    ]
}

/// A shortest viable prefix for every grammar position with a bounded nesting.
fn reach(max_stack: usize, ids: Ids) -> Vec<(Stuck, Vec<Tok>)> {
    let mut seen: HashMap<(bool, Stuck), ()> = HashMap::new();
    let mut q: VecDeque<Vec<Tok>> = VecDeque::new();
    let mut out = vec![];
    q.push_back(vec![]);
    while let Some(p) = q.pop_front() {
        for (tok, s) in viable(&p, ids, true) {
            if s.stack.len() > max_stack {
                continue;
            }
            let mut t = p.clone();
            t.push(tok);
            let di = t.iter().take(2).any(|t| t.kind() == Kind::Kw(Kw::Digraph));
            if seen.insert((di, s.clone()), ()).is_none() {
                out.push((s, t.clone()));
                q.push_back(t);
            }
        }
    }
    out
}

pub const WORDS: &[&str] = &[
    "_background", "area", "arrowhead", "arrowsize", "arrowtail", "bb", "bgcolor", "center", "charset", "class", "cluster",
    "clusterrank", "color", "colorscheme", "comment", "compound", "concentrate", "constraint", "Damping", "decorate",
    "defaultdist", "dim", "dimen", "dir", "diredgeconstraints", "distortion", "dpi", "edgehref", "edgetarget",
    "edgetooltip", "edgeURL", "epsilon", "esep", "fillcolor", "fixedsize", "fontcolor", "fontname", "fontnames",
    "fontpath", "fontsize", "forcelabels", "gradientangle", "group", "head_lp", "headclip", "headhref", "headlabel",
    "headport", "headtarget", "headtooltip", "headURL", "height", "href", "id", "image", "imagepath", "imagepos",
    "imagescale", "inputscale", "K", "key", "label", "label_scheme", "labelangle", "labeldistance", "labelfloat", "labelfontcolor",
    "labelfontname", "labelfontsize", "labelhref", "labeljust", "labelloc", "labeltarget", "labeltooltip", "labelURL",
    "landscape", "layer", "layerlistsep", "layers", "layerselect", "layersep", "layout", "len", "levels", "levelsgap",
    "lhead", "lheight", "linelength", "lp", "ltail", "lwidth", "margin", "maxiter", "mclimit", "mindist", "minlen",
    "mode", "model", "newrank", "nodesep", "nojustify", "normalize", "notranslate", "nslimit", "nslimit1", "oneblock",
    "ordering", "orientation", "outputorder", "overlap", "overlap_scaling", "overlap_shrink", "pack", "packmode", "pad",
    "page", "pagedir", "pencolor", "penwidth", "peripheries", "pin", "pos", "quadtree", "quantum", "radius", "rank", "rankdir",
    "ranksep", "ratio", "rects", "regular", "remincross", "repulsiveforce", "resolution", "root", "rotate", "rotation",
    "samehead", "sametail", "samplepoints", "scale", "searchsize", "sep", "shape", "shapefile", "showboxes", "sides",
    "size", "skew", "smoothing", "sortv", "splines", "start", "style", "stylesheet", "tail_lp", "tailclip", "tailhref",
    "taillabel", "tailport", "tailtarget", "tailtooltip", "tailURL", "target", "TBbalance", "tooltip", "truecolor", "URL", "vertices",
    "viewport", "voro_margin", "weight", "width", "xdotversion", "xlabel", "xlp", "z",
    "_draw_", "_ldraw_", "_hdraw_", "_nodraw_",
    "n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_", "N", "NE", "north", "south", "center_", "nn", "new", "nest", "seat", "swan", "west", "east", "cc", "__", "n1", "e_", "ws", "se2", "cd", "_n", "c1", "wé",
    "true", "false", "yes", "no", "none", "null", "nil", "default", "red", "black", "box", "ellipse", "box_", "type", "self", "Self", "fn",
    "nodes", "Node1", "node_", "edges", "edge1", "edge_", "graphs", "graph1", "graph_", "Graph2", "digraphs", "digraph1", "di", "digr", "subgraphs", "subgraph1", "subgraph_", "sub", "subg", "strictly", "strict1", "strict_", "stric", "nod", "edg", "grap", "inode", "xedge", "agraph", "_graph", "a_strict", "1", "0", "00", "007", "-0", "-1", "1.", "1.5", "-1.5", ".5", "-.5", "0.0", "-0.", "12345678901234567890", "1.0000000000000001", "é", "ñandú", "日本", "😀", "naïve", "\u{80}", "\u{a0}", "\u{2028}", "\u{10ffff}", "a\u{301}", "ß", "ǅ",
    "anonymous", "anon", "html", "esc", "plain", "cluster0", "cluster_a", "Cluster", "A", "Z", "a", "z", "aA0_", "x86_64", "__proto__", "EOF", "SOI", "EOI", "ANY", "WHITESPACE", "COMMENT",
    "\"\"", "\" \"", "\"\\\"\"", "\"\\\\\"", "\"a\\\\\\\"b\"", "\"\\n\"", "\"\\N\\G\\E\\T\\H\\L\"", "\"a\\l\\r\"", "\"a\nb\"", "\"a\\\nb\"", "\"a\\\r\nb\"", "\"node\"", "\"graph\"", "\"-\"", "\"->\"", "\"a--b\"", "\"// no\"", "\"/* no */\"", "\"# no\"", "\"<b>\"", "\"1\"", "\"n\"", "\"a:b:n\"", "\"'\"", "\"a,b\"", "\"a;b\"", "\"[x=y]\"", "\"{|}\"", "\"&amp;\"", "\"\t\"", "\"é😀\"", "\"subgraph {\"", "\"a+b\"", "\"\u{0}\"", "\"a=b\"", "\"<>\"", "\"%\"", "\"$1\"", "\"\\u0041\"",
    "<>", "< >", "<a>", "<a b>", "<<b>x</b>>", "<<b><i></i></b>>", "<\"q\">", "<\">", "<a\nb>", "<a:b>", "<;>", "<,>", "<}>", "<{>", "<]>", "<[>", "<=>", "<-->", "<//x>", "</* x */>", "<#x>", "<é>", "<<a><b>>", "<<><>>", "<&lt;>", "<\\>", "<\\\\n>", "<<br/>>", "<<!-- c -->>", "<->", "< <a> >", "<\t>", "<\u{0}>", "<'>", "<node>",
    "\"&quot;\"", "\"&#39;&lt;&gt;&nbsp;\"", "<&quot;>", "<&amp;&lt;&gt;>", "<&#39;>", "<&nbsp;>", "<&apos;&eacute;&#233;&#xe9;>", "<<![CDATA[x]]>>", "<<IMG SRC=\"a.png\"/>>", "<<TABLE><TR><TD PORT=\"p\">x</TD></TR></TABLE>>",
    "\"\\\\N\"", "\"\\x\"", "\"\\é\"", "\"é\\\\\"", "\"\\ \"", "\"\\\t\"", "\"a\\lb\\nc\\rd\"", "\"  a  \"", "\"a  b\"", "\"A\"", "\"'a'\"", "\"`a`\"", "\"http://a.b/c?d=e&f#g\"", "\"C:\\\\a\\\\b\"", "\"0,0 1,1!\"", "\"#ff0000\"", "\"0.5 0.5 0.5\"", "\"50%\"", "\"a\u{a0}b\"", "\"\u{feff}\"", "\"e\u{301}\"", "\"\u{85}\"", "\"\u{200b}\"", "\"a\r\nb\"", "\"a\rb\"", "\"cluster\"", "\"label\"", "\"strict\"",
    "< a >", "<<br/>a>", "<a\r\nb>", "<a\rb>", "<<b>a</b> <i>c</i>>", "<A>", "<a  b>", "<<A/>>", "<(>", "<&>", "<%>", "<n>", "<1>", "<é\u{301}>", "<\u{feff}>", "<label>",
    "same", "min", "max", "source", "sink", "LR", "TB", "BT", "RL", "lhs", "invis", "filled", "dashed", "dotted", "bold", "rounded", "record", "Mrecord", "point", "plaintext", "circle", "square", "auto", "fill", "ortho", "polyline", "curved", "compress", "expand", "forward", "back", "both", "local", "global", "t", "b", "l", "r", "m", "tl", "br", "_n1", "n_", "G", "g", "root_", "cluster_", "clusters", "xcluster", "cluster", "cluster_0", "cluster1", "CLUSTER", "node0", "Node", "anonymous_1", "anon_0", "0x10", "1e5", "1_000", "_1", "__", "___", "inf", "NaN", "infinity", "-5.25", "3.", "-7.", "+", "i", "O", "If", "struct",
    "a1", "b2c3", "a.b", "éa1", "日本語", "Ünïcödé", "\u{3b1}\u{3b2}", "\u{1F468}\u{200D}\u{1F469}", "\u{FB01}", "\u{212A}", "\u{17F}", "\u{130}", "\u{131}", "\u{AD}", "\u{E000}", "\u{FFFD}", "\u{FFFE}",
];

/// Documents that put one word into every role of an id.
pub fn roles(w: &str) -> Vec<String> {
    let mut v = vec![
        format!("graph {} {{}}", w),
        format!("strict digraph {} {{ a }}", w),
        format!("graph {{ {} }}", w),
        format!("graph {{ {}; {} ; {} [ ] }}", w, w, w),
        format!("graph {{ a [ {} = v ] }}", w),
        format!("graph {{ a [ k = {} ] }}", w),
        format!("graph {{ a [ k = {} , {} = {} ; {} = v k = {} ] [ {} = x ] }}", w, w, w, w, w, w),
        format!("graph {{ {} = v }}", w),
        format!("graph {{ k = {} }}", w),
        format!("graph {{ k = {} ; {} = {} a }}", w, w, w),
        format!("graph {{ graph [ {} = {} ] node [ {} = v ] edge [ k = {} ] }}", w, w, w, w),
        format!("digraph {{ {} -> {} }}", w, w),
        format!("digraph {{ a -> {} -> b [ {} = {} ] ; {} -> {{ {} }} }}", w, w, w, w, w),
        format!("graph {{ a : {} }}", w),
        format!("graph {{ a : {} : ne }}", w),
        format!("graph {{ {} : {} : sw -- {} : w }}", w, w, w),
        format!("graph {{ {}:{}--{}:{}:n }}", w, w, w, w),
        format!("graph {{ subgraph {} {{ }} }}", w),
        format!("graph {{ subgraph {} {{ {} }} {{ {} }} subgraph {} {{ }} -- {} }}", w, w, w, w, w),
    ];
    if let Some(b) = w.strip_prefix('"') {
        v.push(format!("graph {{ \"x\" + {} }}", w));
        v.push(format!("graph {{ a [ {}+\"{} = {} + {} ] }}", w, b, w, w));
        v.push(format!("graph {} + \"x\" {{ a : {}+\"p\" : n }}", w, w));
    }
    v
}

/// Documents in which one construct is repeated `n` times.
pub fn sized(n: usize) -> Vec<String> {
    (0..).map_while(|k| sized_kind(k, n)).collect()
}

pub fn sized_one(k: usize, n: usize) -> String {
    sized_kind(k, n).unwrap()
}

fn sized_kind(k: usize, n: usize) -> Option<String> {
    let rep = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
    let nest = |open: &dyn Fn(usize) -> String, mid: &str, close: &dyn Fn(usize) -> String| {
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&open(i));
        }
        s.push_str(mid);
        for i in (0..n).rev() {
            s.push_str(&close(i));
        }
        s
    };
    let a = |i: usize| format!("k{}=v{}", i, i);
    Some(match k {
        0 => format!("graph {{ {} }}", rep(&|i| format!("n{}", i), " ")),
        1 => format!("graph {{ {}; }}", rep(&|i| format!("n{}[{}]", i, a(i)), ";")),
        2 => format!("graph {{ {} }}", rep(&a, "\n")),
        3 => format!("digraph {{ {} }}", rep(&|i| format!("a{} -> b{}", i, i), ";\n")),
        4 => format!("digraph {{ {} }}", rep(&|_| "a -> b".into(), "\n")),
        5 => format!("digraph {{ x -> {} }}", rep(&|i| format!("c{}", i), " -> ")),
        6 => format!("graph {{ x -- {} [{}] }}", rep(&|i| format!("c{}:p{}:ne", i, i), "--"), rep(&a, ",")),
        7 => format!("graph {{ a [{}] }}", rep(&a, ",")),
        8 => format!("graph {{ a [{}] }}", rep(&a, " ")),
        9 => format!("graph {{ a [{}] }}", rep(&|_| "k=v".into(), ";")),
        10 => format!("graph {{ a {} }}", rep(&|i| format!("[{}]", a(i)), " ")),
        11 => format!("graph {{ a {} }}", rep(&|_| "[]".into(), "")),
        12 => format!("graph {{ node {} edge [{}] }}", rep(&|i| format!("[{}]", a(i)), " "), rep(&a, ";")),
        13 => format!("graph {{ {} }}", rep(&|i| ["graph[a=b]", "node[c=d]", "edge[]"][i % 3].into(), " ")),
        14 => format!("graph {{ {} }}", rep(&|i| format!("subgraph s{} {{ a{} }}", i, i), " ")),
        15 => format!("graph {{ {} }}", rep(&|i| format!("{{ a{} }}", i), ";")),
        16 => format!("digraph {{ x -> {} }}", rep(&|i| format!("{{ c{} }}", i), " -> ")),
        17 => format!("digraph {{ {} [a=b] }}", rep(&|i| format!("subgraph s{} {{ c{} }}", i, i), " -> ")),
        18 => format!("graph {{ {} + \"\" }}", rep(&|i| format!("\"p{}\"", i), " + ")),
        19 => format!("graph {{ {} }}", "a".repeat(n)),
        20 => format!("graph {{ {} }}", "1".repeat(n)),
        21 => format!("graph {{ 1.{} }}", "0".repeat(n)),
        22 => format!("graph {{ \"{}\" }}", "é".repeat(n)),
        23 => format!("graph {{ \"{}\" }}", "\\\"".repeat(n)),
        24 => format!("graph {{ \"{}\" }}", "\\\\".repeat(n)),
        25 => format!("graph {{ <{}> }}", "x".repeat(n)),
        26 => format!("graph {{ <{}> }}", "<b>y</b>".repeat(n)),
        27 => format!("graph {{ a[l={}] }}", nest(&|i| format!("<{}", i), "", &|i| format!("{}>", i))),
        28 => format!("graph {{ {} }}", nest(&|i| format!("subgraph s{} {{ a{} ", i, i), "m", &|i| format!(" b{} }}", i))),
        29 => format!("graph {{ {} }}", nest(&|i| format!("{{ a{} ", i), "m", &|i| format!("}} b{}", i))),
        30 => format!("graph {{ {} }}", nest(&|i| format!("a{} -- {{ ", i), "m", &|i| format!("}} [k=v{}]", i))),
        31 => format!("graph {{ {} }}", nest(&|i| format!("{{ a{} ", i), "m", &|i| format!("}} -- b{} [k=v{}]", i, i))),
        32 => format!("graph {{ {} a }}", "/* c */".repeat(n)),
        33 => format!("graph {{ {} a }}", "// c\n".repeat(n)),
        34 => format!("graph {{ a{}b }}", " ".repeat(n)),
        35 => format!("{}graph {{ }}{}", "\n".repeat(n), "\n".repeat(n)),
        36 => format!("graph {{ a /*{}*/ b }}", "*".repeat(n)),
        37 => format!("graph {{ x -- y [{}] {{u}} -- v [{}] node [{}] }}", rep(&|_| "k=v".into(), " "), rep(&|_| "k=v".into(), ","), rep(&|_| "k=v".into(), ";")),
        38 => format!("graph {{ x -- y {0} edge {0} graph {0} y -- {{u}} -- v {0} }}", rep(&|i| format!("[k=v{}]", i % 3), "")),
        39 => format!("graph {{ {} }}", rep(&|_| "k=v".into(), ";")),
        40 => format!("graph {{ {0} {1} {2} }}", rep(&|_| "{a}".into(), ";"), rep(&|_| "edge[a=b]".into(), ";"), rep(&|_| "subgraph s{a}".into(), " ")),
        41 => format!("graph {{ {} {} }}", rep(&|_| "a:p:n--b".into(), " "), rep(&|_| "a[k=v]".into(), " ")),
        42 => format!("digraph {{ {} }}", rep(&|_| "a".into(), "->")),
        43 => format!("digraph {{ {} [k=v] }}", rep(&|_| "{a}".into(), "->")),
        _ => return None,
    })
}

/// Documents far beyond the swept sizes: deep nesting, and texts of many MiB.
fn big(run: &Run, t: &Tally, broken: bool) {
    let check_text = |run: &Run, slot: usize, t: &Tally, doc: &str| {
        check_text(run, slot, t, doc);
        if broken {
            check_text(run, slot, t, &doc[..doc.len() - 1]);
            check_text(run, slot, t, &format!("{}}}", doc));
            check_text(run, slot, t, &format!("{}\n\n \0", doc));
            check_text(run, slot, t, &format!("{}\n}}\n", doc));
            check_text(run, slot, t, &format!("{}\ngraph {{}}", doc));
        }
    };
    let deep: Vec<usize> = [300, 511, 512, 513, 1000, 1024, 1025, 2000].into_iter().chain(run.q(vec![], vec![4096, 4097, 10000])).collect();
    run.par(deep.len(), 1, |slot, i| {
        for (k, doc) in sized(deep[deep.len() - 1 - i]).into_iter().enumerate() {
            // nested constructs and the long sequences of subgraphs
            if (27..=31).contains(&k) || [16, 17, 43].contains(&k) {
                check_text(run, slot, t, &doc);
            }
        }
        let n = deep[deep.len() - 1 - i];
        for w in crate::pcheck2::WRAPS {
            check_text(run, slot, t, &format!("digraph {{ {} a {} b }}", w.0.replace("--", "->").repeat(n), w.1.replace("--", "->").replace(";c", " c").repeat(n)));
        }
    });
    let many = run.q(vec![700_000], vec![700_000, 3_000_000]);
    let kinds = [0usize, 2, 4, 7, 12, 18, 19, 22, 23, 25, 26, 32, 33, 34, 36];
    run.par(kinds.len() * many.len(), 1, |slot, i| {
        let n = many[i / kinds.len()];
        let doc = sized_one(kinds[i % kinds.len()], n);
        check_text(run, slot, t, &doc);
    });
    run.note("big", format!("nested {:?}; {:?} repetitions of {} flat constructs (up to 16 MiB of text)", deep, many, kinds.len()));
}

pub fn size_list(max: usize, extra: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=max).collect();
    v.extend_from_slice(extra);
    v
}

// ---------------------------------------------------------------------------------------------

pub fn c01(run: &Run) {
    let t = Tally::default();
    let space = Space::new();
    // 1. every document whose viable prefix has at most D tokens, three ways of naming ids
    let d = run.q(7, 9);
    let f = |ids: Ids| {
        let t = &t;
        move |slot: usize, p: &[Tok]| {
            let doc = close(p, ids);
            if let Ok((g, len, opaque)) = parse_tokens(&doc) {
                let v = if opaque {
                    Verdict::Lenient(None)
                } else if len {
                    Verdict::Lenient(Some(g))
                } else {
                    Verdict::Valid(g)
                };
                check(run, slot, t, &render_sp(&doc), &v);
                check(run, slot, t, &render_min(&doc), &v);
            }
        }
    };
    explore(run, &heads(), d, Ids::Unique, false, &space, &f(Ids::Unique));
    explore(run, &heads(), d - 1, Ids::Same, false, &space, &f(Ids::Same));
    for s in 0..CLASSES {
        explore(run, &heads(), d - 2, Ids::Rotate(s), false, &space, &f(Ids::Rotate(s)));
    }
    explore(run, &heads(), d - 2, Ids::Unique, true, &space, &f(Ids::Unique));
    // 2. the head of the document
    explore(run, &[vec![]], run.q(5, 6), Ids::Unique, true, &space, &f(Ids::Unique));
    for s in 0..CLASSES {
        explore(run, &[vec![]], 3, Ids::Rotate(s), true, &space, &f(Ids::Rotate(s)));
    }
    run.note(
        "token_depth",
        format!("every viable token sequence of <= {} tokens in a graph or digraph body, completed shortest", d),
    );
    // 3. every grammar position within a nesting bound, from a shortest prefix, then every continuation
    let r = reach(run.q(8, 11), Ids::Unique);
    run.count("positions", r.len() as u64);
    let roots: Vec<Vec<Tok>> = r.iter().map(|x| x.1.clone()).collect();
    explore(run, &roots, run.q(2, 3), Ids::Unique, true, &space, &f(Ids::Unique));
    run.sample(render_sp(&close(&roots[roots.len() / 2], Ids::Unique)));
    run.sample(render_min(&close(&roots[roots.len() - 1], Ids::Unique)));
    // 4. every repetition count of every repeatable construct
    let sizes = size_list(run.q(70, 400), run.q(&[127, 128, 129, 255, 256, 257][..], &[511, 512, 513, 767, 768][..]));
    run.par(sizes.len(), 1, |slot, i| {
        let n = sizes[sizes.len() - 1 - i];
        for doc in sized(n) {
            check_text(run, slot, &t, &doc);
        }
    });
    let flat: Vec<usize> = vec![1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537];
    let flat = &flat[..run.q(7, 11)];
    run.par(flat.len(), 1, |slot, i| {
        let n = flat[i];
        for (k, doc) in sized(n).into_iter().enumerate() {
            // flat constructs only
            if !(27..=31).contains(&k) && ![16, 17, 43].contains(&k) {
                check_text(run, slot, &t, &doc);
            }
        }
    });
    run.note("sizes", format!("1..={} and {:?}", run.q(70, 400), flat));
    big(run, &t, false);
    // sizes and forms of one statement combined
    let prods = crate::shapes::products(run.q(4, 6), 3);
    run.par(prods.len(), 16, |slot, i| {
        use crate::shapes::Names;
        for (k, n) in [(i / 2, Names::Unique), (i / 2 + 3, Names::Rotate(i)), (i / 2 + i % 2, Names::Same), (i, Names::Keys(i % 5))] {
            let doc = crate::refprint::plain(&crate::shapes::graph(k, n, &prods[i]));
            check_text(run, slot, &t, &doc);
            // without the optional separators (and other text where an id holds one)
            check_text(run, slot, &t, &doc.replace(" ; ", "\n"));
        }
    });
    run.count("combined_sizes", prods.len() as u64);
    // every pattern of equal ids in every small graph
    let sh = crate::shapes::shapes(run.q(3, 4));
    let few: Vec<(usize, &Vec<Stmt>)> = sh.lists.iter().flatten().map(|l| (crate::shapes::slots(l), l)).filter(|x| x.0 <= run.q(5, 6)).collect();
    let pats: Vec<Vec<u64>> = (0..7).map(crate::shapes::patterns).collect();
    run.par(few.len(), 4, |slot, i| {
        use crate::shapes::Names;
        let (n, l) = few[i];
        for (j, code) in pats[n].iter().enumerate() {
            let doc = crate::refprint::plain(&crate::shapes::graph(4 + (i + j) % 4, Names::Pattern(*code, i + j / 2), l));
            check_text(run, slot, &t, &doc);
            check_text(run, slot, &t, &doc.replace(" ; ", "\n"));
        }
    });
    run.count("equality_patterns", few.iter().map(|x| pats[x.0].len() as u64).sum());
    // 5. every word in every role
    run.par(WORDS.len(), 1, |slot, i| {
        for doc in roles(WORDS[i]) {
            check_text(run, slot, &t, &doc);
        }
    });
    run.sample(roles("label")[6].clone());
    // every word in every place of every small graph
    worded(run, &t, &sh);
    t.put(run);
    space.put(run);
    run.assume("the reference reader (harness/src/refdot.rs) states the published DOT grammar");
    run.assume("keywords used as ids, '--' in digraphs, '#' in the middle of a line and lone CR inside line comments are left open");
}

/// Every word in every place of every small graph, plainly written and as it is printed.
fn worded(run: &Run, t: &Tally, sh: &crate::shapes::Shapes) {
    let lists: Vec<(usize, &Vec<Stmt>)> = sh.lists.iter().take(4).flatten().map(|l| (crate::shapes::slots(l), l)).collect();
    let words = crate::shapes::words();
    let cfgs = [crate::refprint::Cfg::default(), crate::refprint::Cfg { semi: true, mult: true, ..Default::default() }];
    let n = AtomicU64::new(0);
    run.par(words.len(), 1, |slot, k| {
        for (i, g) in crate::shapes::worded(&lists, k).enumerate() {
            let doc = if i % 2 == 0 { crate::refprint::plain(&g) } else { crate::refprint::graph(&g, &cfgs[i / 2 % 2]).0 };
            check_text(run, slot, t, &doc);
            n.fetch_add(1, Relaxed);
        }
    });
    run.count("words", words.len() as u64);
    run.count("words_in_places", n.load(Relaxed));
}

const BASES2: &[&str] = &["graph {}", "digraph {a->b}", "strict graph G {a--b;}", "graph \"g\" {\n}", "Strict DiGraph <g> { subgraph { a } }"];

pub fn c02(run: &Run) {
    let t = Tally::default();
    let space = Space::new();
    let edits = AtomicU64::new(0);
    // every one-token edit of every document with a bounded viable prefix
    let edit = |slot: usize, doc: &[Tok], also_two: bool| {
        let alpha = alphabet(Ids::Unique, 77);
        let mut try_ = |toks: Vec<Tok>| {
            edits.fetch_add(1, Relaxed);
            let s = render_sp(&toks);
            check_text(run, slot, &t, &s);
            let m = render_min(&toks);
            if m.len() + toks.len() != s.len() + 1 {
                check_text(run, slot, &t, &m);
            }
        };
        try_(doc.to_vec());
        for i in 0..=doc.len() {
            for a in &alpha {
                let mut x = doc.to_vec();
                x.insert(i, a.clone());
                try_(x);
                if i < doc.len() {
                    let mut x = doc.to_vec();
                    x[i] = a.clone();
                    try_(x);
                }
            }
            if i < doc.len() {
                let mut x = doc.to_vec();
                x.remove(i);
                if also_two {
                    for j in i..x.len() {
                        let mut y = x.clone();
                        y.remove(j);
                        try_(y);
                    }
                }
                try_(x);
                // truncation
                try_(doc[..i].to_vec());
                // swap
                if i + 1 < doc.len() {
                    let mut x = doc.to_vec();
                    x.swap(i, i + 1);
                    try_(x);
                }
                // duplication of a stretch
                for j in i + 1..=doc.len().min(i + 4) {
                    let mut x = doc[..j].to_vec();
                    x.extend_from_slice(&doc[i..]);
                    try_(x);
                }
            }
        }
    };
    let two = run.thorough;
    let f = |slot: usize, p: &[Tok]| {
        let doc = close(p, Ids::Unique);
        edit(slot, &doc, two);
    };
    explore(run, &heads()[..1], run.q(4, 6), Ids::Unique, false, &space, &f);
    explore(run, &heads()[1..], run.q(4, 5), Ids::Unique, false, &space, &f);
    explore(run, &[vec![]], run.q(4, 5), Ids::Unique, true, &space, &f);
    // every viable prefix, valid continuation only
    let g = |slot: usize, p: &[Tok]| {
        let doc = close(p, Ids::Unique);
        check_text(run, slot, &t, &render_sp(&doc));
        // and a non-viable next token with the text breaking off or going on as before
        for a in alphabet(Ids::Unique, 78) {
            let mut x = p.to_vec();
            x.push(a);
            check_text(run, slot, &t, &render_sp(&x));
            x.extend_from_slice(&doc[p.len()..]);
            check_text(run, slot, &t, &render_sp(&x));
        }
    };
    explore(run, &heads(), run.q(6, 8), Ids::Unique, false, &space, &g);
    // every grammar position within a nesting bound: its edits
    let r = reach(run.q(7, 10), Ids::Unique);
    run.count("positions", r.len() as u64);
    run.par(r.len(), 1, |slot, i| {
        edit(slot, &close(&r[i].1, Ids::Unique), false);
    });
    // every short text of structural characters, bare and inside a body and an attribute list
    let ch = ["a", " ", "{", "}", "[", "]", "=", ";", ",", ":", "-", ">", "<", "\"", "+", "1", "/", "*", "#", "\n", "\\", "."];
    let ctx: Vec<(&str, &str)> = vec![
        ("graph{", "}"),
        ("digraph{a", "}"),
        ("graph{a[", "]}"),
        ("graph{a[b=c", "]}"),
        ("graph{a:b", "}"),
        ("", ""),
        ("graph", "{}"),
        ("graph{}", ""),
        ("strict graph{a--b", "}"),
        ("graph{subgraph", "{}}"),
    ];
    let k = run.q(4, 5);
    let n = ch.len();
    let total: usize = (0..=k).map(|j| n.pow(j as u32)).sum();
    run.par(total, 512, |slot, i| {
        let mut i = i;
        let mut len = 0;
        while i >= n.pow(len as u32) {
            i -= n.pow(len as u32);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(ch[i % n]);
            i /= n;
        }
        for (a, b) in &ctx {
            check_text(run, slot, &t, &format!("{}{}{}", a, s, b));
        }
    });
    run.count("char_strings", (total * ctx.len()) as u64);
    run.note("alphabet", format!("strings of <= {} of {:?} in {} contexts", k, ch, ctx.len()));
    run.count("one_token_edits", edits.load(Relaxed));
    // every position of a large document broken
    let base = "strict digraph G { graph [a=b,c=d] node[e=f;]; edge [] k=v a:p:ne -> b:n -> {c d} [x=y][z=w]; subgraph s { subgraph { e } } -> f; {g}; <h<i>> -> \"j\" + \"k\" }";
    let l = lex(base).unwrap();
    edit(0, &l.toks, true);
    let bytes: Vec<usize> = base.char_indices().map(|x| x.0).collect();
    for &i in &bytes {
        check_text(run, 0, &t, &base[..i]);
        check_text(run, 0, &t, &base[i..]);
        for c in ch {
            check_text(run, 0, &t, &format!("{}{}{}", &base[..i], c, &base[i..]));
        }
        let j = i + base[i..].chars().next().unwrap().len_utf8();
        check_text(run, 0, &t, &format!("{}{}", &base[..i], &base[j..]));
        for c in ch {
            check_text(run, 0, &t, &format!("{}{}{}", &base[..i], c, &base[j..]));
        }
    }
    // what is legal is accepted: every small graph, every combination of sizes, every kind and
    // every assignment of ids
    let sh = crate::shapes::shapes(run.q(3, 4));
    let mut lists: Vec<&Vec<Stmt>> = sh.lists.iter().flatten().collect();
    let prods = crate::shapes::products(run.q(4, 6), 3);
    lists.extend(&prods);
    run.par(lists.len(), 16, |slot, i| {
        use crate::shapes::Names;
        for kind in 0..4 {
            for (j, n) in [Names::Unique, Names::Same, Names::Rotate(i + kind), Names::Keys(i % 5)].into_iter().enumerate() {
                let doc = crate::refprint::plain(&crate::shapes::graph(kind + 4 * (j % 2), n, lists[i]));
                check_text(run, slot, &t, &doc);
                if j == kind {
                    check_text(run, slot, &t, &doc.replace(" ; ", "\n"));
                }
            }
        }
    });
    run.count("legal_graphs", lists.len() as u64 * 16);
    // words in every role, and valid sizes
    run.par(WORDS.len(), 1, |slot, i| {
        for doc in roles(WORDS[i]) {
            check_text(run, slot, &t, &doc);
        }
    });
    let sizes = size_list(run.q(40, 200), &[100, 255, 256, 257]);
    run.par(sizes.len(), 1, |slot, i| {
        let n = sizes[sizes.len() - 1 - i];
        for doc in sized(n) {
            check_text(run, slot, &t, &doc);
            // the same with the last bracket missing, doubled, or replaced
            check_text(run, slot, &t, &doc[..doc.trim_end().len() - 1]);
            check_text(run, slot, &t, &format!("{}}}", doc));
            check_text(run, slot, &t, &format!("{} x", doc));
            for pat in ["}", "]", ">", "\"", "{", "[", "<"] {
                for p in [doc.find(pat), doc.rfind(pat)].into_iter().flatten() {
                    let mut x = doc.clone();
                    x.replace_range(p..p + pat.len(), "");
                    check_text(run, slot, &t, &x);
                    x.insert_str(p, pat);
                    x.insert_str(p, pat);
                    check_text(run, slot, &t, &x);
                }
            }
        }
    });
    big(run, &t, true);
    // a whole document with more text before or after it
    let more = ["a", "}", "{", "{}", ";", ",", "graph", "graph {}", "digraph d { a -> b }", "strict", "\u{0}", "\u{0}x", "\\", "\"\"", "<>", "//", "/*", "*/", "# x", "#", "[]", "a=b", "--", "+ \"x\"", "\u{feff}", "\u{c}", "\u{b}", "\u{1a}", "\u{4}", "\u{85}", "\u{2028}"];
    let blank = ["", " ", "\n", "\r\n", "\n\n", " \n \n ", "\t", ";", "\n}\n", "\n---\n", "/* c */", "// c\n", "\n# c\n"];
    run.par(BASES2.len() * more.len(), 4, |slot, i| {
        let (doc, m) = (BASES2[i % BASES2.len()], more[i / BASES2.len()]);
        for b in blank {
            for e in blank {
                check_text(run, slot, &t, &format!("{}{}{}{}", doc, b, m, e));
                check_text(run, slot, &t, &format!("{}{}{}{}", e, m, b, doc));
                check_text(run, slot, &t, &format!("{}{}{}{}{}", m, b, doc, e, m));
            }
        }
    });
    // every character between tokens: only blanks may stand there
    run.par(0x110000, 4096, |slot, c| {
        if let Some(c) = char::from_u32(c as u32) {
            check_text(run, slot, &t, &format!("graph{{a;{}}}", c));
            if (c as u32) < 0x3000 {
                check_text(run, slot, &t, &format!("{}graph{{}}", c));
                check_text(run, slot, &t, &format!("graph{{}}{}", c));
                check_text(run, slot, &t, &format!("graph{{a[b=c {} d=e]}}", c));
                check_text(run, slot, &t, &format!("graph{{a --{}\"b\"}}", c));
            }
        }
    });
    run.sample("graph { v2 [ v4 = v6 ] ] }");
    run.sample("graph{a[b=c;,]}");
    t.put(run);
    space.put(run);
    run.assume("the reference reader (harness/src/refdot.rs) states the published DOT grammar");
}

pub fn c03(run: &Run) {
    let t = Tally::default();
    // 1. every string over an alphabet with one member of every lexical class, in every role of an id
    let ch: Vec<&str> = vec![
        "a", "Z", "_", "0", "7", ".", "-", "\"", "\\", "<", ">", "é", "😀", " ", "\n", "+", "/", "*", "#", ":", "=", ";", "]", "}", "n",
    ];
    let ctx: Vec<(&str, &str)> = vec![
        ("graph{a[k=", "]}"),
        ("graph{", "}"),
        ("graph{a[", "=v]}"),
        ("graph{a:", "}"),
        ("graph ", "{}"),
        ("graph{subgraph ", "{}}"),
        ("graph{a:p:", "--b}"),
        ("digraph{a->", "[k=v]}"),
        ("graph{k=", ";b}"),
        ("graph{a[k=\"", "\"]}"),
        ("graph{a[k=<", ">]}"),
    ];
    let k = run.q(4, 5);
    let n = ch.len();
    let total: usize = (0..=k).map(|j| n.pow(j as u32)).sum();
    run.par(total, 512, |slot, i| {
        let mut i = i;
        let mut len = 0;
        while i >= n.pow(len as u32) {
            i -= n.pow(len as u32);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(ch[i % n]);
            i /= n;
        }
        for (a, b) in &ctx {
            check_text(run, slot, &t, &format!("{}{}{}", a, s, b));
        }
    });
    run.count("strings", total as u64);
    run.note("alphabet", format!("strings of <= {} of {:?} in {} contexts", k, ch, ctx.len()));
    // 2. longer strings over the characters that matter inside one form
    let forms: Vec<(Vec<&str>, usize, Vec<(&str, &str)>)> = vec![
        (vec!["\\", "\"", "a", "\n"], run.q(9, 11), vec![("graph{a[k=\"", "\"]}"), ("graph{\"", "\"}")]),
        (vec!["<", ">", "a", "\""], run.q(9, 11), vec![("graph{a[k=<", ">]}"), ("graph{<", ">}")]),
        (vec!["1", ".", "-", "a", "0"], run.q(7, 9), vec![("graph{a[k=", "]}"), ("graph{", "}"), ("digraph{b->", "}")]),
        (vec!["\"a\"", "+", " ", "\"\"", "\"\\\"\"", "b"], run.q(7, 8), vec![("graph{a[k=", "]}"), ("graph{", "}"), ("graph ", "{}"), ("graph{a[", "=b]}"), ("graph{x:", "}")]),
        (vec!["n", "e", "s", "w", "c", "_", "1", ":"], run.q(6, 7), vec![("graph{a:", "}"), ("graph{a:p:", "}"), ("graph{", "}")]),
        (vec!["a", "é", "\u{7f}", "\u{80}", "\u{200b}", "_", "9", "日"], run.q(5, 6), vec![("graph{a[k=", "]}"), ("graph{", "}"), ("graph ", "{}")]),
    ];
    for (al, k, ctx) in &forms {
        let n = al.len();
        let total: usize = (0..=*k).map(|j| n.pow(j as u32)).sum();
        run.par(total, 512, |slot, i| {
            let mut i = i;
            let mut len = 0;
            while i >= n.pow(len as u32) {
                i -= n.pow(len as u32);
                len += 1;
            }
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(al[i % n]);
                i /= n;
            }
            for (a, b) in ctx {
                check_text(run, slot, &t, &format!("{}{}{}", a, s, b));
            }
        });
        run.count("strings", total as u64);
    }
    // 3. every character of Unicode, at every kind of place
    run.par(0x110000, 1024, |slot, c| {
        if let Some(c) = char::from_u32(c as u32) {
            check_text(run, slot, &t, &format!("graph{{{}}}", c));
            check_text(run, slot, &t, &format!("graph{{a{}b[k=v{}]}}", c, c));
            check_text(run, slot, &t, &format!("graph{{a[k=\"{}\"]}}", c));
            check_text(run, slot, &t, &format!("graph{{a[k=\"x\\{}y\"]}}", c));
            check_text(run, slot, &t, &format!("graph{{a[k=<x{}y>]}}", c));
            if run.thorough || (c as u32) < 0x3000 {
                check_text(run, slot, &t, &format!("graph {}{{subgraph {}x{{a:{}:n}}}}", c, c, c));
                check_text(run, slot, &t, &format!("graph{{1{}[{}=1{}]}}", c, c, c));
                check_text(run, slot, &t, &format!("graph{{-{} .{} \"\"{}}}", c, c, c));
                check_text(run, slot, &t, &format!("graph{{a:n{} a:p:ne{}}}", c, c));
            }
        }
    });
    // 4. words, lengths
    run.par(WORDS.len(), 1, |slot, i| {
        for doc in roles(WORDS[i]) {
            check_text(run, slot, &t, &doc);
        }
        // words glued to every structural character and to each other
        for s in ["{", "}", "[", "]", "=", ";", ",", ":", "--", "->", "+", "\"x\"", "<x>", "1", "_", ".", "-", "/", "//", "/**/", "#", "é"] {
            check_text(run, slot, &t, &format!("graph{{{}{}}}", WORDS[i], s));
            check_text(run, slot, &t, &format!("graph{{{}{}}}", s, WORDS[i]));
            check_text(run, slot, &t, &format!("graph{{{}{}b}}", WORDS[i], s));
            check_text(run, slot, &t, &format!("graph{{a[{}={}{}]}}", WORDS[i], WORDS[i], s));
        }
        for w in WORDS {
            check_text(run, slot, &t, &format!("graph{{a[{}={}]}}", WORDS[i], w));
        }
    });
    let lens = size_list(run.q(300, 1200), &[4095, 4096, 4097, 65535, 65536, 65537]);
    run.par(lens.len(), 1, |slot, i| {
        let n = lens[lens.len() - 1 - i];
        for w in [
            "a".repeat(n),
            "é".repeat(n),
            "_1".repeat(n),
            "9".repeat(n),
            format!("-{}.{}", "0".repeat(n), "1".repeat(n)),
            format!(".{}", "5".repeat(n)),
            format!("\"{}\"", "x y".repeat(n)),
            format!("\"{}\"", "\\\"".repeat(n)),
            format!("\"{}\"", "\\\\".repeat(n)),
            format!("\"{}\\\\\"", "\n".repeat(n)),
            format!("<{}>", "é ".repeat(n)),
            format!("<{}>", "<>".repeat(n)),
            if n < 1300 { format!("<{}{}>", "<".repeat(n), ">".repeat(n)) } else { "<>".into() },
            if n < 1300 { format!("<{}x{}>", "<a>".repeat(n), "</a>".repeat(n)) } else { "<>".into() },
        ] {
            check_text(run, slot, &t, &format!("graph {}{{a:{}:n--b[{}={}]}}", w, w, w, w));
        }
        let parts = vec!["\"ab\""; n].join("+");
        check_text(run, slot, &t, &format!("graph{{a[{}={}]}}", parts, parts));
    });
    run.note("lengths", format!("every id length 1..={} and 4095..4097, 65535..65537", run.q(300, 1200)));
    run.sample("graph{a[k=\"\\\\\\\"a\"]}");
    run.sample("graph{a[k=<<a>\">]}");
    run.sample("graph{b->-1.}");
    let strings = run.get("strings");
    run.count("states", strings);
    run.count("transitions", t.docs.load(Relaxed));
    t.put(run);
    run.assume("the reference lexer (harness/src/refdot.rs) states the published lexical rules");
    run.assume("two unquoted ids without blank between them ('1a') are left open apart from the tree if accepted");
}

/// Every document whose viable prefix has at most `depth` tokens in a body, completed shortest.
pub fn enumerate(run: &Run, depth: usize, ids: Ids, space: &Space, f: &(dyn Fn(usize, &[Tok]) + Sync)) {
    let g = |slot: usize, p: &[Tok]| {
        let d = close(p, ids);
        if let Ok((_, false, false)) = parse_tokens(&d) {
            f(slot, &d)
        }
    };
    explore(run, &heads(), depth, ids, false, space, &g);
}
