//! C12 and C15: executions against the scripted dot.
use crate::pcheck2::{rm_scratch, scratch};
use crate::pr;
use crate::refprint::Cfg;
use crate::run::*;
use crate::shapes::{self, Names};
use dot_structures::*;
use graphviz_rust::cmd::{CommandArg, Format, Layout};
use std::io::{BufRead, BufReader};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};

/// A scratch directory with bin/dot, tmp/ and work/; PATH, TMPDIR and the working directory point there.
pub struct Bench {
    pub dir: String,
}
impl Bench {
    pub fn new(name: &str) -> Bench {
        std::env::set_var("TMPDIR", "/tmp");
        let dir = scratch(name);
        for d in ["bin", "tmp", "work"] {
            std::fs::create_dir_all(format!("{}/{}", dir, d)).unwrap();
        }
        let exe = std::env::current_exe().unwrap();
        std::fs::copy(exe.parent().unwrap().with_file_name("fd").join("x86_64-unknown-linux-gnu/debug/dot"), format!("{}/bin/dot", dir)).unwrap();
        let b = Bench { dir };
        b.env();
        b
    }
    pub fn env(&self) {
        std::env::set_var("PATH", format!("{}/bin", self.dir));
        std::env::set_var("TMPDIR", format!("{}/tmp", self.dir));
        std::env::set_var("MC_ENV", "here");
        std::env::set_current_dir(format!("{}/work", self.dir)).unwrap();
    }
    pub fn script(&self, s: &str) {
        std::fs::write(format!("{}/script", self.dir), s).unwrap();
    }
    /// Records of the executions since the last call.
    pub fn records(&self) -> Vec<Rec> {
        let mut o = vec![];
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            if e.file_name().as_bytes().starts_with(b"rec.") {
                o.push(Rec::read(&std::fs::read(e.path()).unwrap()));
                let _ = std::fs::remove_file(e.path());
            }
        }
        o
    }
    pub fn leftovers(&self) -> Vec<PathBuf> {
        let mut o = vec![];
        for d in ["tmp", "work"] {
            for e in std::fs::read_dir(format!("{}/{}", self.dir, d)).unwrap().flatten() {
                o.push(e.path());
            }
        }
        o
    }
    pub fn clean(&self) {
        for p in self.leftovers() {
            let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
        }
    }
}
impl Drop for Bench {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        rm_scratch(&self.dir);
    }
}

#[derive(Debug, Clone, Default)]
pub struct Rec {
    /// each argument, with the contents of the file it names
    pub args: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    pub stdin: Option<Vec<u8>>,
    pub cwd: Vec<u8>,
    pub env: Vec<u8>,
}
impl Rec {
    pub fn read(mut b: &[u8]) -> Rec {
        let mut r = Rec::default();
        while b.len() >= 9 {
            let n = u64::from_le_bytes(b[1..9].try_into().unwrap()) as usize;
            let v = b[9..9 + n].to_vec();
            match b[0] {
                b'A' => r.args.push((v, None)),
                b'F' => r.args.last_mut().unwrap().1 = Some(v),
                b'I' => r.stdin = Some(v),
                b'C' => r.cwd = v,
                _ => r.env = v,
            }
            b = &b[9 + n..];
        }
        r
    }
    /// Was dot called with exactly `args`, in order, on exactly `text`?
    pub fn matches(&self, args: &[String], text: &[u8]) -> Result<(), String> {
        let given: Vec<&[u8]> = self.args.iter().map(|a| a.0.as_slice()).collect();
        let want: Vec<&[u8]> = args.iter().map(|a| a.as_bytes()).collect();
        let show = |l: &[&[u8]]| format!("{:?}", l.iter().map(|a| short(&String::from_utf8_lossy(a), 60)).collect::<Vec<_>>());
        let differs = |b: &[u8]| {
            let at = b.iter().zip(text).take_while(|(a, b)| a == b).count();
            format!("dot read {} bytes, the text has {}, they differ from byte {}: {:?} / {:?}", b.len(), text.len(), at, short(&String::from_utf8_lossy(&b[at..]), 60), short(&String::from_utf8_lossy(&text[at..]), 60))
        };
        if given == want {
            return match &self.stdin {
                Some(b) if b == text => Ok(()),
                Some(b) => Err(differs(b)),
                None => Err(format!("dot was given no input: {}", show(&given))),
            };
        }
        // the input file is one more argument: that which names a readable file with the text
        if given.len() != want.len() + 1 {
            return Err(format!("dot got the arguments {}, given were {}", show(&given), show(&want)));
        }
        let mut err = format!("dot got the arguments {}, given were {}", show(&given), show(&want));
        for i in (0..given.len()).rev() {
            let mut rest = given.clone();
            rest.remove(i);
            if rest == want {
                match &self.args[i].1 {
                    Some(b) if b == text => return Ok(()),
                    Some(b) => err = differs(b),
                    None => err = format!("the input {:?} is not a readable file", String::from_utf8_lossy(given[i])),
                }
            }
        }
        Err(err)
    }
}

/// What the scripted dot does.
#[derive(Clone, Debug, Default)]
pub struct Script {
    pub out: usize,
    pub outx: Option<Vec<u8>>,
    pub err: usize,
    pub errx: Option<Vec<u8>>,
    pub order: &'static str,
    pub code: i32,
    pub sig: i32,
    pub delay: u64,
    pub mid: u64,
    pub early: bool,
}
impl Script {
    pub fn text(&self) -> String {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let mut s = format!("out={}\nerr={}\norder={}\ncode={}\nsig={}\ndelay={}\nmid={}\nearly={}\n", self.out, self.err, self.order, self.code, self.sig, self.delay, self.mid, self.early as u8);
        if let Some(b) = &self.outx {
            s += &format!("outx={}\n", hex(b));
        }
        if let Some(b) = &self.errx {
            s += &format!("errx={}\n", hex(b));
        }
        s
    }
    fn pat(n: usize, salt: usize) -> Vec<u8> {
        (0..n).map(|i| ((i * 7 + i / 256 + salt) % 256) as u8).collect()
    }
    pub fn stdout(&self) -> Vec<u8> {
        self.outx.clone().unwrap_or_else(|| Self::pat(self.out, 0))
    }
    pub fn stderr(&self) -> Vec<u8> {
        self.errx.clone().unwrap_or_else(|| Self::pat(self.err, 3))
    }
}

pub fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

pub fn arg_text(a: &Arg) -> String {
    match a {
        Arg::Custom(s) => s.clone(),
        Arg::Output(s) => format!("-o{}", s),
        Arg::Layout(i) | Arg::LayoutFrom(i) => format!("-K{}", LAYOUTS[*i].1),
        Arg::Format(i) | Arg::FormatFrom(i) => format!("-T{}", FORMATS[*i].1),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Custom(String),
    Output(String),
    Layout(usize),
    LayoutFrom(usize),
    Format(usize),
    FormatFrom(usize),
}
pub fn arg_real(a: &Arg) -> CommandArg {
    match a {
        Arg::Custom(s) => CommandArg::Custom(s.clone()),
        Arg::Output(s) => CommandArg::Output(s.clone()),
        Arg::Layout(i) => CommandArg::Layout(LAYOUTS[*i].0),
        Arg::LayoutFrom(i) => LAYOUTS[*i].0.into(),
        Arg::Format(i) => CommandArg::Format(FORMATS[*i].0),
        Arg::FormatFrom(i) => CommandArg::from(FORMATS[*i].0),
    }
}

/// https://graphviz.org/docs/layouts/
pub const LAYOUTS: &[(Layout, &str)] = &[
    (Layout::Dot, "dot"),
    (Layout::Neato, "neato"),
    (Layout::Twopi, "twopi"),
    (Layout::Circo, "circo"),
    (Layout::Fdp, "fdp"),
    (Layout::Asage, "osage"),
    (Layout::Patchwork, "patchwork"),
    (Layout::Sfdp, "sfdp"),
];
/// https://graphviz.org/docs/outputs/
pub const FORMATS: &[(Format, &str)] = &[
    (Format::Bmp, "bmp"),
    (Format::Cgimage, "cgimage"),
    (Format::Canon, "canon"),
    (Format::Dot, "dot"),
    (Format::Gv, "gv"),
    (Format::Xdot, "xdot"),
    (Format::Xdot12, "xdot1.2"),
    (Format::Xdot14, "xdot1.4"),
    (Format::Eps, "eps"),
    (Format::Exr, "exr"),
    (Format::Fig, "fig"),
    (Format::Gd, "gd"),
    (Format::Gd2, "gd2"),
    (Format::Gif, "gif"),
    (Format::Gtk, "gtk"),
    (Format::Ico, "ico"),
    (Format::Cmap, "cmap"),
    (Format::Ismap, "ismap"),
    (Format::Imap, "imap"),
    (Format::Cmapx, "cmapx"),
    (Format::ImapNp, "imap_np"),
    (Format::CmapxNp, "cmapx_np"),
    (Format::Jpg, "jpg"),
    (Format::Jpeg, "jpeg"),
    (Format::Jpe, "jpe"),
    (Format::Jp2, "jp2"),
    (Format::Json, "json"),
    (Format::Json0, "json0"),
    (Format::DotJson, "dot_json"),
    (Format::XdotJson, "xdot_json"),
    (Format::Pdf, "pdf"),
    (Format::Pic, "pic"),
    (Format::Pct, "pct"),
    (Format::Pict, "pict"),
    (Format::Plain, "plain"),
    (Format::PlainExt, "plain-ext"),
    (Format::Png, "png"),
    (Format::Pov, "pov"),
    (Format::Ps, "ps"),
    (Format::Ps2, "ps2"),
    (Format::Psd, "psd"),
    (Format::Sgi, "sgi"),
    (Format::Svg, "svg"),
    (Format::Svgz, "svgz"),
    (Format::Tga, "tga"),
    (Format::Tif, "tif"),
    (Format::Tiff, "tiff"),
    (Format::Tk, "tk"),
    (Format::Vml, "vml"),
    (Format::Vmlz, "vmlz"),
    (Format::Vrml, "vrml"),
    (Format::Vbmp, "wbmp"),
    (Format::Webp, "webp"),
    (Format::Xlib, "xlib"),
    (Format::X11, "x11"),
];

/// Runs the check's worker processes, one per core; each does its share with `shard` set.
pub fn in_shards(run: &Run) {
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let id = run.id.clone();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|k| {
                let mut c = Command::new(&exe)
                    .args([id.as_str(), if run.thorough { "thorough" } else { "quick" }, &k.to_string(), &workers.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap();
                s.spawn(move || {
                    let out = BufReader::new(c.stdout.take().unwrap());
                    for l in out.lines() {
                        let l = l.unwrap_or_default();
                        let p: Vec<&str> = l.split('\t').collect();
                        match p.as_slice() {
                            ["COUNT", k, v] => run.count(k, v.parse().unwrap()),
                            ["SAMPLE", t] => run.sample(crate::cg::unesc(t)),
                            ["V", a, b, c] => run.violation(&crate::cg::unesc(a), &crate::cg::unesc(b), &crate::cg::unesc(c)),
                            _ => println!("{}", l),
                        }
                    }
                    c.wait().unwrap()
                })
            })
            .collect();
        for h in hs {
            let st = h.join().unwrap();
            if !matches!(st.code(), Some(0) | Some(1)) {
                panic!("a worker ended with {:?} / signal {:?}", st, st.signal());
            }
        }
    });
}

/// The same, but the workers get their work from a common stack: each item of work may yield more.
/// The items of the lowest level are worked on first ("level|item"); after the time given, what is
/// left is left out, and said to be.
pub fn with_stack(run: &Run, first: Vec<String>, time: std::time::Duration) {
    use std::io::Write;
    use std::sync::{Condvar, Mutex};
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let start = std::time::Instant::now();
    let add = |m: &mut BTreeMap<u32, Vec<String>>, x: &str| {
        let (level, item) = x.split_once('|').unwrap_or(("0", x));
        m.entry(level.parse().unwrap()).or_default().push(item.to_string());
    };
    let mut items = BTreeMap::new();
    first.iter().rev().for_each(|x| add(&mut items, x));
    // the items, and how many are being worked on
    let stack = Mutex::new((items, 0usize));
    let more = Condvar::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|k| {
                let mut c = Command::new(&exe)
                    .args([run.id.as_str(), if run.thorough { "thorough" } else { "quick" }, &k.to_string(), &workers.to_string()])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap();
                let (stack, more, add) = (&stack, &more, &add);
                s.spawn(move || {
                    let mut input = c.stdin.take();
                    let mut holds = false;
                    let out = BufReader::new(c.stdout.take().unwrap());
                    for l in out.lines() {
                        let l = l.unwrap_or_default();
                        let p: Vec<&str> = l.split('\t').collect();
                        match p.as_slice() {
                            ["COUNT", k, v] => run.count(k, v.parse().unwrap()),
                            ["SAMPLE", t] => run.sample(crate::cg::unesc(t)),
                            ["V", a, b, c] => run.violation(&crate::cg::unesc(a), &crate::cg::unesc(b), &crate::cg::unesc(c)),
                            // done with one item; these are new
                            ["NEXT", rest @ ..] => {
                                let mut st = stack.lock().unwrap();
                                if holds {
                                    st.1 -= 1;
                                    holds = false;
                                }
                                rest.iter().for_each(|x| add(&mut st.0, x));
                                more.notify_all();
                                let item = loop {
                                    if run.stopped() {
                                        break None;
                                    }
                                    if start.elapsed() > time && !st.0.is_empty() {
                                        run.cut.store(true, Relaxed);
                                        run.note("left_out", format!("after {} s: {}", time.as_secs(), st.0.iter().map(|(l, v)| format!("{} of level {}", v.len(), l)).collect::<Vec<_>>().join(", ")));
                                        st.0.clear();
                                    }
                                    if let Some(mut e) = st.0.first_entry() {
                                        let x = e.get_mut().pop().unwrap();
                                        if e.get().is_empty() {
                                            e.remove();
                                        }
                                        st.1 += 1;
                                        holds = true;
                                        break Some(x);
                                    }
                                    if st.1 == 0 {
                                        break None;
                                    }
                                    st = more.wait_timeout(st, std::time::Duration::from_millis(200)).unwrap().0;
                                };
                                drop(st);
                                match item {
                                    Some(x) => {
                                        let _ = writeln!(input.as_mut().unwrap(), "{}", x);
                                    }
                                    None => input = None,
                                }
                            }
                            _ => println!("{}", l),
                        }
                    }
                    if holds {
                        stack.lock().unwrap().1 -= 1;
                    }
                    c.wait().unwrap()
                })
            })
            .collect();
        for h in hs {
            let st = h.join().unwrap();
            if !matches!(st.code(), Some(0) | Some(1)) {
                panic!("a worker ended with {:?} / signal {:?}", st, st.signal());
            }
        }
    });
}

pub enum What<'a> {
    Text(&'a str),
    Graph(&'a Graph, &'a Cfg),
    /// with a context that other calls have used
    With(&'a Graph, &'a Cfg, &'a std::cell::RefCell<graphviz_rust::printer::PrinterContext>),
}

/// One call and the judgement of its outcome.
pub fn one(run: &Run, slot: usize, b: &Bench, n: &AtomicU64, what: &What, args: &[Arg], s: &Script) -> bool {
    n.fetch_add(1, Relaxed);
    b.script(&s.text());
    let desc = format!(
        "{} with arguments {} and a dot that {}",
        match what {
            What::Text(t) => format!("exec_dot({:?})", short(t, 80)),
            What::Graph(g, c) => format!("exec({}, {:?})", short(&crate::refprint::plain(g), 80), c),
            What::With(g, c, _) => format!("exec({}, used {:?})", short(&crate::refprint::plain(g), 80), c),
        },
        short(&format!("{:?}", args), 200),
        short(&format!("{:?}", s), 300)
    );
    let real: Vec<CommandArg> = args.iter().map(arg_real).collect();
    let before = fds();
    let (text, got) = match what {
        What::Text(t) => (t.to_string(), run.call(slot, &desc, || graphviz_rust::exec_dot(t.to_string(), real))),
        What::Graph(g, c) => {
            let text = crate::refprint::graph(g, c).0;
            (text, run.call(slot, &desc, || graphviz_rust::exec((*g).clone(), &mut pr::ctx(c), real)))
        }
        What::With(g, c, x) => {
            let text = crate::refprint::graph(g, c).0;
            (text, run.call(slot, &desc, || graphviz_rust::exec((*g).clone(), &mut x.borrow_mut(), real)))
        }
    };
    let mut bad = vec![];
    match &got {
        Err(p) => bad.push(format!("it panicked: {}", p)),
        Ok(r) => {
            if s.code == 0 && s.sig == 0 {
                match r {
                    Ok(v) if *v == s.stdout() => {}
                    Ok(v) => bad.push(format!("the result has {} bytes {:?}, dot wrote {} bytes", v.len(), short(&String::from_utf8_lossy(v), 80), s.stdout().len())),
                    Err(e) => bad.push(format!("dot succeeded, the result is the error {:?}", short(&e.to_string(), 200))),
                }
            } else {
                match r {
                    Ok(v) => bad.push(format!("dot failed, the result is Ok with {} bytes", v.len())),
                    Err(e) => {
                        let want = String::from_utf8_lossy(&s.stderr()).to_string();
                        let m = e.to_string();
                        if !m.contains(&want) && !m.contains(want.trim()) {
                            bad.push(format!("the error {:?} does not carry what dot wrote to standard error: {:?}", short(&m, 120), short(&want, 120)));
                        }
                        // what dot wrote to standard output is not what it wrote to standard error
                        let other = String::from_utf8_lossy(&s.stdout()).to_string();
                        if other.trim().len() >= 5 && !want.contains(other.trim()) && m.contains(other.trim()) {
                            bad.push(format!("the error {:?} carries what dot wrote to standard output: {:?}", short(&m, 120), short(&other, 120)));
                        }
                    }
                }
            }
        }
    }
    let recs = b.records();
    let want: Vec<String> = args.iter().map(arg_text).collect();
    if recs.len() != 1 {
        bad.push(format!("dot was run {} times", recs.len()));
    }
    for r in &recs {
        if let Err(e) = r.matches(&want, text.as_bytes()) {
            bad.push(e);
        }
        let cwd = std::env::current_dir().unwrap();
        if r.cwd != cwd.as_os_str().as_bytes() {
            bad.push(format!("dot ran in {:?}, not in {:?}", String::from_utf8_lossy(&r.cwd), cwd));
        }
    }
    let left = b.leftovers();
    if !left.is_empty() {
        bad.push(format!("left behind: {:?}", left));
        b.clean();
    }
    let after = fds();
    if after > before {
        bad.push(format!("{} file descriptors before, {} after", before, after));
    }
    let mut st = 0;
    if unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) } != -1 {
        bad.push("a child process is left".into());
    }
    if bad.is_empty() {
        true
    } else {
        run.violation(&format!("{}: {}", short(&desc, 300), short(&bad[0], 60)), &format!("{}: {}", desc, bad.join("; ")), &format!("{}\ntext: {:?}\nscript:\n{}\n{}", desc, short(&text, 2000), s.text(), bad.join("\n")));
        false
    }
}

pub fn texts(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "\n", "graph {}", "graph {}\n", "graph{a--b}", "digraph { a -> b }\r\n", "not dot at all", "\0", "graph { \"a\0b\" }", "\u{feff}graph {}", "é", "日本\n語", "graph { \"😀\" }", "%s %d %n", "$HOME `id` 'x' \"y\"", "a\\nb\\", "-", "--", "\t\t", "\r", "\r\n\r\n", "graph {}graph {}", "graph a { label=<<b>x</b>> }"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let al = ["a", "\n", "é", "\"", " ", "\0", "\r", "{"];
    for a in al {
        for b in al {
            v.push(format!("{}{}", a, b));
            if thorough {
                for c in al {
                    v.push(format!("{}{}{}", a, b, c));
                }
            }
        }
    }
    for n in [1usize, 2, 3, 7, 10, 63, 64, 65, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, 1 << 20, (1 << 20) + 1] {
        v.push((0..n).map(|i| (b'a' + (i * 7 + i / 26) as u8 % 26) as char).collect());
        v.push((0..n).map(|i| if i % 80 == 79 { '\n' } else { 'é' }).collect());
    }
    for n in 0..if thorough { 9000 } else { 1100 } {
        v.push((0..n).map(|i| (b'a' + (i * 5 + i / 26) as u8 % 26) as char).collect());
    }
    for n in [1040, 4050, 8150, 65500] {
        for i in 0..if thorough { 120 } else { 60 } {
            v.push(format!("{}{}", "é\n".repeat((n + i) / 3), &"ab"[..(n + i) % 3]));
        }
    }
    v.push("graph { a }\n".repeat(500_000));
    v.push("x".repeat((17 << 20) + 1));
    if thorough {
        v.push("x".repeat(70 << 20));
        v.push("xyz\n".repeat(1 << 20));
    }
    v
}

pub fn c12(run: &Run) {
    if run.shard.is_none() {
        in_shards(run);
        run.note("bounds", "every text of the list, every argument sequence of length <= 3 over the alphabet and long ones, every exit status, every ending signal, output sizes up to 1 MiB on both streams, histories of <= 3 calls, environments");
        run.assume("the scripted dot stands for dot; it finds its input as a file named by an argument or on standard input");
        return;
    }
    let b = Bench::new(&format!("C12-{}", run.shard.unwrap().0));
    let n = AtomicU64::new(0);
    let ok = Script { out: 20, ..Default::default() };
    let no = Script { code: 3, out: 7, err: 20, ..Default::default() };
    // 1. texts
    let ts = texts(run.thorough);
    run.par(ts.len(), 1, |slot, i| {
        one(run, slot, &b, &n, &What::Text(&ts[i]), &[Arg::Format(42)], &ok);
        one(run, slot, &b, &n, &What::Text(&ts[i]), &[], &Script { code: 1, err: 30, ..Default::default() });
    });
    run.count("texts", if run.shard.unwrap().0 == 0 { ts.len() as u64 } else { 0 });
    // 2. arguments
    let al: Vec<Arg> = vec![
        Arg::Format(42),
        Arg::FormatFrom(35),
        Arg::Layout(1),
        Arg::LayoutFrom(5),
        Arg::Output("o.svg".into()),
        Arg::Output("".into()),
        Arg::Custom("-v".into()),
        Arg::Custom("".into()),
        Arg::Custom("a b".into()),
        Arg::Custom("-Glabel='x y' é\n".into()),
        Arg::Custom("--".into()),
        Arg::Custom("-Nshape=box".into()),
    ];
    let k = al.len();
    let total = 1 + k + k * k + k * k * k;
    run.par(total, 1, |slot, mut i| {
        let mut len = 0;
        let mut size = 1;
        while i >= size {
            i -= size;
            size *= k;
            len += 1;
        }
        let mut a = vec![];
        for _ in 0..len {
            a.push(al[i % k].clone());
            i /= k;
        }
        one(run, slot, &b, &n, &What::Text("graph { a -- b }"), &a, &ok);
    });
    let long: Vec<usize> = (0..=130).chain([255, 256, 257, 1000, 1300]).collect();
    run.par(long.len(), 1, |slot, i| {
        let a: Vec<Arg> = (0..long[i]).map(|j| if j % 3 == 2 { Arg::Custom(format!("-Gx={}", j)) } else { al[j % k].clone() }).collect();
        one(run, slot, &b, &n, &What::Text("graph { a -- b }"), &a, &ok);
        one(run, slot, &b, &n, &What::Text("graph { a -- b }"), &[Arg::Custom(format!("-G{}", "x".repeat(long[i] * 100)))], &ok);
    });
    let six = &al[..run.q(6, 9)];
    run.par(six.len().pow(4), 1, |slot, mut i| {
        let mut a = vec![];
        for _ in 0..4 {
            a.push(six[i % six.len()].clone());
            i /= six.len();
        }
        one(run, slot, &b, &n, &What::Text("graph { a -- b }"), &a, if i % 2 == 0 { &ok } else { &no });
    });
    // 3. every exit status, with and without output on each stream
    run.par(256, 1, |slot, code| {
        for (out, err) in [(0, 0), (10, 0), (0, 10), (10, 10)] {
            one(run, slot, &b, &n, &What::Text("graph { a }"), &[Arg::Format(42)], &Script { code: code as i32, out, err, ..Default::default() });
        }
    });
    // 4. every signal that ends a process
    let sigs: Vec<i32> = (1..=31).filter(|s| ![libc::SIGCHLD, libc::SIGCONT, libc::SIGSTOP, libc::SIGTSTP, libc::SIGTTIN, libc::SIGTTOU, libc::SIGURG, libc::SIGWINCH].contains(s)).chain([34, 40, 64]).collect();
    run.par(sigs.len(), 1, |slot, i| {
        for (out, err) in [(0, 0), (10, 0), (0, 10), (70000, 70000)] {
            one(run, slot, &b, &n, &What::Text("graph { a }"), &[Arg::Format(42)], &Script { sig: sigs[i], out, err, ..Default::default() });
        }
    });
    // 5. output sizes and contents on both streams
    let sizes: Vec<usize> = vec![0, 1, 2, 255, 256, 1000, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 131072, 200_000, 1 << 20];
    let m = sizes.len();
    run.par(m * m, 1, |slot, i| {
        let (out, err) = (sizes[i / m], sizes[i % m]);
        for order in ["oe", "eo", "mix"] {
            one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { out, err, order, ..Default::default() });
            one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { out, err, order, code: 1, ..Default::default() });
        }
    });
    let huge: Vec<usize> = run.q(vec![(2 << 20) + 1, (8 << 20) - 1, (16 << 20) + 1, 40_000_000], vec![(2 << 20) + 1, (8 << 20) - 1, (16 << 20) + 1, (32 << 20) + 1, (64 << 20) + 1, 300_000_000]);
    run.par(huge.len(), 1, |slot, i| {
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { out: huge[i], err: 10, ..Default::default() });
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { err: huge[i].min(20_000_000), out: 10, code: 1, ..Default::default() });
    });
    run.par(run.q(700, 4200), 4, |slot, i| {
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { out: i, err: i / 2, ..Default::default() });
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { out: i / 2, err: i, code: 1, ..Default::default() });
    });
    let mut contents: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
    contents.extend([b"\xff\xfe".to_vec(), b"a\0b".to_vec(), b"\r\n".to_vec(), b"\n\n".to_vec(), b"  x  ".to_vec(), b"line1\nline2\n".to_vec(), "é日😀".as_bytes().to_vec(), b"\xe9".to_vec(), b"\xf0\x9f\x98".to_vec(), b"\xc3".repeat(100), (0..=255).collect(), b"<svg></svg>".to_vec(), b"Error: t: syntax error in line 1 near 'x'\n".to_vec(), b"\x1f\x8b\x08\0".to_vec(), b"\xef\xbb\xbfx".to_vec()]);
    run.par(contents.len(), 1, |slot, i| {
        let c = &contents[i];
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[Arg::Format(36)], &Script { outx: Some(c.clone()), errx: Some(b"warning".to_vec()), ..Default::default() });
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { errx: Some(c.clone()), outx: Some(b"partial".to_vec()), code: 2, ..Default::default() });
        one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { errx: Some(c.clone()), sig: 9, ..Default::default() });
    });
    // what dot says does not change what its exit status means
    let said: Vec<Vec<u8>> = [
        "Error", "Error:", "Error: ", "Error: t: syntax error in line 1 near 'x'\n", "error: x", "ERROR", "Warning: x\n", "Warning: node a, port p unrecognized\n", "syntax error", "fatal", "Fatal error", "panic", "dot: can't open x\n", "Format: \"x\" not recognized. Use one of: png svg\n", "Usage: dot [-Vv?]", "There is no layout engine support for \"x\"\n", "(process:1): Pango-WARNING **: x\n", "fontconfig error", "Segmentation fault", "Killed", "Permission denied", "No such file or directory", "Interrupted system call", "0", "1", "-1", "ok", "null", "\n", " ", "\0",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    run.par(said.len(), 1, |slot, i| {
        for (code, sig) in [(0, 0), (1, 0), (2, 0), (127, 0), (255, 0), (0, 9), (0, 15)] {
            for other in [None, Some(b"<svg/>".to_vec()), Some(said[i].clone())] {
                one(run, slot, &b, &n, &What::Text("graph { a }"), &[Arg::Format(42)], &Script { errx: Some(said[i].clone()), outx: other.clone(), code, sig, ..Default::default() });
                one(run, slot, &b, &n, &What::Text("graph { a }"), &[], &Script { outx: Some(said[i].clone()), errx: other, code, sig, ..Default::default() });
            }
        }
    });
    // 6. timing: dot reads late, ends late, closes its output before it ends
    let times: Vec<Script> = [(0u64, 60u64, false), (60, 0, false), (60, 60, true), (0, 60, true), (0, 150, true)]
        .iter()
        .flat_map(|(delay, mid, early)| [0, 7].iter().map(move |code| Script { delay: *delay, mid: *mid, early: *early, code: *code, out: 10, err: 10, ..Default::default() }))
        .collect();
    run.par(times.len() * 3, 1, |slot, i| {
        let text = ["graph { a }".to_string(), "x".repeat(100_000), String::new()][i % 3].clone();
        one(run, slot, &b, &n, &What::Text(&text), &[Arg::Format(36)], &times[i / 3]);
        one(run, slot, &b, &n, &What::Text(&text), &[Arg::Format(36)], &Script { sig: 9, code: 0, ..times[i / 3].clone() });
    });
    // 7. exec: the text is the graph printed with the given context
    let sh = shapes::shapes(run.q(2, 3));
    let cfgs = pr::small_grid();
    let lists: Vec<&Vec<Stmt>> = sh.lists.iter().flatten().collect();
    run.par(lists.len(), 1, |slot, i| {
        for kind in 0..run.q(1, 4) {
            let g = shapes::graph(i + kind, if i % 2 == 0 { Names::Unique } else { Names::Rotate(i) }, lists[i]);
            let mut c = cfgs[(i + kind) % cfgs.len()].clone();
            if i % 3 == 0 {
                c.vals = vec![(Id::Plain("v1".into()), 0)];
            }
            one(run, slot, &b, &n, &What::Graph(&g, &c), &[Arg::Format(i % FORMATS.len())], &ok);
        }
    });
    // every kind of graph with every context, the empty graph included
    let few: Vec<&Vec<Stmt>> = sh.lists[0].iter().chain(sh.lists[1].iter().step_by(run.q(5, 1))).chain(sh.lists[2].iter().step_by(run.q(300, 40))).collect();
    let mut all = pr::grid(&["\n", "", "\r\n"], &[2, 5], &[90, 0]);
    all.extend(cfgs.iter().cloned());
    all.push(Cfg { vals: vec![(Id::Plain("v1".into()), 0), (Id::Plain("v2".into()), 1)], ..Cfg::default() });
    run.par(few.len() * shapes::KINDS, 1, |slot, i| {
        let g = shapes::graph(i % shapes::KINDS, Names::Unique, few[i / shapes::KINDS]);
        for (k, c) in all.iter().enumerate() {
            let args = [vec![], vec![Arg::Format(42)], vec![Arg::Layout(3), Arg::Custom("-v".into())]][k % 3].clone();
            one(run, slot, &b, &n, &What::Graph(&g, c), &args, if k % 5 == 4 { &no } else { &ok });
        }
    });
    // the same context for several calls, some of which fail
    run.par(all.len() * 3, 1, |slot, i| {
        let c = &all[i / 3];
        let x = std::cell::RefCell::new(pr::ctx(c));
        for (k, l) in few.iter().chain(&few).enumerate().skip(i % 3).step_by(3) {
            let g = shapes::graph(k + i, if k % 2 == 0 { Names::Unique } else { Names::Rotate(k) }, l);
            if !one(run, slot, &b, &n, &What::With(&g, c, &x), &[Arg::Format(42)], if k % 4 == 3 { &no } else { &ok }) {
                return;
            }
        }
    });
    let big: Vec<usize> = vec![100, 300, 1000, 5000];
    run.par(big.len(), 1, |slot, i| {
        let l: Vec<Stmt> = (0..big[i]).map(|j| Stmt::Node(shapes::nodev(NodeId(Id::Plain(format!("node_with_a_long_name_{}", j)), None), vec![]))).collect();
        let g = shapes::mk(i, Id::Plain("big".into()), l);
        one(run, slot, &b, &n, &What::Graph(&g, &Cfg::default()), &[Arg::Layout(3), Arg::Output("x".into())], &ok);
    });
    // 8. histories of calls with different outcomes
    let outcomes: Vec<(&str, Vec<Arg>, Script)> = vec![
        ("graph { one }", vec![Arg::Format(42)], Script { out: 100, ..Default::default() }),
        ("digraph { two }", vec![Arg::Layout(2), Arg::Custom("-v".into())], Script { err: 100, code: 1, ..Default::default() }),
        ("three", vec![], Script { sig: 6, out: 10, ..Default::default() }),
        ("", vec![Arg::Output("f".into())], Script { out: 100_000, err: 100_000, order: "mix", ..Default::default() }),
        ("graph { one }", vec![Arg::Format(42)], Script { err: 5, ..Default::default() }),
    ];
    let o = outcomes.len();
    let d = run.q(3, 4);
    run.par(o.pow(d), 1, |slot, mut i| {
        for _ in 0..d {
            let (t, a, s) = &outcomes[i % o];
            i /= o;
            if !one(run, slot, &b, &n, &What::Text(t), a, s) {
                return;
            }
        }
    });
    run.par(1, 1, |slot, _| {
        for i in 0..run.q(300, 3000) {
            let (t, a, s) = &outcomes[i % o];
            if !one(run, slot, &b, &n, &What::Text(t), a, s) {
                return;
            }
        }
    });
    // 9. environments
    run.par(8, 1, |slot, i| environment(run, slot, &b, &n, i));
    let n = n.load(Relaxed);
    run.count("executions", n);
    run.count("states", n);
    run.count("transitions", n);
    run.count("traces_validated_against_impl", n);
    run.sample(format!("exec_dot({:?}) with {:?}, dot: {:?}", "graph { a -- b }", al, times[3]));
}

fn environment(run: &Run, slot: usize, b: &Bench, n: &AtomicU64, i: usize) {
    let ok = Script { out: 20, ..Default::default() };
    let args = [Arg::Format(42), Arg::Output("o".into())];
    let text = What::Text("graph { e }");
    let tmp = PathBuf::from(format!("{}/tmp", b.dir));
    // directories for temporary files with unusual names; they are made inside tmp and removed
    let odd: Vec<std::ffi::OsString> = vec!["a b".into(), "-x".into(), "é日".into(), std::ffi::OsString::from_vec(b"n\xff\xfe".to_vec()), "q'\"$".into(), "x\ny".into(), "%s".into(), "*".into()];
    if let Some(o) = odd.get(i) {
        let d = PathBuf::from(format!("{}/", b.dir)).join("odd").join(o);
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_var("TMPDIR", &d);
        one(run, slot, b, n, &text, &args, &ok);
        one(run, slot, b, n, &text, &[], &Script { code: 1, err: 10, ..Default::default() });
        let left: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).collect();
        if !left.is_empty() {
            run.violation(&format!("left in {:?}", o), &format!("with the temporary directory {:?} a file is left behind: {:?}", d, left), &format!("{:?}", d));
        }
        // a relative path
        std::env::set_current_dir(d.parent().unwrap()).unwrap();
        std::env::set_var("TMPDIR", o);
        one(run, slot, b, n, &text, &args, &ok);
        let left: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).collect();
        if !left.is_empty() {
            run.violation(&format!("left in relative {:?}", o), &format!("with the relative temporary directory {:?} a file is left behind: {:?}", o, left), &format!("{:?}", d));
        }
        b.env();
        std::fs::remove_dir_all(&d).unwrap();
    }
    // calls that cannot start dot, or cannot have a temporary file: an error, nothing run, nothing left
    let fail = |what: &str| {
        n.fetch_add(1, Relaxed);
        b.script(&ok.text());
        let before = fds();
        let r = run.call(slot, what, || graphviz_rust::exec_dot("graph { e }".into(), vec![CommandArg::Custom("-v".into())]));
        let mut bad = vec![];
        match r {
            Err(p) => bad.push(format!("it panicked: {}", p)),
            Ok(Ok(_)) => bad.push("it succeeded".into()),
            Ok(Err(_)) => {}
        }
        if !b.records().is_empty() {
            bad.push("dot was run".into());
        }
        if !b.leftovers().is_empty() {
            bad.push(format!("left behind: {:?}", b.leftovers()));
            b.clean();
        }
        if fds() > before {
            bad.push("file descriptors are left open".into());
        }
        if !bad.is_empty() {
            run.violation(what, &format!("{}: {}", what, bad.join("; ")), what);
        }
    };
    match i {
        0 => {
            std::env::set_var("PATH", format!("{}/nowhere", b.dir));
            fail("exec_dot with no dot in PATH");
        }
        1 => {
            std::env::set_var("PATH", format!("{}/noexec", b.dir));
            std::fs::create_dir_all(format!("{}/noexec/dot", b.dir)).unwrap();
            fail("exec_dot with a directory named dot in PATH");
        }
        2 => {
            std::fs::create_dir_all(format!("{}/plainfile", b.dir)).unwrap();
            std::fs::write(format!("{}/plainfile/dot", b.dir), "text").unwrap();
            std::env::set_var("PATH", format!("{}/plainfile", b.dir));
            fail("exec_dot with a dot that is not executable");
        }
        3 => {
            std::env::set_var("TMPDIR", format!("{}/nowhere", b.dir));
            fail("exec_dot with a temporary directory that does not exist");
        }
        4 => {
            std::fs::write(format!("{}/afile", b.dir), "text").unwrap();
            std::env::set_var("TMPDIR", format!("{}/afile", b.dir));
            fail("exec_dot with a file as temporary directory");
        }
        5 => {
            std::env::set_var("PATH", format!("{}/nowhere:{}/bin", b.dir, b.dir));
            one(run, slot, b, n, &text, &args, &ok);
            std::env::set_var("PATH", format!(":{}/bin:", b.dir));
            one(run, slot, b, n, &text, &args, &ok);
            // a file called dot in the working directory is not what PATH names
            std::env::set_var("PATH", format!("{}/bin", b.dir));
            std::env::set_current_dir(&tmp).unwrap();
        }
        6 => {
            // standard input, output and error of the caller are not dot's
            one(run, slot, b, n, &text, &args, &Script { out: 100, err: 100, ..Default::default() });
        }
        _ => {
            // arguments that contain NUL cannot be passed
            b.script(&ok.text());
            let r = run.call(slot, "NUL in an argument", || graphviz_rust::exec_dot("graph {}".into(), vec![CommandArg::Custom("a\0b".into())]));
            if !matches!(r, Ok(Err(_))) || !b.leftovers().is_empty() || !b.records().is_empty() {
                run.violation("NUL in an argument", &format!("an argument with a NUL: {:?}, left {:?}", r.map(|r| r.is_ok()), b.leftovers()), "a\\0b");
            }
        }
    }
    b.env();
}

// ---------------------------------------------------------------------------------------------

pub fn c15(run: &Run) {
    if run.shard.is_none() {
        in_shards(run);
        run.note("bounds", format!("all {} layouts and {} formats in three spellings, every pair of arguments, all triples over a smaller alphabet; argv as the executed dot sees it", LAYOUTS.len(), FORMATS.len()));
        run.assume("the tables of names are those of https://graphviz.org/docs/layouts/ and https://graphviz.org/docs/outputs/");
        return;
    }
    let b = Bench::new(&format!("C15-{}", run.shard.unwrap().0));
    let n = AtomicU64::new(0);
    let ok = Script { out: 5, ..Default::default() };
    let mut single: Vec<Arg> = vec![];
    for i in 0..LAYOUTS.len() {
        single.extend([Arg::Layout(i), Arg::LayoutFrom(i)]);
    }
    for i in 0..FORMATS.len() {
        single.extend([Arg::Format(i), Arg::FormatFrom(i)]);
    }
    let strings = [
        "", "a", "1.svg", "dir/1.svg", "/abs/x.png", "./x", "../x", "a b", " ", "  lead", "trail ", "é", "日本.svg", "-", "-o", "--", "-x", "'", "\"", "\"q\"", "$HOME", "~", "~/x", "*", "?", "[a]", "{a,b}", "a;b", "a|b", "a&b", "a>b", "a<b", "`id`", "\\", "a\\b", "a\\", "C:\\x", "\n", "a\nb", "\t", "\r", "%s", "%", "#", "!", "=", "a=b", ":", "@file", "-Tsvg", "-Kdot", "-oout", "x.SVG", "UPPER", "ñ", "a\u{301}", "\u{feff}", "\u{1}", "...", ".", "..", "/", "//", "a//b", "a/", "/tmp/", "-Gx=y", "-n2", "-v", "-V", "-?", "svg", "dot", "Svg", "-tsvg", "plain-ext", "xdot1.2",
    ];
    for s in strings {
        single.extend([Arg::Custom(s.into()), Arg::Output(s.into())]);
    }
    for k in [100usize, 255, 256, 1000, 4096, 10000] {
        single.extend([Arg::Custom("c".repeat(k)), Arg::Output("é".repeat(k))]);
    }
    const TEXT: &str = "graph { a }";
    run.par(single.len(), 1, |slot, i| {
        one(run, slot, &b, &n, &What::Text(TEXT), &[single[i].clone()], &ok);
        one(run, slot, &b, &n, &What::Text(TEXT), &[single[i].clone(), single[i].clone()], &ok);
        one(run, slot, &b, &n, &What::Text(TEXT), &[Arg::Layout(0), single[i].clone(), Arg::Format(42)], &ok);
        let g = shapes::graph(i, Names::Unique, &[]);
        one(run, slot, &b, &n, &What::Graph(&g, &Cfg::default()), &[single[i].clone()], &ok);
    });
    // all pairs (not of two long strings)
    let pool: Vec<Arg> = single.iter().filter(|a| !matches!(a, Arg::Custom(s) | Arg::Output(s) if s.len() > 90)).cloned().collect();
    let pool: Vec<Arg> = if run.thorough { pool } else { pool.into_iter().enumerate().filter(|(i, a)| matches!(a, Arg::Layout(_) | Arg::Format(_)) || i % 9 == 0).map(|x| x.1).collect() };
    run.par(pool.len() * pool.len(), 8, |slot, i| {
        one(run, slot, &b, &n, &What::Text(TEXT), &[pool[i / pool.len()].clone(), pool[i % pool.len()].clone()], &ok);
    });
    // all sequences of a small alphabet
    let al = [Arg::Layout(1), Arg::LayoutFrom(5), Arg::Format(42), Arg::FormatFrom(51), Arg::Output("o".into()), Arg::Custom("-x".into())];
    let d = run.q(4, 5);
    run.par(al.len().pow(d), 8, |slot, mut i| {
        let mut a = vec![];
        for _ in 0..d {
            a.push(al[i % al.len()].clone());
            i /= al.len();
        }
        one(run, slot, &b, &n, &What::Text(TEXT), &a, &ok);
    });
    let n = n.load(Relaxed);
    run.count("states", n);
    run.count("transitions", n);
    run.count("traces_validated_against_impl", n);
    if run.shard.unwrap().0 == 0 {
        run.count("argument_values", single.len() as u64);
        run.count("pairs_alphabet", pool.len() as u64);
        run.sample(format!("{:?} -> {:?}", al, al.iter().map(arg_text).collect::<Vec<_>>()));
    }
}
