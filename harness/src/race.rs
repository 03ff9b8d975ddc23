//! C06: two threads that parse at the same time, one of them stopped before any of its instructions
//! that touch memory the other one can see.
use crate::insn::Layout;
use crate::pcheck2::{outcome, rm_scratch, scratch};
use crate::run::*;
use crate::trace::*;
use std::collections::HashSet;

struct Scene {
    name: &'static str,
    /// parsed on the main thread before
    before: &'static [&'static str],
    /// the documents of the two threads
    docs: [Vec<&'static str>; 2],
}
const NAMED: &str = "digraph g{a->b[k=v]}";
const ANON: &str = "graph{{a}subgraph{b}}";
const BROKEN: &str = "graph{a--{";

fn scenes(thorough: bool) -> Vec<Scene> {
    let s = |name, before, a: &[&'static str], b: &[&'static str]| Scene { name, before, docs: [a.to_vec(), b.to_vec()] };
    let mut v = vec![
        s("the same anonymous graph", &[][..], &["graph{}"], &["graph{}"]),
        s("the same anonymous graph, parsed before", &["graph{}"], &["graph{}"], &["graph{}"]),
        s("anonymous subgraphs", &[], &[ANON], &["digraph{a->{}}"]),
        s("anonymous subgraphs, parsed before", &[ANON, BROKEN], &["digraph{a->{}}"], &[ANON]),
        s("a broken and an anonymous graph", &[], &[BROKEN], &["graph{}"]),
        s("an anonymous and a broken graph", &[], &["graph{}"], &[BROKEN]),
        s("the same named graph", &[], &[NAMED], &[NAMED]),
        s("two graphs of the same shape", &[], &[NAMED], &["digraph g{a->c[k=w]}"]),
        s("anonymous graphs after each other and beside", &[], &["graph{}", "graph{}"], &["graph{}", "graph{}"]),
    ];
    if thorough {
        v.extend([
            s("anonymous subgraphs after a broken graph", &[BROKEN], &[BROKEN, ANON], &[ANON, BROKEN]),
            s("two broken graphs", &[], &[BROKEN], &["graph {"]),
            s("a named graph again and an anonymous one", &[NAMED], &[NAMED, "graph{}"], &["graph{}", NAMED]),
        ]);
    }
    v
}

/// Where the threads are stopped: thread 0 before its n-th instruction that touches shared memory,
/// thread 1 then runs to its end, or before its m-th such instruction, thread 0 ends, thread 1 ends.
struct Done {
    touches: [usize; 2],
    steps: u64,
    stops: Vec<String>,
    out: [Option<Outcome>; 2],
    bad: Option<String>,
}

fn execute(sc: &Scene, layout: &Layout, sh: &Shared, g: &Guard, at: [Option<usize>; 2]) -> Done {
    sh.clear();
    let pid = fork_traced(|| {
        only(&[libc::SYS_getpgid]);
        for d in sc.before {
            let _ = graphviz_rust::parse(d);
        }
        std::thread::scope(|s| {
            for (k, docs) in sc.docs.iter().enumerate() {
                s.spawn(move || {
                    mark(k as i64);
                    let all: Vec<_> = docs.iter().map(|d| outcome(d)).collect();
                    mark(8 + k as i64);
                    let mut text = String::new();
                    for (o, ids) in all {
                        text += &o;
                        for i in ids {
                            text += "\u{1}";
                            text += &i;
                        }
                        text += "\u{2}";
                    }
                    sh.put(k, &Outcome::Ok(text.into_bytes()), (0, 0));
                });
            }
        });
    });
    g.arm(pid, 20_000);
    let mut d = Done { touches: [0; 2], steps: 0, stops: vec![], out: [None, None], bad: None };
    let mut tid = [0i32; 2];
    let mut ended = [false; 2];
    // which thread goes step by step, and which are held back
    let mut slow: Option<usize> = None;
    let mut held = [false; 2];
    // 0 both wait for their start, 1 thread 0 goes, 2 thread 1 goes, 3 thread 0 ends, 4 all run
    let mut phase = 0;
    macro_rules! run_thread {
        ($k:expr, $slow:expr) => {{
            held[$k] = false;
            if $slow {
                slow = Some($k);
                step(tid[$k], 0);
            } else {
                if slow == Some($k) {
                    slow = None;
                }
                cont(tid[$k], 0);
            }
        }};
    }
    cont(pid, 0);
    loop {
        // a thread that goes while the other one is held may wait for it
        let alone = (phase == 2 || phase == 3 || phase == 1) && slow.is_none();
        let mut st = 0;
        let p = unsafe { libc::waitpid(-1, &mut st, libc::__WALL | if alone { libc::WNOHANG } else { 0 }) };
        if p < 0 {
            break;
        }
        if p == 0 {
            let k = if phase == 2 { 1 } else { 0 };
            if !ended[k] && asleep(tid[k]) && held[1 - k] {
                let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
                let r = unsafe { libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WSTOPPED | libc::WNOHANG | libc::WNOWAIT | libc::__WALL) };
                if r == 0 && unsafe { info.si_pid() } == 0 {
                    d.stops.push(format!("thread {} waits", k));
                    phase = 4;
                    run_thread!(1 - k, false);
                }
            }
            std::thread::yield_now();
            continue;
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if p == pid {
                if libc::WIFSIGNALED(st) && d.bad.is_none() {
                    d.bad = Some(format!("the process died with signal {}", libc::WTERMSIG(st)));
                }
                break;
            }
            continue;
        }
        let who = tid.iter().position(|t| *t == p);
        let (sig, event) = (libc::WSTOPSIG(st), st >> 16);
        if event == libc::PTRACE_EVENT_SECCOMP {
            let Some(r) = regs(p) else { continue };
            let m = r.rdi as i64 - MARK;
            if (0..2).contains(&m) {
                tid[m as usize] = p;
                held[m as usize] = true;
                if tid.iter().all(|t| *t != 0) && held.iter().all(|h| *h) && phase == 0 {
                    phase = 1;
                    run_thread!(0, at[0].is_some());
                }
                continue;
            }
            if (8..10).contains(&m) {
                let k = m as usize - 8;
                ended[k] = true;
                if slow == Some(k) {
                    slow = None;
                }
                cont(p, 0);
                if held[1 - k] {
                    // the other one goes on
                    if phase == 1 {
                        phase = 2;
                        run_thread!(1, at[1].is_some());
                    } else {
                        phase = 4;
                        run_thread!(1 - k, false);
                    }
                }
                continue;
            }
            cont(p, 0);
            continue;
        }
        if event == 0 && sig == libc::SIGTRAP && who.is_some() && slow == who {
            let k = who.unwrap();
            let Some(r) = regs(p) else { continue };
            d.steps += 1;
            if layout.shared(&r) {
                if at[k] == Some(d.touches[k]) {
                    d.stops.push(format!("thread {} stops before +{:x}", k, r.rip - layout.base()));
                    held[k] = true;
                    slow = None;
                    if k == 0 {
                        phase = 2;
                        run_thread!(1, at[1].is_some());
                    } else {
                        phase = 3;
                        if held[0] {
                            run_thread!(0, false);
                        } else {
                            phase = 4;
                            run_thread!(1, false);
                        }
                    }
                    continue;
                }
                d.touches[k] += 1;
            }
            step(p, 0);
            continue;
        }
        // events of other kinds, and signals
        let s = if event != 0 || sig == libc::SIGSTOP || sig == libc::SIGTRAP { 0 } else { sig };
        if who.is_some() && slow == who {
            step(p, s)
        } else {
            cont(p, s)
        }
    }
    if g.disarm() {
        d.bad = Some("the calls do not return".into());
    }
    unsafe {
        libc::kill(-pid, libc::SIGKILL);
        let mut st = 0;
        while libc::waitpid(-1, &mut st, libc::__WALL) > 0 {}
    }
    for k in 0..2 {
        d.out[k] = sh.get(k).map(|x| x.0);
    }
    d
}

fn judge(sc: &Scene, want: &dyn Fn(&str) -> String, d: &Done) -> Option<String> {
    if d.bad.is_some() {
        return d.bad.clone();
    }
    let mut ids = HashSet::new();
    for k in 0..2 {
        let Some(Outcome::Ok(b)) = &d.out[k] else { return Some(format!("thread {} gave nothing", k)) };
        let t = String::from_utf8_lossy(b).to_string();
        let parts: Vec<&str> = t.split_terminator('\u{2}').collect();
        if parts.len() != sc.docs[k].len() {
            return Some(format!("thread {} gave {} outcomes", k, parts.len()));
        }
        for (p, doc) in parts.iter().zip(&sc.docs[k]) {
            let mut f = p.split('\u{1}');
            let o = f.next().unwrap();
            if o != want(doc) {
                return Some(format!("thread {} parsed {:?} and got {} instead of {}", k, doc, short(o, 200), short(&want(doc), 200)));
            }
            for id in f {
                if !ids.insert(id.to_string()) {
                    return Some(format!("anonymous id {:?} given twice", id));
                }
            }
        }
    }
    None
}

/// One worker process; items are "scene" or "scene:n" or "scene:n:m".
pub fn shard(run: &Run) {
    unsafe {
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    }
    let sh = Shared::new();
    let g = Guard::new();
    let layout = Layout::new();
    let all = scenes(run.thorough);
    let dir = scratch(&format!("c06-{}", run.shard.unwrap().0));
    // what each document gives alone, in a process of its own: nothing is parsed in this one
    let mut known: std::collections::HashMap<String, String> = Default::default();
    for sc in &all {
        for d in sc.docs.iter().flatten() {
            if !known.contains_key(*d) {
                let p = format!("{}/doc", dir);
                std::fs::write(&p, d).unwrap();
                let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["one", &p]).output().unwrap();
                known.insert(d.to_string(), String::from_utf8_lossy(&o.stdout).to_string());
            }
        }
    }
    rm_scratch(&dir);
    let want = |d: &str| known[d].clone();
    let (mut runs, mut steps) = (0u64, 0u64);
    let mut new: Vec<String> = vec![];
    loop {
        println!("NEXT{}", new.iter().map(|x| format!("\t{}", x)).collect::<String>());
        new.clear();
        let mut l = String::new();
        if std::io::stdin().read_line(&mut l).unwrap_or(0) == 0 {
            break;
        }
        let f: Vec<usize> = l.trim().split(':').map(|x| x.parse().unwrap()).collect();
        let sc = &all[f[0]];
        let end = Some(usize::MAX);
        let at = match f.len() {
            1 => [end, end],
            2 => [Some(f[1]), None],
            _ => [Some(f[1]), Some(f[2])],
        };
        let d = execute(sc, &layout, &sh, g, at);
        runs += 1;
        steps += d.steps;
        if let Some(b) = judge(sc, &want, &d) {
            run.violation(
                &format!("race|{}|{}", sc.name, short(&b, 80)),
                &format!("two threads, {}: {}", sc.name, b),
                &format!("{}\nbefore: {:?}\nthread 0: {:?}\nthread 1: {:?}\n{}\n{}\n", sc.name, sc.before, sc.docs[0], sc.docs[1], d.stops.join("\n"), b),
            );
            continue;
        }
        if f.len() == 1 {
            run.count("instructions_touching_shared_memory", (d.touches[0] + d.touches[1]) as u64);
            // code that touches shared memory very often is explored with one preemption only
            let two = d.touches[0] as u64 * d.touches[1] as u64 <= 3000;
            if !two {
                run.count("scenes_with_one_preemption", 1);
            }
            for i in 0..d.touches[0].min(3000) {
                new.push(format!("{}:{}", f[0], i));
                for j in 0..if two { d.touches[1] } else { 0 } {
                    new.push(format!("{}:{}:{}", f[0], i, j));
                }
            }
        } else if f[1] == 3 && f.len() == 2 {
            println!("SAMPLE\t{}", crate::cg::esc(&format!("two threads, {}: {}", sc.name, d.stops.join("; "))));
        }
    }
    run.count("schedules", runs);
    run.count("single_steps", steps);
    run.count("states", runs);
    run.count("transitions", runs);
    run.count("traces_validated_against_impl", runs);
}

pub fn all(run: &Run) {
    let l: Vec<String> = (0..scenes(run.thorough).len()).map(|i| i.to_string()).collect();
    crate::exec::with_stack(run, l, std::time::Duration::from_secs(run.q(500, 4 * 3600)));
}
