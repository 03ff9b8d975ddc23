//! C14: executions on several threads, under every order of their system-level steps.
//! The threads and their dot processes run under a tracer that stops each of them before every
//! step that others could notice, and decides who goes on.
use crate::exec::*;
use crate::insn::Layout;
use crate::refprint::{self, Cfg};
use crate::run::*;
use crate::trace::*;
use crate::{pr, shapes};
use dot_structures::Graph;
use graphviz_rust::cmd::CommandArg;
use std::collections::{BTreeMap, HashSet};

struct Call {
    text: String,
    graph: Option<(Graph, Cfg)>,
    args: Vec<Arg>,
}
struct Scene {
    name: &'static str,
    /// the calls of each thread
    threads: Vec<Vec<Call>>,
    script: String,
    /// scheduling points: 0 the steps that touch files and processes, 1 also the reading of dot,
    /// 2 every system call of the threads
    grain: u8,
    /// how often a call may be interrupted although it could go on
    bound: usize,
    /// thread 0 is also interrupted between instructions
    micro: bool,
    /// a thread's start is a scheduling point, too: what it looks at before its first system call
    /// may have been changed by the others
    start: bool,
}

fn scenes(thorough: bool) -> Vec<Scene> {
    let script = "echo=1\nechoerr=1\nfailif=FAIL\n";
    let c = |t: &str, a: &[&str]| Call { text: t.into(), graph: None, args: a.iter().map(|x| Arg::Custom(x.to_string())).collect() };
    let g = shapes::graph(1, shapes::Names::Unique, &shapes::sized(2)[3]);
    let cg = |a: &str| Call { text: refprint::graph(&g, &Cfg::default()).0, graph: Some((g.clone(), Cfg::default())), args: vec![Arg::Format(42), Arg::Custom(a.into())] };
    let s = |name, threads, grain, bound| Scene { name, threads, script: script.into(), grain, bound, micro: false, start: false };
    let all = usize::MAX;
    let q = |a: usize, b: usize| if thorough { b } else { a };
    let st = |s: Scene| Scene { start: true, ..s };
    let same = || vec![vec![c("graph { a }", &["-k0"])], vec![c("graph { a }", &["-k1"])]];
    let two = || vec![vec![c("graph { a }", &["-k0"])], vec![c("digraph { b -> c }", &["-k1", "-x"])]];
    let fail = || vec![vec![c("graph { FAIL a }", &["-k0"])], vec![c("graph { b }", &["-k1"])]];
    let mut v = vec![
        s("two texts", two(), 0, all),
        s("the same text", same(), 0, all),
        st(s("the same text, from the start", same(), 0, q(3, all))),
        st(s("the same call twice, from the start", vec![vec![c("graph { a }", &["-k"])], vec![c("graph { a }", &["-k"])]], 0, q(2, all))),
        st(s("one fails, from the start", fail(), 0, q(2, all))),
        st(s("the same text again and beside, from the start", vec![vec![c("graph { a }", &["-k0"]), c("graph { a }", &["-k2"])], vec![c("graph { a }", &["-k1"])]], 0, q(1, 3))),
        s("texts of the same length, the same arguments", vec![vec![c("graph { a }", &["-k"])], vec![c("graph { b }", &["-k"])]], 0, all),
        s("one fails", fail(), 0, all),
        s("one fails, every system call", fail(), 2, q(2, 3)),
        s("two calls after each other and one beside them", vec![vec![c("graph { a }", &["-k0"]), c("graph { c }", &["-k2"])], vec![c("graph { FAIL b }", &["-k1"])]], 0, q(2, 4)),
        s("three calls", vec![vec![c("graph { a }", &["-k0"])], vec![c("graph { b }", &["-k1"])], vec![c("graph { FAIL c }", &["-k2"])]], 0, q(0, 1)),
    ];
    if thorough {
        v.extend([
            s("both fail", vec![vec![c("graph { FAIL a }", &["-k0"])], vec![c("graph { FAIL b }", &["-k1"])]], 0, all),
            s("a graph and a text", vec![vec![cg("-k0")], vec![c("graph { b }", &["-k1"])]], 0, all),
            s("two texts, every step of dot", two(), 1, all),
            s("one fails, every step of dot", fail(), 1, all),
            s("two texts, every system call", two(), 2, 2),
            s("two calls after each other, the first failing", vec![vec![c("graph { FAIL a }", &["-k0"]), c("graph { c }", &["-k2"])], vec![c("graph { b }", &["-k1"])]], 0, 3),
            s("two threads with two calls each", vec![vec![c("graph { a }", &["-k0"]), c("graph { FAIL b }", &["-k1"])], vec![c("graph { c }", &["-k2"]), c("graph { d }", &["-k3"])]], 0, 2),
            s("three calls with a graph", vec![vec![c("graph { a }", &["-k0"])], vec![c("graph { b }", &["-k1"])], vec![cg("-k2")]], 0, 1),
        ]);
    }
    let mut m = s("one fails, the first interrupted between instructions", fail(), 0, q(1, 2));
    m.micro = true;
    v.push(m);
    let mut m = s("the same text, the first interrupted between instructions", same(), 0, q(1, 2));
    m.micro = true;
    v.push(m);
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Role {
    Main,
    /// a thread with calls, or a thread or process it started
    Caller(usize),
    /// a started process that does not execute dot yet
    Child(usize),
    Dot(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Running,
    /// before a step, which is a choice of the scheduler
    Ready,
    /// about to sleep for some time
    Sleepy,
}
struct Task {
    role: Role,
    st: St,
    what: String,
    may_wait: bool,
    naps: usize,
}

/// What one execution shows.
struct Done {
    /// how many could go on at each step, and which was chosen
    /// ... how often a call was interrupted before, and whether another choice interrupts one
    steps: Vec<(usize, usize, usize, bool)>,
    trace: Vec<String>,
    events: u64,
    bad: Vec<String>,
    out: Vec<Option<(Outcome, (usize, usize))>>,
    /// instructions of thread 0 that touch shared memory
    touches: usize,
    instructions: u64,
}

/// Thread 0 goes instruction by instruction up to the one with this number among those that touch
/// shared memory (or to its end), then the others start.
#[derive(Clone, Copy)]
struct Micro<'a> {
    at: usize,
    layout: &'a Layout,
}

fn of_system(p: &str) -> bool {
    ["/dev/", "/proc/", "/sys/", "/lib", "/usr/", "/etc/"].iter().any(|x| p.starts_with(x))
}

/// Is the call that `pid` is about to make a step that others could notice?
fn point(pid: i32, role: Role, nr: i64, a: &[u64; 6], grain: u8) -> Option<String> {
    use libc::*;
    let path = |i: usize| string_at(pid, a[i]);
    let name = || names(nr);
    if let Role::Dot(_) = role {
        // the stand-in says what it is about to do
        return match (nr == SYS_getpgid).then(|| a[0] as i64 - MARK) {
            Some(9) => Some("opens its input".into()),
            Some(10) => (grain > 0).then(|| "reads its input".into()),
            Some(11) => Some("writes".into()),
            Some(12) => Some("exits".into()),
            _ => None,
        };
    }
    let p = match nr {
        SYS_open | SYS_creat | SYS_stat | SYS_lstat | SYS_access | SYS_unlink | SYS_rename | SYS_mkdir | SYS_rmdir | SYS_link | SYS_symlink | SYS_chmod | SYS_truncate | SYS_readlink | SYS_chdir => Some(path(0)),
        SYS_openat | SYS_statx | SYS_newfstatat | SYS_faccessat | SYS_faccessat2 | SYS_unlinkat | SYS_renameat | SYS_renameat2 | SYS_mkdirat | SYS_linkat | SYS_fchmodat | SYS_readlinkat => Some(path(1)),
        SYS_symlinkat => Some(path(2)),
        _ => None,
    };
    if let Some(p) = p {
        return if !of_system(&p) && !p.is_empty() || grain == 2 { Some(format!("{} {}", name(), p)) } else { None };
    }
    let file = |fd: u64| {
        let l = fd_link(pid, fd);
        l.starts_with('/') && !of_system(&l)
    };
    let yes = match nr {
        SYS_write | SYS_pwrite64 | SYS_writev | SYS_read | SYS_pread64 | SYS_readv | SYS_ftruncate | SYS_fchmod => file(a[0]) || grain == 2 && matches!(nr, SYS_write | SYS_writev),
        SYS_sendfile | SYS_copy_file_range | SYS_splice => true,
        SYS_flock | SYS_kill | SYS_tgkill | SYS_fchdir | SYS_getcwd | SYS_umask => true,
        SYS_clone | SYS_clone3 | SYS_fork | SYS_vfork => true,
        SYS_pipe | SYS_socketpair | SYS_dup | SYS_dup2 => true,
        SYS_pipe2 => a[1] as i32 & O_CLOEXEC == 0 || grain == 2,
        SYS_dup3 => a[2] as i32 & O_CLOEXEC == 0,
        SYS_fcntl => matches!(a[1] as i32, F_SETFD | F_SETLK | F_SETLKW | F_OFD_SETLK | F_OFD_SETLKW | F_DUPFD),
        SYS_wait4 => a[0] as i32 <= 0 || grain == 2,
        SYS_waitid => a[0] as i32 != P_PID as i32 && a[0] as i32 != 3,
        SYS_rt_sigaction => true,
        SYS_close => grain == 2,
        _ => false,
    };
    yes.then(name)
}

/// May a task wait for another one in this call?
fn may_wait(pid: i32, nr: i64, a: &[u64; 6]) -> bool {
    use libc::*;
    match nr {
        SYS_read | SYS_write | SYS_readv | SYS_writev => !fd_link(pid, a[0]).starts_with('/'),
        SYS_fcntl => matches!(a[1] as i32, F_SETLKW | F_OFD_SETLKW),
        _ => WAITS.contains(&nr),
    }
}
#[rustfmt::skip]
const WAITS: &[i64] = {
    use libc::*;
    &[SYS_poll, SYS_ppoll, SYS_select, SYS_pselect6, SYS_epoll_wait, SYS_epoll_pwait, SYS_epoll_pwait2, SYS_wait4, SYS_waitid, SYS_futex, SYS_flock, SYS_pause,
      SYS_recvfrom, SYS_recvmsg, SYS_sendto, SYS_sendmsg, SYS_accept, SYS_accept4, SYS_connect, SYS_splice, SYS_sendfile, SYS_copy_file_range, SYS_rt_sigtimedwait,
      SYS_rt_sigsuspend, SYS_semop, SYS_semtimedop, SYS_msgrcv, SYS_futex_waitv]
};
#[rustfmt::skip]
const STOPS: &[i64] = {
    use libc::*;
    &[SYS_read, SYS_write, SYS_readv, SYS_writev, SYS_pread64, SYS_pwrite64, SYS_getpgid, SYS_nanosleep, SYS_clock_nanosleep, SYS_sched_yield,
      SYS_open, SYS_creat, SYS_stat, SYS_lstat, SYS_access, SYS_unlink, SYS_rename, SYS_mkdir, SYS_rmdir, SYS_link, SYS_symlink, SYS_chmod, SYS_truncate, SYS_readlink, SYS_chdir,
      SYS_openat, SYS_statx, SYS_newfstatat, SYS_faccessat, SYS_faccessat2, SYS_unlinkat, SYS_renameat, SYS_renameat2, SYS_mkdirat, SYS_linkat, SYS_fchmodat, SYS_readlinkat,
      SYS_symlinkat, SYS_ftruncate, SYS_fchmod, SYS_kill, SYS_tgkill, SYS_fchdir, SYS_getcwd, SYS_umask, SYS_clone, SYS_clone3, SYS_fork, SYS_vfork, SYS_pipe, SYS_socketpair,
      SYS_dup, SYS_dup2, SYS_pipe2, SYS_dup3, SYS_fcntl, SYS_rt_sigaction, SYS_exit_group]
};

fn execute(sc: &Scene, sh: &Shared, guard: &Guard, schedule: &[usize], micro: Option<Micro>) -> Done {
    sh.clear();
    let n = sc.threads.len();
    let pid = fork_traced(|| {
        let mut l = [WAITS, STOPS].concat();
        if sc.grain == 2 {
            l.push(libc::SYS_close);
        }
        only(&l);
        std::thread::scope(|s| {
            let mut base = 0;
            for (k, calls) in sc.threads.iter().enumerate() {
                let first = base;
                base += calls.len();
                s.spawn(move || {
                    let mut prep: Vec<_> = calls.iter().map(|c| (c.text.clone(), c.graph.clone().map(|(g, c)| (g, pr::ctx(&c))), c.args.iter().map(arg_real).collect::<Vec<CommandArg>>())).collect();
                    prep.reverse();
                    mark(k as i64);
                    let mut i = first;
                    while let Some((text, g, args)) = prep.pop() {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match g {
                            Some((g, mut c)) => graphviz_rust::exec(g, &mut c, args),
                            None => graphviz_rust::exec_dot(text, args),
                        }));
                        let o = match r {
                            Ok(Ok(v)) => Outcome::Ok(v),
                            Ok(Err(e)) => Outcome::Err(e.to_string()),
                            Err(e) => Outcome::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
                        };
                        sh.put(i, &o, (0, 0));
                        i += 1;
                    }
                    mark(8 + k as i64);
                });
            }
        });
    });
    guard.arm(pid, 20_000);
    // what the calls leave as it is
    let home = std::env::current_dir().unwrap();
    let umask = |p: i32| std::fs::read_to_string(format!("/proc/{}/status", p)).unwrap_or_default().lines().find(|l| l.starts_with("Umask")).map(|l| l.to_string());
    let mask = umask(std::process::id() as i32);
    let mut ts: BTreeMap<i32, Task> = BTreeMap::new();
    ts.insert(pid, Task { role: Role::Main, st: St::Running, what: String::new(), may_wait: false, naps: 0 });
    let mut unknown: HashSet<i32> = HashSet::new();
    let mut done = Done { steps: vec![], trace: vec![], events: 0, bad: vec![], out: vec![], touches: 0, instructions: 0 };
    let mut finished = vec![false; n];
    let mut ready = 0;
    let mut over = false;
    let mut last: Option<Role> = None;
    let mut used = 0;
    let mut naps = 0;
    let mut looked = false;
    // the thread that goes by single instructions
    let mut slow: Option<i32> = None;
    let mut hold = micro.is_some();
    let mut skip: Option<Role> = None;
    macro_rules! on {
        ($p:expr, $s:expr) => {
            if slow == Some($p) {
                step($p, $s)
            } else {
                cont($p, $s)
            }
        };
    }
    cont(pid, 0);
    'outer: loop {
        // until everything waits
        loop {
            let mut st = 0;
            // a task that runs, and is not in a call that may wait, is heard of again
            let sure = !unknown.is_empty() || ts.values().any(|t| t.st == St::Running && !t.may_wait);
            let p = unsafe { libc::waitpid(-1, &mut st, libc::__WALL | if sure { 0 } else { libc::WNOHANG }) };
            if p < 0 {
                over = true;
                break;
            }
            if p == 0 {
                let mut busy = ts.is_empty() || !unknown.is_empty();
                for (p, t) in &ts {
                    // the main thread waits for the others
                    if t.role == Role::Main && *p == pid && ready == n && finished.iter().any(|x| !*x) {
                        continue;
                    }
                    if t.st == St::Running && !asleep(*p) {
                        busy = true;
                        break;
                    }
                }
                if !busy && (ready == n || guard.fired.load(std::sync::atomic::Ordering::SeqCst) != 0) {
                    // look once more: an event may have come in between
                    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
                    let r = unsafe { libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WSTOPPED | libc::WNOHANG | libc::WNOWAIT | libc::__WALL) };
                    if r == 0 && unsafe { info.si_pid() } == 0 {
                        break;
                    }
                }
                std::thread::yield_now();
                continue;
            }
            done.events += 1;
            if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                ts.remove(&p);
                if p == pid {
                    over = true;
                    if libc::WIFSIGNALED(st) && guard.fired.load(std::sync::atomic::Ordering::SeqCst) == 0 {
                        done.bad.push(format!("the process died with signal {}", libc::WTERMSIG(st)));
                    }
                    break;
                }
                continue;
            }
            let sig = libc::WSTOPSIG(st);
            let event = st >> 16;
            if event == libc::PTRACE_EVENT_CLONE || event == libc::PTRACE_EVENT_FORK || event == libc::PTRACE_EVENT_VFORK {
                let mut c: libc::c_ulong = 0;
                unsafe { libc::ptrace(libc::PTRACE_GETEVENTMSG, p, 0, &mut c) };
                let c = c as i32;
                let role = match ts.get(&p).map(|t| t.role) {
                    Some(Role::Caller(k)) | Some(Role::Child(k)) => {
                        // a thread shares the group of its creator
                        let tg = std::fs::read_to_string(format!("/proc/{}/status", c)).unwrap_or_default();
                        let same = tg.lines().any(|l| l == format!("Tgid:\t{}", pid));
                        if same {
                            Role::Caller(k)
                        } else {
                            Role::Child(k)
                        }
                    }
                    Some(r) => r,
                    None => Role::Main,
                };
                ts.insert(c, Task { role, st: St::Running, what: String::new(), may_wait: false, naps: 0 });
                if unknown.remove(&c) {
                    on!(c, 0);
                }
                on!(p, 0);
                continue;
            }
            let Some(t) = ts.get_mut(&p) else {
                unknown.insert(p);
                continue;
            };
            if event == libc::PTRACE_EVENT_EXEC {
                if let Role::Child(k) | Role::Caller(k) = t.role {
                    t.role = Role::Dot(k);
                    let d = std::fs::read_link(format!("/proc/{}/cwd", p));
                    if !d.as_ref().is_ok_and(|d| *d == home) {
                        done.bad.push(format!("the dot of thread {} starts in the directory {:?} instead of {:?}", k, d, home));
                    }
                }
                on!(p, 0);
                continue;
            }
            if event == 0 && sig == libc::SIGTRAP && slow == Some(p) {
                let Some(r) = regs(p) else { continue };
                done.instructions += 1;
                let m = micro.as_ref().unwrap();
                if m.layout.shared(&r) {
                    if done.touches == m.at {
                        done.trace.push(format!("{:?} stops before the instruction at +{:x}", t.role, r.rip - m.layout.base()));
                        t.st = St::Ready;
                        t.what = "goes on".into();
                        slow = None;
                        hold = false;
                        skip = Some(t.role);
                        continue;
                    }
                    done.touches += 1;
                }
                step(p, 0);
                continue;
            }
            if event != libc::PTRACE_EVENT_SECCOMP {
                on!(p, if sig == libc::SIGSTOP || sig == libc::SIGTRAP { 0 } else { sig });
                continue;
            }
            let Some(r) = regs(p) else { continue };
            let nr = r.orig_rax as i64;
            let a = [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9];
            t.may_wait = may_wait(p, nr, &a);
            if nr == libc::SYS_getpgid && !matches!(t.role, Role::Dot(_)) && (a[0] as i64) >= MARK && (a[0] as i64) < MARK + 16 {
                let k = a[0] as i64 - MARK;
                if k < 8 {
                    t.role = Role::Caller(k as usize);
                    t.st = St::Ready;
                    t.what = "starts".into();
                    ready += 1;
                } else {
                    if slow == Some(p) {
                        slow = None;
                        hold = false;
                    }
                    finished[k as usize - 8] = true;
                    t.role = Role::Main;
                    on!(p, 0);
                }
                continue;
            }
            if matches!(t.role, Role::Caller(_) | Role::Dot(_)) {
                t.naps += 1;
                let nap = matches!(t.role, Role::Caller(_)) && ( matches!(nr, libc::SYS_nanosleep | libc::SYS_clock_nanosleep | libc::SYS_sched_yield) || nr == libc::SYS_poll && (a[2] as i32) >= 0 || nr == libc::SYS_wait4 && a[2] as i32 & libc::WNOHANG != 0 || nr == libc::SYS_waitid && a[3] as i32 & libc::WNOHANG != 0);
                if nap {
                    t.st = St::Sleepy;
                    t.what = names(nr);
                    continue;
                }
                if let Some(w) = point(p, t.role, nr, &a, sc.grain) {
                    t.naps = 0;
                    t.st = St::Ready;
                    t.what = w;
                    continue;
                }
            }
            on!(p, 0);
        }
        if over || guard.fired.load(std::sync::atomic::Ordering::SeqCst) != 0 {
            break;
        }
        // before its first step nobody notices a thread
        if let Some((p, t)) = ts.iter_mut().find(|(_, t)| t.st == St::Ready && t.what == "starts" && (micro.is_none() && !sc.start || hold && slow.is_none() && t.role == Role::Caller(0))) {
            t.st = St::Running;
            t.what.clear();
            if micro.is_some() {
                slow = Some(*p);
            }
            on!(*p, 0);
            continue;
        }
        // what can go on, the call that went last first, then in order
        let call = |r: Role| match r {
            Role::Caller(k) | Role::Child(k) | Role::Dot(k) => k,
            Role::Main => usize::MAX,
        };
        if hold {
            // only thread 0 and its dot go on
            match ts.iter_mut().find(|(_, t)| t.st != St::Running && call(t.role) == 0) {
                Some((p, t)) => {
                    t.st = St::Running;
                    on!(*p, 0);
                    continue;
                }
                None => hold = false,
            }
        }
        let mut can: Vec<(Role, i32)> = ts.iter().filter(|(_, t)| t.st == St::Ready).map(|(p, t)| (t.role, *p)).collect();
        can.sort();
        if let Some(l) = last {
            can.sort_by_key(|c| (c.0 != l, call(c.0) != call(l)));
        }
        if let Some(r) = skip.take() {
            if can.len() > 1 {
                can.retain(|c| c.0 != r);
            }
        }
        if !can.is_empty() && can.iter().all(|c| matches!(c.0, Role::Dot(_))) {
            // those who only sleep may find that they need not wait
            let l: Vec<i32> = ts.iter().filter(|(_, t)| t.st == St::Sleepy && t.naps < 5).map(|(p, _)| *p).collect();
            if !l.is_empty() {
                for p in l {
                    ts.get_mut(&p).unwrap().st = St::Running;
                    on!(p, 0);
                }
                continue;
            }
        }
        // is a call kept waiting for the dot of another one?
        for k in 0..n {
            if finished[k] {
                continue;
            }
            let mine = |t: &Task| call(t.role) == k;
            let stuck = ts.values().filter(|t| mine(t) && matches!(t.role, Role::Caller(_))).all(|t| t.st != St::Ready) && !ts.values().any(|t| mine(t) && matches!(t.role, Role::Dot(_) | Role::Child(_)));
            let only_dots = !can.is_empty() && can.iter().all(|c| matches!(c.0, Role::Dot(_))) ;
            if stuck && only_dots {
                let w = format!("the call of thread {} waits although its own dot does not run, until {}", k, can.iter().map(|c| format!("the dot of thread {} {}", call(c.0), ts[&c.1].what)).collect::<Vec<_>>().join(", "));
                if !done.bad.contains(&w) {
                    done.bad.push(w);
                }
            }
        }
        if can.is_empty() {
            let sleepy: Vec<i32> = ts.iter().filter(|(_, t)| t.st == St::Sleepy).map(|(p, _)| *p).collect();
            if !sleepy.is_empty() && naps < 2000 {
                naps += 1;
                for p in sleepy {
                    ts.get_mut(&p).unwrap().st = St::Running;
                    on!(p, 0);
                }
                continue;
            }
            if finished.iter().all(|x| *x) {
                // the threads end
                std::thread::yield_now();
                let alive = ts.contains_key(&pid);
                if alive && !looked {
                    looked = true;
                    let d = std::fs::read_link(format!("/proc/{}/cwd", pid));
                    if d.as_ref().is_ok_and(|d| *d != home) {
                        done.bad.push(format!("the calls leave the process in the directory {:?} instead of {:?}", d, home));
                    }
                    let m = umask(pid);
                    if m.is_some() && m != mask {
                        done.bad.push(format!("the calls leave the process with {:?} instead of {:?}", m, mask));
                    }
                }
                if alive {
                    // wait for an event
                    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
                    unsafe { libc::waitid(libc::P_ALL, 0, &mut info, libc::WEXITED | libc::WSTOPPED | libc::WNOWAIT | libc::__WALL) };
                }
                continue;
            }
            let who: Vec<String> = (0..n).filter(|k| !finished[*k]).map(|k| k.to_string()).collect();
            done.bad.push(format!("nothing can go on, the calls of the threads {} have not returned", who.join(", ")));
            if std::env::var_os("MC_DEBUG").is_some() {
                for (p, t) in &ts {
                    eprintln!("  {} {:?} {:?} {} [{}] syscall {} wchan {}", p, t.role, t.st, t.what, state(*p), std::fs::read_to_string(format!("/proc/{}/syscall", p)).unwrap_or_default().trim(), std::fs::read_to_string(format!("/proc/{}/wchan", p)).unwrap_or_default());
                }
            }
            break 'outer;
        }
        naps = 0;
        // the choices: going on with the same task costs nothing, leaving one that can go on counts
        let same = last.map(|l| can[0].0 == l).unwrap_or(false);
        let mut choices = can.clone();
        if same && used >= sc.bound {
            choices.truncate(1);
        }
        let i = done.steps.len();
        let c = schedule.get(i).copied().unwrap_or(0);
        if c >= choices.len() {
            done.bad.push(format!("MACHINERY: step {} offers {} choices, {} was recorded", i, choices.len(), c));
            break 'outer;
        }
        let (role, p) = choices[c];
        done.steps.push((choices.len(), c, used, same));
        if same && role != last.unwrap() {
            used += 1;
        }
        last = Some(role);
        let t = ts.get_mut(&p).unwrap();
        done.trace.push(format!("{:?} {}", role, t.what));
        t.st = St::Running;
        on!(p, 0);
        // those who only sleep get on with it
        let sleepy: Vec<i32> = ts.iter().filter(|(_, t)| t.st == St::Sleepy).map(|(p, _)| *p).collect();
        for p in sleepy {
            ts.get_mut(&p).unwrap().st = St::Running;
            on!(p, 0);
        }
        if done.steps.len() > 5000 {
            done.bad.push("the calls take more than 5000 steps".into());
            break 'outer;
        }
    }
    if guard.disarm() {
        let who: Vec<String> = ts.iter().map(|(_, t)| format!("{:?} {:?} {}", t.role, t.st, t.what)).collect();
        done.bad.push(format!("the calls do not return ({})", who.join(", ")));
    }
    // end what is left
    unsafe {
        libc::kill(-pid, libc::SIGKILL);
        loop {
            let mut st = 0;
            let p = libc::waitpid(-1, &mut st, libc::__WALL);
            if p < 0 {
                break;
            }
            if libc::WIFSTOPPED(st) {
                libc::kill(p, libc::SIGKILL);
                libc::ptrace(libc::PTRACE_CONT, p, 0, libc::SIGKILL as i64);
            }
        }
    }
    let total: usize = sc.threads.iter().map(|t| t.len()).sum();
    done.out = (0..total).map(|k| sh.get(k)).collect();
    done
}

fn judge(sc: &Scene, b: &Bench, d: &Done) -> Vec<String> {
    let mut bad = d.bad.clone();
    let recs = b.records();
    let mut k = 0;
    let mut used = vec![false; recs.len()];
    let dead = !bad.is_empty();
    for (t, calls) in sc.threads.iter().enumerate() {
        for c in calls {
            let args: Vec<String> = c.args.iter().map(arg_text).collect();
            let fails = c.text.contains("FAIL");
            match &d.out[k] {
                _ if dead => {}
                None => bad.push(format!("call {} of thread {} has no outcome", k, t)),
                Some((Outcome::Ok(v), _)) => {
                    let mut want = vec![];
                    for a in args.iter().filter(|a| a.starts_with('-')) {
                        want.extend(a.as_bytes());
                        want.push(b'\n');
                    }
                    want.push(b'>');
                    want.extend(c.text.as_bytes());
                    if fails || *v != want {
                        bad.push(format!("thread {} called with {:?} {:?} and got {:?}", t, c.text, args, String::from_utf8_lossy(v)));
                    }
                }
                Some((Outcome::Err(e), _)) => {
                    if !fails || !e.contains(&format!("E>{}", c.text)) {
                        bad.push(format!("thread {} called with {:?} {:?} and got the error {:?}", t, c.text, args, e));
                    }
                }
                Some((o, _)) => bad.push(format!("thread {} called with {:?}: {:?}", t, c.text, o)),
            }
            if !dead {
                let m = recs.iter().enumerate().find(|(i, r)| !used[*i] && r.matches(&args, c.text.as_bytes()).is_ok());
                match m {
                    Some((i, _)) => used[i] = true,
                    None => bad.push(format!("no dot was run for {:?} {:?}", c.text, args)),
                }
            }
            k += 1;
        }
    }
    if !dead && recs.len() != k {
        bad.push(format!("dot was run {} times for {} calls", recs.len(), k));
    }
    let left = b.leftovers();
    if !left.is_empty() {
        if !dead {
            bad.push(format!("left behind: {:?}", left));
        }
        b.clean();
    }
    bad
}

struct Count {
    runs: u64,
    steps: u64,
    events: u64,
    instructions: u64,
}

/// One schedule; false once something is wrong.
fn try_one(run: &Run, slot: usize, sc: &Scene, b: &Bench, sh: &Shared, g: &Guard, schedule: &[usize], micro: Option<Micro>, n: &mut Count) -> Option<Done> {
    let _ = slot;
    let d = execute(sc, sh, g, schedule, micro);
    n.runs += 1;
    n.steps += d.steps.len() as u64;
    n.events += d.events;
    n.instructions += d.instructions;
    let bad = judge(sc, b, &d);
    if bad.iter().any(|x| x.starts_with("MACHINERY")) {
        // the same prefix must offer the same choices; it is tried once more before giving up
        let d2 = execute(sc, sh, g, schedule, micro);
        let bad2 = judge(sc, b, &d2);
        if bad2.iter().any(|x| x.starts_with("MACHINERY")) {
            panic!("{}: {} for {:?}\n{}", sc.name, bad2.join("; "), schedule, d2.trace.join("\n"));
        }
        return Some(d2);
    }
    if !bad.is_empty() {
        let tmp = |s: &str| s.replace(&b.dir, "");
        run.violation(
            &format!("{}|{}", sc.name, short(&bad[0], 80)),
            &format!("{}: {}", sc.name, tmp(&bad.join("; "))),
            &format!("{}\n{}\nschedule {:?}:\n{}\n", sc.name, bad.join("\n"), d.steps.iter().map(|s| s.1).collect::<Vec<_>>(), d.trace.iter().map(|t| tmp(t)).collect::<Vec<_>>().join("\n")),
        );
        return None;
    }
    Some(d)
}

/// The schedule in which every one of many calls has started its dot before any dot ends.
fn crowds(run: &Run) {
    let b = Bench::new("C14-crowd");
    let mut steps = 0;
    for n in [5usize, 9, 17, 33, 65, if run.thorough { 300 } else { 130 }] {
        let _ = std::fs::remove_file(format!("{}/all", b.dir));
        b.script(&format!("echo=1\nechoerr=1\nfailif=FAIL\nmeet={}\n", n));
        let call = |i: usize| (format!("graph {{ {}n{} }}", if i % 3 == 2 { "FAIL " } else { "" }, i), format!("-k{}", i));
        let out: Vec<std::io::Result<Vec<u8>>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    s.spawn(move || {
                        let (t, a) = call(i);
                        std::panic::catch_unwind(|| graphviz_rust::exec_dot(t, vec![CommandArg::Custom(a)])).unwrap_or_else(|_| Ok(b"a panic".to_vec()))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        steps += n as u64;
        let mut bad = vec![];
        for (i, o) in out.iter().enumerate() {
            let (t, a) = call(i);
            match o {
                Ok(v) if i % 3 != 2 && *v == format!("{}\n>{}", a, t).as_bytes() => {}
                Err(e) if i % 3 == 2 && e.to_string().contains(&format!("E>{}", t)) => {}
                Ok(v) => bad.push(format!("the call with {:?} {:?} returned {:?}", t, a, short(&String::from_utf8_lossy(v), 80))),
                Err(e) => bad.push(format!("the call with {:?} {:?} failed: {:?}", t, a, short(&e.to_string(), 80))),
            }
        }
        if !std::path::Path::new(&format!("{}/all", b.dir)).exists() {
            bad.insert(0, format!("of {} calls at the same time, some start their dot only when the dot of another call has ended", n));
        }
        let recs = b.records().len();
        if recs != n {
            bad.push(format!("{} calls ran dot {} times", n, recs));
        }
        let left = b.leftovers();
        if !left.is_empty() {
            bad.push(format!("left behind: {:?}", left));
            b.clean();
        }
        if !bad.is_empty() {
            run.violation(&format!("crowd|{}", n), &format!("{} calls at the same time, no dot ends before all have started: {}", n, bad[0]), &bad.join("\n"));
            break;
        }
    }
    run.count("calls_in_crowds", steps);
}

pub fn c14(run: &Run) {
    if run.shard.is_none() {
        let l: Vec<String> = scenes(run.thorough).iter().enumerate().map(|(i, s)| format!("{}{}:", i, if s.micro { "@" } else { "" })).collect();
        with_stack(run, l, std::time::Duration::from_secs(run.q(500, 4 * 3600)));
        crowds(run);
        run.note("bounds", "two calls: every interleaving of the steps that touch files or processes (thorough: also of the reads of dot); with every system call of the threads as a step, at most 2 (thorough 3) preemptions; two calls after each other beside one, three calls: at most 2-4 preemptions");
        run.assume("in the scenes that step by system call a thread runs without interruption between two of them; interruptions at single instructions are explored in the scenes that step by instruction, with one preemption and under sequential consistency");
        return;
    }
    unsafe {
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    }
    let b = Bench::new(&format!("C14-{}", run.shard.unwrap().0));
    let sh = Shared::new();
    let g = Guard::new();
    let slot = run.slot();
    let mut n = Count { runs: 0, steps: 0, events: 0, instructions: 0 };
    let all = scenes(run.thorough);
    let layout = Layout::new();
    let mut new: Vec<String> = vec![];
    let mut current = usize::MAX;
    loop {
        println!("NEXT{}", new.iter().map(|x| format!("\t{}", x)).collect::<String>());
        new.clear();
        let mut l = String::new();
        if std::io::stdin().read_line(&mut l).unwrap_or(0) == 0 {
            break;
        }
        let (scene, prefix) = l.trim().split_once(':').unwrap();
        let (scene, at) = match scene.split_once('@') {
            Some((s, "")) => (s, Some(usize::MAX)),
            Some((s, a)) => (s, Some(a.parse().unwrap())),
            None => (scene, None),
        };
        let micro = at.map(|at| Micro { at, layout: &layout });
        let scene: usize = scene.parse().unwrap();
        let prefix: Vec<usize> = prefix.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let sc = &all[scene];
        if scene != current {
            b.script(&sc.script);
            current = scene;
        }
        let Some(d) = try_one(run, slot, sc, &b, &sh, g, &prefix, micro, &mut n) else { continue };
        if at == Some(usize::MAX) {
            for i in 0..d.touches {
                new.push(format!("{}@{}:", scene, i));
            }
            run.count("instructions_touching_shared_memory", d.touches as u64);
            continue;
        }
        if prefix.is_empty() && at.map(|a| a == 7).unwrap_or(true) {
            println!("SAMPLE\t{}", crate::cg::esc(&format!("{}: {}", sc.name, d.trace.join("; ").replace(&b.dir, ""))));
        }
        // every other choice after the prefix is another schedule
        for i in prefix.len()..d.steps.len() {
            for c in 1..d.steps[i].0 {
                let mut p: Vec<String> = d.steps[..i].iter().map(|s| s.1.to_string()).collect();
                p.push(c.to_string());
                let (_, _, used, same) = d.steps[i];
                new.push(format!("{}|{}{}:{}", used + same as usize, scene, at.map(|a| format!("@{}", a)).unwrap_or_default(), p.join(",")));
            }
        }
        if std::env::var_os("MC_DEBUG").is_some() {
            println!("COUNT\t{}: schedules\t1", sc.name);
        }
    }
    run.count("schedules", n.runs);
    run.count("states", n.runs);
    run.count("transitions", n.steps);
    run.count("traced_events", n.events);
    run.count("single_steps", n.instructions);
    run.count("traces_validated_against_impl", n.runs);
}
