//! C13: every failure of every system call of an execution, alone and in sequences.
use crate::exec::*;
use crate::refprint::{self, Cfg};
use crate::run::*;
use crate::trace::*;
use crate::{pr, shapes};
use dot_structures::Graph;
use graphviz_rust::cmd::CommandArg;
use std::collections::HashMap;

struct Scene {
    name: &'static str,
    text: String,
    graph: Option<(Graph, Cfg)>,
    args: Vec<Arg>,
    script: Script,
    path: Option<String>,
    /// depth of the fault sequences
    quick: usize,
    thorough: usize,
}

fn scenes(b: &Bench) -> Vec<Scene> {
    let args = vec![Arg::Format(42), Arg::Custom("-x y".into())];
    let ok = Script { out: 40, ..Default::default() };
    let s = |name, text: &str, script: Script, quick, thorough| Scene { name, text: text.into(), graph: None, args: args.clone(), script, path: None, quick, thorough };
    let (list, _) = (shapes::sized(3), 0);
    let g = shapes::graph(1, shapes::Names::Unique, &list[list.len() / 2]);
    let cfg = Cfg::default();
    let text = refprint::graph(&g, &cfg).0;
    let mut v = vec![
        s("a short text, dot succeeds", "graph { a -- b }", ok.clone(), 2, 3),
        s("a short text, dot fails", "graph { a -- ", Script { code: 1, err: 30, ..Default::default() }, 2, 3),
        s("an empty text, no output", "", Script::default(), 2, 3),
        s("a text of 1 MB", &"graph { a -- b } // é日\n".repeat(40_000), ok.clone(), 2, 2),
        s("a text of 20 kB", &"graph { a -- b } // é\n".repeat(900), ok.clone(), 2, 2),
        s("300 kB of output", "graph { big }", Script { out: 300_000, ..Default::default() }, 2, 2),
        s("output on both pipes", "graph { both }", Script { out: 5000, err: 3000, order: "mix", ..Default::default() }, 2, 2),
        s("dot fails with 200 kB of messages", "graph { bad }", Script { code: 2, err: 200_000, out: 10, ..Default::default() }, 2, 2),
        s("dot is killed", "graph { killed }", Script { sig: 9, out: 10, ..Default::default() }, 2, 2),
    ];
    let mut x = s("exec with a graph", &text, ok.clone(), 2, 3);
    x.graph = Some((g, cfg));
    v.push(x);
    let mut x = s("dot is the third entry of PATH", "graph { path }", ok.clone(), 2, 2);
    x.path = Some(format!("{}/nowhere:{}/work:{}/bin", b.dir, b.dir, b.dir));
    v.push(x);
    let mut x = s("no dot in PATH", "graph { none }", ok.clone(), 2, 3);
    x.path = Some(format!("{}/nowhere:{}/work", b.dir, b.dir));
    v.push(x);
    let mut x = s("no arguments", "digraph { a -> b }", ok, 2, 3);
    x.args = vec![];
    v.push(x);
    v
}

/// Is the descriptor open for writing?
fn writable(pid: i32, fd: u64) -> bool {
    let info = std::fs::read_to_string(format!("/proc/{}/fdinfo/{}", pid, fd)).unwrap_or_default();
    let flags = info.lines().find_map(|l| l.strip_prefix("flags:")).and_then(|x| i32::from_str_radix(x.trim(), 8).ok());
    flags.is_none_or(|f| f & libc::O_ACCMODE != libc::O_RDONLY)
}

/// The errors the system can return for a call, and partial transfers.
fn candidates(pid: i32, spawned: bool, nr: i64, a: &[u64; 6], path: &str) -> Vec<Fault> {
    use libc::*;
    let e = |l: &[i32]| -> Vec<Fault> { l.iter().map(|x| Fault::Errno(*x)).collect() };
    let mut v = vec![];
    match nr {
        SYS_open | SYS_openat | SYS_creat => {
            let fl = if nr == SYS_open { a[1] } else { a[2] } as i32;
            let create = nr == SYS_creat || fl & (O_CREAT | O_TMPFILE) != 0;
            v.extend(e(&[EACCES, EMFILE, ENFILE, EINTR, ENOMEM, ENOENT, ELOOP, EPERM]));
            if create {
                v.extend(e(&[ENOSPC, EDQUOT, EROFS, ENOTDIR, ENAMETOOLONG, EIO, EOVERFLOW]));
                if fl & O_EXCL != 0 {
                    v.extend(e(&[EEXIST]));
                }
            }
            let _ = path;
        }
        SYS_write | SYS_pwrite64 | SYS_writev | SYS_read | SYS_pread64 | SYS_readv => {
            let l = fd_link(pid, a[0]);
            let pipe = l.starts_with("pipe:") || l.starts_with("socket:");
            let w = matches!(nr, SYS_write | SYS_pwrite64 | SYS_writev);
            let plain = matches!(nr, SYS_write | SYS_read | SYS_pread64 | SYS_pwrite64);
            match (w, pipe) {
                (true, false) => v.extend(e(&[ENOSPC, EIO, EDQUOT, EFBIG, EINTR])),
                (true, true) => v.extend(e(&[EPIPE, EINTR])),
                (false, false) => v.extend(e(&[EIO, EINTR])),
                (false, true) => v.extend(e(&[EINTR])),
            }
            if plain && a[2] > 1 {
                v.push(Fault::Short(1));
                if a[2] > 3 {
                    v.push(Fault::Short(a[2] / 2));
                    v.push(Fault::Short(a[2] - 1));
                }
            }
            if w && plain && !pipe && a[2] > 0 {
                v.push(Fault::Short(0));
            }
        }
        SYS_close => {
            let l = fd_link(pid, a[0]);
            // what a close can report of data that could not be stored; only files have any
            if l.starts_with('/') && !l.starts_with("/dev/") && writable(pid, a[0]) {
                v.extend([EIO, ENOSPC, EDQUOT].map(Fault::After));
            }
            v.push(Fault::After(EINTR));
        }
        SYS_pipe | SYS_pipe2 | SYS_socketpair => v.extend(e(&[EMFILE, ENFILE])),
        SYS_dup => v.extend(e(&[EMFILE])),
        SYS_dup2 | SYS_dup3 => v.extend(e(&[EBUSY, EINTR, EMFILE])),
        SYS_fcntl if matches!(a[1] as i32, F_DUPFD | F_DUPFD_CLOEXEC) => v.extend(e(&[EMFILE])),
        SYS_clone | SYS_clone3 | SYS_fork | SYS_vfork => {
            v.extend(e(&[EAGAIN, ENOMEM]));
            if nr == SYS_clone3 {
                v.extend(e(&[ENOSYS, EPERM]));
            }
        }
        SYS_execve | SYS_execveat => v.extend(e(&[ENOENT, EACCES, ENOEXEC, E2BIG, ENOMEM, ETXTBSY, EIO, EPERM, EMFILE, ENOTDIR, EISDIR, ELOOP])),
        SYS_poll | SYS_ppoll => v.extend(e(&[EINTR])),
        SYS_wait4 | SYS_waitid => {
            v.extend(e(&[EINTR]));
            v.push(Fault::After(ECHILD));
        }
        SYS_unlink | SYS_unlinkat | SYS_rmdir => v.extend(e(&[EACCES, EPERM, EROFS, EBUSY, EIO, EINTR, ENOENT])),
        SYS_rename | SYS_renameat | SYS_renameat2 | SYS_link | SYS_linkat | SYS_symlink | SYS_symlinkat => v.extend(e(&[EACCES, EROFS, ENOSPC, EIO, EDQUOT, EXDEV])),
        SYS_mkdir | SYS_mkdirat => v.extend(e(&[EACCES, EROFS, ENOSPC, EDQUOT, EEXIST, ENOENT])),
        SYS_fsync | SYS_fdatasync => v.extend([EIO, ENOSPC, EDQUOT].map(Fault::After)),
        SYS_ftruncate | SYS_truncate | SYS_fallocate => v.extend(e(&[EIO, ENOSPC, EINTR])),
        SYS_chmod | SYS_fchmod | SYS_fchmodat => v.extend(e(&[EPERM, EROFS, EIO])),
        SYS_getrandom => v.extend(e(&[EINTR, EAGAIN, ENOSYS])),
        SYS_chdir | SYS_fchdir => v.extend(e(&[EACCES, ENOENT])),
        SYS_getcwd => v.extend(e(&[ENOENT])),
        SYS_stat | SYS_lstat | SYS_statx | SYS_newfstatat | SYS_access | SYS_faccessat | SYS_faccessat2 => v.extend(e(&[EACCES, ENOENT, EIO])),
        SYS_copy_file_range | SYS_sendfile | SYS_splice => v.extend(e(&[EINTR, EIO, ENOSPC, EINVAL])),
        // the stack on which a process is started; what the allocator asks for is not touched:
        // exhausted memory ends every Rust program
        SYS_mmap if a[3] as i32 & MAP_STACK != 0 && !spawned => v.extend(e(&[ENOMEM])),
        _ => {}
    }
    v
}

/// Is the process waiting for a pipe to be read (or sleeping, as told to)?
fn waits_in_write(pid: i32) -> bool {
    state(pid) == 'S' && {
        let s = std::fs::read_to_string(format!("/proc/{}/syscall", pid)).unwrap_or_default();
        let nr = s.split(' ').next().and_then(|x| x.parse::<i64>().ok());
        matches!(nr, Some(libc::SYS_write | libc::SYS_clock_nanosleep | libc::SYS_nanosleep))
    }
}

struct Tried {
    calls: Vec<Sys>,
    syscalls: u64,
    reached: usize,
    /// where in `calls` the faults were
    at: Vec<usize>,
    unlink_failed: bool,
    /// a call failed with which a directory is looked through before it is removed
    look_failed: bool,
    out: Outcome,
    fds: (usize, usize),
}

/// A call: its number and how many of the same kind came before.
type Which = (i64, usize);

/// One execution in which the calls given suffer the faults given.
fn execute(sc: &Scene, sh: &Shared, guard: &Guard, faults: &[(Which, Fault)]) -> Tried {
    sh.clear();
    let pid = fork_traced(|| {
        let args: Vec<CommandArg> = sc.args.iter().map(arg_real).collect();
        if let Some(p) = &sc.path {
            std::env::set_var("PATH", p);
        }
        let text = sc.text.clone();
        let mut g = sc.graph.clone().map(|(g, c)| (g, pr::ctx(&c)));
        let before = fds();
        mark(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match g.take() {
            Some((g, mut c)) => graphviz_rust::exec(g, &mut c, args),
            None => graphviz_rust::exec_dot(text, args),
        }));
        mark(1);
        let o = match r {
            Ok(Ok(v)) => Outcome::Ok(v),
            Ok(Err(e)) => Outcome::Err(e.to_string()),
            Err(e) => Outcome::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
        };
        sh.put(0, &o, (before, fds()));
    });
    guard.arm(pid, 15_000);
    let mut calls: Vec<Sys> = vec![];
    let (mut syscalls, mut reached, mut unlink_failed, mut look_failed) = (0u64, 0, false, false);
    let mut at = vec![];
    let mut active = false;
    struct T {
        inside: bool,
        spawned: bool,
        todo: Option<(Fault, u64)>,
    }
    let mut ts: HashMap<i32, T> = HashMap::new();
    ts.insert(pid, T { inside: false, spawned: false, todo: None });
    let mut dots: Vec<i32> = vec![];
    let mut died = None;
    go(pid, 0);
    loop {
        let mut st = 0;
        let p = unsafe { libc::waitpid(-1, &mut st, libc::__WALL) };
        if p < 0 {
            break;
        }
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            if p == pid {
                died = Some(if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 });
                unsafe { libc::kill(-pid, libc::SIGKILL) };
            }
            ts.remove(&p);
            continue;
        }
        let t = ts.entry(p).or_insert(T { inside: false, spawned: true, todo: None });
        let sig = libc::WSTOPSIG(st);
        let event = st >> 16;
        if event == libc::PTRACE_EVENT_EXEC {
            dots.push(p);
            ts.remove(&p);
            unsafe { libc::ptrace(libc::PTRACE_DETACH, p, 0, 0) };
            continue;
        }
        if event != 0 {
            go(p, 0);
            continue;
        }
        if sig != libc::SIGTRAP | 0x80 {
            // a signal; the first stop of a new task is a SIGSTOP of its own
            go(p, if sig == libc::SIGSTOP || sig == libc::SIGTRAP { 0 } else { sig });
            continue;
        }
        let Some(mut r) = regs(p) else { continue };
        t.inside = !t.inside;
        if t.inside {
            let nr = r.orig_rax as i64;
            let a = [r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9];
            if nr == libc::SYS_getpgid && (a[0] as i64) >= MARK && (a[0] as i64) < MARK + 16 {
                active = a[0] as i64 == MARK;
            } else if active {
                syscalls += 1;
                if matches!(nr, libc::SYS_poll | libc::SYS_ppoll) || nr == libc::SYS_read && fd_link(p, a[0]).starts_with("pipe:") {
                    // the order of events on the pipes is not left to chance: dot has gone as far as it can
                    for d in &dots {
                        for _ in 0..200_000 {
                            if matches!(state(*d), 'Z' | 'X') || waits_in_write(*d) {
                                break;
                            }
                            std::thread::yield_now();
                        }
                    }
                }
                let path = match nr {
                    libc::SYS_open | libc::SYS_unlink | libc::SYS_execve => string_at(p, a[0]),
                    libc::SYS_openat | libc::SYS_unlinkat => string_at(p, a[1]),
                    _ => String::new(),
                };
                let fs = candidates(p, t.spawned, nr, &a, &path);
                if !fs.is_empty() {
                    let i = calls.len();
                    let id = (nr, calls.iter().filter(|c| c.nr == nr).count());
                    let what = match nr {
                        libc::SYS_read | libc::SYS_write | libc::SYS_close => format!("{}({}, {})", names(nr), fd_link(p, a[0]), a[2]),
                        _ if !path.is_empty() => format!("{}({})", names(nr), path),
                        _ => names(nr),
                    };
                    calls.push(Sys { nr, desc: what, faults: fs, id });
                    let _ = i;
                    let hit = faults.iter().find(|x| match x.1 {
                        Fault::Always(e) => x.0 .0 == id.0 && x.0 .1 <= id.1 && calls[i].faults.contains(&Fault::Errno(e)),
                        f => x.0 == id && calls[i].faults.contains(&f),
                    });
                    if let Some((first, f)) = hit {
                        if *first == id {
                            reached += 1;
                            at.push(i);
                        }
                        t.todo = Some((*f, r.rdx));
                        match f {
                            Fault::Errno(_) | Fault::Always(_) => {
                                r.orig_rax = u64::MAX;
                                set_regs(p, &r);
                                if matches!(nr, libc::SYS_unlink | libc::SYS_unlinkat | libc::SYS_rmdir) {
                                    unlink_failed = true;
                                }
                                look_failed |= match nr {
                                    libc::SYS_stat | libc::SYS_lstat | libc::SYS_statx | libc::SYS_newfstatat => true,
                                    libc::SYS_openat => a[2] as i32 & libc::O_DIRECTORY != 0,
                                    libc::SYS_open => a[1] as i32 & libc::O_DIRECTORY != 0,
                                    _ => false,
                                };
                            }
                            Fault::Short(n) => {
                                r.rdx = *n;
                                set_regs(p, &r);
                            }
                            Fault::After(_) => {}
                        }
                    }
                }
            }
        } else if let Some((f, rdx)) = t.todo.take() {
            match f {
                Fault::Errno(e) | Fault::Always(e) | Fault::After(e) => r.rax = (-(e as i64)) as u64,
                Fault::Short(_) => r.rdx = rdx,
            }
            set_regs(p, &r);
        }
        go(p, 0);
    }
    let fired = guard.disarm();
    let (out, fds) = if fired {
        (Outcome::Hang, (0, 0))
    } else {
        match (sh.get(0), died) {
            (Some(x), Some(0)) => x,
            (_, d) => (Outcome::Died(d.unwrap_or(-1)), (0, 0)),
        }
    };
    Tried { calls, syscalls, reached, at, unlink_failed, look_failed, out, fds }
}

fn judge(sc: &Scene, b: &Bench, t: &Tried) -> Vec<String> {
    let mut bad = vec![];
    let recs = b.records();
    match &t.out {
        Outcome::Hang => bad.push("the call does not return".into()),
        Outcome::Died(s) => bad.push(format!("the process died (signal {})", s)),
        Outcome::Panic(m) => bad.push(format!("the call panics: {}", m)),
        Outcome::Err(_) => {}
        Outcome::Ok(v) => {
            if sc.script.code != 0 || sc.script.sig != 0 {
                bad.push(format!("success is reported with {} bytes, dot failed", v.len()));
            } else if *v != sc.script.stdout() {
                bad.push(format!("success is reported with {} bytes, dot wrote {}", v.len(), sc.script.stdout().len()));
            }
            let want: Vec<String> = sc.args.iter().map(arg_text).collect();
            match recs.as_slice() {
                [r] => {
                    if let Err(e) = r.matches(&want, sc.text.as_bytes()) {
                        bad.push(format!("success is reported, but {}", e));
                    }
                }
                _ => bad.push(format!("success is reported, dot was run {} times", recs.len())),
            }
        }
    }
    let left = b.leftovers();
    if !left.is_empty() {
        if !(t.unlink_failed || t.look_failed && matches!(t.out, Outcome::Err(_))) {
            bad.push(format!("{} file(s) left behind: {}", left.len(), left[0].display()));
        }
        b.clean();
    }
    if t.fds.1 > t.fds.0 {
        bad.push(format!("{} file descriptors before, {} after", t.fds.0, t.fds.1));
    }
    bad
}

struct Count {
    runs: u64,
    syscalls: u64,
    missed: u64,
    /// executions that only look again at what can fail
    again: u64,
    cut: bool,
}

/// Every sequence of `depth` more faults after those given.
fn explore(run: &Run, sc: &Scene, b: &Bench, sh: &Shared, g: &Guard, prefix: &[(Which, Fault)], depth: usize, n: &mut Count, until: std::time::Instant) {
    let t = execute(sc, sh, g, prefix);
    n.runs += 1;
    n.syscalls += t.syscalls;
    if depth > 0 {
        n.again += 1;
    } else if t.reached < prefix.len() {
        n.missed += 1;
        if std::env::var_os("MC_DEBUG").is_some() {
            eprintln!("missed {} {:?} {:?}", sc.name, prefix, t.calls.iter().map(|c| names(c.nr)).collect::<Vec<_>>());
        }
    }
    let mut bad = judge(sc, b, &t);
    if prefix.is_empty() && bad.is_empty() {
        // without a fault the outcome is that of the script
        let ok = sc.script.code == 0 && sc.script.sig == 0 && sc.name != "no dot in PATH";
        if ok != matches!(t.out, Outcome::Ok(_)) {
            bad.push(format!("without any fault the outcome is {:?}", t.out));
        }
    }
    if !bad.is_empty() {
        let seq: Vec<String> = prefix.iter().map(|(i, f)| format!("{}: {}", t.calls.iter().find(|c| c.id == *i).map(|c| c.desc.as_str()).unwrap_or("?").replace(&b.dir, ""), fault_name(f))).collect();
        let key: Vec<String> = prefix.iter().map(|(i, f)| format!("{}#{}:{}", names(i.0), i.1, fault_name(f))).collect();
        run.violation(
            &format!("{}|{}", sc.name, key.join(",")),
            &format!("{}, with {}: {}", sc.name, seq.join(" and "), bad.join("; ")),
            &format!("scenario: {}\nfaults: {}\nsystem calls that can fail:\n{}\noutcome: {:?}\n{}", sc.name, seq.join("\n"), t.calls.iter().enumerate().map(|(i, c)| format!("  {} {}", i, c.desc)).collect::<Vec<_>>().join("\n"), short(&format!("{:?}", t.out), 400), bad.join("\n")),
        );
        return;
    }
    if depth == 0 || t.reached < prefix.len() || matches!(prefix.last(), Some((_, Fault::Always(_)))) {
        return;
    }
    let from = t.at.iter().max().map(|x| x + 1).unwrap_or(0);
    let (k, of) = run.shard.unwrap();
    let mut item = 0;
    for i in from..t.calls.len() {
        for f in &t.calls[i].faults {
            item += 1;
            if prefix.is_empty() && item % of != k {
                continue;
            }
            if run.stopped() {
                return;
            }
            if std::time::Instant::now() > until {
                n.cut = true;
                return;
            }
            let mut p = prefix.to_vec();
            p.push((t.calls[i].id, *f));
            explore(run, sc, b, sh, g, &p, depth - 1, n, until);
            match f {
                // the call goes on failing; interruptions do not last, nor does a name stay taken
                Fault::Errno(e) if depth == 1 && !matches!(*e, libc::EINTR | libc::EEXIST) => {
                    p.last_mut().unwrap().1 = Fault::Always(*e);
                    explore(run, sc, b, sh, g, &p, 0, n, until);
                }
                _ => {}
            }
        }
    }
    if prefix.is_empty() && k == 0 && depth == 1 {
        run.count("fault_points", t.calls.len() as u64);
        run.count("single_faults", t.calls.iter().map(|c| c.faults.len() as u64).sum());
        run.sample(format!("{}: {}", sc.name, t.calls.iter().map(|c| c.desc.replace(&b.dir, "")).collect::<Vec<_>>().join(" ")));
    }
}

fn fault_name(f: &Fault) -> String {
    let n = |e: &i32| std::io::Error::from_raw_os_error(*e).to_string();
    match f {
        Fault::Errno(e) => format!("fails with {}", n(e)),
        Fault::Always(e) => format!("keeps failing with {}", n(e)),
        Fault::After(e) => format!("is done and reports {}", n(e)),
        Fault::Short(k) => format!("transfers {} byte(s)", k),
    }
}

pub fn c13(run: &Run) {
    if run.shard.is_none() {
        in_shards(run);
        if run.get("workers_out_of_time") > 0 {
            run.cut.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        run.note("rule", "each scenario is recorded system call by system call; each evaluation replays it with another sequence of faults (call number, error or short transfer), no sequence twice; it is non-trivial if every fault of the sequence was reached and injected");
        run.note("bounds", "13 scenarios; every single fault and every sequence of two faults in all of them (thorough: of three faults in six of them); the last error of a sequence once alone and once for every later call of the kind; fewer faults first, 400 s (thorough 4 h)");
        run.assume("errors are those that Linux documents for the call and its kind of file descriptor; exhausted memory in the allocator, which ends every Rust program, is not injected");
        run.assume("dot itself (a stand-in that records its input) runs without faults: its own failures are the subject of C12");
        return;
    }
    unsafe {
        libc::prctl(libc::PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    }
    let b = Bench::new(&format!("C13-{}", run.shard.unwrap().0));
    let sh = Shared::new();
    let g = Guard::new();
    let until = std::time::Instant::now() + std::time::Duration::from_secs(run.q(400, 4 * 3600));
    let mut n = Count { runs: 0, syscalls: 0, missed: 0, again: 0, cut: false };
    for depth in 1..=3 {
        for sc in scenes(&b) {
            if depth <= run.q(sc.quick, sc.thorough) {
                b.script(&sc.script.text());
                explore(run, &sc, &b, &sh, g, &[], depth, &mut n, until);
            }
        }
    }
    run.count("evaluations", n.runs);
    run.count("distinct_nontrivial", n.runs - n.missed - n.again);
    if n.cut {
        run.count("workers_out_of_time", 1);
    }
    run.count("system_calls_executed", n.syscalls);
    run.count("faults_not_reached", n.missed);
}
