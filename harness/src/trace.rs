//! Runs code under a system-call tracer: children are forked, every system call of theirs (and of
//! the processes and threads they start) stops, and can be looked at, changed or delayed.
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::*};

pub const MARK: i64 = 0x7ead_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    /// the call is not made and fails
    Errno(i32),
    /// this call and every later one of its kind fails
    Always(i32),
    /// the call is made, and fails all the same
    After(i32),
    /// the call transfers at most this much
    Short(u64),
}

#[derive(Clone, Debug)]
pub struct Sys {
    pub nr: i64,
    pub desc: String,
    pub faults: Vec<Fault>,
    pub id: (i64, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
    Died(i32),
    Hang,
}

/// Memory shared with the tracee: outcomes of up to four calls.
pub struct Shared {
    base: *mut u8,
}
const PART: usize = 2 << 20;
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl Shared {
    pub fn new() -> Shared {
        let base = unsafe { libc::mmap(std::ptr::null_mut(), 4 * PART, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(base != libc::MAP_FAILED);
        Shared { base: base as *mut u8 }
    }
    pub fn clear(&self) {
        for k in 0..4 {
            unsafe { *(self.base.add(k * PART) as *mut u64) = 0 }
        }
    }
    pub fn put(&self, k: usize, o: &Outcome, fds: (usize, usize)) {
        let (t, b): (u64, &[u8]) = match o {
            Outcome::Ok(b) => (1, b),
            Outcome::Err(s) => (2, s.as_bytes()),
            Outcome::Panic(s) => (3, s.as_bytes()),
            _ => unreachable!(),
        };
        unsafe {
            let p = self.base.add(k * PART);
            let n = b.len().min(PART - 64);
            *(p.add(8) as *mut u64) = n as u64;
            *(p.add(16) as *mut u64) = fds.0 as u64;
            *(p.add(24) as *mut u64) = fds.1 as u64;
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(64), n);
            *(p as *mut u64) = t;
        }
    }
    pub fn get(&self, k: usize) -> Option<(Outcome, (usize, usize))> {
        unsafe {
            let p = self.base.add(k * PART);
            let n = *(p.add(8) as *const u64) as usize;
            let f = (*(p.add(16) as *const u64) as usize, *(p.add(24) as *const u64) as usize);
            let t = *(p as *const u64);
            if t == 0 {
                return None;
            }
            let b = std::slice::from_raw_parts(p.add(64), n).to_vec();
            let s = String::from_utf8_lossy(&b).to_string();
            Some((
                match t {
                    1 => Outcome::Ok(b),
                    2 => Outcome::Err(s),
                    _ => Outcome::Panic(s),
                },
                f,
            ))
        }
    }
}

/// Ends a group of processes that takes too long.
pub struct Guard {
    pid: AtomicI32,
    until: AtomicU64,
    pub fired: AtomicI32,
    start: std::time::Instant,
}
impl Guard {
    pub fn new() -> &'static Guard {
        let g: &'static Guard = Box::leak(Box::new(Guard { pid: 0.into(), until: 0.into(), fired: 0.into(), start: std::time::Instant::now() }));
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(50));
            let u = g.until.load(SeqCst);
            if u != 0 && g.start.elapsed().as_millis() as u64 > u {
                g.until.store(0, SeqCst);
                g.fired.store(1, SeqCst);
                let p = g.pid.load(SeqCst);
                unsafe {
                    libc::kill(-p, libc::SIGKILL);
                    libc::kill(p, libc::SIGKILL);
                }
            }
        });
        g
    }
    pub fn arm(&self, pid: i32, ms: u64) {
        self.fired.store(0, SeqCst);
        self.pid.store(pid, SeqCst);
        self.until.store(self.start.elapsed().as_millis() as u64 + ms, SeqCst);
    }
    pub fn disarm(&self) -> bool {
        self.until.store(0, SeqCst);
        self.fired.load(SeqCst) != 0
    }
}

pub fn mark(k: i64) {
    unsafe {
        libc::syscall(libc::SYS_getpgid, MARK + k);
    }
}

/// From here on only these system calls (of the process and of those it starts) stop for the tracer.
pub fn only(calls: &[i64]) {
    unsafe {
        let op = |code: u32, jt: u8, jf: u8, k: u32| libc::sock_filter { code: code as u16, jt, jf, k };
        let mut f = vec![op(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, 0, 0, 0)];
        for c in calls {
            f.push(op(libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K, 0, 1, *c as u32));
            f.push(op(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_TRACE));
        }
        f.push(op(libc::BPF_RET | libc::BPF_K, 0, 0, libc::SECCOMP_RET_ALLOW));
        let prog = libc::sock_fprog { len: f.len() as u16, filter: f.as_mut_ptr() };
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &prog) != 0 {
            libc::_exit(96);
        }
    }
}

/// Forks a child that stops, is traced, and then runs `f`.
pub fn fork_traced(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::setpgid(0, 0);
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                libc::_exit(97);
            }
            libc::raise(libc::SIGSTOP);
            f();
            libc::_exit(0);
        }
        libc::setpgid(pid, pid);
        let mut st = 0;
        assert_eq!(libc::waitpid(pid, &mut st, libc::__WALL), pid);
        assert!(libc::WIFSTOPPED(st), "no tracing here: status {:x}", st);
        let opt = libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_TRACEFORK | libc::PTRACE_O_TRACEVFORK | libc::PTRACE_O_TRACECLONE | libc::PTRACE_O_TRACEEXEC | libc::PTRACE_O_EXITKILL | libc::PTRACE_O_TRACESECCOMP;
        assert_eq!(libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opt), 0);
        pid
    }
}

pub fn go(pid: i32, sig: i32) {
    unsafe {
        libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig as i64);
    }
}
pub fn step(pid: i32, sig: i32) {
    unsafe {
        libc::ptrace(libc::PTRACE_SINGLESTEP, pid, 0, sig as i64);
    }
}
pub fn cont(pid: i32, sig: i32) {
    unsafe {
        libc::ptrace(libc::PTRACE_CONT, pid, 0, sig as i64);
    }
}
pub fn regs(pid: i32) -> Option<libc::user_regs_struct> {
    unsafe {
        let mut r: libc::user_regs_struct = std::mem::zeroed();
        (libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r) == 0).then_some(r)
    }
}
pub fn set_regs(pid: i32, r: &libc::user_regs_struct) {
    unsafe {
        libc::ptrace(libc::PTRACE_SETREGS, pid, 0, r);
    }
}
pub fn string_at(pid: i32, addr: u64) -> String {
    let mut out = vec![];
    let mut a = addr;
    unsafe {
        'o: while out.len() < 4096 {
            *libc::__errno_location() = 0;
            let w = libc::ptrace(libc::PTRACE_PEEKDATA, pid, a, 0);
            if w == -1 && *libc::__errno_location() != 0 {
                break;
            }
            for b in w.to_ne_bytes() {
                if b == 0 {
                    break 'o;
                }
                out.push(b);
            }
            a += 8;
        }
    }
    String::from_utf8_lossy(&out).to_string()
}
pub fn fd_link(pid: i32, fd: u64) -> String {
    std::fs::read_link(format!("/proc/{}/fd/{}", pid, fd as i32)).map(|p| p.display().to_string()).unwrap_or_default()
}
fn glance(pid: i32, what: &str, buf: &mut [u8; 200]) -> usize {
    let p = format!("/proc/{}/{}\0", pid, what);
    unsafe {
        let fd = libc::open(p.as_ptr() as *const _, libc::O_RDONLY | libc::O_CLOEXEC);
        if fd < 0 {
            return 0;
        }
        let n = libc::read(fd, buf.as_mut_ptr() as *mut _, 200);
        libc::close(fd);
        n.max(0) as usize
    }
}
/// The state letter of a process or thread.
pub fn state(pid: i32) -> char {
    let mut b = [0u8; 200];
    let n = glance(pid, "stat", &mut b);
    // "pid (name) S": the name is short and may hold anything
    match b[..n].iter().take(40).rposition(|c| *c == b')') {
        Some(i) if i + 2 < n => b[i + 2] as char,
        _ => 'X',
    }
}
/// Is it really asleep? (A call that may sleep says so for a moment even if it need not.)
pub fn asleep(pid: i32) -> bool {
    state(pid) == 'S' && {
        let mut b = [0u8; 200];
        let n = glance(pid, "syscall", &mut b);
        n > 0 && (b[0].is_ascii_digit() || b[0] == b'-') && state(pid) == 'S'
    }
}
pub fn names(nr: i64) -> String {
    let t: &[(i64, &str)] = &[
        (libc::SYS_read, "read"),
        (libc::SYS_write, "write"),
        (libc::SYS_writev, "writev"),
        (libc::SYS_pwrite64, "pwrite"),
        (libc::SYS_open, "open"),
        (libc::SYS_openat, "openat"),
        (libc::SYS_creat, "creat"),
        (libc::SYS_close, "close"),
        (libc::SYS_pipe, "pipe"),
        (libc::SYS_pipe2, "pipe2"),
        (libc::SYS_socketpair, "socketpair"),
        (libc::SYS_dup, "dup"),
        (libc::SYS_dup2, "dup2"),
        (libc::SYS_dup3, "dup3"),
        (libc::SYS_fcntl, "fcntl"),
        (libc::SYS_clone, "clone"),
        (libc::SYS_clone3, "clone3"),
        (libc::SYS_fork, "fork"),
        (libc::SYS_vfork, "vfork"),
        (libc::SYS_execve, "execve"),
        (libc::SYS_poll, "poll"),
        (libc::SYS_ppoll, "ppoll"),
        (libc::SYS_wait4, "wait4"),
        (libc::SYS_waitid, "waitid"),
        (libc::SYS_unlink, "unlink"),
        (libc::SYS_unlinkat, "unlinkat"),
        (libc::SYS_rename, "rename"),
        (libc::SYS_renameat, "renameat"),
        (libc::SYS_renameat2, "renameat2"),
        (libc::SYS_mkdir, "mkdir"),
        (libc::SYS_mkdirat, "mkdirat"),
        (libc::SYS_rmdir, "rmdir"),
        (libc::SYS_fsync, "fsync"),
        (libc::SYS_fdatasync, "fdatasync"),
        (libc::SYS_ftruncate, "ftruncate"),
        (libc::SYS_truncate, "truncate"),
        (libc::SYS_lseek, "lseek"),
        (libc::SYS_fchmod, "fchmod"),
        (libc::SYS_chmod, "chmod"),
        (libc::SYS_fchmodat, "fchmodat"),
        (libc::SYS_link, "link"),
        (libc::SYS_linkat, "linkat"),
        (libc::SYS_symlink, "symlink"),
        (libc::SYS_symlinkat, "symlinkat"),
        (libc::SYS_stat, "stat"),
        (libc::SYS_lstat, "lstat"),
        (libc::SYS_fstat, "fstat"),
        (libc::SYS_statx, "statx"),
        (libc::SYS_newfstatat, "newfstatat"),
        (libc::SYS_access, "access"),
        (libc::SYS_faccessat, "faccessat"),
        (libc::SYS_faccessat2, "faccessat2"),
        (libc::SYS_readlink, "readlink"),
        (libc::SYS_readlinkat, "readlinkat"),
        (libc::SYS_getcwd, "getcwd"),
        (libc::SYS_chdir, "chdir"),
        (libc::SYS_fchdir, "fchdir"),
        (libc::SYS_flock, "flock"),
        (libc::SYS_getrandom, "getrandom"),
        (libc::SYS_mmap, "mmap"),
        (libc::SYS_munmap, "munmap"),
        (libc::SYS_ioctl, "ioctl"),
        (libc::SYS_futex, "futex"),
        (libc::SYS_nanosleep, "nanosleep"),
        (libc::SYS_clock_nanosleep, "clock_nanosleep"),
        (libc::SYS_exit, "exit"),
        (libc::SYS_exit_group, "exit_group"),
        (libc::SYS_getdents64, "getdents64"),
        (libc::SYS_sendfile, "sendfile"),
        (libc::SYS_copy_file_range, "copy_file_range"),
        (libc::SYS_splice, "splice"),
        (libc::SYS_pread64, "pread"),
        (libc::SYS_readv, "readv"),
        (libc::SYS_memfd_create, "memfd_create"),
        (libc::SYS_kill, "kill"),
        (libc::SYS_pidfd_open, "pidfd_open"),
        (libc::SYS_umask, "umask"),
    ];
    t.iter().find(|x| x.0 == nr).map(|x| x.1.to_string()).unwrap_or_else(|| format!("syscall {}", nr))
}
