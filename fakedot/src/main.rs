//! The scripted `dot`: records how it was called and does what the script says.
//! It lives in <dir>/bin/dot; the script is <dir>/script, records are <dir>/rec.<pid>.
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::FileTypeExt;
use std::time::Duration;

fn pat(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + i / 256 + salt) % 256) as u8).collect()
}
fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn sleep(ms: u64) {
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms))
    }
}

/// Tells a tracer what comes next; nothing to anyone else.
fn mark(k: i64) {
    unsafe {
        libc::syscall(libc::SYS_getpgid, 0x7ead_0000 + k);
    }
}

fn main() {
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    let dir = exe.parent().unwrap().parent().unwrap().to_path_buf();
    let pid = std::process::id();
    let script = std::fs::read_to_string(dir.join("script")).unwrap_or_default();
    let get = |k: &str| script.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('='))).map(|s| s.to_string());
    let num = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);

    let mut gates = if num("gate") == 1 {
        let g = File::open(dir.join(format!("gate.{}", pid))).unwrap();
        let a = std::fs::OpenOptions::new().write(true).open(dir.join(format!("ack.{}", pid))).unwrap();
        Some((g, a))
    } else {
        None
    };
    let mut ack = false;
    let mut gate = || {
        if let Some((g, a)) = &mut gates {
            if ack {
                a.write_all(b"a").unwrap();
            }
            ack = true;
            let mut b = [0u8];
            if g.read(&mut b).unwrap_or(0) == 0 {
                std::process::exit(99);
            }
        }
    };

    gate(); // R: read the input
    sleep(num("delay"));
    mark(9);
    let args: Vec<Vec<u8>> = std::env::args_os().skip(1).map(|a| a.as_bytes().to_vec()).collect();
    let mut rec: Vec<u8> = vec![];
    let mut put = |tag: u8, b: &[u8]| {
        rec.push(tag);
        rec.extend((b.len() as u64).to_le_bytes());
        rec.extend(b);
    };
    let mut input: Vec<u8> = vec![];
    for a in &args {
        put(b'A', a);
        let p = std::path::Path::new(std::ffi::OsStr::from_bytes(a));
        if p.is_absolute() || !a.starts_with(b"-") {
            if let Ok(m) = std::fs::metadata(p) {
                if m.is_file() {
                    if let Ok(b) = File::open(p).and_then(|mut f| {
                        mark(10);
                        let mut b = vec![];
                        f.read_to_end(&mut b).map(|_| b)
                    }) {
                        put(b'F', &b);
                        input.extend(b);
                    }
                }
            }
        }
    }
    // standard input: anything but /dev/null is read to its end
    let null = std::fs::metadata("/dev/stdin").map(|m| m.file_type().is_char_device()).unwrap_or(true);
    if !null {
        let mut b = vec![];
        let _ = std::io::stdin().read_to_end(&mut b);
        put(b'I', &b);
        input.extend(b);
    }
    put(b'C', std::env::current_dir().map(|d| d.as_os_str().as_bytes().to_vec()).unwrap_or_default().as_slice());
    put(b'E', std::env::var_os("MC_ENV").map(|d| d.as_bytes().to_vec()).unwrap_or_default().as_slice());
    let tmp = dir.join(format!("tmp.rec.{}", pid));
    std::fs::write(&tmp, &rec).unwrap();
    std::fs::rename(&tmp, dir.join(format!("rec.{}", pid))).unwrap();

    // go on only once this many have come so far
    let meet = num("meet");
    if meet > 0 {
        let all = dir.join("all");
        let mut waited = 0;
        while !all.exists() {
            let n = std::fs::read_dir(&dir).unwrap().flatten().filter(|e| e.file_name().as_bytes().starts_with(b"rec.")).count();
            if n as u64 >= meet {
                let _ = File::create(&all);
                break;
            }
            if waited > 20_000 {
                std::process::exit(98);
            }
            sleep(10);
            waited += 10;
        }
    }

    gate(); // W: write the output
    let mut out = pat(num("out") as usize, 0);
    if let Some(h) = get("outx") {
        out = hex(&h);
    }
    if num("echo") == 1 {
        // options and input, in a form in which a mixture of two calls shows
        for a in &args {
            if a.starts_with(b"-") {
                out.extend(a);
                out.push(b'\n');
            }
        }
        out.push(b'>');
        out.extend(&input);
    }
    let mut err = pat(num("err") as usize, 3);
    if let Some(h) = get("errx") {
        err = hex(&h);
    }
    if num("echoerr") == 1 {
        err.extend(b"E>");
        err.extend(&input);
    }
    let w = |fd: i32, b: &[u8]| unsafe {
        let mut b = b;
        while !b.is_empty() {
            let n = libc::write(fd, b.as_ptr() as *const _, b.len());
            if n <= 0 {
                break;
            }
            b = &b[n as usize..];
        }
    };
    mark(11);
    match get("order").as_deref() {
        Some("eo") => {
            w(2, &err);
            w(1, &out);
        }
        Some("mix") => {
            let n = out.len().max(err.len());
            let mut i = 0;
            while i < n {
                let j = i + 1000;
                if i < out.len() {
                    w(1, &out[i..j.min(out.len())]);
                }
                if i < err.len() {
                    w(2, &err[i..j.min(err.len())]);
                }
                i = j;
            }
        }
        _ => {
            w(1, &out);
            w(2, &err);
        }
    }
    gate(); // X: exit
    mark(12);
    if num("early") == 1 {
        unsafe {
            libc::close(1);
            libc::close(2);
        }
    }
    sleep(num("mid"));
    if num("sig") > 0 {
        unsafe {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::signal(num("sig") as i32, libc::SIG_DFL);
            libc::kill(libc::getpid(), num("sig") as i32);
            sleep(1000);
        }
    }
    let mut code = num("code") as i32;
    if let Some(m) = get("failif") {
        // fail if the input contains this text
        if input.windows(m.len()).any(|w| w == m.as_bytes()) {
            code = 3;
        }
    }
    unsafe { libc::_exit(code) }
}
