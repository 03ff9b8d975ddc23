//! Running a check: worker threads, watchdog, violations, known findings, evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const MAX_VIOLATIONS: usize = 5;
/// A single call of the code under test that runs longer than this has not returned "promptly".
pub const HANG_S: u64 = 30;

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub seed: i64,
    pub start: Instant,
    pub level: &'static str,
    viol: Mutex<Vec<(String, String)>>,
    known_hit: Mutex<HashSet<String>>,
    known: BTreeMap<String, String>,
    /// time ran out before everything was explored
    pub cut: AtomicBool,
    pub stop: std::sync::Arc<AtomicBool>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    pub assumptions: Mutex<Vec<String>>,
    notes: Mutex<Vec<(String, String)>>,
    slots: Vec<Slot>,
    /// this process' share of the space (k of n), for checks that run in several processes
    pub shard: Option<(usize, usize)>,
    next_slot: AtomicUsize,
}

#[derive(Default)]
struct Slot {
    since: AtomicU64,
    what: Mutex<String>,
}

const BOX: usize = 64 << 10;
static BOXES: AtomicUsize = AtomicUsize::new(0);

/// Memory shared with the supervisor: what each slot is calling right now (length, bytes).
fn put_box(slot: usize, what: Option<&str>) {
    let base = BOXES.load(Relaxed);
    if base == 0 {
        return;
    }
    unsafe {
        let p = (base + slot * BOX) as *mut u8;
        match what {
            None => *(p as *mut u64) = 0,
            Some(w) => {
                let n = w.len().min(BOX - 8);
                std::ptr::copy_nonoverlapping(w.as_ptr(), p.add(8), n);
                *(p as *mut u64) = n as u64 + 1;
            }
        }
    }
}

/// Runs the check in a child process: if the code under test kills the process (stack overflow,
/// abort, exhausted memory) that is a violation, not a failure of the check.
pub fn supervise(id: &str, thorough: bool, shard: Option<(usize, usize)>) {
    unsafe {
        let base = libc::mmap(
            std::ptr::null_mut(),
            256 * BOX,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if base == libc::MAP_FAILED {
            return;
        }
        BOXES.store(base as usize, Relaxed);
        let pid = libc::fork();
        if pid < 0 {
            return;
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            return;
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            std::process::exit(libc::WEXITSTATUS(st));
        }
        let sig = libc::WTERMSIG(st);
        let mut all = vec![];
        for s in 0..256 {
            let p = (base as usize + s * BOX) as *const u8;
            let n = *(p as *const u64);
            if n > 0 {
                let b = std::slice::from_raw_parts(p.add(8), n as usize - 1);
                all.push(String::from_utf8_lossy(b).to_string());
            }
        }
        if all.is_empty() || sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
            eprintln!("the check was ended by signal {}", sig);
            std::process::exit(2);
        }
        let mut run = Run::new(id, thorough);
        run.shard = shard;
        run.violation(
            "crash",
            &format!("the process died with signal {} while calling: {}", sig, short(&all[0], 200)),
            &all.join("\n--- or\n"),
        );
        std::process::exit(run.finish());
    }
}

pub fn verif() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let k = n / 2;
        let head: String = s.chars().take(k).collect();
        let tail: String = s.chars().skip(s.chars().count() - k).collect();
        format!("{} ...[{} bytes]... {}", head, s.len(), tail)
    }
}

impl Run {
    pub fn new(id: &str, thorough: bool) -> Run {
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", verif())) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&format!("known: property={} key=", id)) {
                    if let Some((k, d)) = r.split_once(" | ") {
                        known.insert(k.to_string(), d.to_string());
                    }
                }
            }
        }
        Run {
            id: id.into(),
            thorough,
            seed: std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1),
            start: Instant::now(),
            level: "model_checking",
            viol: Mutex::new(vec![]),
            known_hit: Mutex::new(HashSet::new()),
            known,
            cut: AtomicBool::new(false),
            stop: std::sync::Arc::new(AtomicBool::new(false)),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            shard: None,
            slots: (0..256).map(|_| Slot::default()).collect(),
            next_slot: AtomicUsize::new(1),
        }
    }
    /// quick value or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// `key` identifies the failing case for the known-findings file; `replay` is a replayable case.
    pub fn violation(&self, key: &str, msg: &str, replay: &str) {
        if self.shard.is_some() {
            let mut v = self.viol.lock().unwrap();
            if v.len() >= MAX_VIOLATIONS {
                self.stop.store(true, Relaxed);
                return;
            }
            println!("V\t{}\t{}\t{}", crate::cg::esc(key), crate::cg::esc(msg), crate::cg::esc(replay));
            v.push((key.into(), msg.into()));
            return;
        }
        if let Some(d) = self.known.get(key) {
            if self.known_hit.lock().unwrap().insert(key.to_string()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.id, d, key);
            }
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
            return;
        }
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.txt", dir, self.id, v.len() + 1);
        let _ = std::fs::write(
            &path,
            format!("property: {}\nkey: {}\nwhat: {}\n--- replay\n{}\n", self.id, key, msg, replay),
        );
        println!("VIOLATION property={} replay={} :: {}", self.id, path, short(&msg.replace('\n', "\\n"), 400));
        v.push((key.to_string(), msg.to_string()));
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        *self.counters.lock().unwrap().get(name).unwrap_or(&0)
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 40 {
            v.push(short(&s.into(), 600));
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, k: &str, v: impl Into<String>) {
        self.notes.lock().unwrap().push((k.into(), v.into()));
    }

    /// A guarded call of the code under test: panics are caught, hangs are seen by the watchdog.
    pub fn call<T>(&self, slot: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        {
            let mut w = self.slots[slot].what.lock().unwrap();
            w.clear();
            w.push_str(what);
        }
        put_box(slot, Some(what));
        self.slots[slot]
            .since
            .store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.slots[slot].since.store(0, Relaxed);
        put_box(slot, None);
        r.map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into())
        })
    }

    pub fn watchdog(self: &std::sync::Arc<Self>) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = me.start.elapsed().as_millis() as u64;
            for s in &me.slots {
                let t = s.since.load(Relaxed);
                if t != 0 && now > t + HANG_S * 1000 {
                    let w = s.what.lock().unwrap().clone();
                    me.violation(
                        &format!("hang:{}", short(&w, 100)),
                        &format!("a call did not return within {} s: {}", HANG_S, short(&w, 300)),
                        &w,
                    );
                    std::process::exit(me.finish());
                }
            }
        });
    }

    pub fn slot(&self) -> usize {
        self.next_slot.fetch_add(1, Relaxed) % 256
    }

    /// Run `f(slot, i)` for every `i < n` on all cores.
    pub fn par(&self, n: usize, chunk: usize, f: impl Fn(usize, usize) + Sync) {
        if let Some((k, of)) = self.shard {
            let slot = self.slot();
            for i in (k..n).step_by(of) {
                if self.stopped() {
                    break;
                }
                f(slot, i);
            }
            return;
        }
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(n.max(1));
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..workers)
                .map(|_| {
                    let slot = self.slot();
                    let next = &next;
                    let f = &f;
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(sc, move || loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            for k in i..(i + chunk).min(n) {
                                f(slot, k);
                            }
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                if let Err(e) = h.join() {
                    std::panic::resume_unwind(e);
                }
            }
        });
    }

    /// Writes the evidence file; the exit status.
    pub fn finish(&self) -> i32 {
        let v = self.viol.lock().unwrap();
        if self.shard.is_some() {
            for (k, n) in self.counters.lock().unwrap().iter() {
                println!("COUNT\t{}\t{}", k, n);
            }
            for s in self.samples.lock().unwrap().iter().filter(|_| self.shard.unwrap().0 == 0) {
                println!("SAMPLE\t{}", crate::cg::esc(s));
            }
            return !v.is_empty() as i32;
        }
        let tier = if self.thorough { "thorough" } else { "quick" };
        let c = self.counters.lock().unwrap();
        let mut cov: Vec<String> = c.iter().map(|(k, v)| format!("    {}: {}", jstr(k), v)).collect();
        let s = self.samples.lock().unwrap();
        cov.push(format!(
            "    \"samples\": [{}]",
            s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ")
        ));
        for (k, x) in self.notes.lock().unwrap().iter() {
            cov.push(format!("    {}: {}", jstr(k), jstr(x)));
        }
        cov.push(format!("    \"exhaustive\": {}", !self.stopped() && !self.cut.load(Relaxed)));
        let a = self.assumptions.lock().unwrap();
        let out = format!(
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"{}\",\n  \"coverage\": {{\n{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            jstr(&self.id),
            tier,
            self.seed,
            self.level,
            cov.join(",\n"),
            a.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            v.len()
        );
        let dir = format!("{}/evidence", verif());
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.id), out) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
        if v.is_empty() {
            println!("{} {}: held on everything explored: {:?} in {:.1} s", self.id, tier, *c, self.start.elapsed().as_secs_f64());
            0
        } else {
            1
        }
    }
}
