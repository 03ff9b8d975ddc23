//! Which memory does an x86-64 instruction touch? Only what the step-by-step scheduler needs.

/// Writable static memory of this program, and its code.
pub struct Layout {
    data: Vec<(u64, u64)>,
    code: Vec<(u64, u64)>,
}
impl Layout {
    pub fn new() -> Layout {
        let exe = std::fs::read_link("/proc/self/exe").unwrap().display().to_string();
        let (mut data, mut code) = (vec![], vec![]);
        let mut end = 0;
        for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
            let p: Vec<&str> = l.split_whitespace().collect();
            let (a, b) = p[0].split_once('-').unwrap();
            let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
            let mine = p.get(5).map(|x| *x == exe).unwrap_or(false);
            // what follows the last part of the program without a name is its zeroed memory
            let bss = p.len() == 5 && a == end && end != 0;
            if mine || bss {
                if p[1].starts_with("rw") {
                    data.push((a, b));
                }
                if p[1].contains('x') {
                    code.push((a, b));
                }
                end = b;
            }
        }
        Layout { data, code }
    }
    pub fn base(&self) -> u64 {
        self.code[0].0
    }
    /// Does the instruction that comes next touch static memory, or memory atomically?
    pub fn shared(&self, r: &libc::user_regs_struct) -> bool {
        let Some((_, end)) = self.code.iter().find(|c| r.rip >= c.0 && r.rip + 16 < c.1) else { return false };
        let _ = end;
        // the traced process was forked from this one: the code is the same
        let code = unsafe { std::slice::from_raw_parts(r.rip as *const u8, 16) };
        match touches(code, r) {
            Some((ea, locked)) => locked || self.data.iter().any(|d| ea >= d.0 && ea < d.1),
            None => false,
        }
    }
}

fn reg(r: &libc::user_regs_struct, i: u8) -> u64 {
    match i {
        0 => r.rax,
        1 => r.rcx,
        2 => r.rdx,
        3 => r.rbx,
        4 => r.rsp,
        5 => r.rbp,
        6 => r.rsi,
        7 => r.rdi,
        8 => r.r8,
        9 => r.r9,
        10 => r.r10,
        11 => r.r11,
        12 => r.r12,
        13 => r.r13,
        14 => r.r14,
        _ => r.r15,
    }
}

/// The address of the memory operand, and whether the access is atomic.
fn touches(c: &[u8], r: &libc::user_regs_struct) -> Option<(u64, bool)> {
    let (mut i, mut lock, mut small, mut rex) = (0, false, false, 0u8);
    loop {
        match c[i] {
            0xf0 => lock = true,
            0x66 => small = true,
            0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => {}
            // thread-local
            0x64 | 0x65 => return None,
            _ => break,
        }
        i += 1;
    }
    if c[i] & 0xf0 == 0x40 {
        rex = c[i];
        i += 1;
    }
    let mut map = 0;
    let op;
    match c[i] {
        0x0f => {
            i += 1;
            map = 1;
            if c[i] == 0x38 || c[i] == 0x3a {
                map = if c[i] == 0x38 { 2 } else { 3 };
                i += 1;
            }
            op = c[i];
            i += 1;
        }
        0xc5 => {
            rex = if c[i + 1] & 0x80 == 0 { 4 } else { 0 };
            op = c[i + 2];
            map = 1;
            i += 3;
        }
        0xc4 => {
            rex = !(c[i + 1] >> 5) & 7;
            map = c[i + 1] & 0x1f;
            op = c[i + 3];
            i += 4;
        }
        0x62 => return None,
        x => {
            op = x;
            i += 1;
        }
    }
    let modrm = match map {
        0 => match op {
            0x00..=0x3f => op & 7 < 4,
            0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
            _ => false,
        },
        1 => !matches!(op, 0x05 | 0x06 | 0x08 | 0x09 | 0x0b | 0x0d | 0x18..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf),
        _ => true,
    };
    if !modrm {
        return None;
    }
    let m = c[i];
    i += 1;
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return None;
    }
    let mut ea;
    let disp32 = |i: usize| i32::from_le_bytes([c[i], c[i + 1], c[i + 2], c[i + 3]]) as i64 as u64;
    if rm == 4 {
        let sib = c[i];
        i += 1;
        let (sc, ix, bs) = (sib >> 6, (sib >> 3) & 7 | (rex & 2) << 2, sib & 7);
        ea = if ix == 4 { 0 } else { reg(r, ix) << sc };
        if bs == 5 && md == 0 {
            ea = ea.wrapping_add(disp32(i));
            i += 4;
        } else {
            ea = ea.wrapping_add(reg(r, bs | (rex & 1) << 3));
        }
    } else if rm == 5 && md == 0 {
        let d = disp32(i);
        i += 4;
        let imm = match (map, op) {
            (0, 0x80 | 0x83 | 0xc0 | 0xc1 | 0xc6 | 0x6b) => 1,
            (0, 0xf6) if m & 0x38 == 0 => 1,
            (0, 0x81 | 0xc7 | 0x69) => 4 - 2 * small as u64,
            (0, 0xf7) if m & 0x38 == 0 => 4 - 2 * small as u64,
            (1, 0x70..=0x73 | 0xa4 | 0xac | 0xba | 0xc2 | 0xc4..=0xc6) | (3, _) => 1,
            _ => 0,
        };
        ea = (r.rip + i as u64 + imm).wrapping_add(d);
    } else {
        ea = reg(r, rm | (rex & 1) << 3);
    }
    if md == 1 {
        ea = ea.wrapping_add(c[i] as i8 as i64 as u64);
    } else if md == 2 {
        ea = ea.wrapping_add(disp32(i));
    }
    // exchanging with memory is atomic without saying so
    let atomic = lock || map == 0 && matches!(op, 0x86 | 0x87);
    Some((ea, atomic))
}
