//! The simulated vehicle: ECUs with their own clocks send log messages over lossy links to a logger that
//! appends them to a disk, crashes and restarts; the disk suffers faults. A discrete-event simulation
//! decides the history; the history is kept as explicit events from which the log bytes are built.
use crate::case::{Case, Ev};
use crate::model::MARK;
use crate::rng::Rng;
use std::collections::{BTreeMap, BinaryHeap};

// ------------------------------------------------------------- the history
/// arguments of a `msg` event
pub const A_ECU: usize = 0;
pub const A_SECS: usize = 1;
pub const A_USEC: usize = 2;
pub const A_HTYP: usize = 3;
pub const A_MCNT: usize = 4;
pub const A_HECU: usize = 5;
pub const A_SEID: usize = 6;
pub const A_TMSP: usize = 7;
pub const A_MSIN: usize = 8;
pub const A_NOAR: usize = 9;
pub const A_APID: usize = 10;
pub const A_CTID: usize = 11;
pub const A_PKIND: usize = 12;
pub const A_PLEN: usize = 13;
pub const A_PSEED: usize = 14;
/// declared length + 1 to which the message is cut or padded; 0: as long as it is
pub const A_LEN: usize = 15;
pub const NARGS: usize = 16;

pub const NPKIND: i64 = 17;
pub fn payload(kind: i64, seed: i64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(&[seed as u64, 77]);
    let text = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| *r.pick(b"abcdefgh ijklo wrz ,.-0123")).collect() };
    let mut v = text(&mut r, len);
    let put = |v: &mut Vec<u8>, at: usize, s: &[u8]| {
        let at = at.min(v.len());
        let n = s.len().min(v.len() - at);
        v[at..at + n].copy_from_slice(&s[..n]);
    };
    let at = r.below(len as u64 + 1) as usize;
    match kind.rem_euclid(NPKIND) {
        0 => {}
        1 => put(&mut v, at.min(len.saturating_sub(11)), b"Hello World"),
        2 => put(&mut v, at.min(len.saturating_sub(14)), b"Hola, xx World"),
        3 => v = (0..len).map(|_| r.below(256) as u8).map(|b| if b == b'D' { 0 } else { b }).collect(),
        4 => {
            put(&mut v, at, &MARK);
            let a2 = r.below(len as u64 + 1) as usize;
            put(&mut v, a2, &MARK);
        }
        5 | 9 => {
            // a whole message (5) or one that claims to reach behind this one (9) inside the payload
            let room = len.saturating_sub(at);
            let mut m = MARK.to_vec();
            m.extend_from_slice(&(r.below(1 << 31) as u32).to_le_bytes());
            m.extend_from_slice(&[0; 4]);
            m.extend_from_slice(b"EMBD");
            let l = if kind.rem_euclid(NPKIND) == 5 {
                4 + r.below((room.saturating_sub(20)) as u64 + 1) as usize
            } else {
                room + r.below(120) as usize
            };
            m.extend_from_slice(&[*r.pick(&[0x20u8, 0x31, 0x3d, 0x35, 0x21]), 0]);
            m.extend_from_slice(&(l.min(65535) as u16).to_be_bytes());
            put(&mut v, at, &m);
        }
        6 => put(&mut v, len.saturating_sub(9), b"Hello Wor"),
        7 => put(&mut v, 0, b"ld and World"),
        8 => put(&mut v, len.saturating_sub(3), b"DLT"),
        10 => v = (0..len).map(|_| r.below(256) as u8).collect(),
        11 => put(&mut v, at, b"Hxx"),
        12 => {
            put(&mut v, at, b"\n");
            let a2 = r.below(len as u64 + 1) as usize;
            put(&mut v, a2, &[0xff, 0xc3]);
            put(&mut v, 0, b"H");
            put(&mut v, len.saturating_sub(6), b" World");
        }
        13 => v = vec![0; len],
        14 => {
            put(&mut v, 0, b"Hello World");
            put(&mut v, len.saturating_sub(11), b"Hello World");
        }
        15 => put(&mut v, len.saturating_sub(2), b"H "),
        // across the places where a reader may split a large message
        _ => {
            let fit: Vec<usize> = (6..17).filter(|k| (1usize << k) + 11 <= len).collect();
            let only = if !fit.is_empty() && r.chance(2, 3) { Some(*r.pick(&fit)) } else { None };
            for k in fit {
                if only.map_or(r.chance(1, 2), |o| o == k) {
                    let shift = if r.chance(1, 2) { 0 } else { r.below(48) as usize };
                    put(&mut v, ((1usize << k) - 1 - r.below(10) as usize).saturating_sub(shift), b"Hello World");
                }
            }
        }
    }
    v
}
pub fn id(x: i64) -> [u8; 4] {
    (x as u32).to_be_bytes()
}
/// the bytes of a message, storage header included
pub fn encode(e: &Ev) -> Vec<u8> {
    let mut v = MARK.to_vec();
    v.extend_from_slice(&(e.get(A_SECS) as u32).to_le_bytes());
    v.extend_from_slice(&(e.get(A_USEC) as i32).to_le_bytes());
    v.extend_from_slice(&id(e.get(A_ECU)));
    let h = e.get(A_HTYP) as u8;
    v.extend_from_slice(&[h, e.get(A_MCNT) as u8, 0, 0]);
    if h & 4 != 0 {
        v.extend_from_slice(&id(e.get(A_HECU)));
    }
    if h & 8 != 0 {
        v.extend_from_slice(&id(e.get(A_SEID)));
    }
    if h & 16 != 0 {
        v.extend_from_slice(&id(e.get(A_TMSP)));
    }
    if h & 1 != 0 {
        v.extend_from_slice(&[e.get(A_MSIN) as u8, e.get(A_NOAR) as u8]);
        v.extend_from_slice(&id(e.get(A_APID)));
        v.extend_from_slice(&id(e.get(A_CTID)));
    }
    let top = if e.get(A_LEN) > 0 { (e.get(A_LEN) as usize - 1).clamp(4, 65535) } else { 65535 };
    let room = top.saturating_sub(v.len() - 16);
    v.extend_from_slice(&payload(e.get(A_PKIND), e.get(A_PSEED), (e.get(A_PLEN).max(0) as usize).min(room)));
    if e.get(A_LEN) > 0 {
        v.resize((e.get(A_LEN) as usize - 1).clamp(4, 65535) + 16, 0x2e);
    }
    let l = (v.len() - 16) as u16;
    v[18..20].copy_from_slice(&l.to_be_bytes());
    v
}

/// The bytes of a log; one with a huge hole is sparse, like the file it stands for.
pub struct Store {
    ptr: *mut u8,
    len: usize,
    /// (where, how long)
    pub hole: Option<(usize, usize)>,
    /// the hole's content, if not zeros, is this block (mapped at the start) again and again
    block: usize,
}
/// size of a block and of each message in it
pub const BLOCK: usize = 16 << 20;
const BLOCK_MSG: usize = 1 << 16;
/// a block of large messages
fn ballast(seed: i64) -> Vec<u8> {
    let mut r = Rng::new(&[seed as u64, 78]);
    let (kinds, ids) = (1 + r.below(4) as usize, 1 + r.below(3) as i64);
    let htyp: Vec<i64> = (0..kinds).map(|_| *r.pick(&[0x31, 0x35, 0x3d, 0x20, 0x30, 0x21])).collect();
    let step = r.range(0, 3);
    let mut v = Vec::with_capacity(BLOCK);
    for k in 0..(BLOCK / BLOCK_MSG) as i64 {
        let ecu = 0x4241_4c30 + r.range(0, ids - 1);
        let h = *r.pick(&htyp);
        let a = [ecu, 1000 + k * step, k, h, k & 255, ecu, 7, k * step * 10_000, r.range(0, 255), 1, ecu, ecu, 13, 65535, k, (BLOCK_MSG - 16 + 1) as i64];
        v.extend_from_slice(&encode(&Ev::new("msg", &a)));
    }
    assert_eq!(v.len(), BLOCK);
    v
}
impl Store {
    /// `blocks` of large messages, then `v`
    fn heavy(v: Vec<u8>, block: Vec<u8>, blocks: usize) -> Store {
        unsafe {
            let n = blocks * BLOCK;
            let len = n + v.len();
            let fd = libc::memfd_create(b"ballast\0".as_ptr() as *const libc::c_char, 0);
            assert!(fd >= 0 && libc::ftruncate(fd, BLOCK as i64) == 0, "memfd");
            let m = libc::mmap(std::ptr::null_mut(), len, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(m != libc::MAP_FAILED, "no memory for a log of {} bytes", len);
            let ptr = m as *mut u8;
            for i in 0..blocks {
                let prot = if i == 0 { 3 } else { 1 };
                let at = ptr.add(i * BLOCK) as *mut _;
                assert!(libc::mmap(at, BLOCK, prot, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0) == at);
            }
            libc::close(fd);
            std::ptr::copy_nonoverlapping(block.as_ptr(), ptr, BLOCK);
            std::ptr::copy_nonoverlapping(v.as_ptr(), ptr.add(n), v.len());
            Store { ptr, len, hole: Some((0, n)), block: BLOCK }
        }
    }
    /// bytes without anything special
    pub fn plain(v: &[u8]) -> Store {
        Store::of(v.to_vec(), None)
    }
    pub fn block(&self) -> &[u8] {
        &self[..self.block]
    }
    fn of(v: Vec<u8>, hole: Option<(usize, usize)>) -> Store {
        match hole {
            None => {
                let b = v.into_boxed_slice();
                Store { len: b.len(), ptr: Box::into_raw(b) as *mut u8, hole, block: 0 }
            }
            Some((at, n)) => unsafe {
                let len = v.len() + n;
                let m = libc::mmap(std::ptr::null_mut(), len, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                assert!(m != libc::MAP_FAILED, "no memory for a log of {} bytes", len);
                let ptr = m as *mut u8;
                std::ptr::copy_nonoverlapping(v.as_ptr(), ptr, at);
                std::ptr::copy_nonoverlapping(v[at..].as_ptr(), ptr.add(at + n), v.len() - at);
                Store { ptr, len, hole, block: 0 }
            },
        }
    }
    /// the bytes around the hole
    pub fn digest(&self) -> u64 {
        let (at, n) = self.hole.unwrap_or((0, 0));
        let h = crate::rng::hash_bytes(n as u64, &self.block()[..self.block.min(1 << 18)]);
        crate::rng::hash_bytes(crate::rng::hash_bytes(h, &self[..at]), &self[at + n..])
    }
}
impl std::ops::Deref for Store {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        unsafe {
            match self.hole {
                None => drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.ptr, self.len))),
                Some(_) => {
                    libc::munmap(self.ptr as *mut _, self.len);
                }
            }
        }
    }
}

pub struct Built {
    pub bytes: Store,
    /// where messages were appended (kept up to date under insertions and removals)
    pub starts: Vec<usize>,
    pub faults: BTreeMap<&'static str, u64>,
}
#[derive(Default)]
struct Disk {
    bytes: Vec<u8>,
    starts: Vec<usize>,
    faults: BTreeMap<&'static str, u64>,
}
/// plays the history onto a fresh disk
pub fn build(c: &Case) -> Built {
    let mut w = disk(c);
    let blocks = c.get("ballast").clamp(0, 300) as usize;
    if blocks > 0 {
        let n = blocks * BLOCK;
        let starts = (0..n).step_by(BLOCK_MSG).chain(w.starts.iter().map(|s| s + n)).collect();
        *w.faults.entry("ballast").or_insert(0) += 1;
        let bytes = Store::heavy(w.bytes, ballast(c.get("ballast_seed")), blocks);
        return Built { bytes, starts, faults: w.faults };
    }
    let mut hole = None;
    let n = c.get("hole").clamp(0, 6 << 30) as usize;
    if n > 0 {
        let k = if w.starts.is_empty() { 0 } else { c.get("hole_at").rem_euclid(w.starts.len() as i64) as usize };
        let at = w.starts.get(k).copied().unwrap_or(w.bytes.len());
        for s in &mut w.starts {
            if *s >= at {
                *s += n;
            }
        }
        *w.faults.entry(if n > 1 << 30 { "huge_hole" } else { "hole" }).or_insert(0) += 1;
        hole = Some((at, n));
    }
    Built { bytes: Store::of(w.bytes, hole), starts: w.starts, faults: w.faults }
}
fn disk(c: &Case) -> Disk {
    let mut w = Disk::default();
    let mut synced = 0usize;
    const MAXLEN: usize = 260 << 20;
    for e in &c.ev {
        let n = w.bytes.len();
        let pos = |w: &Disk, mi: i64, d: i64| -> usize {
            let base = if w.starts.is_empty() { 0 } else { w.starts[mi.rem_euclid(w.starts.len() as i64) as usize] };
            (base as i64 + d).clamp(0, w.bytes.len() as i64) as usize
        };
        let mut hit = |w: &mut Disk, k: &'static str| *w.faults.entry(k).or_insert(0) += 1;
        match e.k.as_str() {
            "msg" => {
                let m = encode(e);
                w.starts.push(n);
                w.bytes.extend_from_slice(&m);
            }
            "junk" => {
                w.bytes.extend_from_slice(&e.d);
                hit(&mut w, "garbage_append");
            }
            // the same again, until the log is this long
            "rep" => {
                let k = (e.get(0).clamp(0, 8 << 20) as usize) / n.max(1);
                let m = w.starts.len();
                for i in 1..k {
                    w.bytes.extend_from_within(..n);
                    for j in 0..m {
                        let s = w.starts[j];
                        w.starts.push(s + i * n);
                    }
                }
            }
            // the traffic of a large fleet: many sources, times, sizes and types
            "fleet" => {
                let mut r = Rng::new(&[e.get(2) as u64, 77]);
                let srcs = e.get(1).clamp(1, 5000) as u64;
                let top = e.get(3).clamp(0, 4000) as u64;
                let (t0, step) = (r.below(1 << 31) as i64, *r.pick(&[1, 1, 30, 5000]));
                let snap = *r.pick(&[1, 1, 10_000, 9_000_000]);
                let mut up = vec![(0i64, 0i64); srcs as usize];
                for k in 0..e.get(0).clamp(0, 20_000) as usize {
                    let i = r.below(srcs) as usize;
                    if k % 4 == 0 && r.chance(1, 3) {
                        up[i] = (t0 + r.range(-3 * step, 3 * step), r.below(1000) as i64);
                    }
                    up[i].0 += r.range(0, step);
                    up[i].1 += r.range(0, step * 10_000) / snap * snap;
                    let htyp = *r.pick(&[0x31, 0x35, 0x3d, 0x20, 0x30, 0x21]);
                    let pk = *r.pick(&[0, 0, 1, 2, 6, 13]);
                    let letter = |n: usize| 0x41 + (n % 26) as i64;
                    let ecu = 0x4600_0000 | letter(i / 676) << 16 | letter(i / 26) << 8 | letter(i);
                    let a = [
                        ecu, up[i].0 & 0xffff_ffff, r.below(1_000_000) as i64, htyp, k as i64 & 255, ecu, 7, up[i].1 & 0xffff_ffff, r.below(256) as i64,
                        1, ecu, ecu, pk, r.below(top + 1) as i64, r.below(1 << 40) as i64, 0,
                    ];
                    w.starts.push(w.bytes.len());
                    w.bytes.extend_from_slice(&encode(&Ev::new("msg", &a)));
                }
                hit(&mut w, "large_fleet");
            }
            // a long stretch of unreadable bytes
            "gap" => {
                let k = (e.get(0).max(0) as usize).min(MAXLEN.saturating_sub(n));
                w.bytes.resize(n + k, e.get(1) as u8);
                hit(&mut w, "garbage_append");
            }
            "sync" => synced = n,
            // power loss: what was synced stays, the rest is torn, possibly with a lost block in front of the end
            "crash" => {
                synced = synced.min(n);
                let keep = synced + ((n - synced) as i64 * e.get(0).clamp(0, 1000) / 1000) as usize;
                w.bytes.truncate(keep);
                let z = (e.get(1).max(0) as usize).min(keep - synced);
                for b in &mut w.bytes[keep - z..] {
                    *b = 0;
                }
                w.starts.retain(|s| *s < keep);
                synced = keep;
                hit(&mut w, if keep < n { "crash_torn_write" } else { "crash" });
                if z > 0 {
                    hit(&mut w, "lost_block");
                }
            }
            "flip" => {
                let p = pos(&w, e.get(0), e.get(1));
                if p < n {
                    w.bytes[p] ^= 1 << (e.get(2) & 7);
                    hit(&mut w, "bit_flip");
                }
            }
            "poke" => {
                let p = pos(&w, e.get(0), e.get(1));
                for (i, b) in e.d.iter().enumerate() {
                    if p + i < n {
                        w.bytes[p + i] = *b;
                    }
                }
                hit(&mut w, "overwrite");
            }
            "zero" => {
                let mut p = pos(&w, e.get(0), e.get(1));
                if e.get(3) > 0 {
                    p -= p % 512;
                }
                let q = (p + e.get(2).max(0) as usize).min(n);
                for b in &mut w.bytes[p..q] {
                    *b = 0;
                }
                hit(&mut w, "zeroed_block");
            }
            "lose" => {
                let mut p = pos(&w, e.get(0), e.get(1));
                if e.get(3) > 0 {
                    p -= p % 512;
                }
                let q = (p + e.get(2).max(0) as usize).min(n);
                w.bytes.drain(p..q);
                for s in &mut w.starts {
                    if *s >= q {
                        *s -= q - p;
                    } else if *s > p {
                        *s = p;
                    }
                }
                hit(&mut w, "lost_block");
            }
            // block written again somewhere else: inserted (dup) or over other data (over)
            "dup" | "over" => {
                let p = pos(&w, e.get(0), e.get(1));
                let q = (p + (e.get(2).max(0) as usize).min(1 << 20)).min(n);
                let t = pos(&w, e.get(3), e.get(4));
                let blk = w.bytes[p..q].to_vec();
                if e.k == "over" {
                    for (i, b) in blk.iter().enumerate() {
                        if t + i < n {
                            w.bytes[t + i] = *b;
                        }
                    }
                    hit(&mut w, "misplaced_block");
                } else {
                    for s in &mut w.starts {
                        if *s >= t {
                            *s += blk.len();
                        }
                    }
                    w.bytes.splice(t..t, blk);
                    hit(&mut w, "duplicated_block");
                }
            }
            "ins" => {
                let t = pos(&w, e.get(0), e.get(1));
                for s in &mut w.starts {
                    if *s >= t {
                        *s += e.d.len();
                    }
                }
                w.bytes.splice(t..t, e.d.iter().copied());
                hit(&mut w, "garbage_insert");
            }
            "setlen" => {
                let p = pos(&w, e.get(0), 18);
                if p + 2 <= n {
                    w.bytes[p..p + 2].copy_from_slice(&(e.get(1) as u16).to_be_bytes());
                    hit(&mut w, "wrong_length");
                }
            }
            "cut" => {
                let p = pos(&w, e.get(0), e.get(1));
                w.bytes.truncate(p);
                w.starts.retain(|s| *s < p);
                hit(&mut w, "cut");
            }
            _ => {}
        }
    }
    w
}

// ----------------------------------------------------------- the simulation
#[derive(Clone, Debug)]
pub struct Cfg {
    pub msgs: u64,
    pub sources: u64,
    /// payloads may hold the marker or whole messages
    pub embed: bool,
    /// the logger crashes and restarts, losing what was not synced
    pub crashes: bool,
    /// number of disk faults at the end
    pub damage: u64,
    /// messages shorter than their headers
    pub short: bool,
    /// up to this payload length
    pub max_payload: u64,
    pub hello: bool,
    /// ids that are not text
    pub odd_ids: bool,
}
impl Cfg {
    pub fn intact(r: &mut Rng, msgs: u64) -> Cfg {
        Cfg {
            msgs: r.skewed(msgs),
            sources: 1 + r.skewed(5),
            embed: false,
            crashes: false,
            damage: 0,
            short: r.chance(1, 4),
            max_payload: *r.pick(&[20, 60, 60, 200, 200, 2000]),
            hello: r.chance(1, 2),
            odd_ids: r.chance(1, 6),
        }
    }
    pub fn damaged(r: &mut Rng, msgs: u64) -> Cfg {
        let mut c = Cfg::intact(r, msgs);
        c.embed = r.chance(1, 3);
        c.crashes = r.chance(1, 3);
        c.damage = if r.chance(1, 6) { 0 } else { 1 + r.skewed(11) };
        c.short = r.chance(1, 3);
        c
    }
}

#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
enum What {
    Emit(usize),
    Deliver(usize, Vec<i64>),
    ClockStep(usize),
    Restart(usize),
    Partition(usize),
    Heal(usize),
    Sync,
    Crash,
}
struct Src {
    ecu: i64,
    wall: i64, // clock offset in us
    skew_ppm: i64,
    boot: i64, // sim us at boot
    mcnt: i64,
    htyp: i64,
    seid: i64,
    period: i64,
    /// uptimes are multiples of this, give or take one tick
    snap: i64,
    apid: i64,
    cut_off: bool,
    held: Vec<Vec<i64>>,
}
#[derive(Default)]
pub struct Sim {
    pub end_us: u64,
    pub faults: BTreeMap<&'static str, u64>,
}
fn tag(r: &mut Rng, odd: bool) -> i64 {
    let a = b"ABCDEFGHSYT0123456789";
    let mut x = [0u8; 4];
    for b in &mut x {
        *b = if odd && r.chance(1, 3) { r.below(256) as u8 } else { *r.pick(a) };
    }
    u32::from_be_bytes(x) as i64
}
/// runs the simulation and appends its history to the case
pub fn simulate(r: &mut Rng, g: &Cfg, c: &mut Case) -> Sim {
    let mut out = Sim::default();
    let start: i64 = 1_700_000_000_000_000 + r.range(0, 1 << 40);
    let mut srcs: Vec<Src> = (0..g.sources)
        .map(|_| Src {
            ecu: tag(r, g.odd_ids),
            wall: if r.chance(1, 3) { r.range(-100_000_000, 100_000_000) } else { 0 },
            skew_ppm: if r.chance(1, 4) { r.range(-20000, 20000) } else { r.range(-100, 100) },
            boot: -r.range(0, 3_000_000_000),
            mcnt: r.range(0, 255),
            htyp: *r.pick(&[0x31, 0x31, 0x35, 0x3d, 0x3f, 0x21, 0x20, 0x30, 0x25, 0x11, 0x3c, 0x34, 0x39, 0x29, 0x28]),
            seid: r.range(0, u32::MAX as i64),
            period: if r.chance(1, 6) { r.range(1_000_000, 900_000_000) } else { r.range(100, 3_000_000) },
            snap: if r.chance(1, 6) { *r.pick(&[1, 10_000, 9_000_000, 18_000_000]) } else { 1 },
            apid: tag(r, g.odd_ids),
            cut_off: false,
            held: vec![],
        })
        .collect();
    for s in &mut srcs {
        if s.snap > 10_000 {
            s.period = r.range(100_000_000, 2_000_000_000);
        }
    }
    if srcs.len() > 1 && r.chance(1, 3) {
        srcs[1].ecu = srcs[0].ecu;
    }
    let (drop, dup, jitter) = (r.below(8), r.below(8), *r.pick(&[0, 1000, 200_000, 5_000_000]));
    let sync_every = r.range(1, 40);
    let mut q: BinaryHeap<std::cmp::Reverse<(i64, u64, What)>> = BinaryHeap::new();
    let mut seq = 0u64;
    macro_rules! at {
        ($t:expr, $w:expr) => {{
            seq += 1;
            q.push(std::cmp::Reverse(($t, seq, $w)));
        }};
    }
    for i in 0..srcs.len() {
        at!(r.range(0, srcs[i].period), What::Emit(i));
    }
    let horizon = srcs.iter().map(|s| s.period).min().unwrap_or(1) * (g.msgs as i64).max(1);
    let chaos = r.below(5);
    for _ in 0..chaos {
        let i = r.below(srcs.len() as u64) as usize;
        let t = r.range(0, horizon);
        match r.below(4) {
            0 | 1 => at!(t, What::ClockStep(i)),
            2 => at!(t, What::Restart(i)),
            _ => {
                at!(t, What::Partition(i));
                at!(t + r.range(0, horizon / 2 + 1), What::Heal(i));
            }
        }
    }
    if g.crashes {
        for _ in 0..1 + r.below(3) {
            at!(r.range(0, horizon), What::Crash);
        }
    }
    let (mut emitted, mut stored, mut last) = (0u64, 0i64, (0i64, 0i64));
    while let Some(std::cmp::Reverse((t, _, w))) = q.pop() {
        out.end_us = out.end_us.max(t.max(0) as u64);
        match w {
            What::Emit(i) => {
                if emitted >= g.msgs {
                    continue;
                }
                emitted += 1;
                let s = &mut srcs[i];
                let mut htyp = s.htyp;
                if r.chance(1, 6) {
                    htyp = r.range(0, 255);
                }
                let wall = start + s.wall + t + t / 1_000_000 * s.skew_ppm;
                let mut up = (t - s.boot) / 100;
                if s.snap > 1 {
                    up = (up / s.snap * s.snap + *r.pick(&[0, 0, 0, 0, -1, 1])).max(0);
                }
                let pk = if g.embed && r.chance(1, 3) {
                    *r.pick(&[4, 5, 5, 9, 9])
                } else if g.hello && r.chance(1, 2) {
                    *r.pick(&[1, 1, 2, 6, 7, 11, 12, 14, 15])
                } else {
                    *r.pick(&[0, 0, 0, 3, 8, 13])
                };
                let plen = match r.below(12) {
                    0 => 0,
                    1..=3 => r.skewed(g.max_payload),
                    _ => r.below(g.max_payload.min(64) + 1),
                } as i64;
                let len = if g.short && r.chance(1, 4) { 1 + 4 + r.range(0, 24) } else { 0 };
                s.mcnt = (s.mcnt + 1) & 255;
                let odd_time = r.chance(1, 40);
                let m = vec![
                    s.ecu,
                    if odd_time { *r.pick(&[0, 0xffff_ffff, 0x8000_0000, 99]) } else { (wall / 1_000_000) & 0xffff_ffff },
                    wall.rem_euclid(1_000_000),
                    htyp,
                    s.mcnt,
                    if r.chance(1, 4) { tag(r, g.odd_ids) } else { s.ecu },
                    s.seid,
                    if odd_time { *r.pick(&[0, 0xffff_ffff, 0x7fff_ffff, 1]) } else { up & 0xffff_ffff },
                    match r.below(6) {
                        0 => r.range(0, 255),
                        1 => r.range(0, 1) | (r.range(0, 3) << 1) | (r.range(1, 6) << 4),
                        _ => 0x01 | (r.range(1, 6) << 4),
                    },
                    r.range(0, 3),
                    s.apid,
                    tag(r, g.odd_ids),
                    pk,
                    plen,
                    r.range(0, 1 << 40),
                    len,
                ];
                // loggers that leave the storage header empty, or fill it with nonsense
                let mut m = m;
                match r.below(240) {
                    0..=2 => m[A_ECU..=A_USEC].fill(0),
                    3 => m[A_ECU..=A_SECS].fill(0xffff_ffff),
                    4 => m[A_USEC] = *r.pick(&[-1, i32::MIN as i64, i32::MAX as i64, 1_000_000, 0x0154_4c44]),
                    5 => m[A_ECU] = *r.pick(&[0, 0x2020_2020, 0x444c_5401, 0x0a0a_0a0a]),
                    _ => {}
                }
                let next = t + r.range(1, s.period * 2);
                if s.cut_off {
                    s.held.push(m);
                    *out.faults.entry("net_partitioned").or_insert(0) += 1;
                } else if r.below(100) < drop {
                    *out.faults.entry("net_drop").or_insert(0) += 1;
                } else {
                    if r.below(100) < dup {
                        *out.faults.entry("net_duplicate").or_insert(0) += 1;
                        at!(t + r.range(0, jitter * 2), What::Deliver(i, m.clone()));
                    }
                    at!(t + r.range(0, jitter), What::Deliver(i, m));
                }
                at!(next, What::Emit(i));
            }
            What::Deliver(_, m) => {
                let key = (m[A_SECS], m[A_USEC]);
                if key < last {
                    *out.faults.entry("net_reorder").or_insert(0) += 1;
                }
                last = key;
                c.ev.push(Ev::new("msg", &m));
                stored += 1;
                if g.crashes && stored % sync_every == 0 {
                    at!(t, What::Sync);
                }
            }
            What::ClockStep(i) => {
                srcs[i].wall += *r.pick(&[-3_600_000_000i64, -5_000_000, -1_000_000, 1_000_000, 40_000_000, 7_200_000_000]);
                *out.faults.entry("clock_jump").or_insert(0) += 1;
            }
            What::Restart(i) => {
                srcs[i].boot = t;
                srcs[i].mcnt = 0;
                srcs[i].seid += 1;
                *out.faults.entry("source_restart").or_insert(0) += 1;
            }
            What::Partition(i) => srcs[i].cut_off = true,
            What::Heal(i) => {
                srcs[i].cut_off = false;
                for m in std::mem::take(&mut srcs[i].held) {
                    at!(t + r.range(0, jitter), What::Deliver(i, m));
                }
            }
            What::Sync => c.ev.push(Ev::new("sync", &[])),
            What::Crash => {
                let z = if r.chance(1, 4) { r.range(1, 200) } else { 0 };
                c.ev.push(Ev::new("crash", &[r.range(0, 1000), z]));
                if r.chance(1, 6) {
                    let junk = (0..r.below(30)).map(|_| r.below(256) as u8).collect();
                    c.ev.push(Ev::with("junk", &[], junk));
                }
            }
        }
    }
    for _ in 0..g.damage {
        let e = fault(r, stored);
        c.ev.push(e);
    }
    out
}
/// one disk fault, aimed at the places that matter
pub fn fault(r: &mut Rng, n: i64) -> Ev {
    let mi = r.range(0, n.max(1) - 1);
    let d = match r.below(8) {
        0 => r.range(0, 3),
        1 => r.range(16, 19),
        2 => r.range(18, 19),
        3 => r.range(0, 40),
        4 => -r.range(1, 4),
        5 => r.range(0, 20),
        _ => r.range(-40, 120),
    };
    let junk = |r: &mut Rng| -> Vec<u8> {
        let n = 1 + r.skewed(60) as usize;
        let mut v: Vec<u8> = match r.below(5) {
            0 => vec![*r.pick(b"D\0\xffL\x01"); n],
            1 => (0..n).map(|_| *r.pick(b"DLT\x01")).collect(),
            2 => payload(2, r.range(0, 1000), n + 14),
            _ => (0..n).map(|_| r.below(256) as u8).collect(),
        };
        match r.below(5) {
            // the head of a message, cut off at any point
            0 | 1 => {
                let mut h = MARK.to_vec();
                h.extend_from_slice(&[1, 2, 3, 4, 0, 0, 0, 0, b'J', b'U', b'N', b'K', 0x21, 7]);
                h.extend_from_slice(&(r.skewed(65535) as u16).to_be_bytes());
                h.truncate(4 + r.below(17) as usize);
                let at = r.below(v.len() as u64 + 1) as usize;
                v.splice(at..at, h);
            }
            _ => {}
        }
        v
    };
    match r.below(12) {
        0 | 1 => Ev::new("flip", &[mi, d, r.range(0, 7)]),
        2 => Ev::new("zero", &[mi, d, r.skewed(1200) as i64, r.range(0, 1)]),
        3 => Ev::new("lose", &[mi, d, r.skewed(1200) as i64, r.range(0, 1)]),
        4 => Ev::new("dup", &[mi, d, r.skewed(600) as i64, r.range(0, n), r.range(-20, 40)]),
        5 => Ev::new("over", &[mi, d, r.skewed(600) as i64, r.range(0, n), r.range(-20, 40)]),
        6 | 7 => {
            let j = junk(r);
            let at = if r.chance(1, 2) { 0 } else { d };
            Ev::with("ins", &[mi, at], j)
        }
        8 | 9 => Ev::new(
            "setlen",
            &[
                mi,
                match r.below(6) {
                    0 => r.range(0, 4),
                    1 => r.range(4, 40),
                    2 => 65535,
                    3 => r.range(0, 65535),
                    _ => r.range(10, 300),
                },
            ],
        ),
        10 => {
            let j = junk(r);
            Ev::with("poke", &[mi, d], j)
        }
        _ => {
            let j = junk(r);
            Ev::with("junk", &[], j)
        }
    }
}
