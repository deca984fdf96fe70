//! The properties: how each one's cases are made from a seed, and what is checked while and after a case runs.
use crate::case::{Case, Ev};
use crate::ctx::{fail, limit, Ctx, R};
use crate::model::{self, Log};
use crate::rng::{hash_bytes, Rng};
use crate::rt::{self, *};
use crate::world::{self, Cfg};
use std::collections::BTreeMap;
use sut::{Fields, Seen, E, M};

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, &mut Case, &mut Ctx),
    pub run: fn(&Case, &mut Ctx) -> R<()>,
    pub quick: u64,
    pub thorough: u64,
    /// what makes a case count as non-trivial
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: c01_gen, run: c01_run, quick: 60000, thorough: 3000000,
        rule: "at least two blocks of input and at least one short or interrupted transfer" },
    Prop { id: "C02", gen: c02_gen, run: c02_run, quick: 60000, thorough: 3000000,
        rule: "an injected input or output failure fired, or the payload size is one that must be refused" },
    Prop { id: "C03", gen: c03_gen, run: c03_run, quick: 500000, thorough: 40000000,
        rule: "a non-empty file and at least one fault, short transfer or append during the load fired" },
    Prop { id: "C04", gen: c04_gen, run: c04_run, quick: 200000, thorough: 6000000,
        rule: "at least two messages, none embedding the marker, and at least one cut that tears a message" },
    Prop { id: "C05", gen: c05_gen, run: c05_run, quick: 500000, thorough: 20000000,
        rule: "at least one disk fault or torn write, and at least one readable message" },
    Prop { id: "C06", gen: c06_gen, run: c06_run, quick: 60000, thorough: 3000000,
        rule: "at least one partitioning into two or more parts" },
    Prop { id: "C07", gen: c07_gen, run: c07_run, quick: 36000, thorough: 1500000,
        rule: "at least two threads and at least one scheduling decision or preemption" },
    Prop { id: "C08", gen: c08_gen, run: c08_run, quick: 45000, thorough: 2500000,
        rule: "at least one disk fault, torn write or message shorter than its headers" },
    Prop { id: "C09", gen: c09_gen, run: c09_run, quick: 200000, thorough: 8000000,
        rule: "at least one message matches and at least one does not" },
    Prop { id: "C10", gen: c10_gen, run: c10_run, quick: 400000, thorough: 30000000,
        rule: "at least two sources whose messages interleave" },
    Prop { id: "C11", gen: c11_gen, run: c11_run, quick: 24000, thorough: 900000,
        rule: "at least two readable messages, or a fault fired" },
    Prop { id: "C12", gen: c12_gen, run: c12_run, quick: 500000, thorough: 30000000,
        rule: "at least two composed messages were read back" },
    Prop { id: "C13", gen: c13_gen, run: c13_run, quick: 300000, thorough: 30000000,
        rule: "at least three periods of which at least two can be merged" },
    Prop { id: "C14", gen: c14_gen, run: c14_run, quick: 400000, thorough: 30000000,
        rule: "at least one message is reported and the log is damaged or the search starts inside it" },
    Prop { id: "C15", gen: c15_gen, run: c15_run, quick: 600000, thorough: 30000000,
        rule: "at least two polls and at least one append that tears a message" },
    Prop { id: "C16", gen: c16_gen, run: c16_run, quick: 250000, thorough: 30000000,
        rule: "at least two readable records in a log that is damaged, torn or cut" },
    Prop { id: "C17", gen: c17_gen, run: c17_run, quick: 60000, thorough: 2000000,
        rule: "at least two messages, and a killed generator or a short or interrupted transfer" },
    Prop { id: "C18", gen: c18_gen, run: c18_run, quick: 12000, thorough: 150000,
        rule: "the data is at least twice as large as the memory" },
];

// ------------------------------------------------------------------ helpers
type Got = Seen<(usize, Vec<u8>, (usize, usize, usize))>;
fn own(s: Seen<(usize, E<'_>)>) -> Got {
    Seen {
        items: s.items.iter().map(|(o, e)| (*o, sut::bytes_of(e), sut::len_of(e))).collect(),
        capped: s.capped,
        revived: s.revived,
    }
}
fn cap(n: usize) -> usize {
    n.min(1 << 27) / 20 + 4
}
fn ended<T>(name: &str, s: &Seen<T>) -> R<()> {
    if s.capped {
        return fail(&format!("endless:{}", name), format!("{} reports more messages than the log can hold", name));
    }
    if s.revived {
        return fail(&format!("revived:{}", name), format!("{} reports a message after it has ended", name));
    }
    Ok(())
}
/// the iterator must have reported exactly these messages
fn chain(name: &str, b: &[u8], got: &Got, want: &[(usize, usize)]) -> R<()> {
    ended(name, got)?;
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.items.get(i) else {
            return fail(
                &format!("missing:{}", name),
                format!("{} ends after {} of {} messages; next should be {}..{}", name, i, want.len(), w.0, w.1),
            );
        };
        if g.0 != w.0 {
            return fail(&format!("wrong:{}", name), format!("{}: message {} reported at {}, should be {}..{}", name, i, g.0, w.0, w.1));
        }
        whole(name, b, g, w)?;
    }
    if got.items.len() > want.len() {
        let g = &got.items[want.len()];
        return fail(&format!("extra:{}", name), format!("{} reports an extra message at {} ({} bytes)", name, g.0, g.1.len()));
    }
    Ok(())
}
fn whole(name: &str, b: &[u8], g: &(usize, Vec<u8>, (usize, usize, usize)), w: &(usize, usize)) -> R<()> {
    if g.1 != b[w.0..w.1] {
        return fail(&format!("bytes:{}", name), format!("{}: message at {} has {} bytes, not those of {}..{}", name, g.0, g.1.len(), w.0, w.1));
    }
    let l = w.1 - w.0;
    if g.2 != (l, l - 16, l - 16) {
        return fail(&format!("length:{}", name), format!("{}: message at {} of {} bytes reports lengths {:?}", name, g.0, l, g.2));
    }
    Ok(())
}
fn simulate(r: &mut Rng, g: &Cfg, c: &mut Case) {
    let s = world::simulate(r, g, c);
    c.set("sim_us", s.end_us as i64);
    for (k, v) in s.faults {
        c.set(&format!("n_{}", k), v as i64);
    }
}
/// builds the log of a case and counts what happened to it
fn log_of(c: &Case, x: &mut Ctx) -> world::Built {
    let w = world::build(c);
    for (k, n) in &w.faults {
        *x.st.counts.entry(k.to_string()).or_insert(0) += n;
    }
    for (k, v) in &c.p {
        if let Some(k) = k.strip_prefix("n_") {
            *x.st.counts.entry(k.into()).or_insert(0) += (*v).max(0) as u64;
        }
    }
    x.st.sim_us += c.get("sim_us").max(0) as u64;
    x.see(w.bytes.digest());
    w
}
fn damaged(w: &world::Built) -> bool {
    w.faults.values().sum::<u64>() > 0
}
fn at(w: &world::Built, e: &Ev) -> usize {
    let n = w.bytes.len();
    let (mi, d) = (e.get(0), e.get(1));
    match mi {
        -1 => usize::MAX - d.max(0) as usize,
        -2 => n.saturating_add(d.max(0) as usize),
        _ => {
            let base = if w.starts.is_empty() { 0 } else { w.starts[mi as usize % w.starts.len()] };
            (base as i64 + d).clamp(0, n as i64) as usize
        }
    }
}
fn positions(r: &mut Rng, c: &mut Case, k: &str, n: u64, beyond: bool) {
    let m = c.of("msg").count() as i64;
    for _ in 0..n {
        let e = match r.below(12) {
            0 if beyond => Ev::new(k, &[-1, r.range(0, 8)]),
            1 if beyond => Ev::new(k, &[-2, r.range(0, 9)]),
            2 => Ev::new(k, &[-2, 0]),
            3..=5 => Ev::new(k, &[r.range(0, m.max(1) - 1), 0]),
            6..=8 => Ev::new(k, &[r.range(0, m.max(1) - 1), r.range(-5, 5)]),
            _ => Ev::new(k, &[r.range(0, m.max(1) - 1), r.range(-30, 100)]),
        };
        c.ev.push(e);
    }
}
fn chunks(r: &mut Rng, c: &mut Case, op: i64) {
    let big = r.chance(1, 3);
    for _ in 0..1 + r.below(6) {
        let s = if r.chance(1, 8) { 0 } else { 1 + r.skewed(if big { 9000 } else { 60 }) as i64 };
        c.ev.push(Ev::new("chunk", &[op, s]));
    }
}
fn soft(r: &mut Rng, c: &mut Case, op: i64, n: u64, span: u64) {
    for _ in 0..n {
        let k = *r.pick(&[K_EINTR, K_EINTR, K_EINTR, K_SHORT, K_STALL]);
        let arg = if k == K_STALL { r.range(1, 3_000_000_000) } else { 1 + r.skewed(50) as i64 };
        c.ev.push(Ev::new("fault", &[op, k, r.skewed(span) as i64, arg]));
    }
}
fn crashed(bin: &str, r: &rt::Run) -> R<()> {
    // without memory or threads a process may give up in any way but a silent one
    if r.plan.starved() && (r.signal == Some(libc::SIGABRT) || r.exit == Some(97)) {
        return Ok(());
    }
    if let Some(why) = r.stopped() {
        let kind = if why.starts_with("killed") { "crash" } else { "hang" };
        return fail(&format!("{}:{}", kind, bin), format!("{} {}", bin, why));
    }
    Ok(())
}
const PER_MILLE: i64 = 1 << 30;
/// allocation sizes that depend on the log
fn sized(c: &mut Case, n: usize) {
    for e in &mut c.ev {
        if e.k == "fault" && e.get(0) == OP_ALLOC && e.get(3) > PER_MILLE {
            e.a[3] = (n as i64 * (e.get(3) - PER_MILLE) / 1000).max(64);
        }
    }
}
/// an allocation fails, or from then on all of a size
fn no_memory(r: &mut Rng, top: u64) -> Ev {
    if r.chance(1, 3) {
        // nothing as large as the log, or half of it, or twice
        return Ev::new("fault", &[OP_ALLOC, K_ENOMEM, 0, PER_MILLE + *r.pick(&[500, 900, 1000, 1000, 1001, 2000])]);
    }
    let size = if r.chance(1, 3) { 1 << r.range(0, 16) } else { 0 };
    let n = match r.below(3) {
        0 => r.below(top),
        1 => r.skewed(top),
        _ => r.skewed(12 * top),
    };
    Ev::new("fault", &[OP_ALLOC, K_ENOMEM, n as i64, size])
}
fn tail(r: &rt::Run) -> String {
    let s = String::from_utf8_lossy(&r.stderr);
    let s: String = s.chars().take(300).collect();
    s.replace('\n', " | ")
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes instead of {}, first difference at byte {}", a.len(), b.len(), i)
}

/// Which of a run's few long logs is this case, if any? Of every run's `q` cases 20 have long ones, 120 rather long ones.
fn long(i: u64, q: u64) -> u64 {
    let i = i % q;
    if i % (q / 20) == 7 {
        2
    } else if i % (q / 120) == 5 {
        1
    } else {
        0
    }
}
/// the log's content again and again, until it is `to` bytes long; disk faults happen before or behind that
fn repeat(r: &mut Rng, c: &mut Case, to: u64, more: u64) {
    let last = c.ev.iter().rposition(|e| e.k == "msg").map_or(0, |i| i + 1);
    let end = c.ev.iter().rposition(|e| !["chunk", "fault", "err", "dec", "pre", "pat", "cap", "from", "num", "range", "at", "cmd", "cut", "sweep"].contains(&&e.k[..])).map_or(0, |i| i + 1);
    let at = if r.chance(1, 2) { last } else { end };
    c.ev.insert(at, Ev::new("rep", &[(to + r.below(more)) as i64]));
}
fn repeated(c: &Case) -> bool {
    c.of("rep").next().is_some()
}
/// now and then a gap between messages, of about the size of a buffer or window
fn gap(r: &mut Rng, c: &mut Case, den: u64, max: i64) {
    if r.chance(1, den) {
        let top = if r.chance(1, 30) { max } else { max.min(16) };
        let off = if r.chance(1, 5) { r.range(0, 40) } else { 0 };
        c.set("hole", (1 << r.range(6, top)) + r.range(-8, 8) - off);
        c.set("hole_at", r.range(0, 1 << 20));
    }
}
/// now and then the messages of a large fleet behind some of the others
fn fleet(r: &mut Rng, c: &mut Case, den: u64) {
    if r.chance(1, den) {
        let n = *r.pick(&[60, 300, 1500, 4000]);
        let srcs = *r.pick(&[1, 5, 100, 300, 1000]);
        let at = c.ev.iter().rposition(|e| e.k == "msg").map_or(0, |i| if r.chance(1, 2) { 0 } else { i + 1 });
        c.ev.insert(at, Ev::new("fleet", &[r.below(n) as i64, srcs, r.below(1 << 40) as i64, *r.pick(&[0, 3, 100, 400])]));
    }
}
/// more than 4 (now and then only 2) GiB of zeros inside the log
fn huge(r: &mut Rng, c: &mut Case) {
    let n = if r.chance(1, 4) { 1u64 << 31 } else { 1 << 32 };
    c.set("hole", (n + r.below(100_000)) as i64);
    c.set("hole_at", r.range(0, 1 << 20));
}
/// more than 4 GiB of messages in front of the others; only for commands that look at headers
fn ballast(r: &mut Rng, c: &mut Case, cmds: &[i64]) {
    c.set("ballast", 256 + r.range(0, 3));
    c.set("ballast_seed", r.range(0, 1 << 30));
    c.set("cmd", *r.pick(cmds));
    c.set("mmap", 1);
}
fn is_huge(c: &Case) -> bool {
    c.get("hole") > 1 << 30 || c.get("ballast") > 0
}
/// steps allowed on such a log
const HUGE: u64 = 1 << 44;

// ------------------------------------------------------------- C01, C02: dd_dlt
const IDS: [&str; 14] = ["ECU1", "APP1", "    ", "abcd", "\u{1}\u{2}\u{3}\u{4}", "\u{e9}\u{e8}", "\u{20ac}x", "\u{1f600}", "DLT\u{1}", "0000", "\"'\\~", "-abc", "EC\u{7f}1", "zzzz"];
fn dd_input(c: &Case) -> Vec<u8> {
    let size = c.get("psize").max(0) as usize;
    let n = (c.get("blocks").max(0) as usize).saturating_mul(size).saturating_add(c.get("extra").max(0) as usize).min(4 << 20);
    let mut r = Rng::new(&[c.get("dseed") as u64, 3]);
    match c.get("dkind") {
        0 => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        1 => (0..n).map(|_| r.below(256) as u8).collect(),
        2 => (0..n).map(|_| if r.chance(1, 9) { b'\n' } else { b'x' }).collect(),
        3 => vec![0; n],
        4 => vec![b'\n'; n],
        6 => {
            let mut v = vec![];
            while v.len() < n {
                v.extend(*r.pick(&[&b"Hello World"[..], b"Hello World", b"H", b" World", b"ello ", b"\n", b"x", b"He World\0\0\0\0"]));
            }
            v.truncate(n);
            v
        }
        _ => b"DLT\x01".iter().copied().cycle().take(n).collect(),
    }
}
/// errors of real files, pipes, sockets and terminals, by operation; EBADF of a closed standard stream counts
/// as end of input and accepted output in Rust's std by design and is no fault here
fn errno(r: &mut Rng, op: i64) -> i64 {
    let v: &[i32] = match op {
        OP_STDIN => &[libc::ECONNRESET, libc::EAGAIN, libc::EISDIR, libc::ETIMEDOUT, libc::ENXIO, libc::EINVAL, libc::ENOMEM, libc::ENOTCONN, libc::EPIPE],
        OP_STDOUT => &[libc::ECONNRESET, libc::EAGAIN, libc::EDQUOT, libc::EFBIG, libc::ENXIO, libc::ETIMEDOUT, libc::EROFS, libc::EINVAL, libc::ENOTCONN],
        OP_OPEN => &[libc::ENFILE, libc::ELOOP, libc::ENXIO, libc::ESTALE, libc::EISDIR, libc::EAGAIN, libc::ENOTDIR, libc::ETIMEDOUT, libc::EPERM],
        OP_MMAP => &[libc::EAGAIN, libc::EOVERFLOW, libc::EPERM, libc::ENFILE, libc::EINVAL, libc::ETXTBSY],
        _ => &[libc::ESTALE, libc::EISDIR, libc::ETIMEDOUT, libc::EAGAIN, libc::ENOMEM, libc::EINVAL, libc::ECONNRESET, libc::ENXIO, libc::EPIPE],
    };
    if r.chance(1, 2) {
        0
    } else {
        *r.pick(v) as i64
    }
}
fn dd_case(r: &mut Rng, c: &mut Case) {
    let (mut psize, mut blocks) = match r.below(24) {
        0..=13 => (1 + r.skewed(200), r.skewed(40)),
        14..=16 => (1 + r.skewed(40), 90 + r.below(400)),
        17 => (1 + r.below(3), 65000 + r.below(1500)),
        18 => (65517 - r.skewed(40), r.below(4)),
        19 => (1000 + r.below(20000), r.below(8)),
        20 => (*r.pick(&[255, 256, 257, 1023, 1024, 8191, 8192, 8193, 46, 238]), r.below(20)),
        21 => (1, r.below(600)),
        _ => (1 + r.below(64), r.below(120)),
    };
    if r.chance(1, 40) {
        (psize, blocks) = (1 + r.below(4000), 0);
    }
    if blocks >= 65000 && !r.chance(1, 4) {
        blocks = 250 + r.below(20);
    }
    // hours of log time, to where 32-bit arithmetic on microseconds would overflow
    if c.prop == "C01" && c.index % 20000 == 12345 {
        (psize, blocks) = (1, 429_000 + r.below(8000));
    }
    c.set("psize", psize as i64);
    c.set("blocks", blocks as i64);
    c.set("extra", if r.chance(1, 2) { 0 } else { r.below(psize) as i64 });
    c.set("dseed", r.below(1 << 30) as i64);
    c.set("dkind", r.range(0, 5));
    c.set("ecu", if r.chance(1, 2) { 0 } else { r.range(0, 13) });
    c.set("app", if r.chance(1, 2) { 1 } else { r.range(0, 13) });
    let small = blocks >= 65000;
    if r.chance(4, 5) && !small {
        chunks(r, c, OP_STDIN);
    }
    if r.chance(4, 5) && !small {
        chunks(r, c, OP_STDOUT);
    }
    let (a, b) = (r.below(5), r.below(5));
    soft(r, c, OP_STDIN, a, 1 + blocks);
    soft(r, c, OP_STDOUT, b, 1 + 4 * blocks);
}
const BAD_IDS: [&str; 8] = ["", "E", "ECU", "ECU12", "ECU1ECU1", "\u{20ac}\u{20ac}", "\u{e9}\u{e9}\u{e9}", "    \u{1}"];
/// what is given as the ids may be of any length
fn ids(c: &Case) -> (&'static str, &'static str) {
    let bad = |k: &str| BAD_IDS[c.get(k).rem_euclid(8) as usize];
    match c.get("badid").rem_euclid(4) {
        1 => return (bad("ecu"), IDS[c.get("app").rem_euclid(14) as usize]),
        2 => return (IDS[c.get("ecu").rem_euclid(14) as usize], bad("app")),
        3 => return (bad("ecu"), bad("app")),
        _ => {}
    }
    (IDS[c.get("ecu").rem_euclid(14) as usize], IDS[c.get("app").rem_euclid(14) as usize])
}
fn c01_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    dd_case(r, c);
}
fn dd_run(c: &Case, x: &mut Ctx, size: i64, input: &[u8], want: usize) -> rt::Run {
    let (ecu, app) = ids(c);
    // chunk lists may ask for single bytes
    let lim = 4_000_000 + 4000 * (input.len() + want) as u64;
    let sz = match c.get("beyond") {
        1 => (u64::MAX as u128 + 1 + size.max(0) as u128).to_string(),
        2 => u64::MAX.to_string(),
        3 => format!("1{:040}", size.max(0)),
        4 => (u32::MAX as u128 * u64::MAX as u128).to_string(),
        5 => format!("-{}", size.max(1)),
        6 => format!("{}x", size.max(0)),
        7 => "".into(),
        8 => format!("0x{:x}", size.max(1)),
        9 => format!("{}.5", size.max(0)),
        10 => "abc".into(),
        _ => size.to_string(),
    };
    x.cli("dd_dlt", &[ecu, app, &sz], Plan::of(c, lim), &world::Store::plain(&[]), input, want + 65536)
}
fn c01_run(c: &Case, x: &mut Ctx) -> R<()> {
    let size = c.get("psize").clamp(1, 65517);
    let (ecu, app) = ids(c);
    let mut c = c.clone();
    c.set("psize", size);
    c.set("badid", 0);
    c.ev.retain(|e| e.k == "chunk" || e.k == "fault" && [K_EINTR, K_SHORT, K_STALL].contains(&e.get(1)));
    let input = dd_input(&c);
    let want = model::dd(ecu.as_bytes(), app.as_bytes(), size as usize, &input);
    let r = dd_run(&c, x, size, &input, want.len());
    let f = &r.plan.fired;
    let moved = f[4][1] + f[4][2] + f[5][1] + f[5][2];
    x.nontrivial = input.len() >= 2 * size as usize && moved > 0;
    x.probe_if(input.len() / size as usize > 256, "counter wrapped at 256");
    x.probe_if(input.len() / size as usize > 65536, "more than 65536 messages");
    x.probe_if(input.len() % size as usize > 0, "incomplete last block");
    x.probe_if(size > 60000, "payload near the maximum");
    x.probe_if(f[5][2] > 0, "interrupted write");
    x.probe_if(f[4][2] > 0, "interrupted read");
    crashed("dd_dlt", &r)?;
    if r.stdout != want {
        return fail("output", format!("dd_dlt payload size {}: {}", size, first_diff(&r.stdout, &want)));
    }
    if r.exit != Some(0) {
        return fail("status", format!("dd_dlt exits with {:?} although all went well: {}", r.exit, tail(&r)));
    }
    Ok(())
}
fn c02_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    dd_case(r, c);
    if c.get("blocks") > 2000 {
        c.set("blocks", 100);
    }
    if r.chance(1, 14) {
        let s = match r.below(4) {
            0 => 65518 + r.skewed(40) as i64,
            1 => (1 << r.range(16, 62)) + r.range(0, 30),
            _ => *r.pick(&[0, 0, 65518, 65519, 65530, 65535, 65536, 70000, 131072, 65536 + 18, 4294967296, 4294967297, i64::MAX]),
        };
        c.set("psize", s);
        // not even 64 bits hold it
        c.set("beyond", if r.chance(1, 3) { r.range(1, 10) } else { 0 });
        if r.chance(1, 6) {
            c.set("beyond", 0);
            c.set("psize", r.range(1, 60));
            c.set("badid", r.range(1, 3));
        }
        c.set("blocks", r.range(0, 2));
        c.set("extra", r.range(0, 40));
        return;
    }
    let total = c.get("blocks") * c.get("psize") + c.get("extra");
    let out = c.get("blocks") * (c.get("psize") + 34);
    let place = |r: &mut Rng, n: i64| match r.below(4) {
        0 => n - r.range(0, 40),
        1 => r.range(0, 80),
        _ => r.range(0, n),
    };
    if r.chance(1, 12) {
        let e = no_memory(r, 40);
        c.ev.push(e);
        return;
    }
    for _ in 0..1 + r.below(2) {
        let e = match r.below(6) {
            0 | 1 => Ev::new("err", &[OP_STDOUT, place(r, out).max(0), *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), errno(r, OP_STDOUT)]),
            2 => Ev::new("err", &[OP_STDIN, place(r, total).max(0), K_EIO, errno(r, OP_STDIN)]),
            3 => Ev::new("fault", &[OP_STDOUT, *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), r.skewed(4 * c.get("blocks") as u64 + 1) as i64, errno(r, OP_STDOUT)]),
            4 => Ev::new("fault", &[OP_STDIN, K_EIO, r.skewed(c.get("blocks") as u64 + 1) as i64, errno(r, OP_STDIN)]),
            _ => continue,
        };
        c.ev.push(e);
    }
}
fn c02_run(c: &Case, x: &mut Ctx) -> R<()> {
    let size = c.get("psize").max(0);
    let (ecu, app) = ids(c);
    let badid = ecu.len() != 4 || app.len() != 4;
    let bad = size == 0 || size > 65517 || c.get("beyond") > 0;
    let input = dd_input(c);
    if badid && !bad {
        let r = dd_run(c, x, size, &input, 0);
        x.nontrivial = true;
        x.probe("wrong id");
        crashed("dd_dlt", &r)?;
        if !r.stdout.is_empty() {
            return fail("id-output", format!("dd_dlt writes {} bytes although an id ({:?}, {:?}) does not have four bytes", r.stdout.len(), ecu, app));
        }
        if r.exit == Some(0) && input.len() >= size as usize {
            return fail("id-accepted", format!("dd_dlt exits with success although an id ({:?}, {:?}) does not have four bytes", ecu, app));
        }
        return Ok(());
    }
    let want = if bad { vec![] } else { model::dd(ecu.as_bytes(), app.as_bytes(), size as usize, &input) };
    let mut c = c.clone();
    sized(&mut c, size.min(65535) as usize);
    let r = dd_run(&c, x, size, &input, want.len());
    let (hin, hout) = (r.plan.hard_fired(OP_STDIN), r.plan.hard_fired(OP_STDOUT));
    let starved = r.plan.starved();
    x.nontrivial = hin || hout || bad || starved;
    x.probe_if(starved, "out of memory");
    x.probe_if(bad, "refused payload size");
    x.probe_if(hin, "input failed");
    x.probe_if(hout, "output failed");
    x.probe_if(hout && r.stdout.len() + 34 + size as usize > want.len(), "output failed within the last message");
    crashed("dd_dlt", &r)?;
    let failed = r.exit.map_or(true, |e| e != 0);
    if !want.starts_with(&r.stdout) {
        return fail("output", format!("what the output accepted is no prefix of the right output: {}", first_diff(&r.stdout, &want)));
    }
    if bad && !failed {
        return fail("size-accepted", format!("payload size {} is not refused", size));
    }
    if !bad && (hin || hout) && !failed {
        let which = if hin { "input" } else { "output" };
        return fail(&format!("hidden-{}", which), format!("dd_dlt exits with success although its {} failed ({} of {} bytes accepted)", which, r.stdout.len(), want.len()));
    }
    if !bad && !hin && !hout && (failed && !starved || !failed && r.stdout != want) {
        return fail("status", format!("dd_dlt: exit {:?}, {}; nothing failed. {}", r.exit, first_diff(&r.stdout, &want), tail(&r)));
    }
    Ok(())
}

// ------------------------------------------------------------------ C03: loading
fn c03_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    let n = match r.below(8) {
        0 => *r.pick(&[0, 0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65536, 65537]),
        1 => r.below(200_000),
        _ => r.skewed(20_000),
    } as i64;
    let large = c.index % 12_500 == 1234;
    let n = if large { *r.pick(&[1i64 << 20, 1 << 21, 3 << 20, 1 << 22]) + r.range(-2, 2) * r.range(0, 5000) } else { n };
    c.set("size", n);
    c.set("dseed", r.below(1 << 30) as i64);
    c.set("fkind", if r.chance(1, 2) { 0 } else { r.range(1, 9) });
    c.set("mmap", r.range(0, 1));
    c.set("again", if r.chance(1, 6) { r.range(1, 3) } else { 0 });
    if r.chance(2, 3) && !large {
        chunks(r, c, OP_READ);
    }
    let k = r.below(4);
    soft(r, c, OP_READ, k, 6);
    for _ in 0..r.below(3) {
        let e = match r.below(8) {
            0 => Ev::new("err", &[OP_READ, r.range(0, n + 1), K_EIO, errno(r, OP_READ)]),
            1 | 2 => Ev::new("fault", &[OP_READ, K_EIO, r.skewed(8) as i64, errno(r, OP_READ)]),
            3 => Ev::new("fault", &[OP_OPEN, *r.pick(&[K_ENOENT, K_EACCES, K_EMFILE, K_EIO, K_EINTR]), 0, errno(r, OP_OPEN)]),
            4 => Ev::new("fault", &[OP_STAT, K_EIO, r.range(0, 1), errno(r, OP_STAT)]),
            5 => Ev::new("fault", &[OP_MMAP, *r.pick(&[K_ENOMEM, K_ENODEV, K_EACCES, K_EIO]), 0, errno(r, OP_MMAP)]),
            6 if c.get("mmap") == 0 => Ev::new("fault", &[OP_STAT, K_WRONGHINT, r.range(0, 1), *r.pick(&[0, 1, n / 2, n + 1, n * 2 + 100])]),
            _ => continue,
        };
        c.ev.push(e);
    }
    if r.chance(1, 3) {
        let mut len = n;
        for _ in 0..1 + r.below(4) {
            len += 1 + r.skewed(9000) as i64;
            c.ev.push(Ev::new("grow", &[r.skewed(12) as i64, len]));
        }
    }
}
fn file_of(kind: i64, seed: i64, n: usize) -> Vec<u8> {
    let mut v = random(seed, n);
    let mut r = Rng::new(&[seed as u64, 15]);
    let k = r.skewed(n as u64) as usize;
    match kind {
        1 => v.fill(0),
        2 => v[n - k..].fill(0), // preallocated
        3 => v[n - k..].fill(*r.pick(&[b'\n', b' ', 0x1a, 0xff])),
        4 => v[..k].fill(*r.pick(&[0, 0xff, b'\n'])),
        5 => v.iter_mut().for_each(|b| *b = *r.pick(b"ab \r\n\r\n\t")),
        6 => {
            // files of other kinds
            let m: &[&[u8]] = &[b"\x1f\x8b\x08", b"\xef\xbb\xbf", b"\xff\xfe", b"PK\x03\x04", b"BZh9", b"\x28\xb5\x2f\xfd", b"\xfd7zXZ\0", b"#!/bin/sh\n"];
            v.iter_mut().zip(*r.pick(m)).for_each(|(a, b)| *a = *b);
        }
        7 | 8 => {
            // messages
            let m = world::encode(&Ev::new("msg", &[1, 2, 0x31554345, 0x21, 0, 0, 0, 0, 0x41, 0, 0x31505041, 0x31585443, kind, k as i64 % 300]));
            v = m.iter().copied().cycle().take(n).collect();
        }
        9 => {
            for b in v.iter_mut().skip(k).step_by(1 + r.skewed(600) as usize) {
                *b = 0;
            }
        }
        _ => {}
    }
    v
}
fn random(seed: i64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(&[seed as u64, 5]);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(n);
    v
}
fn c03_run(c: &Case, x: &mut Ctx) -> R<()> {
    let n = (c.get("size").max(0) as usize).min(8 << 20);
    let mmap = c.get("mmap") != 0;
    let top = c.of("grow").map(|e| e.get(1).max(0) as usize).filter(|g| *g <= 16 << 20).max().unwrap_or(0).max(n);
    let mut c = c.clone();
    c.ev.retain(|e| !(e.k == "fault" && e.get(1) == K_WRONGHINT && (mmap || e.get(3) > 4 * n as i64 + (1 << 20))));
    let data = file_of(c.get("fkind"), c.get("dseed"), top);
    let name = if mmap { "mmap_file" } else { "read_file" };
    // what was loaded before, from the same path, must not matter
    let other = file_of(0, c.get("dseed") + 1, if c.get("again") == 2 { n / 2 } else { n });
    if c.get("again") > 0 {
        let mut quiet = Plan::of(&Case::default(), limit(n));
        let m = if c.get("again") == 3 { !mmap } else { mmap };
        let got = x.lib_io("first load", &mut quiet, &other, other.len(), || sut::load("/simfs/log.dlt", m).map(|b| sut::buffer(&b).0.to_vec()))?;
        if !got.map_or(false, |b| b == other) {
            return fail("content:first", "the file loaded first has other contents than the buffer".into());
        }
    }
    let mut plan = Plan::of(&c, limit(top) + 2000 * top as u64);
    let got = x.lib_io(name, &mut plan, &data, n, || {
        let b = sut::load("/simfs/log.dlt", mmap);
        b.map(|b| {
            let (s, l) = sut::buffer(&b);
            (s.to_vec(), l)
        })
    })?;
    let hard = (0..4).any(|o| plan.hard_fired(o)) || plan.fired[OP_OPEN as usize][K_EINTR as usize] > 0;
    let fired = plan.fired.iter().flatten().sum::<u64>();
    x.nontrivial = n > 0 && fired > 0;
    x.probe_if(n == 0, "empty file");
    x.probe_if(hard, "load failed");
    x.probe_if(plan.file_len as usize > n, "appended while loading");
    x.probe_if(plan.fired[1][1] > 0, "short read");
    x.probe_if(plan.fired[1][2] > 0, "interrupted read");
    let end = plan.file_len as usize;
    x.see(match &got {
        Ok(b) => hash_bytes(1, &b.0),
        Err(_) => 2,
    });
    match got {
        Ok((b, l)) => {
            if l != b.len() {
                return fail(&format!("length:{}", name), format!("{}: length {} for {} bytes", name, l, b.len()));
            }
            if b.len() < n || b.len() > end || b != data[..b.len()] {
                return fail(
                    &format!("content:{}", name),
                    format!("{} yields {} bytes for a file of {} (grown to {} meanwhile), equal: {}", name, b.len(), n, end, data.starts_with(&b)),
                );
            }
        }
        Err(e) => {
            if !hard {
                return fail(&format!("error:{}", name), format!("{} fails without a cause: {}", name, e));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------- C04: crash while logging
fn small_world(r: &mut Rng, big: bool) -> Cfg {
    let n = *r.pick(&[4, 8, 12, 20, 30, 60, if big { 400 } else { 40 }]);
    Cfg::intact(r, n)
}
/// now and then one message of (nearly) maximal size
fn oversize(r: &mut Rng, c: &mut Case, den: u64) {
    if !r.chance(1, den) {
        return;
    }
    let k: Vec<usize> = c.ev.iter().enumerate().filter(|(_, e)| e.k == "msg").map(|(i, _)| i).collect();
    if !k.is_empty() {
        let i = *r.pick(&k);
        c.ev[i].a[world::A_PLEN] = 65535;
        c.ev[i].a[world::A_LEN] = match r.below(5) {
            0 => 0,
            1 => 65536,
            2 => 65536 - r.range(0, 40),
            // around the powers of two
            _ => 1 + (1 << r.range(6, 15)) + r.range(-40, 80),
        };
        if r.chance(1, 2) {
            if r.chance(1, 2) {
                c.ev[i].a[world::A_LEN] = 0;
            }
            c.ev[i].a[world::A_PKIND] = 16;
        }
    }
}
fn c04_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let big = x.thorough;
    let g = small_world(r, big);
    simulate(r, &g, c);
    oversize(r, c, 15);
    if c.of("msg").count() <= 10 && r.chance(1, 3) {
        c.ev.push(Ev::new("sweep", &[]));
    }
    positions(r, c, "cut", 8 + 4, false);
    match long(c.index, 120000) {
        1 => repeat(r, c, 10_000, 200_000),
        2 => repeat(r, c, 500_000, 2_500_000),
        _ => {}
    }
}
fn strict_chain(b: &[u8], from: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = from;
    while let Some(e) = model::parse_at(b, p) {
        v.push((p, e));
        p = e;
    }
    v
}
fn c04_run(c: &Case, x: &mut Ctx) -> R<()> {
    let mut hist = c.clone();
    hist.ev.retain(|e| e.k == "msg" || e.k == "rep");
    let w = log_of(&hist, x);
    let b = &w.bytes[..];
    let all: Vec<(usize, usize)> =
        w.starts.iter().enumerate().map(|(i, s)| (*s, w.starts.get(i + 1).copied().unwrap_or(b.len()))).collect();
    if model::markers(b).len() != all.len() {
        return Ok(()); // a payload holds the marker
    }
    let mut cuts: Vec<usize> = vec![b.len()];
    for e in &c.ev {
        if e.k == "cut" {
            cuts.push(at(&w, e).min(b.len()));
        } else if e.k == "sweep" && b.len() < 4000 {
            cuts.extend(0..b.len());
        }
    }
    cuts.sort();
    cuts.dedup();
    let bare: Vec<u8> = all.iter().flat_map(|m| b[m.0 + 16..m.1].to_vec()).collect();
    for cut in cuts {
        let t = &b[..cut];
        let want: Vec<(usize, usize)> = all.iter().copied().filter(|m| m.1 <= cut).collect();
        let torn = all.iter().any(|m| m.0 < cut && cut < m.1);
        x.nontrivial |= want.len() >= 2 && torn;
        x.probe_if(torn, "cut inside a message");
        x.probe_if(all.iter().any(|m| m.0 + 4 > cut && m.0 < cut), "cut inside a marker");
        *x.st.counts.entry("crash_cut".into()).or_insert(0) += 1;
        let (lim, k) = (limit(cut), cap(cut));
        chain("seq", t, &x.lib("seq", lim, || own(sut::seq(t, 0, k)))?, &want)?;
        chain("seq_trait", t, &x.lib("seq_trait", lim, || own(sut::seq_trait(t, 0, k)))?, &want)?;
        chain("strict_own", t, &x.lib("strict_own", lim, || own(sut::strict_own(t, 0, k)))?, &want)?;
        chain("strict", t, &x.lib("strict", lim, || own(sut::strict(t, 0, k)))?, &want)?;
        chain("fwd", t, &x.lib("fwd", lim, || own(sut::fwd(t, 0, k)))?, &want)?;
        let back: Vec<(usize, usize)> = want.iter().rev().copied().collect();
        chain("rev", t, &x.lib("rev", lim, || own(sut::rev(t, cut, k)))?, &back)?;
        // the same log kept without storage headers
        let bcut = cut.min(bare.len());
        let t = &bare[..bcut];
        let got = x.lib("strict_bare", lim, || {
            let s = sut::strict_bare(t, 0, t.len() / 4 + 4);
            Seen {
                items: s.items.iter().map(|(o, e)| (*o, sut::bytes_of_bare(e), sut::len_of_bare(e))).collect::<Vec<_>>(),
                capped: s.capped,
                revived: s.revived,
            }
        })?;
        ended("strict_bare", &got)?;
        let mut want = vec![];
        let mut p = 0;
        for m in &all {
            let l = m.1 - m.0 - 16;
            if p + l <= bcut {
                want.push((p, t[p..p + l].to_vec(), (l, l)));
            }
            p += l;
        }
        if got.items != want {
            return fail("wrong:strict_bare", format!("strict reading without storage headers cut at {}: {} messages instead of {}, or different ones", bcut, got.items.len(), want.len()));
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C05: damaged logs
fn damaged_world(r: &mut Rng, c: &mut Case, big: bool) {
    let n = *r.pick(&[3, 5, 8, 12, 20, 30, 50, if big { 400 } else { 40 }]);
    let mut g = Cfg::damaged(r, n);
    if r.chance(1, 4) {
        // a few long messages, damaged often: chains that run over several headers
        g.embed = true;
        g.max_payload = 300;
    }
    simulate(r, &g, c);
    oversize(r, c, 40);
}
fn c05_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    damaged_world(r, c, x.thorough);
    match long(c.index, 300000) {
        1 => repeat(r, c, 10_000, 300_000),
        2 => repeat(r, c, 500_000, 7_500_000),
        _ => {}
    }
    gap(r, c, 40, 20);
    positions(r, c, "from", 3, true);
    c.ev.push(Ev::new("from", &[0, 0]));
    c.set("step", r.range(1, 3));
    if c.index % 300000 == 1001 {
        huge(r, c);
        c.set("step", 1000);
        c.ev.retain(|e| e.k != "from");
        positions(r, c, "from", 1, true);
    }
}
fn c05_run(c: &Case, x: &mut Ctx) -> R<()> {
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let (lim, k) = (limit(b.len()), cap(b.len()));
    let all = model::greedy(b, 0);
    x.nontrivial = damaged(&w) && !all.is_empty();
    x.probe_if(all.len() >= 2 && all.windows(2).any(|p| p[0].1 < p[1].0), "gap between messages");
    x.probe_if(model::embeds(b, &all), "marker inside a reported message");
    x.probe_if(model::markers(b).iter().any(|m| model::parse_at(b, *m).is_none()), "marker without a readable message");
    chain("seq", b, &x.lib("seq", lim, || own(sut::seq(b, 0, k)))?, &all)?;
    chain("seq_trait", b, &x.lib("seq_trait", lim, || own(sut::seq_trait(b, 0, k)))?, &all)?;
    chain("seq_offset", b, &x.lib("seq_offset", lim, || own(sut::seq_offset(b, k)))?, &all)?;
    let plain = x.lib("seq_plain", lim, || {
        let s = sut::seq_plain(b, k);
        Seen { items: s.items.iter().map(sut::bytes_of).collect::<Vec<_>>(), capped: s.capped, revived: s.revived }
    })?;
    ended("seq_plain", &plain)?;
    if plain.items.len() != all.len() || plain.items.iter().zip(&all).any(|(g, m)| g[..] != b[m.0..m.1]) {
        return fail("wrong:seq_plain", format!("sequential reading without offsets reports {} messages instead of {}, or different ones", plain.items.len(), all.len()));
    }
    for e in c.of("from") {
        let from = at(&w, e);
        let want = model::greedy(b, from);
        x.probe_if(from > b.len(), "start behind the end");
        chain("seq", b, &x.lib("seq", lim, || own(sut::seq(b, from, k)))?, &want)?;
        chain("seq_trait", b, &x.lib("seq_trait", lim, || own(sut::seq_trait(b, from, k)))?, &want)?;
        let run = strict_chain(b, from);
        x.probe_if(run.len() > 1 && run.len() < want.len(), "strict reading stops at damage");
        chain("strict", b, &x.lib("strict", lim, || own(sut::strict(b, from, k)))?, &run)?;
        chain("strict_own", b, &x.lib("strict_own", lim, || own(sut::strict_own(b, from, k)))?, &run)?;
    }
    // stop anywhere and resume
    let step = c.get("step").max(1) as usize;
    let (mut pos, mut got) = (0, vec![]);
    for _ in 0..k + 2 {
        let (v, end) = x.lib("seq", lim, || {
            let (v, end) = sut::seq_some(b, pos, step);
            (v.iter().map(|(o, e)| (*o, sut::bytes_of(e), sut::len_of(e))).collect::<Vec<_>>(), end)
        })?;
        if v.is_empty() {
            break;
        }
        got.extend(v);
        pos = end;
    }
    chain("resume", b, &Seen { items: got, capped: false, revived: false }, &all)
}

// ------------------------------------------------------------ C06: partitioning
fn c06_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    if r.chance(1, 3) {
        let g = small_world(r, x.thorough);
        simulate(r, &g, c);
        oversize(r, c, 10);
    } else {
        damaged_world(r, c, x.thorough);
    }
    if r.chance(1, 10) {
        c.ev.insert(0, Ev::new("gap", &[r.skewed(3000) as i64, r.range(0, 255)]));
    }
    gap(r, c, 100, 18);
    match long(c.index, 40000) {
        1 => repeat(r, c, 10_000, 300_000),
        2 => repeat(r, c, 500_000, 7_500_000),
        _ => {}
    }
    if c.index % 40000 == 1001 {
        huge(r, c);
    }
    for _ in 0..3 {
        let m = c.of("msg").count() as u64;
        let n = match r.below(8) {
            0 => 1,
            1..=4 => 1 + r.below(m + 3),
            5 => 1 + r.skewed(m * 40 + 10),
            6 => 1 + r.skewed(1 << 20),
            _ => 2 + r.below(6),
        };
        c.ev.push(Ev::new("num", &[n as i64]));
    }
    if r.chance(1, 20) {
        c.ev.push(Ev::new("num", &[*r.pick(&[i64::MAX, 1 << 40, 1 << 32, u32::MAX as i64])]));
    }
    for _ in 0..6 {
        let m = c.of("msg").count() as i64;
        let top = if r.chance(1, 4) { 400 } else { 12 };
        let len = 1 + r.skewed(top) as i64;
        let d = match r.below(4) {
            0 => 0,
            1 => r.range(-6, 6),
            _ => r.range(-20, 120),
        };
        c.ev.push(Ev::new("range", &[r.range(0, m.max(1) - 1), d, len]));
    }
}
fn c06_run(c: &Case, x: &mut Ctx) -> R<()> {
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let all = model::greedy(b, 0);
    let big = all.iter().map(|m| m.1 - m.0).max().unwrap_or(0);
    x.probe_if(model::embeds(b, &all), "marker inside a reported message");
    for e in c.of("num") {
        let mut num = e.get(0).max(1) as usize;
        if b.len() > 1 << 17 {
            num = num.min(if is_huge(c) { 9 } else { 600 }); // time
        }
        let name = "partition";
        // every partition may need a look at one maximal message
        let parts = num.min(b.len().max(1)) as u64;
        let lim = limit(b.len()) + parts * (100_000 + 400 * b.len().min(66_000) as u64);
        let got: Vec<(usize, usize)> =
            x.lib(name, lim, || sut::partition(b, num).iter().map(|s| (s.as_ptr() as usize - b.as_ptr() as usize, s.len())).collect())?;
        x.nontrivial |= got.len() >= 2;
        x.probe_if(b.len() < num, "more partitions than bytes");
        x.probe_if(big * num > b.len() && got.len() > 1, "message larger than an even share");
        x.see(hash_bytes(3, format!("{:?}", got).as_bytes()));
        let mut p = 0;
        for (i, g) in got.iter().enumerate() {
            if g.0 != p || g.1 == 0 {
                return fail("coverage:partition", format!("{} partitions of {} bytes: number {} is {}..{}, should start at {} and not be empty", num, b.len(), i, g.0, g.0 + g.1, p));
            }
            if let Some(m) = all.get(all.partition_point(|m| m.1 <= g.0)).filter(|m| m.0 < g.0) {
                return fail("split:partition", format!("{} partitions: boundary {} splits the message {}..{}", num, g.0, m.0, m.1));
            }
            if g.1 > 2 * b.len().div_ceil(num) + big {
                return fail("balance:partition", format!("{} partitions of {} bytes: number {} has {} bytes (largest message {})", num, b.len(), i, g.1, big));
            }
            p = g.0 + g.1;
        }
        if got.len() > 4 * num {
            return fail("count:partition", format!("{} partitions requested, {} returned", num, got.len()));
        }
        if p != b.len() {
            return fail("coverage:partition", format!("{} partitions of {} bytes hold only {}", num, b.len(), p));
        }
        let mut seen = vec![];
        for g in &got {
            let s = &b[g.0..g.0 + g.1];
            let part = x.lib("seq", limit(s.len()), || own(sut::seq(s, 0, cap(s.len()))))?;
            ended("seq", &part)?;
            seen.extend(part.items.into_iter().map(|(o, v, l)| (o + g.0, v, l)));
        }
        chain("parts", b, &Seen { items: seen, capped: false, revived: false }, &all)?;
        if num <= 64 && b.len() < 1 << 26 {
            let bufs = x.lib("partition_buffer", lim, || sut::partition_buffer(b, num))?;
            if bufs.len() != got.len() || bufs.iter().zip(&got).any(|(v, g)| v[..] != b[g.0..g.0 + g.1]) {
                return fail("buffer:partition", format!("a loaded buffer is partitioned differently into {} parts", num));
            }
        }
    }
    for e in c.of("range") {
        let s = at(&w, e);
        let t = s + e.get(2).clamp(1, 1 << 20) as usize;
        let want = all.iter().copied().find(|m| m.0 < s && s < m.1 && t <= m.1 && t <= b.len());
        // not asked: a range that starts before an unreadable stretch and so on is covered by None
        let got = x.lib("contained", limit(b.len()) + 20_000_000, || sut::contained(b, (s, t)).map(|(o, e)| (o, sut::bytes_of(&e))))?;
        x.probe_if(want.is_some(), "range inside a message");
        x.probe_if(want.is_none() && all.iter().any(|m| m.0 < s && s < m.1), "range reaches out of a message");
        let ok = match (&got, want) {
            (None, None) => true,
            (Some((o, v)), Some(m)) => *o == m.0 && v[..] == b[m.0..m.1],
            _ => false,
        };
        if !ok {
            return fail("contained", format!("bytes {}..{}: contained in {:?}, found {:?}", s, t, want, got.map(|g| (g.0, g.1.len()))));
        }
    }
    Ok(())
}

// --------------------------------------------------------- C07: parallel commands
const GROUP: u64 = 8;
fn c07_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    // the same workload under GROUP schedules
    let mut wr = Rng::new(&[c.seed, 7007, c.index / GROUP]);
    let wr = &mut wr;
    let n = *wr.pick(&[6, 12, 20, 40, 80, 200]);
    // more messages in a partition than 16 bits count
    let many = (c.index / GROUP) % 900 == 403;
    if many || wr.chance(1, 2) {
        let mut g = Cfg::intact(wr, n);
        g.msgs += if many { 8 } else { 0 };
        g.hello = wr.chance(3, 4);
        simulate(wr, &g, c);
    } else {
        let mut g = Cfg::damaged(wr, n);
        g.hello = wr.chance(3, 4);
        simulate(wr, &g, c);
    }
    c.set("cmd", wr.range(0, 6));
    c.set("ncpu", *wr.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 8, 12, 16, 16, 33, 70]));
    oversize(wr, c, if [1, 2, 3].contains(&c.get("cmd")) { 6 } else { 20 });
    c.set("mmap", wr.range(0, 1));
    if wr.chance(1, 5) {
        c.set("pool", *wr.pick(&[1, 1, 2, 3, 4, 7, 16, 40]));
    }
    gap(wr, c, 30, 20);
    if !many {
        fleet(wr, c, 20);
    }
    let k = c.index % GROUP;
    match long(c.index / GROUP, 24000 / GROUP) {
        1 => repeat(wr, c, 10_000, 30_000),
        2 if c.get("cmd") != 2 => repeat(wr, c, 100_000, 3_000_000),
        _ => {}
    }
    if many {
        c.set("cmd", if c.index / GROUP % 1800 < 900 { 0 } else { *wr.pick(&[1, 3]) });
        c.set("ncpu", wr.range(1, 2));
        for e in &mut c.ev {
            if e.k == "msg" {
                e.a[world::A_PLEN] = e.a[world::A_PLEN].min(11);
            }
        }
        repeat(wr, c, 7_000_000, 900_000);
    }
    if (c.index / GROUP) % 3000 == 503 && k < 2 {
        huge(wr, c);
        c.set("mmap", 1);
        return;
    }
    if (c.index / GROUP) % 2000 == 1703 && k < 2 {
        ballast(wr, c, &[0, 4, 5, 6]);
        return;
    }
    if k == 0 {
        return; // the undisturbed schedule
    }
    let base = match x.base.get(&(c.index / GROUP)) {
        Some(b) => *b,
        None => {
            let mut quiet = Ctx::new(&x.bindir, false);
            std::mem::swap(&mut quiet.machine, &mut x.machine);
            let w = world::build(c);
            let run = par_run(c, &mut quiet, &w.bytes);
            std::mem::swap(&mut quiet.machine, &mut x.machine);
            let b = (run.plan.multi_from, run.plan.steps, run.plan.switches);
            x.base.clear();
            x.base.insert(c.index / GROUP, b);
            b
        }
    };
    // scheduler choices: uniform, few, or starving
    let style = r.below(4);
    let len = *r.pick(&[40, 200, 1000, 3000]);
    let mut d: Vec<u8> = (0..len)
        .map(|_| match style {
            0 => r.below(256) as u8,
            1 => 200 + r.below(50) as u8,
            2 => {
                if r.chance(1, 10) {
                    r.below(256) as u8
                } else {
                    0
                }
            }
            _ => r.skewed(255) as u8,
        })
        .collect();
    if r.chance(1, 6) {
        d.clear();
    }
    if !d.is_empty() {
        for b in d.chunks(40) {
            c.ev.push(Ev::with("dec", &[], b.to_vec()));
        }
    }
    let span = base.1.saturating_sub(base.0).max(1);
    for _ in 0..r.skewed(40) {
        c.ev.push(Ev::new("pre", &[(base.0 + r.below(span + span / 4)) as i64]));
    }
    if r.chance(1, 6) {
        chunks(r, c, OP_STDOUT);
        soft(r, c, OP_STDOUT, 2, 6);
    }
    if r.chance(1, 5) {
        for _ in 0..1 + r.below(8) {
            c.ev.push(Ev::new("fault", &[OP_THREAD, K_SHORT, r.skewed(60) as i64, 0]));
        }
    }
    let e = match r.below(30) {
        0 => Ev::new("fault", &[OP_SPAWN, K_ENOMEM, r.below(c.get("ncpu") as u64 + 1) as i64, 0]),
        1 => no_memory(r, 300),
        2 => match r.below(5) {
            0 => Ev::new("fault", &[OP_OPEN, *r.pick(&[K_ENOENT, K_EACCES, K_EMFILE]), 0, errno(r, OP_OPEN)]),
            1 => Ev::new("fault", &[OP_MMAP, *r.pick(&[K_ENOMEM, K_ENODEV, K_EACCES, K_EIO]), 0, errno(r, OP_MMAP)]),
            2 => Ev::new("fault", &[OP_STAT, K_EIO, r.range(0, 1), errno(r, OP_STAT)]),
            _ => Ev::new("err", &[OP_READ, r.skewed(8000) as i64, K_EIO, errno(r, OP_READ)]),
        },
        3 => match r.below(2) {
            0 => Ev::new("fault", &[OP_STDOUT, *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), r.skewed(12) as i64, errno(r, OP_STDOUT)]),
            _ => Ev::new("err", &[OP_STDOUT, r.skewed(600) as i64, *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), errno(r, OP_STDOUT)]),
        },
        _ => return,
    };
    c.ev.push(e);
}
fn par_run(c: &Case, x: &mut Ctx, b: &world::Store) -> rt::Run {
    let cmd = model::PAR[c.get("cmd").rem_euclid(7) as usize];
    let mode = if c.get("mmap") != 0 { "mmap" } else { "read" };
    let huge = is_huge(c);
    if c.get("pool") > 0 {
        x.machine.env.push(("RAYON_NUM_THREADS".into(), c.get("pool").clamp(1, 64).to_string()));
    }
    let lim = if huge { HUGE } else { 20_000_000 + 6 * limit(b.len()) + 4_000_000 * c.get("ncpu").max(1) as u64 };
    let cap = if huge { 1 << 22 } else { b.len() * 8 + (1 << 20) };
    x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], Plan::of(c, lim), b, &[], cap)
}
fn c07_run(c: &Case, x: &mut Ctx) -> R<()> {
    let mut c = c.clone();
    c.ev.retain(|e| !(e.k == "fault" && e.get(1) == K_WRONGHINT || e.k == "grow"));
    let cmd = model::PAR[c.get("cmd").rem_euclid(7) as usize];
    let w = log_of(&c, x);
    let b = &w.bytes[..];
    sized(&mut c, b.len());
    let ncpu = c.get("ncpu").clamp(1, 256) as usize;
    let run = par_run(&c, x, &w.bytes);
    x.st.schedules.insert(run.plan.trace_hash);
    x.nontrivial = run.plan.nthreads >= 2 && run.plan.decisions + run.plan.preempted > 0;
    x.probe_if(run.plan.preempted > 0, "thread preempted");
    x.probe_if(run.plan.nthreads > 3, "more than three threads");
    x.probe_if(ncpu > model::greedy(b, 0).len(), "more CPUs than messages");
    crashed("ripdlt", &run)?;
    let name = format!("ripdlt {} ({} CPUs)", cmd, ncpu);
    x.probe_if(run.plan.fired[OP_THREAD as usize][K_SHORT as usize] > 0, "spurious wake-up");
    let hin = (0..4).any(|o| run.plan.hard_fired(o)) || run.plan.fired[OP_OPEN as usize][K_EINTR as usize] > 0;
    let hout = run.plan.hard_fired(OP_STDOUT);
    x.probe_if(hin, "input failed");
    x.probe_if(hout, "output failed");
    x.probe_if(c.get("pool") > 0 && c.get("pool") != c.get("ncpu"), "as many threads as told, not as CPUs");
    if hout && run.exit == Some(0) {
        return fail(&format!("hidden:{}", cmd), format!("{} exits with success although its output failed", name));
    }
    if run.exit != Some(0) {
        if run.plan.starved() || hin || hout {
            return Ok(()); // it says so
        }
        return fail(&format!("status:{}", cmd), format!("{} exits with {:?}: {}", name, run.exit, tail(&run)));
    }
    x.probe_if(run.plan.starved(), "right without memory or threads");
    let out = String::from_utf8_lossy(&run.stdout).into_owned();
    let lines: Vec<&str> = out.strip_suffix('\n').unwrap_or(&out).split('\n').skip(1).filter(|l| !l.starts_with("available parallelism")).collect();
    let log = Log::new(b);
    let wrong = |want: String| fail(&format!("result:{}", cmd), format!("{} prints {:?}, should be {}", name, lines, want));
    let figure = |text: &str| -> Option<usize> {
        if lines.len() != 1 {
            return None;
        }
        lines[0].strip_suffix(text)?.trim().parse().ok()
    };
    // what each partition holds
    let parts: Vec<&[u8]> = x.lib("partition", u64::MAX / 2, || sut::partition(b, ncpu))?;
    let logs: Vec<Log> = parts.iter().map(|p| Log::new(p)).collect();
    let said = out.lines().find(|l| l.starts_with("available parallelism")).and_then(|l| l.rsplit('=').next()?.trim().parse::<usize>().ok());
    let same_parts = said == Some(parts.len());
    let most = ncpu.max(parts.len()).max(said.unwrap_or(0));
    x.probe_if(same_parts, "partitions known");
    x.probe_if(logs.iter().any(|l| l.ms.len() > 65_535), "partition of more than 65535 messages");
    match cmd {
        "par_count" => {
            let n = log.ms.len();
            if figure("messages") != Some(n) {
                return wrong(format!("{} messages", n));
            }
        }
        "par_count_hello_world" => {
            let n = log.hello();
            if figure("hello world messages") != Some(n) {
                return wrong(format!("{} hello world messages", n));
            }
        }
        "par_count_hello_world_raw" => {
            let n = model::occurrences(b, b"Hello World");
            match figure("hello world messages") {
                Some(g) if g <= n && g + most >= n => {}
                _ => return wrong(format!("about {} matches", n)),
            }
            if same_parts {
                let n: usize = parts.iter().map(|p| model::occurrences(p, b"Hello World")).sum();
                if figure("hello world messages") != Some(n) {
                    return wrong(format!("{} matches", n));
                }
            }
        }
        "par_count_hello_world_grepit" => {
            if let Some(n) = log.hello_grep().map(|v| v.len()) {
                if figure("hello world messages") != Some(n) {
                    return wrong(format!("{} hello world messages", n));
                }
            } else if figure("hello world messages").map_or(true, |g| g > model::markers(b).len()) {
                return wrong("a number of messages".into());
            }
        }
        "par_histogram_timestamp" => {
            let mut got: BTreeMap<usize, usize> = BTreeMap::new();
            let head = lines.first().map_or(false, |l| l.starts_with("Durations"));
            for l in lines.iter().skip(1) {
                let Some((k, n)) = (|| {
                    let (a, n) = l.split_once(" secs: ")?;
                    let (k, k1) = a.split_once('-')?;
                    let k: usize = k.parse().ok()?;
                    (k1.parse::<usize>().ok()? == k + 1).then_some((k, n.trim().parse::<usize>().ok()?))
                })() else {
                    return wrong("a histogram".into());
                };
                if got.insert(k, n).is_some() {
                    return wrong("each duration once".into());
                }
            }
            let whole = log.secs_histogram();
            if !head && !lines.is_empty() {
                return wrong("a histogram with its title".into());
            }
            if same_parts {
                let mut want: BTreeMap<usize, usize> = BTreeMap::new();
                for l in &logs {
                    for (k, n) in l.secs_histogram() {
                        *want.entry(k).or_insert(0) += n;
                    }
                }
                if got != want {
                    return wrong(format!("{:?}", want));
                }
            }
            let (g, n): (usize, usize) = (got.values().sum(), whole.values().sum());
            if g < n || g > n + most {
                return wrong(format!("{:?} with at most {} periods cut", whole, most));
            }
        }
        "par_split_timestamp" => {
            let whole = log.split_secs();
            let mut want: BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> = BTreeMap::new();
            for l in &logs {
                for (k, (h, n)) in l.split_secs() {
                    let e = want.entry(k).or_default();
                    for (d, m) in h {
                        *e.0.entry(d).or_insert(0) += m;
                    }
                    e.1 += n;
                }
            }
            let show: Vec<String> = want.iter().map(|(k, v)| format!("{} #lifecycles: {:?}", String::from_utf8_lossy(k), v)).collect();
            if same_parts && lines.get(1..).map_or(true, |l| l.join("\n") != show.join("\n")) && !(show.is_empty() && lines.len() <= 1) {
                return wrong(format!("{:?}", show));
            }
            let total = |s: &str| s.rsplit(' ').next().and_then(|x| x.trim_end_matches(')').parse::<usize>().ok());
            let got: Vec<(String, Option<usize>)> =
                lines.iter().skip(1).map(|l| (l.split(" #lifecycles").next().unwrap_or("").to_string(), total(l))).collect();
            let need: Vec<(String, Option<usize>)> =
                whole.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), Some(v.1))).collect();
            // source ids may contain line breaks; then only the lines above are compared
            if whole.keys().all(|k| k.iter().all(|c| (32..127).contains(c))) && got != need {
                return wrong(format!("the sources {:?}", need));
            }
        }
        _ => {
            let mut got: Vec<usize> = vec![];
            for l in &lines {
                match l.strip_suffix(" lifecycles >= 1800s").and_then(|n| n.parse().ok()) {
                    Some(n) => got.push(n),
                    None => return wrong("one line per partition".into()),
                }
            }
            got.sort();
            let mut want: Vec<usize> = logs.iter().map(|l| l.long_lifecycles()).collect();
            want.sort();
            if same_parts && got != want {
                return wrong(format!("{:?} in any order", want));
            }
            let (g, n) = (got.iter().sum::<usize>(), log.long_lifecycles());
            if g > n + most {
                return wrong(format!("about {}", n));
            }
        }
    }
    Ok(())
}

// -------------------------------------------------------- C08: no damage harms
fn c08_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    damaged_world(r, c, x.thorough);
    if r.chance(1, 12) {
        c.ev.retain(|e| e.k != "msg" || e.get(world::A_PSEED) % 3 == 0);
    }
    if r.chance(1, 10) {
        // dense markers
        let n = 1 + r.skewed(300);
        let mut d = vec![];
        for _ in 0..n {
            d.extend_from_slice(&model::MARK);
            if r.chance(1, 3) {
                d.extend((0..r.below(20)).map(|_| *r.pick(&[0u8, 0, 1, 20, 255, b'D'])));
            }
        }
        c.ev.push(Ev::with("junk", &[], d));
    }
    positions(r, c, "from", 2, true);
    positions(r, c, "at", 3, false);
    for _ in 0..2 {
        c.ev.push(Ev::new("num", &[1 + r.skewed(200) as i64]));
    }
    c.set("pat", r.range(0, PATS.len() as i64 - 1));
    c.set("cpat", r.range(0, CAPS.len() as i64 - 1));
    for _ in 0..2 {
        c.ev.push(Ev::new("cmd", &[r.range(0, 20), r.range(0, 1)]));
    }
    gap(r, c, 60, 14);
    if long(c.index, 30000) > 0 {
        repeat(r, c, 5_000, 30_000);
    }
    c.set("ncpu", r.range(1, 6));
}
fn same_fields(off: usize, name: &str, got: &Fields, want: &Fields) -> R<()> {
    if got == want {
        return Ok(());
    }
    let which = if got.flags != want.flags {
        "flags"
    } else if got.hecu != want.hecu {
        "ecu_id"
    } else if got.tmsp != want.tmsp {
        "timestamp"
    } else if got.ext != want.ext {
        "extended_header"
    } else if got.payload != want.payload {
        "payload"
    } else {
        "storage header"
    };
    let short = |f: &Fields| Fields { payload: f.payload.as_ref().map(|p| p.iter().take(12).copied().collect()), ..f.clone() };
    fail(&format!("field:{}", which), format!("{} of the message at {}: {} is {:?}, stored {:?}", name, off, which, short(got), short(want)))
}
fn c08_run(c: &Case, x: &mut Ctx) -> R<()> {
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let n = b.len();
    let (lim, k) = (limit(n), cap(n));
    let all = model::greedy(b, 0);
    let thin = c.of("msg").any(|e| e.get(world::A_LEN) > 0);
    x.nontrivial = damaged(&w) || thin;
    // every reader; every field of everything it reports
    let fields = |s: Seen<(usize, E<'_>)>| -> (Seen<()>, Vec<(usize, usize, Fields)>) {
        let v = s.items.iter().map(|(o, e)| (*o, sut::len_of(e).0, sut::fields(e))).collect();
        (Seen { items: vec![], capped: s.capped, revived: s.revived }, v)
    };
    let check = |name: &str, got: (Seen<()>, Vec<(usize, usize, Fields)>)| -> R<()> {
        ended(name, &got.0)?;
        for (o, l, f) in got.1 {
            match model::parse_at(b, o) {
                Some(e) if e == o + l => same_fields(o, name, &f, &model::fields(&b[o..e]))?,
                e => return fail(&format!("invented:{}", name), format!("{} reports a message of {} bytes at {} where {:?} stands", name, l, o, e)),
            }
        }
        Ok(())
    };
    let mut starts: Vec<usize> = vec![0];
    starts.extend(c.of("from").map(|e| at(&w, e)));
    for &from in &starts {
        check("seq", x.lib("seq", lim, || fields(sut::seq(b, from, k)))?)?;
        check("seq_trait", x.lib("seq_trait", lim, || fields(sut::seq_trait(b, from, k)))?)?;
        check("strict", x.lib("strict", lim, || fields(sut::strict(b, from, k)))?)?;
        check("fwd", x.lib("fwd", lim, || fields(sut::fwd(b, from, k)))?)?;
        check("rev", x.lib("rev", lim, || fields(sut::rev(b, from, b.len() / 4 + 4)))?)?;
        if from <= n {
            let p = PATS[c.get("pat").rem_euclid(PATS.len() as i64) as usize];
            check("grep", x.lib("grep", lim, || fields(sut::grep(b, p, from, k)))?)?;
            let p = CAPS[c.get("cpat").rem_euclid(CAPS.len() as i64) as usize];
            ended("capture", &x.lib("capture", lim, || sut::capture(b, p, from, k))?)?;
        }
    }
    check("rev", x.lib("rev", lim, || fields(sut::rev(b, n, b.len() / 4 + 4)))?)?;
    for e in c.of("at") {
        let p = at(&w, e).min(n);
        let s = &b[p..];
        let got = x.lib("try_read", lim, || sut::try_read(s).map(|(l, e)| (l, sut::fields(&e))))?;
        match (&got, model::parse_at(s, 0)) {
            (None, None) => {}
            (Some((l, f)), Some(e)) if *l == e => same_fields(p, "try_read", f, &model::fields(&s[..e]))?,
            (g, e) => return fail("wrong:try_read", format!("reading at {} yields {:?} bytes, should be {:?}", p, g.as_ref().map(|g| g.0), e)),
        }
        let got = x.lib("try_read_bare", lim, || sut::try_read_bare(s).map(|(l, e)| (l, sut::fields_bare(&e))))?;
        match (&got, model::parse_bare(s, 0)) {
            (None, None) => {}
            (Some((l, f)), Some(e)) if *l == e => same_fields(p, "try_read_bare", f, &model::fields_bare(&s[..e]))?,
            (g, e) => return fail("wrong:try_read_bare", format!("reading without storage header at {} yields {:?} bytes, should be {:?}", p, g.as_ref().map(|g| g.0), e)),
        }
        ended("strict_bare", &x.lib("strict_bare", lim, || sut::strict_bare(s, 0, s.len() / 4 + 4))?)?;
        let t = (p + 1 + (p * 7) % 50, p + 1 + (p * 3) % 9);
        x.lib("contained", lim + 20_000_000, || {
            sut::contained(b, (p, t.0)).map(|m| m.0);
            sut::contained(b, (p, t.1)).map(|m| m.0);
            sut::contained(b, (p, p)).map(|m| m.0);
            sut::contained(b, (t.0, p)).map(|m| m.0);
        })?;
    }
    for e in c.of("num") {
        let num = e.get(0).max(1) as usize;
        x.lib("partition", lim + num as u64 * (100_000 + 400 * n.min(66_000) as u64), || sut::partition(b, num).len())?;
    }
    x.probe_if(all.iter().any(|m| m.1 - m.0 < 30), "message shorter than its headers may be");
    x.probe_if(all.is_empty(), "nothing readable");
    let cmds: Vec<Ev> = c.of("cmd").cloned().collect();
    for e in cmds {
        let i = e.get(0).rem_euclid(21) as usize;
        let cmd = if i < 14 { model::SEQ[i] } else { model::PAR[i - 14] };
        let mode = if e.get(1) != 0 { "mmap" } else { "read" };
        let lim = 20_000_000 + 8 * limit(n) + 20_000_000 * c.get("ncpu").max(1) as u64;
        let mut quiet = c.clone();
        quiet.ev.retain(|e| e.k == "dec" || e.k == "pre");
        let r = x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], Plan::of(&quiet, lim), &w.bytes, &[], n * 8 + (1 << 20));
        crashed(&format!("ripdlt {}", cmd), &r)?;
        if r.exit != Some(0) {
            return fail(&format!("status:{}", cmd), format!("ripdlt {} {} exits with {:?}: {}", mode, cmd, r.exit, tail(&r)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C09: searching
pub const PATS: &[&str] = &[
    "H.* World",
    "Hello World",
    "Hello",
    "(?-u)H[^\\x00]*World",
    "(?s-u)H.*World",
    "(?s-u)H.*?World",
    "World",
    "[a-c]+",
    "x*",
    "",
    "(?-u)\\xff",
    "H(?:ello|ola)",
    "(?s-u).",
    "(?s-u)Hxx.*",
    "(?-u)\\x00+",
    "(?-u)[^D]{30,}",
    "or|r|wo",
    "(?i)hello",
    "W(?:orld)?",
    "(?s-u)a.{0,60}z",
    "ZZZnever",
    "(?s-u)H.{4,200}",
];
pub const CAPS: &[&str] = &[
    "H(.*) World",
    "(Hello) World",
    "(H)",
    "H([a-z]*)",
    "(x*)",
    "(?s-u)H(.*)World",
    "(?s-u)(.)",
    "([a-c])([a-c]*)",
    "()",
    "(?s-u)Hxx(.*)",
    "W(orld|)",
    "(?s-u)H(.*?)d",
    "(?-u)\\x00(\\x00*)",
    "(ZZZ)never",
    "(?s-u)a(.{0,60})z",
    "o(r|l)",
];
fn c09_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let n = *r.pick(&[4, 8, 12, 20, 40, if x.thorough { 300 } else { 30 }]);
    let mut g = if r.chance(1, 3) { Cfg::intact(r, n) } else { Cfg::damaged(r, n) };
    g.hello = r.chance(5, 6);
    g.embed = r.chance(1, 12);
    if r.chance(1, 2) {
        g.damage = r.below(3);
    }
    simulate(r, &g, c);
    oversize(r, c, 60);
    for _ in 0..3 {
        c.ev.push(Ev::new("pat", &[if r.chance(1, 4) { 0 } else { r.range(0, PATS.len() as i64 - 1) }]));
    }
    for _ in 0..2 {
        c.ev.push(Ev::new("cap", &[r.range(0, CAPS.len() as i64 - 1)]));
    }
    // composed patterns
    if r.chance(1, 3) {
        c.ev.push(Ev::new("pat", &[0, r.range(1, 400)]));
    }
    if r.chance(1, 4) {
        c.ev.push(Ev::new("cap", &[0, r.range(1, 400)]));
    }
    c.set("skip", r.skewed(6) as i64);
    gap(r, c, 200, 13);
    if long(c.index, 120000) > 0 {
        repeat(r, c, 5_000, 30_000);
    }
    if c.index % 120000 == 1001 {
        huge(r, c);
        c.set("hole_at", 0); // patterns that match zeros would scan them for every message before
        c.ev.retain(|e| e.k != "pat" && e.k != "cap");
        c.ev.push(Ev::new("pat", &[*r.pick(&[0, 1, 11, 16])]));
        c.ev.push(Ev::new("cap", &[*r.pick(&[0, 1, 2])]));
    }
}
thread_local! {
    static RES: std::cell::RefCell<BTreeMap<String, regex::bytes::Regex>> = Default::default();
}
fn re(p: &str) -> regex::bytes::Regex {
    RES.with(|m| m.borrow_mut().entry(p.to_string()).or_insert_with(|| regex::bytes::Regex::new(p).unwrap()).clone())
}
/// the pattern of an event: a listed one, or number `n` of the composed ones
fn pattern(e: &Ev, list: &[&str], group: bool) -> String {
    let n = e.get(1).clamp(0, 1 << 20) as u64;
    if n == 0 {
        return list[e.get(0).rem_euclid(list.len() as i64) as usize].into();
    }
    let r = &mut Rng::new(&[9009, n, group as u64]);
    const ATOMS: &[&str] = &[
        "H", "W", "o", "l+", "[a-z]", "[a-z]*", "[^ ]", "[^ ]+", ".", "..", ".*", ".*?", ".{3,40}", "o?", "x{2,5}", "(?:l|o)", "[0-9]", "ello", " ",
        "orld", "(?:Hello|World)", "\\x00", "\\xff", "[\\x00-\\x1f]+", "a", "b", "c", "[^D]*", "d", "(?:ab|bc|ca)?",
    ];
    let n = 1 + r.below(4) as usize;
    let at = r.below(n as u64) as usize;
    let mut s = String::from(if r.chance(1, 2) { "(?s-u)" } else { "(?-u)" });
    if r.chance(1, 6) {
        s.push_str("(?i)");
    }
    for i in 0..n {
        let a = *r.pick(ATOMS);
        if group && i == at {
            s.push_str(&format!("({}){}", a, if r.chance(1, 6) { "?" } else { "" }));
        } else {
            s.push_str(a);
        }
        if r.chance(1, 12) {
            s.push('|');
        }
    }
    s
}
fn c09_run(c: &Case, x: &mut Ctx) -> R<()> {
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let (lim, k) = (limit(b.len()), cap(b.len()));
    let log = Log::new(b);
    let exact = !model::embeds(b, &log.ms);
    x.probe_if(exact, "no marker inside messages");
    let skip = (c.get("skip").max(0) as usize).min(log.ms.len());
    let from = if skip == 0 { 0 } else { log.ms[skip - 1].1 };
    let short = |v: &[usize]| v.iter().take(12).copied().collect::<Vec<_>>();
    for e in c.of("pat") {
        let p = &pattern(e, PATS, false)[..];
        let rx = re(p);
        let want: Vec<usize> = log.greps(&rx).into_iter().filter(|o| *o >= from).collect();
        let rest = log.ms.len() - skip;
        x.nontrivial |= exact && !want.is_empty() && want.len() < rest;
        x.probe_if(exact && want.len() == rest && rest > 1, "every message matches");
        // a match of the unbounded pattern that reaches over the end of its message
        x.probe_if(exact && !is_huge(c) && rx.find_iter(b).take(50).any(|m| log.ms.iter().any(|s| s.0 < m.start() && m.start() < s.1 && s.1 < m.end())), "match reaches over a message's end");
        let got = x.lib("grep", lim, || own(sut::grep(b, p, from, k)))?;
        ended("grep", &got)?;
        let offs: Vec<usize> = got.items.iter().map(|g| g.0).collect();
        x.see(hash_bytes(9, format!("{:?}", offs).as_bytes()));
        if offs.windows(2).any(|p| p[0] >= p[1]) {
            return fail("order:grep", format!("search for {:?} reports {:?}", p, short(&offs)));
        }
        for g in &got.items {
            match model::parse_at(b, g.0) {
                Some(e) => {
                    whole("grep", b, g, &(g.0, e))?;
                    if !rx.is_match(&b[g.0 + 4..e]) {
                        return fail("nomatch:grep", format!("search for {:?} reports the message {}..{}, which holds no match", p, g.0, e));
                    }
                }
                None => return fail("invented:grep", format!("search for {:?} reports {} where no message stands", p, g.0)),
            }
        }
        if exact && offs != want {
            let m = want.iter().find(|o| !offs.contains(o));
            let class = if m.is_some() { "missing:grep" } else { "extra:grep" };
            return fail(class, format!("search for {:?} from {} reports {:?}, should be {:?}", p, from, short(&offs), short(&want)));
        }
    }
    for e in c.of("cap") {
        let p = &pattern(e, CAPS, true)[..];
        let rx = re(p);
        let want: Vec<(usize, (usize, usize))> = log
            .ms
            .iter()
            .filter(|m| m.0 >= from)
            .filter_map(|m| {
                let g = rx.captures(&b[m.0 + 4..m.1])?.get(1)?;
                Some((m.0, (m.0 + 4 + g.start(), m.0 + 4 + g.end())))
            })
            .collect();
        let got = x.lib("capture", lim, || sut::capture(b, p, from, k))?;
        ended("capture", &got)?;
        x.see(hash_bytes(9, format!("{:?}", got.items).as_bytes()));
        if got.items.windows(2).any(|p| p[0].0 >= p[1].0) {
            return fail("order:capture", format!("capture of {:?} reports {:?}", p, &got.items[..got.items.len().min(8)]));
        }
        for (o, g) in &got.items {
            let ok = model::parse_at(b, *o).map_or(false, |e| {
                o + 4 <= g.0 && g.0 <= g.1 && g.1 <= e && rx.is_match(&b[o + 4..e])
            });
            if !ok {
                return fail("wrong:capture", format!("capture of {:?} reports {:?} for the message at {} ({:?})", p, g, o, model::parse_at(b, *o)));
            }
        }
        if exact && got.items != want {
            return fail("missing:capture", format!("capture of {:?} from {} reports {:?}, should be {:?}", p, from, &got.items[..got.items.len().min(8)], &want[..want.len().min(8)]));
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C10: generators
fn c10_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    // now and then many sources, or long histories
    let many = r.chance(1, 40);
    let top = *r.pick(&[60, 60, 300, 900]);
    let srcs = if many && r.chance(1, 2) { 10 + r.below(top) } else { 1 + r.below(4) };
    let most = if many { 4 + 300 / srcs } else { 14 };
    let scale = *r.pick(&[1, 1, 1, 1, 37, 1000]);
    // more messages than 16 bits can count
    let very = c.index % 100_000 == 4004;
    let srcs = if very { 1 + r.below(3) } else { srcs };
    let style = if very { 0 } else { r.below(4) };
    // each source has its own history ...
    let mut hist: Vec<Vec<M>> = (0..srcs)
        .map(|s| {
            let mut t = r.below(30) as u32;
            let n = if very { 66_000 / srcs + r.below(3000) } else if many { r.below(most + 1) } else { r.skewed(most) };
            (0..n)
                .map(|_| {
                    t = match (style, r.below(6)) {
                        (0, _) => r.below(12 * scale) as u32,
                        (_, 0) => t.saturating_sub(r.below(20 * scale) as u32),
                        (_, 1) => t,
                        _ => t + r.below(8 * scale) as u32,
                    };
                    M { src: s as u32, t, v: r.below(if style == 1 { 2 } else { 7 }) as u32 }
                })
                .collect()
        })
        .collect();
    // ... and the network decides how they interleave
    let burst = *r.pick(&[1, 1, 2, 5]);
    while hist.iter().any(|h| !h.is_empty()) {
        let i = r.below(srcs) as usize;
        for _ in 0..1 + r.below(burst) {
            if !hist[i].is_empty() {
                let m = hist[i].remove(0);
                c.ev.push(Ev::new("m", &[m.src as i64, m.t as i64, m.v as i64]));
            }
        }
    }
    let n = c.ev.len() as u64;
    for _ in 0..2 {
        c.ev.push(Ev::new("stop", &[r.below(n + 1) as i64]));
    }
    c.set("pipe", r.range(0, sut::NPIPE as i64 - 1));
    c.set("rel", r.range(0, sut::NREL as i64 - 1));
    c.set("k", r.range(1, 7));
}
fn c10_run(c: &Case, x: &mut Ctx) -> R<()> {
    let ms: Vec<M> = c.of("m").map(|e| M { src: e.get(0).clamp(0, 1000) as u32, t: e.get(1).clamp(0, 1 << 20) as u32, v: e.get(2).clamp(0, 1 << 20) as u32 }).collect();
    let (p, r, k) = (c.get("pipe").rem_euclid(sut::NPIPE as i64) as u32, c.get("rel").rem_euclid(sut::NREL as i64) as u32, c.get("k").clamp(1, 100) as u32);
    let switches = ms.windows(2).filter(|w| w[0].src != w[1].src).count();
    let srcs = ms.iter().map(|m| m.src).collect::<std::collections::BTreeSet<_>>().len();
    x.nontrivial = srcs >= 2 && switches >= srcs;
    x.probe_if(switches >= srcs && srcs > 1, "sources interleave");
    x.probe_if(ms.is_empty(), "empty stream");
    x.probe_if(srcs > 30, "more than 30 sources");
    x.probe_if(srcs > 300, "more than 300 sources");
    x.probe_if(ms.len() > 120, "long stream");
    x.st.schedules.insert(ms.iter().fold(7, |h, m| crate::rng::mix64(h ^ m.src as u64 + 1)));
    let mut stops: Vec<usize> = vec![ms.len()];
    stops.extend(c.of("stop").map(|e| (e.get(0).max(0) as usize).min(ms.len())));
    let lim = limit(ms.len() * 40) + 2000 * (ms.len() * ms.len()) as u64;
    for n in stops {
        let t = &ms[..n];
        for how in 0..5 {
            let want = model::pipeline(p, how, r, k, t);
            let got = x.lib("pipeline", lim, || sut::pipeline(p, how, r, k, t))?;
            x.see(hash_bytes(10, got.as_bytes()));
            if got != want {
                return fail(
                    &format!("result:pipe{}", p),
                    format!("pipeline {} fed by way {} with relation {} (k {}), {} messages: {}, should be {}", p, how, r, k, n, clip(&got), clip(&want)),
                );
            }
        }
        for q in 0..sut::NPULL {
            let want = model::pull(q, r, k, t);
            let got = x.lib("pull", lim, || sut::pull(q, r, k, t, n + 4))?;
            ended("pull", &got)?;
            if got.items != want {
                return fail(
                    &format!("result:pull{}", q),
                    format!("pipeline {} pulled from an iterator with relation {} (k {}), {} messages: {}, should be {}", q, r, k, n, clip(&format!("{:?}", got.items)), clip(&format!("{:?}", want))),
                );
            }
        }
        let want = model::pull_groups(r, t);
        let got = x.lib("pull_groups", lim, || sut::pull_groups(r, t, n + 4))?;
        ended("groupby", &got)?;
        if got.items != want {
            return fail("result:groupby", format!("group-by pulled from an iterator, relation {}: {}, should be {}", r, clip(&format!("{:?}", got.items)), clip(&format!("{:?}", want))));
        }
    }
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}

// ------------------------------------------------------------- C11: ripdlt
fn c11_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    c.set("cmd", r.range(0, 13));
    c.set("mmap", r.range(0, 1));
    match r.below(3) {
        0 => damaged_world(r, c, x.thorough),
        _ => {
            let mut g = small_world(r, x.thorough);
            g.crashes = r.chance(1, 4);
            g.damage = if r.chance(1, 3) { r.below(4) } else { 0 };
            g.hello = r.chance(2, 3);
            simulate(r, &g, c);
        }
    }
    if r.chance(1, 100) {
        c.set("odd", r.range(1, 12));
    }
    let grep = [2, 4].contains(&c.get("cmd"));
    oversize(r, c, if [1, 2, 3, 4].contains(&c.get("cmd")) { 3 } else { 20 });
    gap(r, c, 40, 20);
    fleet(r, c, 30);
    match long(c.index, 16000) {
        0 => {}
        2 if !grep => repeat(r, c, 500_000, 6_000_000),
        _ => repeat(r, c, 5_000, if grep { 30_000 } else { 300_000 }),
    }
    if c.index % 1000 == 500 && c.index % 16000 < 14000 {
        huge(r, c);
        c.set("cmd", (c.index / 1000 % 16) as i64);
        c.set("mmap", 1);
        return;
    }
    if c.index % 2000 == 1250 {
        ballast(r, c, &[0, 5, 6, 6, 6, 7, 8, 8, 8, 9, 10, 11, 12, 13]);
        return;
    }
    if c.get("cmd") == 4 && r.chance(1, 12) {
        // a log that reaches over the histogram's first bucket
        let at = r.below(c.ev.len() as u64 + 1) as usize;
        c.ev.insert(at, Ev::new("gap", &[*r.pick(&[100_000_000, 99_999_000, 200_000_100]), 0x2e]));
    }
    if r.chance(1, 2) {
        chunks(r, c, OP_READ);
    }
    if r.chance(1, 3) {
        chunks(r, c, OP_STDOUT);
    }
    let (a, b) = (r.below(3), r.below(3));
    soft(r, c, OP_READ, a, 6);
    soft(r, c, OP_STDOUT, b, 8);
    if r.chance(1, 4) {
        let e = match r.below(10) {
            8 | 9 => {
                if r.chance(1, 2) {
                    let at = c.ev.iter().rposition(|e| e.k == "msg").map_or(0, |i| i + 1);
                    c.ev.insert(at, Ev::new("rep", &[r.range(4_000, 40_000)]));
                }
                no_memory(r, 300)
            }
            0 => Ev::new("err", &[OP_READ, r.skewed(8000) as i64, K_EIO, errno(r, OP_READ)]),
            1 => Ev::new("fault", &[OP_READ, K_EIO, r.skewed(6) as i64, errno(r, OP_READ)]),
            2 => Ev::new("fault", &[OP_OPEN, *r.pick(&[K_ENOENT, K_EACCES, K_EMFILE, K_EIO]), 0, errno(r, OP_OPEN)]),
            3 => Ev::new("fault", &[OP_STAT, K_EIO, r.range(0, 1), errno(r, OP_STAT)]),
            4 => Ev::new("fault", &[OP_MMAP, *r.pick(&[K_ENOMEM, K_ENODEV, K_EACCES, K_EIO]), 0, errno(r, OP_MMAP)]),
            5 => Ev::new("fault", &[OP_STDOUT, *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), r.skewed(6) as i64, errno(r, OP_STDOUT)]),
            _ => Ev::new("err", &[OP_STDOUT, r.skewed(600) as i64, *r.pick(&[K_EIO, K_ENOSPC, K_EPIPE]), errno(r, OP_STDOUT)]),
        };
        c.ev.push(e);
    }
}
fn c11_run(c: &Case, x: &mut Ctx) -> R<()> {
    let cmd = model::SEQ[c.get("cmd").rem_euclid(14) as usize];
    let mode = if c.get("mmap") != 0 { "mmap" } else { "read" };
    let w = log_of(c, x);
    let b = &w.bytes[..];
    if c.get("odd") > 0 {
        let odd = ["", "Mmap", "READ", "mmap ", "file", "rea", "", "counts", "Count", "par", "split", "histogram_"][c.get("odd") as usize % 12];
        let (mode, cmd) = if c.get("odd") % 12 < 6 { (odd, cmd) } else { (mode, odd) };
        let r = x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], Plan::of(&Case::default(), HUGE), &w.bytes, &[], 1 << 20);
        x.nontrivial = true;
        x.probe("unknown command or method");
        crashed("ripdlt", &r)?;
        let lines = r.stdout.iter().filter(|c| **c == b'\n').count();
        if r.exit == Some(0) || lines > 1 {
            return fail("unknown", format!("ripdlt {:?} {:?} exits with {:?} and prints {} lines", mode, cmd, r.exit, lines));
        }
        return Ok(());
    }
    let log = Log::new(b);
    let mut c = c.clone();
    c.ev.retain(|e| !(e.k == "fault" && e.get(1) == K_WRONGHINT || e.k == "grow"));
    let small = b.len() < 10 << 20;
    if !small {
        c.ev.retain(|e| e.k != "chunk"); // time
    }
    sized(&mut c, b.len());
    let lim = if small { 20_000_000 + 4 * limit(b.len()) + 2000 * b.len() as u64 } else { 1 << 36 };
    let cap = if small { b.len() * 8 + (1 << 20) } else { 1 << 20 };
    let lim = if is_huge(&c) { HUGE } else { lim };
    let r = x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], Plan::of(&c, lim), &w.bytes, &[], cap);
    let hin = (0..4).any(|o| r.plan.hard_fired(o));
    let hout = r.plan.hard_fired(OP_STDOUT);
    let hard = hin || hout || r.plan.fired[OP_OPEN as usize][K_EINTR as usize] > 0 || r.plan.starved();
    x.nontrivial = log.ms.len() >= 2 || hard;
    x.probe_if(r.plan.starved(), "out of memory");
    x.probe_if(hin, "input failed");
    x.probe_if(hout, "output failed");
    x.probe_if(log.long_lifecycles() > 0, "long lifecycle");
    x.probe_if(log.hello() > 0, "text found");
    x.probe_if(!small, "log over 100 MB");
    crashed(&format!("ripdlt {}", cmd), &r)?;
    let failed = r.exit.map_or(true, |e| e != 0);
    let want = log.expect(cmd);
    let name = format!("ripdlt {} {}", mode, cmd);
    let echo = format!("ripdlt {} {} /simfs/log.dlt\n", mode, cmd);
    // the command echo is not a figure; behind it comes only what follows from the whole file
    let out = &r.stdout[..];
    let body = match out.iter().position(|c| *c == b'\n') {
        Some(p) => &out[p + 1..],
        None => &[],
    };
    let _ = echo;
    if let Some(want) = &want {
        let want: String = want.iter().map(|l| format!("{}\n", l)).collect();
        if !failed && body != want.as_bytes() {
            let got = String::from_utf8_lossy(body);
            let i = got.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(got.lines().count().min(want.lines().count()));
            return fail(
                &format!("figures:{}", cmd),
                format!("{} prints {:?} where {:?} is right (line {} of the result, {} messages)", name, clip(got.lines().nth(i).unwrap_or("")), clip(want.lines().nth(i).unwrap_or("")), i + 1, log.ms.len()),
            );
        }
        if failed && !want.as_bytes().starts_with(body) {
            return fail(&format!("figures:{}", cmd), format!("{} fails, but has printed {:?}", name, clip(&String::from_utf8_lossy(body))));
        }
    }
    if failed && !hard {
        return fail(&format!("status:{}", cmd), format!("{} exits with {:?} although nothing failed: {}", name, r.exit, tail(&r)));
    }
    if !failed && hout {
        return fail(&format!("hidden:{}", cmd), format!("{} exits with success although its output failed", name));
    }
    if !failed && (r.plan.hard_fired(OP_OPEN) || r.plan.hard_fired(OP_READ) || r.plan.hard_fired(OP_MMAP)) && want.is_none() {
        return fail(&format!("hidden:{}", cmd), format!("{} exits with success although its input failed", name));
    }
    Ok(())
}

// ----------------------------------------------------------- C12: writing, reading back
const TYPES: [(u8, u8); 19] = [
    (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5),
    (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (3, 1), (3, 2),
];
fn c12_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    let n = 1 + r.skewed(24);
    let word = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => 0xffff_ffff,
        2 => 0x8000_0000,
        3 => r.range(0, 255),
        _ => r.range(0, 0xffff_ffff),
    };
    for _ in 0..n {
        let usec = match r.below(5) {
            0 => r.range(i32::MIN as i64, i32::MAX as i64),
            1 => -1,
            _ => r.range(0, 999_999),
        };
        let a = vec![
            word(r), usec, word(r), r.range(0, 255), r.range(0, 255), word(r), word(r), word(r), r.range(0, 255), word(r), word(r),
            r.range(0, 1), r.range(0, 18),
            *r.pick(&[0, 0, 1, 2, 3, 6, 7, 8, 10, 12, 13, 15]),
            match r.below(30) { 0 => 65507 - r.range(0, 30), 1..=4 => 0, _ => r.skewed(200) as i64 },
            r.range(0, 1 << 40),
        ];
        c.ev.push(Ev::new("spec", &a));
        if r.chance(1, 12) {
            c.ev.push(Ev::new("stop", &[r.skewed(4) as i64]));
        }
    }
    c.set("mmap", r.range(0, 1));
    if r.chance(1, 3) {
        chunks(r, c, OP_READ);
    }
}
fn spec_of(e: &Ev) -> sut::Spec {
    let h = e.get(3) as u8;
    sut::Spec {
        secs: e.get(0) as u32,
        usec: e.get(1) as i32,
        ecu: world::id(e.get(2)),
        flags: (h & 1 != 0, h & 2 != 0, h & 4 != 0, h & 8 != 0, h & 16 != 0, h >> 5),
        mcnt: e.get(4) as u8,
        hecu: e.get(5) as u32,
        seid: e.get(6) as u32,
        tmsp: e.get(7) as u32,
        noar: e.get(8) as u8,
        apid: world::id(e.get(9)),
        ctid: world::id(e.get(10)),
        verbose: e.get(11) & 1 != 0,
        typ: TYPES[e.get(12).rem_euclid(19) as usize],
        payload: world::payload(e.get(13), e.get(15), e.get(14).clamp(0, 65509) as usize),
    }
}
fn c12_run(c: &Case, x: &mut Ctx) -> R<()> {
    // what should be stored, from the format alone
    let enc = |s: &sut::Spec| -> Vec<u8> {
        let msin = s.verbose as u8 | s.typ.0 << 1 | s.typ.1 << 4;
        let h = s.flags.0 as u8 | (s.flags.1 as u8) << 1 | (s.flags.2 as u8) << 2 | (s.flags.3 as u8) << 3 | (s.flags.4 as u8) << 4 | s.flags.5 << 5;
        let mut v = model::MARK.to_vec();
        v.extend_from_slice(&s.secs.to_le_bytes());
        v.extend_from_slice(&s.usec.to_le_bytes());
        v.extend_from_slice(&s.ecu);
        v.extend_from_slice(&[h, s.mcnt, 0, 0]);
        for (on, w) in [(s.flags.2, s.hecu), (s.flags.3, s.seid), (s.flags.4, s.tmsp)] {
            if on {
                v.extend_from_slice(&w.to_be_bytes());
            }
        }
        if s.flags.0 {
            v.extend_from_slice(&[msin, s.noar]);
            v.extend_from_slice(&s.apid);
            v.extend_from_slice(&s.ctid);
        }
        v.extend_from_slice(&s.payload);
        let l = (v.len() - 16) as u16;
        v[18..20].copy_from_slice(&l.to_be_bytes());
        v
    };
    let mut log: Vec<u8> = vec![];
    let mut kept: Vec<(usize, sut::Spec)> = vec![];
    for e in &c.ev {
        match e.k.as_str() {
            "spec" => {
                let s = spec_of(e);
                let got = x.lib("compose", limit(s.payload.len()), || sut::compose(&s))?;
                let want = enc(&s);
                if got != want {
                    let p = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    let l = 40.min(got.len()).min(want.len());
                    return fail("stored", format!("composed with type {:?}, flags {:?}: byte {} differs: {:02x?} should be {:02x?}", s.typ, s.flags, p, &got[..l], &want[..l]));
                }
                kept.push((log.len(), s));
                log.extend_from_slice(&got);
            }
            // the logger crashes behind a stored message and goes on from there
            "stop" => {
                for _ in 0..e.get(0).clamp(0, 1000) {
                    if let Some((o, _)) = kept.pop() {
                        log.truncate(o);
                    }
                }
                *x.st.counts.entry("crash_at_boundary".into()).or_insert(0) += 1;
            }
            _ => {}
        }
    }
    let b = &log[..];
    x.see_bytes(b);
    let all = model::greedy(b, 0);
    let clean = model::markers(b).len() == kept.len();
    x.nontrivial = kept.len() >= 2;
    x.probe_if(clean, "no stray marker");
    let mmap = c.get("mmap") != 0;
    let mut quiet = c.clone();
    quiet.ev.retain(|e| e.k == "chunk");
    let mut plan = Plan::of(&quiet, limit(b.len()) + 2000 * b.len() as u64);
    let got = x.lib_io("readback", &mut plan, b, b.len(), || {
        let buf = sut::load("/simfs/log.dlt", mmap).map_err(|e| e.to_string())?;
        let (s, _) = sut::buffer(&buf);
        let it = sut::seq(s, 0, cap(s.len()));
        Ok::<_, String>((it.items.iter().map(|(o, e)| (*o, sut::len_of(e), sut::fields(e))).collect::<Vec<_>>(), it.capped))
    })?;
    let (got, capped) = match got {
        Ok(g) => g,
        Err(e) => return fail("load", format!("the log cannot be loaded: {}", e)),
    };
    if capped {
        return fail("endless:seq", "sequential reading does not end".into());
    }
    for (i, (o, s)) in kept.iter().enumerate() {
        let end = kept.get(i + 1).map_or(b.len(), |k| k.0);
        if !all.contains(&(*o, end)) {
            continue; // hidden behind a stray marker
        }
        let Some((_, l, f)) = got.iter().find(|g| g.0 == *o) else {
            return fail("lost", format!("the message stored at {} is not read back", o));
        };
        let n = end - o;
        if *l != (n, n - 16, n - 16) {
            return fail("length", format!("the message stored at {} with {} bytes reads back with lengths {:?}", o, n, l));
        }
        let want = Fields {
            secs: s.secs,
            usec: s.usec,
            ecu: s.ecu,
            flags: s.flags,
            hecu: s.flags.2.then_some(s.hecu),
            tmsp: s.flags.4.then_some(s.tmsp),
            ext: s.flags.0.then_some((s.noar, s.apid, s.ctid, s.verbose, Some(s.typ))),
            payload: Some(s.payload.clone()),
        };
        same_fields(*o, "the reading", f, &want)?;
    }
    if clean && got.len() != kept.len() {
        return fail("lost", format!("{} messages stored, {} read back", kept.len(), got.len()));
    }
    Ok(())
}

// -------------------------------------------------------------- C13: merging
fn c13_gen(r: &mut Rng, c: &mut Case, _: &mut Ctx) {
    let many = r.chance(1, 80);
    let n = if many { 60 + r.below(140) } else { r.skewed(20) };
    let span = if many { *r.pick(&[300, 2000, 100_000]) } else { *r.pick(&[8, 20, 60, 300]) };
    let long = *r.pick(&[2, 6, 20]);
    for _ in 0..n {
        let a = r.range(0, span);
        let b = a + r.range(0, long);
        let s = r.range(0, 2);
        c.ev.push(Ev::new("per", &[s, a, b]));
    }
    if r.chance(1, 12) {
        c.ev.push(Ev::new("per", &[0, u32::MAX as i64 - r.range(0, 3), u32::MAX as i64]));
    }
    c.set("gap", r.skewed(3) as i64);
    c.set("by_start", r.range(0, 1));
    c.set("order", r.range(0, 1 << 30));
}
/// the periods of all sources, merged per source, in the order of the merger's keys
fn keyed(split: &[(u32, Vec<(u32, u32)>)], back: bool, by_start: bool) -> Vec<(u32, Vec<(u32, u32)>)> {
    let mut v: Vec<sut::Per> = split.iter().flat_map(|(s, v)| v.iter().map(move |p| (*s, *p))).collect();
    v.sort_by_key(|p| sut::per_key(back, by_start, p));
    v.into_iter().map(|(s, p)| (s, vec![p])).collect()
}
fn c13_run(c: &Case, x: &mut Ctx) -> R<()> {
    let base: Vec<sut::Per> = c
        .of("per")
        .map(|e| {
            let a = e.get(1).clamp(0, u32::MAX as i64) as u32;
            (e.get(0).clamp(0, 20) as u32, (a, (e.get(2).clamp(0, u32::MAX as i64) as u32).max(a)))
        })
        .collect();
    let (gap, by_start) = (c.get("gap").clamp(0, 1000) as u32, c.get("by_start") != 0);
    let plain: Vec<(u32, u32)> = base.iter().map(|p| p.1).collect();
    let one = model::joined(&plain, gap);
    x.nontrivial = base.len() >= 3 && one.len() < base.len();
    x.probe_if(one.len() + 2 <= base.len(), "three or more periods merge");
    x.probe_if(one.len() > 1, "several merged periods");
    x.probe_if(one.len() > 64, "more than 64 merged periods");
    let mut per: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
    for p in &base {
        per.entry(p.0).or_default().push(p.1);
    }
    let split: Vec<(u32, Vec<(u32, u32)>)> = per.iter().map(|(k, v)| (*k, model::joined(v, gap))).collect();
    let mut rng = Rng::new(&[c.get("order") as u64, 13]);
    let lim = 4_000_000 + 200_000 * base.len() as u64 * base.len() as u64;
    for round in 0..4 {
        let mut ps = base.clone();
        match round {
            0 => {}
            1 => ps.reverse(),
            _ => rng.shuffle(&mut ps),
        }
        x.st.schedules.insert(hash_bytes(13, format!("{:?}", ps).as_bytes()));
        for how in 0..5 {
            let got = x.lib("merge", lim, || sut::merge(how, gap, by_start, &ps, ps.len() + 4))?;
            let want = match how {
                0 | 1 => vec![(0, one.clone())],
                2 => split.clone(),
                _ => keyed(&split, how == 4, by_start),
            };
            if got != want {
                return fail(&format!("merge{}", how), format!("periods {:?} (gap {}, way {}) merge to {:?}, should be {:?}", &ps[..ps.len().min(24)], gap, how, got, want));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C14: searching both ways
fn c14_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    damaged_world(r, c, x.thorough);
    gap(r, c, 40, 20);
    match long(c.index, 400000) {
        1 => repeat(r, c, 10_000, 100_000),
        2 => repeat(r, c, 300_000, 700_000),
        _ => {}
    }
    positions(r, c, "from", 6, true);
    if c.index % 400000 == 1001 {
        huge(r, c);
        c.ev.retain(|e| e.k != "from");
    }
}
fn c14_run(c: &Case, x: &mut Ctx) -> R<()> {
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let (lim, k) = (limit(b.len()), cap(b.len()).max(b.len().min(1 << 27) / 4 + 4));
    let marks = model::markers(b);
    let mut from: Vec<usize> = vec![0, b.len()];
    from.extend(c.of("from").map(|e| at(&w, e)));
    for f in from {
        let want = model::greedy(b, f);
        chain("fwd", b, &x.lib("fwd", lim, || own(sut::fwd(b, f, k)))?, &want)?;
        chain("seq", b, &x.lib("seq", lim, || own(sut::seq(b, f, k)))?, &want)?;
        let back: Vec<(usize, usize)> = marks
            .iter()
            .rev()
            .filter(|m| **m + 4 <= f)
            .filter_map(|m| model::parse_at(b, *m).map(|e| (*m, e)))
            .collect();
        chain("rev", b, &x.lib("rev", lim, || own(sut::rev(b, f, k)))?, &back)?;
        x.nontrivial |= (!want.is_empty() || !back.is_empty()) && (damaged(&w) || f > 0);
        x.probe_if(f > b.len(), "start behind the end");
        x.probe_if(back.windows(2).any(|p| p[1].1 > p[0].0), "overlapping messages");
        x.probe_if(marks.iter().any(|m| *m < f && f < m + 4), "start inside a marker");
    }
    Ok(())
}

// ------------------------------------------------------------- C15: following
fn c15_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let g = small_world(r, x.thorough);
    simulate(r, &g, c);
    oversize(r, c, 30);
    let l = long(c.index, 400000);
    if l > 0 {
        repeat(r, c, 10_000, if l > 1 { 3_000_000 } else { 200_000 });
    }
    let polls = 1 + r.skewed(12);
    for _ in 0..polls {
        for _ in 0..1 + r.below(3) {
            let d = match r.below(3) {
                0 => r.skewed(30),
                1 => r.skewed(300),
                _ => r.skewed(if l > 0 { 300_000 } else { 3000 }),
            } as i64;
            c.ev.push(Ev::new("append", &[d]));
        }
        // way of loading, messages handled before the reader crashes (0: it does not), bytes appended meanwhile,
        // load fault (0: none)
        let crash = if r.chance(1, 4) { 1 + r.skewed(5) as i64 } else { 0 };
        let grow = if r.chance(1, 3) { r.skewed(300) as i64 } else { 0 };
        let fault = if r.chance(1, 6) { r.range(1, 5) } else { 0 };
        c.ev.push(Ev::new("poll", &[r.range(0, 1), crash, grow, fault, r.skewed(6) as i64]));
    }
    c.set("mmap", r.range(0, 1));
    if r.chance(1, 2) {
        chunks(r, c, OP_READ);
    }
    let k = r.below(2);
    soft(r, c, OP_READ, k, 5);
}
fn c15_run(c: &Case, x: &mut Ctx) -> R<()> {
    let mut hist = c.clone();
    hist.ev.retain(|e| e.k == "msg" || e.k == "rep");
    let w = log_of(&hist, x);
    let b = &w.bytes[..];
    let all: Vec<(usize, usize)> =
        w.starts.iter().enumerate().map(|(i, s)| (*s, w.starts.get(i + 1).copied().unwrap_or(b.len()))).collect();
    if model::markers(b).len() != all.len() {
        return Ok(());
    }
    let (mut visible, mut pos, mut polls, mut torn) = (0usize, 0usize, 0, false);
    let mut got: Vec<(usize, Vec<u8>, (usize, usize, usize))> = vec![];
    let base: Vec<Ev> = c.ev.iter().filter(|e| e.k == "chunk" || e.k == "fault").cloned().collect();
    let evs: Vec<Ev> = c.ev.iter().filter(|e| e.k == "append" || e.k == "poll").cloned().collect();
    let last = [Ev::new("append", &[i64::MAX]), Ev::new("poll", &[c.get("mmap"), 0, 0, 0, 0])];
    for e in evs.iter().chain(&last) {
        if e.k == "append" {
            visible = (visible as u64).saturating_add(e.get(0).max(0) as u64).min(b.len() as u64) as usize;
            torn |= all.iter().any(|m| m.0 < visible && visible < m.1);
            continue;
        }
        polls += 1;
        let mmap = e.get(0) != 0;
        let mut pc = Case::default();
        pc.seed = c.seed;
        pc.ev = base.iter().filter(|f| f.k == "chunk" || [K_EINTR, K_SHORT, K_STALL].contains(&f.get(1))).cloned().collect();
        if e.get(2) > 0 {
            pc.ev.push(Ev::new("grow", &[e.get(4), (visible as i64 + e.get(2)).min(b.len() as i64)]));
        }
        match e.get(3) {
            1 => pc.ev.push(Ev::new("fault", &[OP_OPEN, K_EMFILE, 0, 0])),
            2 => pc.ev.push(Ev::new("fault", &[OP_READ, K_EIO, e.get(4), 0])),
            3 => pc.ev.push(Ev::new("fault", &[OP_MMAP, K_ENOMEM, 0, 0])),
            4 => pc.ev.push(Ev::new("fault", &[OP_STAT, K_EIO, 0, 0])),
            5 => pc.ev.push(Ev::new("err", &[OP_READ, e.get(4) * 50, K_EIO])),
            _ => {}
        }
        let mut plan = Plan::of(&pc, limit(b.len()) + 2000 * b.len() as u64);
        let stop = if e.get(1) > 0 { e.get(1) as usize } else { usize::MAX };
        let from = pos;
        let seen = visible;
        let r = x.lib_io("poll", &mut plan, b, visible, || {
            let buf = sut::load("/simfs/log.dlt", mmap).map_err(|e| e.to_string())?;
            let (s, n) = sut::buffer(&buf);
            let (v, end) = sut::seq_some(s, from, stop.min(cap(n)));
            Ok::<_, String>((v.iter().map(|(o, e)| (*o, sut::bytes_of(e), sut::len_of(e))).collect::<Vec<_>>(), end, n))
        })?;
        visible = visible.max(plan.file_len as usize);
        let hard = (0..4).any(|o| plan.hard_fired(o));
        x.probe_if(plan.file_len as usize > seen, "appended while polling");
        match r {
            Err(m) if !hard => return fail("error", format!("poll {} fails without a cause: {}", polls, m)),
            Err(_) => x.probe("poll failed"),
            Ok((v, end, n)) => {
                if n > visible || n < seen && !hard {
                    return fail("length", format!("poll {} loads {} bytes of a file of {}", polls, n, visible));
                }
                for g in &v {
                    if g.0.saturating_add(g.1.len()) > visible {
                        return fail("early", format!("poll {} reports the message at {} before it is completely stored", polls, g.0));
                    }
                }
                got.extend(v);
                pos = end;
                // no fault: everything stored before the load began has been reported
                if stop == usize::MAX {
                    let due = all.iter().filter(|m| m.1 <= seen).count();
                    if got.len() < due {
                        return fail("late", format!("after poll {} {} of {} stored messages are reported", polls, got.len(), due));
                    }
                }
                x.probe_if(stop != usize::MAX, "reader crashed");
            }
        }
    }
    x.nontrivial = polls >= 2 && torn && all.len() >= 2;
    x.see(polls as u64);
    chain("polls", b, &Seen { items: got, capped: false, revived: false }, &all)
}

// ------------------------------------------------------- C16: other formats
/// a record of format `f` with about `n` bytes of content
fn rec_of(f: usize, n: usize, kind: i64, seed: i64) -> Vec<u8> {
    let m = sut::MARKS[f];
    let mut r = Rng::new(&[1616, seed as u64]);
    let n = match f {
        0 | 1 => n.min(255),
        2 => n.min(500),
        3 => 11,
        4 => n.min(65529),
        5 => n.min(94),
        6 => 0,
        _ => 2,
    };
    let body: Vec<u8> = (0..n)
        .map(|_| match kind {
            0 => r.below(256) as u8,
            1 => *r.pick(m),
            2 => *r.pick(b"Hello World abcdxx019"),
            3 => 0,
            _ => *r.pick(&[m[0], b'A', b'B', 1, 0]),
        })
        .collect();
    let mut v = m.to_vec();
    match f {
        0 | 1 => v.push(n as u8),
        2 => v.extend((n as u16).to_le_bytes()),
        4 => v.extend((n as u16 + 6).to_be_bytes()),
        _ => {}
    }
    v.extend(&body);
    match f {
        3 | 7 => v.push(body.iter().fold(0, |a, x| a ^ x)),
        5 => v.extend(b"\n.\n"),
        _ => {}
    }
    v
}
/// a logger of format `fmt` that crashes (torn records), on a disk that damages what it stored
fn c16_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let f = r.range(0, sut::FORMATS as i64 - 1);
    c.set("fmt", f);
    let n = *r.pick(&[1, 2, 3, 5, 8, 12, 20, 40, if x.thorough { 300 } else { 60 }]);
    let text = r.chance(1, 2);
    let top = *r.pick(&[0, 3, 10, 40, 120, 600]);
    let kind = |r: &mut Rng| if text { 2 } else { r.range(0, 4) };
    for _ in 0..n {
        let size = if r.chance(1, 60) { 255 + r.below(300) } else if f == 4 && r.chance(1, 200) { 65_000 + r.below(600) } else { r.skewed(top) };
        let seed = r.range(0, 1 << 40);
        c.ev.push(Ev::new("rec", &[size as i64, kind(r), seed]));
        if r.chance(1, 12) {
            c.ev.push(Ev::new("torn", &[r.skewed(30) as i64]));
        }
        if r.chance(1, 12) {
            let junk = Ev::new("junk", &[1 + r.skewed(30) as i64, r.range(0, 4), r.range(0, 1 << 40)]);
            c.ev.push(junk);
        }
    }
    if r.chance(2, 3) {
        for _ in 0..1 + r.skewed(5) {
            let k = *r.pick(&["flip", "flip", "zero", "lost", "twice", "swap"]);
            c.ev.push(Ev::new(k, &[r.range(0, 1 << 40), 1 + r.skewed(20) as i64]));
        }
    }
    if r.chance(1, 3) {
        c.ev.push(Ev::new("cut", &[r.range(0, 1 << 40)]));
    }
    for _ in 0..3 {
        c.ev.push(Ev::new("from", &[r.range(0, 1 << 40), r.range(-9, 9)]));
    }
    for _ in 0..2 {
        c.ev.push(Ev::new("num", &[1 + r.skewed(n as u64 * 20) as i64]));
    }
    for _ in 0..4 {
        let top = if r.chance(1, 4) { 300 } else { 9 };
        c.ev.push(Ev::new("range", &[r.range(0, 1 << 40), r.range(-9, 40), 1 + r.skewed(top) as i64]));
    }
    for _ in 0..2 {
        c.ev.push(Ev::new("pat", &[0, r.range(1, 400)]));
    }
    c.ev.push(Ev::new("cap", &[0, r.range(1, 400)]));
    c.set("skip", r.skewed(4) as i64);
    c.set("step", r.range(1, 4));
}
fn c16_log(c: &Case, f: usize, x: &mut Ctx) -> (Vec<u8>, Vec<usize>, bool) {
    let mut b: Vec<u8> = vec![];
    let mut starts = vec![];
    let mut hurt = false;
    for e in &c.ev {
        let n = b.len();
        let p = if n == 0 { 0 } else { e.get(0).rem_euclid(n as i64) as usize };
        let q = n.min(p + e.get(1).clamp(1, 4096) as usize);
        match &e.k[..] {
            "rec" => {
                starts.push(n);
                b.extend(rec_of(f, e.get(0).clamp(0, 70_000) as usize, e.get(1), e.get(2)));
                continue;
            }
            "junk" => {
                let mut r = Rng::new(&[1617, e.get(2) as u64]);
                let m = sut::MARKS[f];
                for i in 0..e.get(0).clamp(0, 4096) as usize {
                    b.push(match e.get(1) {
                        0 => r.below(256) as u8,
                        1 => m[0],
                        2 => m[i % m.len()],
                        3 => *r.pick(m),
                        _ => b'x',
                    });
                }
            }
            "torn" => match starts.last() {
                Some(s) => b.truncate(n.min(s + e.get(0).max(0) as usize)),
                None => continue,
            },
            "flip" if n > 0 => b[p] ^= 1 << (e.get(1) & 7),
            "zero" => b[p..q].fill(0),
            "lost" => {
                b.drain(p..q);
            }
            "twice" => {
                let t = b[p..q].to_vec();
                b.splice(p..p, t);
            }
            "swap" => b[p..q].reverse(),
            "cut" => b.truncate(p),
            _ => continue,
        }
        hurt = true;
        *x.st.counts.entry(format!("rec_{}", e.k)).or_insert(0) += 1;
    }
    (b, starts, hurt)
}
fn same_spots(name: &str, got: &Seen<sut::Spot>, want: &[(usize, usize)]) -> R<()> {
    ended(name, got)?;
    for (i, w) in want.iter().enumerate() {
        match got.items.get(i) {
            None => return fail(&format!("missing:{}", name), format!("{} ends after {} of {} records; next should be {}..{}", name, i, want.len(), w.0, w.1)),
            Some(g) if g.0 != w.0 => return fail(&format!("wrong:{}", name), format!("{}: record {} reported at {}, should be {}..{}", name, i, g.0, w.0, w.1)),
            Some(g) if g.1 != *w => return fail(&format!("bytes:{}", name), format!("{}: record {} is {}..{}, reported with the bytes {}..{}", name, i, w.0, w.1, g.1 .0, g.1 .1)),
            _ => {}
        }
    }
    match got.items.get(want.len()) {
        Some(g) => fail(&format!("extra:{}", name), format!("{} reports an extra record at {}", name, g.0)),
        None => Ok(()),
    }
}
fn c16_run(c: &Case, x: &mut Ctx) -> R<()> {
    let f = c.get("fmt").rem_euclid(sut::FORMATS as i64) as usize;
    let (b, starts, hurt) = c16_log(c, f, x);
    let b = &b[..];
    x.see_bytes(b);
    let m = sut::MARKS[f];
    let marks: Vec<usize> = (0..b.len()).filter(|i| b[*i..].starts_with(m)).collect();
    let parsed: BTreeMap<usize, usize> = marks.iter().filter_map(|p| sut::record(f, &b[*p..]).map(|n| (*p, p + n))).collect();
    let greedy = |from: usize| {
        let (mut v, mut p) = (vec![], from);
        while let Some((s, e)) = parsed.range(p..).next() {
            v.push((*s, *e));
            p = *e;
        }
        v
    };
    let (lim, k) = (limit(b.len()), b.len() + 4);
    let all = greedy(0);
    x.nontrivial = hurt && all.len() >= 2;
    x.probe_if(marks.windows(2).any(|p| p[1] - p[0] < m.len()), "overlapping markers");
    x.probe_if(parsed.len() > all.len(), "record inside a record");
    x.probe_if(all.last().map_or(false, |l| l.1 == b.len()), "record at the very end");
    x.probe_if(all.iter().any(|r| r.1 - r.0 == sut::MAX_LEN[f]) && all.len() > 1, "record of maximum length");
    let at = |e: &Ev| {
        let base = if starts.is_empty() { 0 } else { starts[e.get(0).rem_euclid(starts.len() as i64) as usize] };
        (base as i64 + e.get(1)).clamp(0, b.len() as i64) as usize
    };
    let mut from: Vec<usize> = vec![0, b.len(), b.len() + 3, usize::MAX];
    from.extend(c.of("from").map(at));
    for p in from {
        let want = greedy(p);
        // a record counts as before a position if its marker is
        let (mut back, mut bound) = (vec![], p);
        for r in parsed.iter().rev() {
            if r.0 + m.len() <= bound {
                back.push((*r.0, *r.1));
                bound = *r.0;
            }
        }
        let mut strict = vec![];
        for r in &want {
            if r.0 != strict.last().map_or(p, |l: &(usize, usize)| l.1) {
                break;
            }
            strict.push(*r);
        }
        for (way, name) in sut::WAYS.iter().enumerate() {
            let got = x.lib(name, lim, || sut::rec_read(f, way, b, p, k))?;
            same_spots(name, &got, match way {
                2 | 3 => &strict,
                5 => &back,
                _ => &want,
            })?;
        }
        // a format without markers
        let (mut plain, mut q) = (vec![], p);
        while let Some(n) = b.get(q..).and_then(sut::bare) {
            plain.push((q, q + n));
            q += n;
        }
        same_spots("rec_bare", &x.lib("rec_bare", lim, || sut::rec_bare(b, p, k))?, &plain)?;
    }
    // stop anywhere and resume
    let step = c.get("step").max(1) as usize;
    let got = x.lib("rec_resume", lim, || {
        let (mut pos, mut got) = (0, vec![]);
        for _ in 0..k {
            let (v, end) = sut::rec_some(f, b, pos, step);
            if v.is_empty() {
                break;
            }
            got.extend(v);
            pos = end;
        }
        got
    })?;
    same_spots("rec_resume", &Seen { items: got, capped: false, revived: false }, &all)?;
    for e in c.of("num") {
        let num = e.get(0).clamp(1, if b.len() > 10_000 { 30 } else { 3000 }) as usize; // time
        let parts_lim = lim + num.min(b.len().max(1)) as u64 * (100_000 + 400 * b.len().min(66_000) as u64);
        for buffer in [false, true] {
            let name = if buffer { "rec_partition_buffer" } else { "rec_partition" };
            let got = x.lib(name, parts_lim, || sut::rec_parts(f, b, num, buffer))?;
            let (mut p, mut seen) = (0, vec![]);
            for g in &got {
                if g.0 != p || g.1 <= g.0 {
                    return fail(&format!("coverage:{}", name), format!("{} parts of {} bytes: one is {}..{}, should start at {} and not be empty", num, b.len(), g.0, g.1, p));
                }
                if let Some(r) = all.get(all.partition_point(|r| r.1 <= p)).filter(|r| r.0 < p) {
                    return fail(&format!("split:{}", name), format!("{} parts: boundary {} splits the record {}..{}", num, p, r.0, r.1));
                }
                p = g.1;
            }
            if p != b.len() || got.len() > 4 * num {
                return fail(&format!("coverage:{}", name), format!("{} parts of {} bytes: {} parts hold {}", num, b.len(), got.len(), p));
            }
            if buffer {
                continue;
            }
            let parts = x.lib("rec_parts", parts_lim, || got.iter().map(|g| (g.0, sut::rec_read(f, 0, &b[g.0..g.1], 0, k))).collect::<Vec<_>>())?;
            for (at, part) in parts {
                ended("rec_parts", &part)?;
                seen.extend(part.items.into_iter().map(|(o, r)| (o + at, (r.0 + at, r.1 + at))));
            }
            same_spots("rec_parts", &Seen { items: seen, capped: false, revived: false }, &all)?;
        }
    }
    for e in c.of("range") {
        let s = at(e);
        let t = s + e.get(2).clamp(1, 1 << 20) as usize;
        let want = all.iter().find(|r| r.0 < s && s < r.1 && t <= r.1).map(|r| (r.0, *r));
        let got = x.lib("rec_contained", lim, || sut::rec_contained(f, b, (s, t)))?;
        x.probe_if(want.is_some(), "range inside a record");
        if got != want {
            return fail("rec_contained", format!("bytes {}..{}: contained in {:?}, found {:?}", s, t, want, got));
        }
    }
    // searching: records have content, and hold no further marker
    if f == 6 || marks.len() * b.len() > 10_000_000 {
        return Ok(()); // time: a match behind every marker would be looked for anew
    }
    let exact = all.iter().all(|r| marks.get(marks.partition_point(|p| *p <= r.0)).map_or(true, |p| *p >= r.1));
    let skip = (c.get("skip").max(0) as usize).min(all.len());
    let from = if skip == 0 { 0 } else { all[skip - 1].1 };
    for e in c.of("pat") {
        let p = &pattern(e, PATS, false)[..];
        let rx = re(p);
        let want: Vec<(usize, usize)> = all[skip..].iter().copied().filter(|r| rx.is_match(&b[r.0 + m.len()..r.1])).collect();
        let got = x.lib("rec_grep", lim, || sut::rec_grep(f, b, p, from, k))?;
        ended("rec_grep", &got)?;
        x.probe_if(exact && !want.is_empty() && want.len() < all.len() - skip, "some records match, some do not");
        for g in &got.items {
            if parsed.get(&g.0) != Some(&g.1 .1) || g.1 .0 != g.0 || !rx.is_match(&b[g.0 + m.len()..g.1 .1]) {
                return fail("nomatch:rec_grep", format!("search for {:?} reports {:?}, which is no record that matches", p, g));
            }
        }
        if exact {
            same_spots("rec_grep", &got, &want)?;
        }
    }
    for e in c.of("cap") {
        let p = &pattern(e, CAPS, true)[..];
        let rx = re(p);
        let want: Vec<sut::Spot> = all[skip..]
            .iter()
            .filter_map(|r| {
                let g = rx.captures(&b[r.0 + m.len()..r.1])?.get(1)?;
                Some((r.0, (r.0 + m.len() + g.start(), r.0 + m.len() + g.end())))
            })
            .collect();
        let got = x.lib("rec_capture", lim, || sut::rec_capture(f, b, p, from, k))?;
        ended("rec_capture", &got)?;
        if exact && got.items != want {
            return fail("rec_capture", format!("capture of {:?} from {} reports {:?}, should be {:?}", p, from, &got.items[..got.items.len().min(8)], &want[..want.len().min(8)]));
        }
    }
    Ok(())
}

// ---------------------------------------------- C17: from dd_dlt to ripdlt
const END_TO_END: [&str; 3] = ["par_count", "par_count_hello_world", "par_count_hello_world_grepit"];
/// sessions of dd_dlt that append to one log, each of which may be killed or run into a full disk; then ripdlt
fn c17_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let n = *r.pick(&[1, 1, 2, 2, 3, 4]);
    for _ in 0..n {
        let (size, blocks) = match r.below(16) {
            0 => (65517 - r.skewed(20), r.below(4)),
            1 => (1 + r.below(8), 250 + r.below(if x.thorough { 30_000 } else { 3000 })),
            2 => (1000 + r.below(9000), r.below(10)),
            3 => (*r.pick(&[1, 2, 255, 256, 1024, 8192]), r.below(40)),
            _ => (1 + r.skewed(150), r.skewed(60)),
        };
        let extra = if r.chance(1, 2) { 0 } else { r.below(size) };
        let total = ((size + 34) * blocks) as i64;
        // killed after so many bytes (-1: not), by a crash or a full disk
        let kill = match r.below(4) {
            0 => total - r.skewed(2 * size + 68) as i64,
            1 => r.below(total as u64 + 1) as i64,
            _ => -1,
        };
        let kind = if r.chance(2, 3) { 6 } else { r.range(0, 4) };
        let (ecu, app) = (r.range(0, 13), r.range(0, 13));
        let same = r.chance(1, 2);
        c.ev.push(Ev::new("run", &[size as i64, blocks as i64, extra as i64, r.range(0, 1 << 30), kind, if same { 0 } else { ecu }, if same { 1 } else { app }, kill, r.range(0, 1)]));
    }
    c.set("cmd", r.range(0, 13 + END_TO_END.len() as i64));
    c.set("mmap", r.range(0, 1));
    c.set("ncpu", r.range(1, 9));
    for op in [OP_STDIN, OP_STDOUT, OP_READ] {
        if r.chance(1, 2) {
            chunks(r, c, op);
        }
        let k = r.below(3);
        soft(r, c, op, k, 12);
    }
}
fn c17_run(c: &Case, x: &mut Ctx) -> R<()> {
    let mut log: Vec<u8> = vec![];
    let (mut sure, mut torn, mut full) = (Some(0), false, false);
    let hurt = |e: &Ev| e.k == "chunk" || e.k == "fault" && [K_EINTR, K_SHORT, K_STALL].contains(&e.get(1));
    for e in c.of("run") {
        let size = e.get(0).clamp(1, 65517);
        let mut s = Case::new(&c.prop, c.seed, c.index);
        for (i, k) in ["psize", "blocks", "extra", "dseed", "dkind", "ecu", "app"].iter().enumerate() {
            s.set(k, if i == 0 { size } else { e.get(i) });
        }
        s.ev = c.ev.iter().filter(|e| hurt(e) && e.get(0) != OP_READ).cloned().collect();
        let input = dd_input(&s);
        let (ecu, app) = ids(&s);
        let mut want = model::dd(ecu.as_bytes(), app.as_bytes(), size as usize, &input);
        if want.len() > 1 << 18 {
            s.ev.retain(|e| e.k != "chunk"); // time
        }
        let kill = if e.get(7) < 0 { want.len() } else { want.len().min(e.get(7) as usize) };
        let disk = e.get(8) != 0 && kill < want.len();
        if disk {
            s.ev.push(Ev::new("err", &[OP_STDOUT, kill as i64, K_ENOSPC, 0]));
        }
        let r = dd_run(&s, x, size, &input, want.len());
        crashed("dd_dlt", &r)?;
        let hard = r.plan.hard_fired(OP_STDOUT);
        full |= hard;
        x.probe_if(hard, "disk full");
        let mut out = r.stdout.clone();
        if hard && r.exit == Some(0) || !hard && r.exit != Some(0) {
            return fail("status", format!("dd_dlt exits with {:?} (disk full: {}): {}", r.exit, hard, tail(&r)));
        }
        if !want.starts_with(&out) || !hard && out.len() != want.len() {
            return fail("output", format!("dd_dlt payload size {}: {}", size, first_diff(&out, &want)));
        }
        out.truncate(kill);
        want.truncate(out.len());
        // what follows a torn message may be taken for its rest
        if torn && !out.is_empty() {
            sure = None;
        }
        let whole = size as usize + 34;
        sure = sure.map(|n: usize| n + out.len() / whole);
        torn |= out.len() % whole != 0;
        // or the rest of a torn message for one, if its ids look like a marker
        if torn && (ecu.starts_with("DLT") || app.starts_with("DLT")) {
            sure = None;
        }
        x.probe_if(kill < want.len() + 1 && e.get(7) >= 0 && !disk, "generator killed");
        log.extend(out);
    }
    x.probe_if(torn, "torn message");
    x.probe_if(c.of("run").count() > 1, "several sessions");
    x.see_bytes(&log);
    let b = &log[..];
    let l = Log::new(b);
    let mut q = c.clone();
    q.ev.retain(|e| hurt(e) && e.get(0) != OP_STDIN);
    if b.len() > 10 << 20 {
        q.ev.retain(|e| e.k != "chunk"); // time
    }
    let i = c.get("cmd").rem_euclid(14 + END_TO_END.len() as i64) as usize;
    let cmd = if i < 14 { model::SEQ[i] } else { END_TO_END[i - 14] };
    let mode = if c.get("mmap") != 0 { "mmap" } else { "read" };
    let lim = 20_000_000 + 8 * limit(b.len()) + 2000 * b.len() as u64 + 4_000_000 * c.get("ncpu").max(1) as u64;
    let r = x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], Plan::of(&q, lim), &world::Store::plain(b), &[], b.len() * 8 + (1 << 20));
    x.nontrivial = l.ms.len() >= 2 && (torn || full || c.ev.iter().any(hurt));
    crashed("ripdlt", &r)?;
    let name = format!("ripdlt {} {} on {} bytes from dd_dlt", mode, cmd, b.len());
    if r.exit != Some(0) {
        return fail(&format!("status:{}", cmd), format!("{} exits with {:?}: {}", name, r.exit, tail(&r)));
    }
    let out = String::from_utf8_lossy(&r.stdout).into_owned();
    let got: Vec<&str> = out.lines().skip(1).filter(|l| !l.starts_with("available parallelism")).collect();
    let want = match cmd {
        "par_count" => l.expect("count"),
        "par_count_hello_world" => l.expect("count_hello_world"),
        "par_count_hello_world_grepit" => l.expect("count_hello_world_grepit"),
        _ => l.expect(cmd),
    };
    if let Some(want) = want {
        let want: String = want.iter().map(|l| format!("{}\n", l)).collect();
        let got: String = got.iter().map(|l| format!("{}\n", l)).collect();
        if got != want {
            return fail(&format!("figures:{}", cmd), format!("{} prints {:?}, should be {:?}", name, clip(&got), clip(&want)));
        }
    }
    if let (Some(n), true) = (sure, cmd == "count" || cmd == "par_count") {
        x.probe("counted against what was written");
        if got.len() != 1 || got[0] != format!("{} messages", n) {
            return fail("lost", format!("{} prints {:?}, but dd_dlt has written {} messages", name, got, n));
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C18: memory does not grow with the log
const PAR_COUNTS: [&str; 5] = ["par_count", "par_count_hello_world", "par_count_hello_world_grepit", "par_count_hello_world_raw", "par_histogram_timestamp"];
/// a long log or a long input for a process that gets little memory
fn c18_gen(r: &mut Rng, c: &mut Case, x: &mut Ctx) {
    let k = match r.below(8) {
        0 | 1 => 2,
        2 => 1,
        _ => 0,
    };
    c.set("kind", k);
    if k == 2 {
        let size = *r.pick(&[1, 2, 3, 7, 16, 100, 255, 256, 1000, 4096, 8192, 20_000, 65_517]);
        let most = if x.thorough { 4 << 20 } else { 2 << 20 };
        let blocks = (most / size).min(2_000_000 / (size + 34));
        c.set("psize", size);
        c.set("blocks", r.range(blocks / 2, blocks));
        c.set("extra", if r.chance(1, 2) { 0 } else { r.below(size as u64) as i64 });
        c.set("dseed", r.range(0, 1 << 30));
        c.set("dkind", r.range(0, 6));
        c.set("ecu", r.range(0, 13));
        c.set("app", r.range(0, 13));
        for op in [OP_STDIN, OP_STDOUT] {
            let n = r.below(4);
            soft(r, c, op, n, 40);
        }
        return;
    }
    let mut g = small_world(r, false);
    g.crashes = r.chance(1, 3);
    g.damage = if r.chance(1, 3) { r.below(4) } else { 0 };
    g.hello = r.chance(1, 2);
    simulate(r, &g, c);
    c.set("cmd", r.range(0, 12));
    c.set("ncpu", r.range(1, 9));
    c.set("mmap", r.chance(5, 6) as i64);
    let n = r.below(3);
    soft(r, c, OP_STDOUT, n, 8);
    if k == 0 && c.index % 500 == 250 {
        if r.chance(1, 2) {
            huge(r, c);
            c.set("mmap", 1);
            if [2, 4].contains(&c.get("cmd")) {
                c.set("cmd", 3);
            }
        } else {
            ballast(r, c, &[0, 5, 6, 7, 8, 9, 10, 11, 12]);
        }
        return;
    }
    let n = r.below(3);
    soft(r, c, OP_READ, n, 6);
    let grep = k == 0 && [2, 4].contains(&c.get("cmd")) || k == 1 && c.get("cmd") % 5 == 2;
    let to = if x.thorough { 6_000_000 } else { 1_800_000 };
    // a pattern search looks at the rest of the line again and again
    let (to, more) = if grep { (5000, 30_000) } else { (to / 4, to) };
    repeat(r, c, to, more);
}
/// heap a process gets, apart from what its figures take
fn allowance(cmd: &str, cpus: usize) -> usize {
    let regex = if cmd.contains("grepit") || cmd.contains("histogram_hello_world") { 4 << 20 } else { 0 };
    let threads = if cmd.starts_with("par_") { cpus * (regex + (64 << 10)) } else { regex };
    (128 << 10) + threads
}
fn c18_run(c: &Case, x: &mut Ctx) -> R<()> {
    *x.st.counts.entry("little_memory".into()).or_insert(0) += 1;
    let c = &mut c.clone();
    c.ev.retain(|e| !["chunk", "err", "grow"].contains(&&e.k[..]) && !(e.k == "fault" && ![K_EINTR, K_SHORT, K_STALL].contains(&e.get(1))));
    if c.get("kind") == 2 {
        let size = c.get("psize").clamp(1, 65517);
        c.set("psize", size);
        let input = dd_input(c);
        let (ecu, app) = ids(c);
        let want = model::dd(ecu.as_bytes(), app.as_bytes(), size as usize, &input);
        let limit = (128 << 10) + 4 * size as usize;
        let mut plan = Plan::of(c, 4_000_000 + 4000 * (input.len() + want.len()) as u64);
        plan.mem_limit = limit as u64;
        let r = x.cli("dd_dlt", &[ecu, app, &size.to_string()], plan, &world::Store::plain(&[]), &input, want.len() + 65536);
        x.nontrivial = input.len().max(want.len()) >= 2 * limit;
        x.probe("generator with little memory");
            crashed("dd_dlt", &r)?;
        if r.plan.starved() || r.exit != Some(0) || r.stdout != want {
            return fail("memory:dd_dlt", format!("dd_dlt with payload size {} and {} KiB of memory does not copy {} bytes of input: exit status {:?}, {}; {}", size, limit >> 10, input.len(), r.exit, first_diff(&r.stdout, &want), tail(&r)));
        }
        return Ok(());
    }
    let cmd = if c.get("kind") == 1 { PAR_COUNTS[c.get("cmd").rem_euclid(5) as usize] } else { model::SEQ[c.get("cmd").rem_euclid(13) as usize] };
    let mode = if c.get("mmap") != 0 { "mmap" } else { "read" };
    let w = log_of(c, x);
    let b = &w.bytes[..];
    let log = Log::new(b);
    let small = b.len() < 10 << 20;
    let lim = if small { 20_000_000 + 6 * limit(b.len()) + 2000 * b.len() as u64 + 4_000_000 * c.get("ncpu").max(1) as u64 } else { HUGE };
    let want: Option<String> = log.expect(if c.get("kind") == 1 { &cmd[4..] } else { cmd }).map(|v| v.iter().map(|l| format!("{}\n", l)).collect());
    let figures = want.as_ref().map_or(0, |w| w.len());
    let ncpu = c.get("ncpu").clamp(1, 64) as usize;
    let mut mem = allowance(cmd, ncpu) + 100 * figures;
    if mode == "read" {
        mem += 4 * b.len();
    }
    let mut plan = Plan::of(c, lim);
    plan.mem_limit = mem as u64;
    let r = x.cli("ripdlt", &[mode, cmd, "/simfs/log.dlt"], plan, &w.bytes, &[], if small { b.len() * 8 + (1 << 20) } else { 1 << 20 });
    x.nontrivial = b.len() >= 2 * mem || mode == "read";
    x.probe_if(!small, "log over 100 MB");
    x.probe_if(c.get("kind") == 1, "threads with little memory");
    x.probe_if(mode == "read", "file read into memory");
    x.probe_if(log.ms.len() > 20_000, "over 20000 messages");
    crashed(&format!("ripdlt {}", cmd), &r)?;
    if r.plan.starved() || r.exit != Some(0) {
        return fail(&format!("memory:{}", cmd), format!("ripdlt {} {} needs more than {} KiB of memory for a log of {} KiB with {} messages: exit status {:?}, {}", mode, cmd, mem >> 10, b.len() >> 10, log.ms.len(), r.exit, tail(&r)));
    }
    let out = String::from_utf8_lossy(&r.stdout).into_owned();
    let got: String = out.lines().skip(1).filter(|l| !l.starts_with("available parallelism")).map(|l| format!("{}\n", l)).collect();
    if let (Some(want), true) = (want, c.get("kind") == 0 || ["par_count", "par_count_hello_world"].contains(&cmd)) {
        if got != want {
            return fail(&format!("figures:{}", cmd), format!("ripdlt {} {} with {} KiB of memory prints {:?}, should be {:?}", mode, cmd, mem >> 10, clip(&got), clip(&want)));
        }
    }
    Ok(())
}
