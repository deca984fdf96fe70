//! Reference models: what a log says, in the simplest possible terms. Written from the DLT format and the
//! property statements, sharing no code with the libraries.
use std::collections::{BTreeMap, BTreeSet};
use sut::{Fields, M};

pub const MARK: [u8; 4] = [b'D', b'L', b'T', 1];

/// end of the complete message that starts at `c`
pub fn parse_at(b: &[u8], c: usize) -> Option<usize> {
    if c.checked_add(20)? > b.len() || b[c..c + 4] != MARK {
        return None;
    }
    let len = u16::from_be_bytes([b[c + 18], b[c + 19]]) as usize;
    (len >= 4 && c + 16 + len <= b.len()).then_some(c + 16 + len)
}
pub fn parse_bare(b: &[u8], c: usize) -> Option<usize> {
    if c.checked_add(4)? > b.len() {
        return None;
    }
    let len = u16::from_be_bytes([b[c + 2], b[c + 3]]) as usize;
    (len >= 4 && c + len <= b.len()).then_some(c + len)
}
/// `from` stands on a 0: a later position up to which there is nothing else (huge holes take no time)
fn behind_zeros(b: &[u8], from: usize) -> usize {
    static ZEROS: [u8; 4096] = [0; 4096];
    let mut p = from + 1;
    while p + 4096 <= b.len() && b[p..p + 4096] == ZEROS {
        p += 4096;
    }
    p - 1
}
pub fn markers(b: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i + 4 <= b.len() {
        match b[i] {
            0 => i = behind_zeros(b, i),
            b'D' if b[i..i + 4] == MARK => v.push(i),
            _ => {}
        }
        i += 1;
    }
    v
}
/// the chain sequential reading reports: (start, end)
pub fn greedy(b: &[u8], from: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut pos = from;
    while pos < b.len() {
        if b[pos] == b'D' {
            if let Some(e) = parse_at(b, pos) {
                v.push((pos, e));
                pos = e;
                continue;
            }
        } else if b[pos] == 0 {
            pos = behind_zeros(b, pos);
        }
        pos += 1;
    }
    v
}
/// does a marker stand inside one of these messages (behind its own)?
pub fn embeds(b: &[u8], ms: &[(usize, usize)]) -> bool {
    let mk = markers(b);
    ms.iter().any(|&(s, e)| mk.get(mk.partition_point(|&m| m <= s)).map_or(false, |&m| m < e))
}

pub fn kind_of(msin: u8) -> (bool, Option<(u8, u8)>) {
    let t = (msin >> 1) & 7;
    let l = msin >> 4;
    let max = match t {
        0 | 2 => 6,
        1 => 5,
        3 => 2,
        _ => 0,
    };
    (msin & 1 == 1, (l >= 1 && l <= max).then_some((t, l)))
}
/// fields of a message without storage header
pub fn fields_bare(m: &[u8]) -> Fields {
    let h = m[0];
    let (xh, ecu, sei, ts) = (h & 1 != 0, h & 4 != 0, h & 8 != 0, h & 16 != 0);
    let t = &m[4..];
    let at = |o: usize| -> Option<u32> { t.get(o..o + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])) };
    let mut o = 0;
    let hecu = if ecu { at(0) } else { None };
    o += 4 * (ecu as usize + sei as usize);
    let tmsp = if ts { at(o) } else { None };
    o += 4 * ts as usize;
    let ext = if xh { t.get(o..o + 10) } else { None };
    let po = o + if xh { 10 } else { 0 };
    Fields {
        flags: (xh, h & 2 != 0, ecu, sei, ts, h >> 5),
        hecu,
        tmsp,
        ext: ext.map(|x| {
            let (v, k) = kind_of(x[0]);
            (x[1], [x[2], x[3], x[4], x[5]], [x[6], x[7], x[8], x[9]], v, k)
        }),
        payload: t.get(po..).map(|p| p.to_vec()),
        ..Default::default()
    }
}
pub fn fields(m: &[u8]) -> Fields {
    Fields {
        secs: u32::from_le_bytes([m[4], m[5], m[6], m[7]]),
        usec: i32::from_le_bytes([m[8], m[9], m[10], m[11]]),
        ecu: [m[12], m[13], m[14], m[15]],
        ..fields_bare(&m[16..])
    }
}

// ------------------------------------------------------------------- ripdlt
fn has(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
pub fn occurrences(h: &[u8], n: &[u8]) -> usize {
    let (mut i, mut c) = (0, 0);
    while i + n.len() <= h.len() {
        if &h[i..i + n.len()] == n {
            c += 1;
            i += n.len();
        } else {
            if h[i] == 0 && n[0] != 0 {
                i = behind_zeros(h, i);
            }
            i += 1;
        }
    }
    c
}
pub fn groups<T: Clone>(ms: &[T], rel: impl Fn(&T, &T) -> bool) -> Vec<(T, T)> {
    let mut v = vec![];
    let mut i = 0;
    while i < ms.len() {
        let mut j = i;
        while j + 1 < ms.len() && rel(&ms[j], &ms[j + 1]) {
            j += 1;
        }
        if j > i || rel(&ms[i], &ms[i]) {
            v.push((ms[i].clone(), ms[j].clone()));
        }
        i = j + 1;
    }
    v
}
/// closed periods joined while they can be (closer than or at `gap`)
pub fn joined(ps: &[(u32, u32)], gap: u32) -> Vec<(u32, u32)> {
    let mut s = ps.to_vec();
    s.sort();
    let mut v: Vec<(u32, u32)> = vec![];
    for p in s {
        match v.last_mut() {
            Some(l) if p.0 as u64 <= l.1 as u64 + gap as u64 => l.1 = l.1.max(p.1),
            _ => v.push(p),
        }
    }
    v
}
fn bump<K: Ord>(m: &mut BTreeMap<K, usize>, k: K) {
    *m.entry(k).or_insert(0) += 1;
}
pub const SEQ: [&str; 14] = [
    "count",
    "count_hello_world",
    "count_hello_world_grepit",
    "count_hello_world_raw",
    "histogram_hello_world",
    "histogram_lifecycles",
    "histogram_message_size",
    "histogram_message_type",
    "histogram_payload_size",
    "histogram_timestamp",
    "iter",
    "itertools",
    "split_lifecycles",
    "split_timestamp",
];
pub const PAR: [&str; 7] = [
    "par_count",
    "par_count_hello_world",
    "par_count_hello_world_grepit",
    "par_count_hello_world_raw",
    "par_histogram_timestamp",
    "par_iter",
    "par_split_timestamp",
];
pub struct Log<'a> {
    pub b: &'a [u8],
    pub ms: Vec<(usize, usize)>,
    /// without payloads if there are too many
    pub f: Vec<Fields>,
    plen: Vec<usize>,
}
impl<'a> Log<'a> {
    pub fn new(b: &'a [u8]) -> Log<'a> {
        let ms = greedy(b, 0);
        let lean = ms.len() > 10_000 && b.len() > 1 << 30;
        let mut plen = vec![];
        let f = ms
            .iter()
            .map(|&(s, e)| {
                let cut = if lean { e.min(s + 64) } else { e };
                let mut f = fields(&b[s..cut]);
                plen.push(f.payload.as_ref().map_or(0, |p| p.len() + e - cut));
                if lean {
                    f.payload = None;
                }
                f
            })
            .collect();
        Log { b, ms, f, plen }
    }
    pub fn greps(&self, re: &regex::bytes::Regex) -> Vec<usize> {
        self.ms.iter().filter(|&&(s, e)| re.is_match(&self.b[s + 4..e])).map(|m| m.0).collect()
    }
    pub fn hello(&self) -> usize {
        self.f.iter().filter(|f| f.payload.as_ref().map_or(false, |p| has(p, b"Hello World"))).count()
    }
    fn timed(&self) -> Vec<(&Fields, u32)> {
        self.f.iter().filter_map(|f| f.tmsp.map(|t| (f, t))).collect()
    }
    pub fn long_lifecycles(&self) -> usize {
        groups(&self.timed(), |a, b| b.1 >= a.1).iter().filter(|g| g.1 .1 - g.0 .1 >= 18000000).count()
    }
    pub fn long_steps(&self) -> usize {
        self.timed().windows(2).filter(|w| w[1].1 >= w[0].1 && w[1].1 - w[0].1 >= 18000000).count()
    }
    pub fn secs_histogram(&self) -> BTreeMap<usize, usize> {
        let mut h = BTreeMap::new();
        let s: Vec<u32> = self.f.iter().map(|f| f.secs).collect();
        for g in groups(&s, |a, b| b >= a) {
            bump(&mut h, (g.1 - g.0) as usize);
        }
        h
    }
    fn by_ecu<T>(&self, f: impl Fn(&Fields) -> Option<T>) -> BTreeMap<[u8; 4], Vec<T>> {
        let mut m: BTreeMap<[u8; 4], Vec<T>> = BTreeMap::new();
        for x in &self.f {
            if let Some(v) = f(x) {
                m.entry(x.ecu).or_default().push(v);
            }
        }
        m
    }
    pub fn split_secs(&self) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
        self.by_ecu(|f| Some(f.secs))
            .into_iter()
            .map(|(k, v)| {
                let mut h = BTreeMap::new();
                for p in joined(&groups(&v, |a, b| b >= a), 0) {
                    bump(&mut h, p.1 - p.0);
                }
                (k, (h, v.len()))
            })
            .collect()
    }
    pub fn split_lifecycles(&self) -> BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)> {
        self.by_ecu(|f| f.tmsp)
            .into_iter()
            .map(|(k, v)| {
                let mut h = BTreeMap::new();
                for g in groups(&v, |a, b| b >= a) {
                    bump(&mut h, (g.1 - g.0) / 10000);
                }
                (k, (h, v.len()))
            })
            .collect()
    }
    /// The lines a sequential command prints behind its first line (which echoes the command).
    /// None: not claimed for this log (pattern search where messages embed the marker).
    pub fn expect(&self, cmd: &str) -> Option<Vec<String>> {
        let mut v: Vec<String> = vec![];
        let secs = |h: &BTreeMap<usize, usize>, v: &mut Vec<String>| {
            for (k, n) in h {
                v.push(format!("{}-{} secs: {}", k, k + 1, n));
            }
        };
        let split = |h: &BTreeMap<[u8; 4], (BTreeMap<u32, usize>, usize)>, v: &mut Vec<String>| {
            for (k, n) in h {
                v.push(format!("{} #lifecycles: {:?}", String::from_utf8_lossy(k), n));
            }
        };
        match cmd {
            "count" => v.push(format!("{} messages", self.ms.len())),
            "count_hello_world" => v.push(format!("{} hello world messages", self.hello())),
            "count_hello_world_grepit" => {
                v.push(format!("{} hello world messages", self.hello_grep()?.len()));
            }
            "count_hello_world_raw" => {
                v.push(format!("{} raw hello world matches", occurrences(self.b, b"Hello World")))
            }
            "histogram_hello_world" => {
                v.push("Distribution of 'Hello World' matches:".into());
                let mut h = BTreeMap::new();
                for o in self.hello_grep()? {
                    bump(&mut h, o / 100000000);
                }
                for (k, n) in h {
                    v.push(format!("Offset {}M-{}M: {}", k * 100, (k + 1) * 100, n));
                }
            }
            "histogram_lifecycles" => {
                v.push("Distribution of lifecycle durations:".into());
                let mut h = BTreeMap::new();
                for g in groups(&self.timed(), |a, b| a.0.hecu == b.0.hecu && b.1 >= a.1) {
                    bump(&mut h, (g.1 .1 - g.0 .1) as usize / 10000);
                }
                secs(&h, &mut v);
            }
            "histogram_message_size" | "histogram_payload_size" => {
                let pay = cmd == "histogram_payload_size";
                v.push(if pay { "Distribution of payload length:" } else { "Distribution of DLT message length:" }.into());
                let mut h = BTreeMap::new();
                for (m, n) in self.ms.iter().zip(&self.plen) {
                    bump(&mut h, if pay { *n } else { m.1 - m.0 });
                }
                let mut total = 0;
                for (k, n) in h {
                    v.push(format!("{}b: {}, overall: {} kB", k, n, k * n / 1024));
                    total += k * n;
                }
                v.push(format!("{} in total: {} kB", if pay { "Payload" } else { "DLT messages" }, total / 1024));
            }
            "histogram_message_type" => {
                v.push("(verbose, message type): # dlt messages".into());
                let mut h = BTreeMap::new();
                for f in &self.f {
                    if let Some(x) = &f.ext {
                        bump(&mut h, (x.3, x.4));
                    }
                }
                for ((verbose, t), n) in h {
                    v.push(format!("({}, {}): {}", verbose, type_name(t), n));
                }
            }
            "histogram_timestamp" => {
                v.push("Durations of periods where DLT storage header timestamps are continuous:".into());
                secs(&self.secs_histogram(), &mut v);
            }
            "iter" => v.push(format!("{} lifecycles >= 1800s", self.long_lifecycles())),
            "itertools" => v.push(format!("{} lifecycles >= 1800s", self.long_steps())),
            "split_lifecycles" => {
                v.push("Distribution of lifecycle durations:".into());
                split(&self.split_lifecycles(), &mut v);
            }
            "split_timestamp" => {
                v.push("Durations of periods where DLT storage header timestamps are continuous:".into());
                split(&self.split_secs(), &mut v);
            }
            _ => return None,
        }
        Some(v)
    }
    pub fn hello_grep(&self) -> Option<Vec<usize>> {
        if embeds(self.b, &self.ms) {
            return None;
        }
        let re = regex::bytes::Regex::new("H.* World").unwrap();
        Some(self.greps(&re))
    }
}
fn type_name(t: Option<(u8, u8)>) -> String {
    let Some((k, l)) = t else { return "None".into() };
    let n: &[&str] = match k {
        0 => &["DltLogFatal", "DltLogDltError", "DltLogWarn", "DltLogInfo", "DltLogDebug", "DltLogVerbose"],
        1 => &["DltTraceVariable", "DltTraceFunctionIn", "DltTraceFunctionOut", "DltTraceState", "DltTraceVfb"],
        2 => &["DltNwTraceIpc", "DltNwTraceCan", "DltNwTraceFlexray", "DltNwTraceMost", "DltNwTraceEthernet", "DltNwTraceSomeip"],
        _ => &["DltControlRequest", "DltControlResponse"],
    };
    let k = ["DltTypeLog", "DltTypeAppTrace", "DltTypeNwTrace", "DltTypeControl"][k as usize];
    format!("Some({}({}))", k, n[l as usize - 1])
}

// ------------------------------------------------------------------- dd_dlt
pub fn dd(ecu: &[u8], app: &[u8], size: usize, input: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for (k, blk) in input.chunks_exact(size).enumerate() {
        v.extend_from_slice(&MARK);
        v.extend_from_slice(&((k / 100) as u32).to_le_bytes());
        v.extend_from_slice(&((k % 100 * 10000) as i32).to_le_bytes());
        v.extend_from_slice(ecu);
        v.extend_from_slice(&[0x31, k as u8]);
        v.extend_from_slice(&((18 + size) as u16).to_be_bytes());
        v.extend_from_slice(&((k * 100) as u32).to_be_bytes());
        v.extend_from_slice(&[0x41, 0]);
        v.extend_from_slice(app);
        v.extend_from_slice(app);
        v.extend_from_slice(blk);
    }
    v
}

// --------------------------------------------------------------- generators
fn rel(r: u32, a: &M, b: &M) -> bool {
    match r {
        0 => b.t >= a.t,
        1 => b.t > a.t,
        2 => b.v == a.v,
        3 => b.t.abs_diff(a.t) <= 5,
        4 => false,
        5 => true,
        _ => (a.v + b.v) % 2 == 1,
    }
}
fn pipe(p: u32, r: u32, k: u32, ms: &[M]) -> String {
    let g = |ms: &[M]| groups(ms, |a, b| rel(r, a, b));
    let dur = |g: &(M, M)| g.1.t.wrapping_sub(g.0.t);
    let span = |g: &(M, M)| (g.0.t.min(g.1.t), g.0.t.max(g.1.t));
    let periods = |gap: u32| joined(&g(ms).iter().map(span).collect::<Vec<_>>(), gap);
    let hist = |it: &mut dyn Iterator<Item = u32>| {
        let mut h = BTreeMap::new();
        for x in it {
            bump(&mut h, x);
        }
        h
    };
    match p {
        0 => format!("{}", ms.len()),
        1 => format!("{}", ms.iter().filter(|m| m.v % 3 != k % 3).count()),
        2 => format!("{}", ms.iter().map(|m| m.v as usize * 2 + 1).sum::<usize>()),
        3 => format!("{:?}", g(ms)),
        4 => format!("{:?}", hist(&mut g(ms).iter().map(|x| dur(x) / k))),
        5 => format!("({:?}, {})", hist(&mut g(ms).iter().map(|x| dur(x) / k)), ms.len()),
        6 => format!("{:?}", joined(&g(ms).iter().map(span).collect::<Vec<_>>(), k % 3)),
        7 => {
            let f: Vec<M> = ms.iter().copied().filter(|m| m.v % 4 != 0).collect();
            format!("{}", g(&f).iter().filter(|x| dur(x) >= k).count())
        }
        8 => {
            let f = ms.iter().map(|m| M { v: m.v + 1, ..*m }).filter(|m| m.v % 5 != 0);
            format!("{:?}", f.fold(0u64, |h, m| sut::mix(h, &m)))
        }
        9 => {
            let mut o: BTreeMap<u32, BTreeMap<u32, usize>> = BTreeMap::new();
            for m in ms {
                bump(o.entry(m.v % (k + 1)).or_default(), m.t % 2);
            }
            format!("{:?}", o)
        }
        10 => format!("{:?}", groups(&g(ms), |a, b| rel((r + k) % sut::NREL, &a.1, &b.0))),
        11 => {
            let s: Vec<(u32, u32)> = g(ms).iter().map(span).filter(|s| s.1 - s.0 != k % 4).collect();
            format!("{:?}", hist(&mut joined(&s, 0).iter().map(|s| (s.1 - s.0) % (k + 1))))
        }
        12 => format!("{:?}", ms.iter().fold(0u64, |h, m| sut::mix(h, m))),
        13 => {
            let f: Vec<M> = ms.iter().copied().filter(|m| m.v % 2 == 0).collect();
            let sum: usize = ms.iter().map(|m| m.t as usize + 1).sum();
            format!("({:?}, ({}, {}))", g(&f), sum, ms.len())
        }
        14 => {
            let f: Vec<(M, M)> = g(ms).into_iter().filter(|g| (g.0.v + g.1.v) % 3 != k % 3).collect();
            let q: Vec<(M, M)> = groups(&f, |a, b| a.1.t <= b.0.t).iter().map(|p| (p.0 .0, p.1 .1)).collect();
            format!("{:?}", q)
        }
        15 => format!("{:?}", groups(&periods(k % 3), |a, b| sut::near(3 + 2 * k, a, b))),
        16 => format!("{:?}", periods(0).iter().filter(|s| (s.1 - s.0) % 2 == k % 2).map(|s| s.0 as u64 * 3 + s.1 as u64).collect::<Vec<_>>()),
        17 => format!("{:?}", joined(&periods(0), k)),
        18 => {
            let f: Vec<(u32, u32)> = periods(k % 2).into_iter().filter(|s| s.0 % 3 != k % 3).collect();
            let q = groups(&f, |a, b| sut::near(k, a, b));
            format!("{}", q.iter().filter(|g| g.0 .0 % 2 == g.1 .1 % 2).map(|g| (g.1 .1 - g.0 .0) as usize).sum::<usize>())
        }
        _ => {
            let twice = groups(&g(ms), |a, b| a.1.t <= b.0.t);
            let thrice = groups(&twice, |a, b| a.0 .0.v <= b.0 .0.v);
            format!("({}, {})", periods(1).iter().map(|s| s.1 as usize).sum::<usize>(), thrice.len())
        }
    }
}
pub fn pipeline(p: u32, how: u32, r: u32, k: u32, ms: &[M]) -> String {
    let k = k.max(1);
    if how > 3 {
        return pipe(p, r, k, ms);
    }
    let srcs: BTreeSet<u32> = ms.iter().map(|m| m.src).collect();
    let parts: Vec<String> = srcs
        .iter()
        .map(|s| {
            let own: Vec<M> = ms.iter().copied().filter(|m| m.src == *s).collect();
            format!("{}: {}", s, pipe(p, r, k, &own))
        })
        .collect();
    format!("{{{}}}", parts.join(", "))
}
pub fn pull_groups(r: u32, ms: &[M]) -> Vec<(M, M)> {
    groups(ms, |a, b| rel(r, a, b))
}
pub fn pull(p: u32, r: u32, k: u32, ms: &[M]) -> Vec<String> {
    let g = |ms: &[M]| groups(ms, |a, b| rel(r, a, b));
    let dur = |g: &(M, M)| g.1.t.wrapping_sub(g.0.t);
    let span = |g: &(M, M)| (g.0.t.min(g.1.t), g.0.t.max(g.1.t));
    let some: Vec<M> = ms.iter().copied().filter(|m| m.v % 3 != k % 3).collect();
    fn show<T: std::fmt::Debug>(v: impl IntoIterator<Item = T>) -> Vec<String> {
        v.into_iter().map(|x| format!("{:?}", x)).collect()
    }
    match p {
        0 => show(some),
        1 => show(ms.iter().map(|m| m.v as u64 * 3 + m.t as u64)),
        2 => show(groups(&g(ms), |a, b| rel((r + k) % sut::NREL, &a.1, &b.0))),
        3 => show(joined(&g(ms).iter().map(span).collect::<Vec<_>>(), k % 3)),
        4 => show(g(&some)),
        5 => {
            let mut h = BTreeMap::new();
            for x in g(ms) {
                bump(&mut h, dur(&x) / k);
            }
            vec![format!("{:?}", h)]
        }
        6 => show(g(ms).into_iter().filter(|x| dur(x) >= k)),
        7 => show(groups(&joined(&g(ms).iter().map(span).collect::<Vec<_>>(), k % 3), |a, b| sut::near(k, a, b))),
        _ => {
            let mut h: BTreeMap<u32, Vec<(u32, u32)>> = BTreeMap::new();
            for s in joined(&g(ms).iter().map(span).collect::<Vec<_>>(), k % 3) {
                h.entry(s.0 % (k + 1)).or_default().push(s);
            }
            let h: BTreeMap<u32, _> = h.into_iter().map(|(s, v)| (s, groups(&v, |a, b| sut::near(k, a, b)))).collect();
            vec![format!("{:?}", h)]
        }
    }
}
