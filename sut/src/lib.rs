//! Entry points into the code under test. Generic library code is instantiated here, in a crate that is
//! compiled with the simulator's callbacks; only the public API of the libraries is used.
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::{AdapterTrait, Filter, Map};
use matchit::generator::generator::Generator;
use matchit::generator::groupby::Merge;
use matchit::generator::reducer::ReducerTrait;
use matchit::readit::ReadIterator;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use matchit::searchable::readfallbackit::ReadFallbackIterator;
use matchit::searchable::searchit::{RevSearchIterator, SearchIterator};
use matchit::{partition_from, ContainedBySearch, FromBytesReadableTrait, TIterator};
pub use rapiddlt::dlt_v1::{DltEntry, DltStorageEntry};
use rapiddlt::dlt_v1::*;
use rapiddlt::dltbuffer::DltBuffer;
use zerocopy::AsBytes;

pub type E<'a> = DltStorageEntry<'a>;

/// What an iterator reported: items, whether the cap was hit, and whether it stayed ended.
pub struct Seen<T> {
    pub items: Vec<T>,
    pub capped: bool,
    pub revived: bool,
}
impl<T> Default for Seen<T> {
    fn default() -> Self {
        Seen { items: vec![], capped: false, revived: false }
    }
}
#[inline(always)]
fn drain<T>(mut it: impl Iterator<Item = T>, cap: usize) -> Seen<T> {
    let mut s = Seen { items: vec![], capped: false, revived: false };
    loop {
        match it.next() {
            None => break,
            Some(x) => {
                if s.items.len() >= cap {
                    s.capped = true;
                    return s;
                }
                s.items.push(x)
            }
        }
    }
    for _ in 0..3 {
        s.revived |= it.next().is_some();
    }
    s
}

#[inline(never)]
pub fn seq(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(ReadFallbackIterator::<DltStorageEntry>::new(b, off), cap)
}
/// the constructor for generic code
#[inline(never)]
pub fn seq_trait(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(<ReadFallbackIterator<DltStorageEntry> as TIterator>::new(b, off), cap)
}
#[inline(never)]
pub fn strict_own(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(ReadIterator::<DltStorageEntry>::new(b, off), cap)
}
#[inline(never)]
pub fn seq_offset(b: &[u8], cap: usize) -> Seen<(usize, E<'_>)> {
    drain(dltit_offset(b), cap)
}
#[inline(never)]
pub fn seq_plain(b: &[u8], cap: usize) -> Seen<E<'_>> {
    drain(dltit(b), cap)
}
/// reads at most `k` messages, returns them and the position to go on from
#[inline(never)]
pub fn seq_some(b: &[u8], off: usize, k: usize) -> (Vec<(usize, E<'_>)>, usize) {
    let mut v = vec![];
    let mut end = off;
    let mut it = ReadFallbackIterator::<DltStorageEntry>::new(b, off);
    while v.len() < k {
        match it.next() {
            Some((o, e)) => {
                end = o + e.len();
                v.push((o, e));
            }
            None => break,
        }
    }
    (v, end)
}
#[inline(never)]
pub fn strict(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(<ReadIterator<DltStorageEntry> as TIterator>::new(b, off), cap)
}
#[inline(never)]
pub fn strict_bare(b: &[u8], off: usize, cap: usize) -> Seen<(usize, DltEntry<'_>)> {
    drain(<ReadIterator<DltEntry> as TIterator>::new(b, off), cap)
}
#[inline(never)]
pub fn fwd(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(<SearchIterator<DltStorageEntry> as TIterator>::new(b, off), cap)
}
#[inline(never)]
pub fn rev(b: &[u8], off: usize, cap: usize) -> Seen<(usize, E<'_>)> {
    drain(<RevSearchIterator<DltStorageEntry> as TIterator>::new(b, off), cap)
}
#[inline(never)]
pub fn grep<'a>(b: &'a [u8], pat: &str, off: usize, cap: usize) -> Seen<(usize, E<'a>)> {
    drain(GrepIterator::<DltStorageEntry>::new(pat, b, off), cap)
}
#[inline(never)]
pub fn capture(b: &[u8], pat: &str, off: usize, cap: usize) -> Seen<(usize, (usize, usize))> {
    drain(RegExMatcherIterator::<DltStorageEntry>::new(pat, b, off), cap)
}
#[inline(never)]
pub fn partition(b: &[u8], num: usize) -> Vec<&[u8]> {
    partition_from::<DltStorageEntry>(b, num)
}
/// partitions of a loaded buffer, as (offset, length) in it
#[inline(never)]
pub fn partition_buffer(b: &[u8], num: usize) -> Vec<Vec<u8>> {
    let buf = DltBuffer::Read(b.to_vec());
    buf.partition::<DltStorageEntry>(num).iter().map(|s| s.to_vec()).collect()
}
#[inline(never)]
pub fn contained(b: &[u8], range: (usize, usize)) -> Option<(usize, E<'_>)> {
    ContainedBySearch::<DltStorageEntry>::new().contained_by(b, range)
}
#[inline(never)]
pub fn try_read(b: &[u8]) -> Option<(usize, E<'_>)> {
    DltStorageEntry::try_read(b)
}
#[inline(never)]
pub fn try_read_bare(b: &[u8]) -> Option<(usize, DltEntry<'_>)> {
    DltEntry::try_read(b)
}
#[inline(never)]
pub fn max_lens() -> (usize, usize) {
    (DltStorageEntry::max_len(), DltEntry::max_len())
}

/// header and content bytes of a reported message, as the library exposes them
#[inline(never)]
pub fn bytes_of(e: &E<'_>) -> Vec<u8> {
    let mut v = e.storage_header.as_bytes().to_vec();
    v.extend_from_slice(&bytes_of_bare(&e.dlt));
    v
}
#[inline(never)]
pub fn bytes_of_bare(e: &DltEntry<'_>) -> Vec<u8> {
    let mut v = e.header.as_bytes().to_vec();
    v.extend_from_slice(e.tail);
    v
}
#[inline(never)]
pub fn len_of(e: &E<'_>) -> (usize, usize, usize) {
    (e.len(), e.dlt.len(), e.dlt.header.length())
}
#[inline(never)]
pub fn len_of_bare(e: &DltEntry<'_>) -> (usize, usize) {
    (e.len(), e.header.length())
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct Fields {
    pub secs: u32,
    pub usec: i32,
    pub ecu: [u8; 4],
    pub flags: (bool, bool, bool, bool, bool, u8),
    pub hecu: Option<u32>,
    pub tmsp: Option<u32>,
    /// noar, apid, ctid, verbose, type as (kind, level)
    pub ext: Option<(u8, [u8; 4], [u8; 4], bool, Option<(u8, u8)>)>,
    pub payload: Option<Vec<u8>>,
}
fn kind(t: &DltMessageType) -> (u8, u8) {
    match t {
        DltMessageType::DltTypeLog(l) => (0, *l as u8),
        DltMessageType::DltTypeAppTrace(l) => (1, *l as u8),
        DltMessageType::DltTypeNwTrace(l) => (2, *l as u8),
        DltMessageType::DltTypeControl(l) => (3, *l as u8),
    }
}
#[inline(never)]
pub fn fields_bare(e: &DltEntry<'_>) -> Fields {
    let h = &e.header.header_type;
    Fields {
        flags: (
            h.is_extended_header(),
            h.is_msb_first(),
            h.is_with_ecu_id(),
            h.is_with_session_id(),
            h.is_with_timestamp(),
            h.version(),
        ),
        hecu: e.ecu_id(),
        tmsp: e.timestamp(),
        ext: e.extended_header().map(|x| {
            let (v, t) = x.msin.info();
            assert_eq!((v, t), (x.msin.is_verbose(), x.msin.message_type()), "info() disagrees with its parts");
            (x.noar, x.apid, x.ctid, v, t.as_ref().map(kind))
        }),
        payload: e.payload().map(|p| p.to_vec()),
        ..Default::default()
    }
}
#[inline(never)]
pub fn fields(e: &E<'_>) -> Fields {
    Fields {
        secs: e.storage_header.secs.get(),
        usec: e.storage_header.msecs.get(),
        ecu: e.storage_header.ecu,
        ..fields_bare(&e.dlt)
    }
}

// ------------------------------------------------------------------ writing
#[derive(Clone, Debug)]
pub struct Spec {
    pub secs: u32,
    pub usec: i32,
    pub ecu: [u8; 4],
    pub flags: (bool, bool, bool, bool, bool, u8),
    pub mcnt: u8,
    pub hecu: u32,
    pub seid: u32,
    pub tmsp: u32,
    pub noar: u8,
    pub apid: [u8; 4],
    pub ctid: [u8; 4],
    pub verbose: bool,
    pub typ: (u8, u8),
    pub payload: Vec<u8>,
}
fn typ(t: (u8, u8)) -> DltMessageType {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    let i = t.1 as usize - 1;
    match t.0 {
        0 => DltMessageType::DltTypeLog([DltLogFatal, DltLogDltError, DltLogWarn, DltLogInfo, DltLogDebug, DltLogVerbose][i]),
        1 => DltMessageType::DltTypeAppTrace(
            [DltTraceVariable, DltTraceFunctionIn, DltTraceFunctionOut, DltTraceState, DltTraceVfb][i],
        ),
        2 => DltMessageType::DltTypeNwTrace(
            [DltNwTraceIpc, DltNwTraceCan, DltNwTraceFlexray, DltNwTraceMost, DltNwTraceEthernet, DltNwTraceSomeip][i],
        ),
        _ => DltMessageType::DltTypeControl([DltControlRequest, DltControlResponse][i]),
    }
}
#[inline(never)]
pub fn compose(s: &Spec) -> Vec<u8> {
    let mut v = DltStorageHeader::new([b'D', b'L', b'T', 1], s.secs, s.usec, s.ecu).as_bytes().to_vec();
    let f = s.flags;
    let mut len = 4 + s.payload.len();
    len += if f.0 { 10 } else { 0 } + 4 * (f.2 as usize + f.3 as usize + f.4 as usize);
    let h = DltStandardHeader::new(DltHTyp::new(f.0, f.1, f.2, f.3, f.4, f.5), s.mcnt, len as u16);
    v.extend_from_slice(h.as_bytes());
    if f.2 {
        v.extend_from_slice(&s.hecu.to_be_bytes());
    }
    if f.3 {
        v.extend_from_slice(&s.seid.to_be_bytes());
    }
    if f.4 {
        v.extend_from_slice(&s.tmsp.to_be_bytes());
    }
    if f.0 {
        let m = MessageType::create_message_type(s.verbose, typ(s.typ));
        v.extend_from_slice(DltExtendedHeader::new(m, s.noar, s.apid, s.ctid).as_bytes());
    }
    v.extend_from_slice(&s.payload);
    v
}

// ------------------------------------------------------------------ loading
#[inline(never)]
pub fn load(path: &str, mmap: bool) -> Result<DltBuffer, std::io::Error> {
    if mmap {
        DltBuffer::mmap_file(path)
    } else {
        DltBuffer::read_file(path)
    }
}
#[inline(never)]
pub fn buffer(b: &DltBuffer) -> (&[u8], usize) {
    (b.as_slice(), b.len())
}

// --------------------------------------------------------------- generators
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct M {
    pub src: u32,
    pub t: u32,
    pub v: u32,
}
pub const NREL: u32 = 7;
pub fn rel(r: u32, a: &M, b: &M) -> bool {
    match r {
        0 => b.t >= a.t,
        1 => b.t > a.t,
        2 => b.v == a.v,
        3 => b.t.abs_diff(a.t) <= 5,
        4 => false,
        5 => true,
        _ => (a.v + b.v) % 2 == 1,
    }
}
pub fn overlap(gap: u32, a: &(u32, u32), b: &(u32, u32)) -> Option<(u32, u32)> {
    if b.0 as u64 <= a.1 as u64 + gap as u64 && a.0 as u64 <= b.1 as u64 + gap as u64 {
        Some((a.0.min(b.0), a.1.max(b.1)))
    } else {
        None
    }
}
// not inlined: else the optimizer compares what it does not care about, and coverage does not repeat
#[inline(never)]
fn duration(g: &(M, M)) -> u32 {
    g.1.t.wrapping_sub(g.0.t)
}
#[inline(never)]
fn span(g: &(M, M)) -> (u32, u32) {
    (g.0.t.min(g.1.t), g.0.t.max(g.1.t))
}
#[inline(never)]
fn later(a: &(M, M), b: &(M, M)) -> bool {
    a.1.t <= b.0.t
}
#[inline(never)]
fn grows(a: &((M, M), (M, M)), b: &((M, M), (M, M))) -> bool {
    a.0 .0.v <= b.0 .0.v
}
#[inline(never)]
pub fn near(d: u32, a: &(u32, u32), b: &(u32, u32)) -> bool {
    b.0 as u64 <= a.1 as u64 + d as u64
}
pub fn mix(h: u64, m: &M) -> u64 {
    (h ^ ((m.t as u64) << 32 | m.v as u64)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23)
}
pub const NPIPE: u32 = 20;

/// A consumer of a stream: `next` per message, result at the end.
macro_rules! split_with {
    ($how:expr, $ms:expr, $mk:expr) => {{
        let ms: &[M] = $ms;
        match $how {
            // pushed, split by source
            0 => {
                let mut s = Generator::split(|m: &M| m.src, |_| $mk);
                for m in ms {
                    s.next(*m);
                }
                format!("{:?}", s.finalize())
            }
            // pulled from an iterator, split by source
            1 => format!("{:?}", ms.iter().copied().split(|m: &M| m.src, |_| $mk)),
            // split behind an adapter
            2 => {
                let mut s = Generator::filter(|_: &M| true).split(|m: &M| m.src, |_| $mk);
                for m in ms {
                    s.next(*m);
                }
                format!("{:?}", s.finalize())
            }
            // the two halves of a fork, which must agree
            3 => {
                let mut s = Generator::fork(
                    Generator::split(|m: &M| m.src, |_| $mk),
                    Generator::map(|m: &M| M { ..*m }).split(|m: &M| m.src, |_| $mk),
                );
                for m in ms {
                    s.next(*m);
                }
                let (a, b) = s.finalize();
                let (a, b) = (format!("{:?}", a), format!("{:?}", b));
                if a == b {
                    a
                } else {
                    format!("fork halves differ: {} / {}", a, b)
                }
            }
            // no split: the whole stream as one source
            _ => {
                let mut s = $mk;
                for m in ms {
                    s.next(*m);
                }
                format!("{:?}", s.finalize())
            }
        }
    }};
}
// each in a module of its own: the compiler's unit of work
macro_rules! pipe {
    ($name:ident($how:ident, $r:ident, $k:ident, $ms:ident): $e:expr) => {
        mod $name {
            use super::*;
            #[inline(never)]
            #[allow(unused_variables)]
            pub fn run($how: u32, $r: u32, $k: u32, $ms: &[M]) -> String {
                $e
            }
        }
    };
}
pipe!(p0(how, r, k, ms): split_with!(how, ms, Generator::count()));
pipe!(p1(how, r, k, ms): split_with!(how, ms, Generator::filter(move |m: &M| m.v % 3 != k % 3).count()));
pipe!(p2(how, r, k, ms): split_with!(how, ms, Generator::map(|m: &M| m.v as usize * 2 + 1).sum()));
pipe!(p3(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b)).collect()));
pipe!(p4(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(duration)
        .split(move |d: &u32| d / k, |_| Generator::count())));
pipe!(p5(how, r, k, ms): split_with!(how, ms, Generator::fork(
        Generator::groupby(move |a: &M, b: &M| rel(r, a, b)).map(duration).split(move |d: &u32| d / k, |_| Generator::count()),
        Generator::count()
    )));
pipe!(p6(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(k % 3, a, b), |v: &(u32, u32)| *v)
        .collect()));
pipe!(p7(how, r, k, ms): split_with!(how, ms, Generator::filter(move |m: &M| m.v % 4 != 0)
        .groupby(move |a: &M, b: &M| rel(r, a, b))
        .filter(move |g: &(M, M)| g.1.t.wrapping_sub(g.0.t) >= k)
        .count()));
pipe!(p8(how, r, k, ms): split_with!(how, ms, Generator::map(|m: &M| M { v: m.v + 1, ..*m }).filter(|m: &M| m.v % 5 != 0).fold(
        0u64,
        |h, m: M| mix(h, &m)
    )));
pipe!(p9(how, r, k, ms): split_with!(how, ms, Generator::split(move |m: &M| m.v % (k + 1), |_| Generator::split(
        |m: &M| m.t % 2,
        |_| Generator::count()
    ))));
pipe!(p10(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .groupby(move |a: &(M, M), b: &(M, M)| rel((r + k) % NREL, &a.1, &b.0))
        .collect()));
pipe!(p11(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .filter(move |s: &(u32, u32)| s.1 - s.0 != k % 4)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(0, a, b), |v: &(u32, u32)| v.0)
        .map(|s: &(u32, u32)| s.1 - s.0)
        .split(move |d: &u32| *d % (k + 1), |_| Generator::count())));
pipe!(p12(how, r, k, ms): split_with!(how, ms, Generator::fold(0u64, |h, m: M| mix(h, &m))));
pipe!(p13(how, r, k, ms): split_with!(how, ms, Generator::fork(
        Generator::filter(move |m: &M| m.v % 2 == 0).groupby(move |a: &M, b: &M| rel(r, a, b)).collect(),
        Generator::map(|m: &M| M { t: m.t + 1, ..*m }).fork(Generator::map(|m: &M| m.t as usize).sum(), Generator::count())
    )));
pipe!(p14(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .filter(move |g: &(M, M)| (g.0.v + g.1.v) % 3 != k % 3)
        .groupby(later)
        .map(|p: &((M, M), (M, M))| (p.0 .0, p.1 .1))
        .collect()));
// adapters behind one with several pending values
pipe!(p15(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(k % 3, a, b), |v: &(u32, u32)| *v)
        .groupby(move |a: &(u32, u32), b: &(u32, u32)| near(3 + 2 * k, a, b))
        .collect()));
pipe!(p16(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(0, a, b), |v: &(u32, u32)| *v)
        .filter(move |s: &(u32, u32)| (s.1 - s.0) % 2 == k % 2)
        .map(|s: &(u32, u32)| s.0 as u64 * 3 + s.1 as u64)
        .collect()));
pipe!(p17(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(0, a, b), |v: &(u32, u32)| *v)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(k, a, b), |v: &(u32, u32)| v.0)
        .collect()));
pipe!(p18(how, r, k, ms): split_with!(how, ms, Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(k % 2, a, b), |v: &(u32, u32)| *v)
        .filter(move |s: &(u32, u32)| s.0 % 3 != k % 3)
        .groupby(move |a: &(u32, u32), b: &(u32, u32)| near(k, a, b))
        .filter(|g: &((u32, u32), (u32, u32))| g.0 .0 % 2 == g.1 .1 % 2)
        .map(|g: &((u32, u32), (u32, u32))| (g.1 .1 - g.0 .0) as usize)
        .sum()));
pipe!(p19(how, r, k, ms): split_with!(how, ms, Generator::fork(
        Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
        .map(span)
        .merge(move |a: &(u32, u32), b: &(u32, u32)| overlap(1, a, b), |v: &(u32, u32)| *v)
        .map(|s: &(u32, u32)| s.1 as usize)
        .sum(),
        Generator::groupby(move |a: &M, b: &M| rel(r, a, b))
            .groupby(later)
            .groupby(grows)
            .count()
    )));
#[inline(never)]
pub fn pipeline(p: u32, how: u32, r: u32, k: u32, ms: &[M]) -> String {
    let k = k.max(1);
    match p {
        0 => p0::run(how, r, k, ms),
        1 => p1::run(how, r, k, ms),
        2 => p2::run(how, r, k, ms),
        3 => p3::run(how, r, k, ms),
        4 => p4::run(how, r, k, ms),
        5 => p5::run(how, r, k, ms),
        6 => p6::run(how, r, k, ms),
        7 => p7::run(how, r, k, ms),
        8 => p8::run(how, r, k, ms),
        9 => p9::run(how, r, k, ms),
        10 => p10::run(how, r, k, ms),
        11 => p11::run(how, r, k, ms),
        12 => p12::run(how, r, k, ms),
        13 => p13::run(how, r, k, ms),
        14 => p14::run(how, r, k, ms),
        15 => p15::run(how, r, k, ms),
        16 => p16::run(how, r, k, ms),
        17 => p17::run(how, r, k, ms),
        18 => p18::run(how, r, k, ms),
        _ => p19::run(how, r, k, ms),
    }
}
/// group-by pulled from an iterator
#[inline(never)]
pub fn pull_groups(r: u32, ms: &[M], cap: usize) -> Seen<(M, M)> {
    drain(ms.iter().copied().groupby(move |a: &M, b: &M| rel(r, a, b)), cap)
}

pub const NPULL: u32 = 9;
/// adapters pulled from an iterator
#[inline(never)]
pub fn pull(p: u32, r: u32, k: u32, ms: &[M], cap: usize) -> Seen<String> {
    let it = ms.iter().copied();
    let related = move |a: &M, b: &M| rel(r, a, b);
    let dur = move |g: &(M, M)| g.1.t.wrapping_sub(g.0.t);
    let some = move |m: &M| m.v % 3 != k % 3;
    let over = move |a: &(u32, u32), b: &(u32, u32)| overlap(k % 3, a, b);
    let key = |v: &(u32, u32)| *v;
    fn show<T: std::fmt::Debug>(it: impl Iterator<Item = T>, cap: usize) -> Seen<String> {
        drain(it.map(|x| format!("{:?}", x)), cap)
    }
    match p {
        0 => show(FromAdaptFn::new(Filter::new(some), it), cap),
        1 => show(FromAdaptFn::new(Map::new(|m: &M| m.v as u64 * 3 + m.t as u64), it), cap),
        2 => show(it.groupby(related).groupby(move |a: &(M, M), b: &(M, M)| rel((r + k) % NREL, &a.1, &b.0)), cap),
        3 => show(FromAdaptFn::new(Merge::new(over, key), FromAdaptFn::new(Map::new(span), it.groupby(related))), cap),
        4 => show(FromAdaptFn::new(Filter::new(some), it).groupby(related), cap),
        5 => Seen { items: vec![format!("{:?}", it.groupby(related).split(move |g| dur(g) / k, |_| Generator::count()))], ..Default::default() },
        6 => show(FromAdaptFn::new(Filter::new(move |g: &(M, M)| dur(g) >= k), it.groupby(related)), cap),
        7 => show(
            FromAdaptFn::new(Merge::new(over, key), FromAdaptFn::new(Map::new(span), it.groupby(related))).groupby(move |a: &(u32, u32), b: &(u32, u32)| near(k, a, b)),
            cap,
        ),
        _ => Seen {
            items: vec![format!(
                "{:?}",
                FromAdaptFn::new(Merge::new(over, key), FromAdaptFn::new(Map::new(span), it.groupby(related)))
                    .split(move |s: &(u32, u32)| s.0 % (k + 1), |_| Generator::groupby(move |a: &(u32, u32), b: &(u32, u32)| near(k, a, b)).collect())
            )],
            ..Default::default()
        },
    }
}

pub type Per = (u32, (u32, u32));
/// a key that is unique among the merged periods of all sources
pub fn per_key(back: bool, by_start: bool, p: &Per) -> (u32, u32) {
    let t = if by_start { p.1 .0 } else { p.1 .1 };
    let t = if back { !t } else { t };
    if back && by_start { (p.0, t) } else { (t, p.0) }
}
/// Merges periods; `how`: 0 pushed, 1 pulled, 2 pushed and split by source,
/// 3 pushed and 4 pulled, where only periods of one source merge
#[inline(never)]
pub fn merge(how: u32, gap: u32, by_start: bool, ps: &[Per], cap: usize) -> Vec<(u32, Vec<(u32, u32)>)> {
    let f = move |a: &(u32, u32), b: &(u32, u32)| overlap(gap, a, b);
    let key = move |v: &(u32, u32)| if by_start { (v.0, 0) } else { *v };
    match how {
        0 => {
            let mut g = Generator::merge(f, key).collect();
            for p in ps {
                g.next(p.1);
            }
            vec![(0, g.finalize())]
        }
        1 => {
            let s = drain(FromAdaptFn::new(Merge::new(f, key), ps.iter().map(|p| p.1)), cap);
            let mut v = s.items;
            if s.capped || s.revived {
                v.push((u32::MAX, 0)); // shows up as an invented period
            }
            vec![(0, v)]
        }
        3 | 4 => {
            let back = how == 4;
            let f = move |a: &Per, b: &Per| if a.0 == b.0 { Some((a.0, overlap(gap, &a.1, &b.1)?)) } else { None };
            let key = move |p: &Per| per_key(back, by_start, p);
            let v = if back {
                let s = drain(FromAdaptFn::new(Merge::new(f, key), ps.iter().copied()), cap);
                let mut v = s.items;
                if s.capped || s.revived {
                    v.push((u32::MAX, (0, 0)));
                }
                v
            } else {
                let mut g = Generator::merge(f, key).collect();
                for p in ps {
                    g.next(*p);
                }
                g.finalize()
            };
            v.into_iter().map(|(s, p)| (s, vec![p])).collect()
        }
        _ => {
            let mut g = Generator::split(|p: &Per| p.0, |_| Generator::map(|p: &Per| p.1).merge(f, key).collect());
            for p in ps {
                g.next(*p);
            }
            g.finalize().into_iter().collect()
        }
    }
}

// -------------------------------------------------- records of other formats
/// A record format as a user of the library defines it: number `F` of the list below.
#[derive(Debug, Clone, Copy)]
pub struct Rec<'a, const F: usize>(&'a [u8]);
pub const FORMATS: usize = 8;
pub const MARKS: [&[u8]; FORMATS] = [b"\x7e", b"AA", b"ABA", b"SYNC\x00\xff\x00\xff", b"\xff\xff\xff\xff", b"--\n", b"#!", b"\x00"];
pub const MAX_LEN: [usize; FORMATS] = [257, 258, 505, 20, 65535, 100, 2, 4];
/// length of the record at the start of `b`, where its marker stands
pub fn record(f: usize, b: &[u8]) -> Option<usize> {
    let n = match f {
        0 => 2 + *b.get(1)? as usize,
        1 => 3 + *b.get(2)? as usize,
        2 => 5 + Some(u16::from_le_bytes([*b.get(3)?, *b.get(4)?]) as usize).filter(|n| *n <= 500)?,
        3 => b.get(8..20)?.iter().fold(0, |a, x| a ^ x).eq(&0).then_some(20)?,
        4 => Some(u16::from_be_bytes([*b.get(4)?, *b.get(5)?]) as usize).filter(|n| *n >= 6)?,
        5 => 6 + b[3..b.len().min(100)].windows(3).position(|w| w == b"\n.\n")?,
        6 => 2,
        _ => (*b.get(3)? == b[1] ^ b[2]).then_some(4)?,
    };
    (n <= b.len()).then_some(n)
}
impl<'a, const F: usize> FromBytesReadableTrait<'a> for Rec<'a, F> {
    fn try_read(bytes: &'a [u8]) -> Option<(usize, Self)> {
        if !bytes.starts_with(MARKS[F]) {
            return None;
        }
        record(F, bytes).map(|n| (n, Rec(&bytes[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        MAX_LEN[F]
    }
}
impl<'a, const F: usize> matchit::searchable::SearchableMarkerTrait<'a> for Rec<'a, F> {
    fn marker() -> &'static [u8] {
        MARKS[F]
    }
    fn try_read_valid_marker(bytes: &'a [u8]) -> Option<(usize, Self)> {
        record(F, bytes).map(|n| (n, Rec(&bytes[..n])))
    }
}
/// a format without a marker: a length and as many bytes
#[derive(Debug, Clone, Copy)]
pub struct Bare<'a>(&'a [u8]);
pub fn bare(b: &[u8]) -> Option<usize> {
    let n = 1 + *b.first()? as usize;
    (n <= b.len()).then_some(n)
}
impl<'a> FromBytesReadableTrait<'a> for Bare<'a> {
    fn try_read(bytes: &'a [u8]) -> Option<(usize, Self)> {
        bare(bytes).map(|n| (n, Bare(&bytes[..n])))
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_len() -> usize {
        256
    }
}
/// reported position, and where the record's bytes really are
pub type Spot = (usize, (usize, usize));
fn spot(b: &[u8], at: usize, r: &[u8]) -> Spot {
    let s = (r.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize);
    (at, (s, s.wrapping_add(r.len())))
}
fn spots<'a, const F: usize>(b: &[u8], it: impl Iterator<Item = (usize, Rec<'a, F>)>, cap: usize) -> Seen<Spot> {
    drain(it.map(|(o, r)| spot(b, o, r.0)), cap)
}
macro_rules! as_format {
    ($f:expr, $g:ident ( $($a:expr),* )) => {
        match $f {
            0 => $g::<0>($($a),*), 1 => $g::<1>($($a),*), 2 => $g::<2>($($a),*), 3 => $g::<3>($($a),*),
            4 => $g::<4>($($a),*), 5 => $g::<5>($($a),*), 6 => $g::<6>($($a),*), _ => $g::<7>($($a),*),
        }
    };
}
/// ways of reading: sequential (2), strict (2), forward, backward
pub const WAYS: [&str; 6] = ["rec_seq", "rec_seq_trait", "rec_strict", "rec_strict_trait", "rec_fwd", "rec_rev"];
fn rec_read_as<const F: usize>(way: usize, b: &[u8], off: usize, cap: usize) -> Seen<Spot> {
    match way {
        0 => spots(b, ReadFallbackIterator::<Rec<F>>::new(b, off), cap),
        1 => spots(b, <ReadFallbackIterator<Rec<F>> as TIterator>::new(b, off), cap),
        2 => spots(b, ReadIterator::<Rec<F>>::new(b, off), cap),
        3 => spots(b, <ReadIterator<Rec<F>> as TIterator>::new(b, off), cap),
        4 => spots(b, <SearchIterator<Rec<F>> as TIterator>::new(b, off), cap),
        _ => spots(b, <RevSearchIterator<Rec<F>> as TIterator>::new(b, off), cap),
    }
}
#[inline(never)]
pub fn rec_read(f: usize, way: usize, b: &[u8], off: usize, cap: usize) -> Seen<Spot> {
    as_format!(f, rec_read_as(way, b, off, cap))
}
#[inline(never)]
pub fn rec_bare(b: &[u8], off: usize, cap: usize) -> Seen<Spot> {
    drain(<ReadIterator<Bare> as TIterator>::new(b, off).map(|(o, r)| spot(b, o, r.0)), cap)
}
fn rec_some_as<const F: usize>(b: &[u8], off: usize, k: usize) -> (Vec<Spot>, usize) {
    let (mut v, mut end) = (vec![], off);
    for (o, r) in ReadFallbackIterator::<Rec<F>>::new(b, off).take(k) {
        end = o + r.len();
        v.push(spot(b, o, r.0));
    }
    (v, end)
}
#[inline(never)]
pub fn rec_some(f: usize, b: &[u8], off: usize, k: usize) -> (Vec<Spot>, usize) {
    as_format!(f, rec_some_as(b, off, k))
}
fn rec_parts_as<const F: usize>(b: &[u8], num: usize, buffer: bool) -> Vec<(usize, usize)> {
    if !buffer {
        return partition_from::<Rec<F>>(b, num).iter().map(|s| spot(b, 0, s).1).collect();
    }
    let buf = DltBuffer::Read(b.to_vec());
    let v = buf.partition::<Rec<F>>(num).iter().map(|s| spot(buf.as_slice(), 0, s).1).collect();
    v
}
#[inline(never)]
pub fn rec_parts(f: usize, b: &[u8], num: usize, buffer: bool) -> Vec<(usize, usize)> {
    as_format!(f, rec_parts_as(b, num, buffer))
}
fn rec_contained_as<const F: usize>(b: &[u8], range: (usize, usize)) -> Option<Spot> {
    ContainedBySearch::<Rec<F>>::new().contained_by(b, range).map(|(o, r)| spot(b, o, r.0))
}
#[inline(never)]
pub fn rec_contained(f: usize, b: &[u8], range: (usize, usize)) -> Option<Spot> {
    as_format!(f, rec_contained_as(b, range))
}
fn rec_grep_as<const F: usize>(b: &[u8], pat: &str, off: usize, cap: usize) -> Seen<Spot> {
    spots(b, GrepIterator::<Rec<F>>::new(pat, b, off), cap)
}
#[inline(never)]
pub fn rec_grep(f: usize, b: &[u8], pat: &str, off: usize, cap: usize) -> Seen<Spot> {
    as_format!(f, rec_grep_as(b, pat, off, cap))
}
fn rec_capture_as<const F: usize>(b: &[u8], pat: &str, off: usize, cap: usize) -> Seen<Spot> {
    drain(RegExMatcherIterator::<Rec<F>>::new(pat, b, off), cap)
}
#[inline(never)]
pub fn rec_capture(f: usize, b: &[u8], pat: &str, off: usize, cap: usize) -> Seen<Spot> {
    as_format!(f, rec_capture_as(b, pat, off, cap))
}
