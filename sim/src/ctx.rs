//! What a run needs and what it leaves behind.
use crate::case::Case;
use crate::rng::{hash_bytes, mix64};
use crate::rt::{self, Machine, Plan};
use crate::world::Store;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct V {
    pub class: String,
    pub msg: String,
}
pub type R<T> = Result<T, V>;
pub fn fail<T>(class: &str, msg: String) -> R<T> {
    Err(V { class: class.into(), msg })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub lib_calls: u64,
    pub processes: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub nontrivial: u64,
    pub sigs: HashSet<u64>,
    pub schedules: HashSet<u64>,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub rechecked: u64,
    pub mismatched: u64,
    pub digest: u64,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.evals += o.evals;
        self.lib_calls += o.lib_calls;
        self.processes += o.processes;
        self.steps += o.steps;
        self.sim_us += o.sim_us;
        self.nontrivial += o.nontrivial;
        self.sigs.extend(&o.sigs);
        self.schedules.extend(&o.schedules);
        self.distinct.extend(&o.distinct);
        for (k, v) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.samples.extend(o.samples.iter().cloned());
        self.rechecked += o.rechecked;
        self.mismatched += o.mismatched;
        self.digest = self.digest.wrapping_add(o.digest);
    }
    pub fn write(&self) -> String {
        let mut s = String::new();
        s += &format!(
            "n {} {} {} {} {} {} {} {} {}\n",
            self.evals, self.lib_calls, self.processes, self.steps, self.sim_us, self.nontrivial, self.rechecked, self.mismatched, self.digest
        );
        for x in &self.sigs {
            s += &format!("s {}\n", x);
        }
        for x in &self.schedules {
            s += &format!("i {}\n", x);
        }
        for x in &self.distinct {
            s += &format!("d {}\n", x);
        }
        for (k, v) in &self.counts {
            s += &format!("c {} {}\n", k, v);
        }
        for (k, v) in &self.probes {
            s += &format!("p {} {}\n", k, v);
        }
        for x in &self.samples {
            s += &format!("x {}\n", x.replace('\n', "\\n"));
        }
        s
    }
    pub fn read(t: &str) -> Stats {
        let mut s = Stats::default();
        for l in t.lines() {
            let (k, rest) = l.split_at(1);
            let rest = rest.trim_start();
            match k {
                "n" => {
                    let v: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                    (s.evals, s.lib_calls, s.processes, s.steps, s.sim_us) = (v[0], v[1], v[2], v[3], v[4]);
                    (s.nontrivial, s.rechecked, s.mismatched, s.digest) = (v[5], v[6], v[7], v[8]);
                }
                "s" => {
                    s.sigs.insert(rest.parse().unwrap_or(0));
                }
                "i" => {
                    s.schedules.insert(rest.parse().unwrap_or(0));
                }
                "d" => {
                    s.distinct.insert(rest.parse().unwrap_or(0));
                }
                "c" | "p" => {
                    let (a, b) = rest.rsplit_once(' ').unwrap_or(("", "0"));
                    let m = if k == "c" { &mut s.counts } else { &mut s.probes };
                    m.insert(a.into(), b.parse().unwrap_or(0));
                }
                "x" => s.samples.push(rest.replace("\\n", "\n")),
                _ => {}
            }
        }
        s
    }
}

pub struct Ctx {
    pub bindir: String,
    pub machine: Machine,
    pub st: Stats,
    /// accumulates everything observable of the current case
    pub digest: u64,
    pub nontrivial: bool,
    pub sig: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub base: BTreeMap<u64, (u64, u64, u64)>,
}
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
pub static mut CUR_OP: *mut [u8; 64] = std::ptr::null_mut();

impl Ctx {
    pub fn new(bindir: &str, thorough: bool) -> Ctx {
        Ctx {
            bindir: bindir.into(),
            machine: Machine::new(bindir),
            st: Stats::default(),
            digest: 0,
            nontrivial: false,
            sig: 0,
            thorough,
            verbose: false,
            base: BTreeMap::new(),
        }
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.st.probes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn probe_if(&mut self, c: bool, k: &'static str) {
        if c {
            self.probe(k);
        } else {
            self.st.probes.entry(k.into()).or_insert(0);
        }
    }
    pub fn see(&mut self, x: u64) {
        self.digest = mix64(self.digest ^ x).wrapping_add(0x51ed);
    }
    pub fn see_bytes(&mut self, b: &[u8]) {
        self.digest = hash_bytes(self.digest, b);
    }
    fn op(name: &str) {
        unsafe {
            let p = std::ptr::addr_of!(CUR_OP).read();
            if !p.is_null() {
                let mut x = [0u8; 64];
                let n = name.len().min(63);
                x[..n].copy_from_slice(&name.as_bytes()[..n]);
                std::ptr::write_volatile(p, x);
            }
        }
    }
    /// one call into the libraries; it must come back normally within `limit` steps
    pub fn lib<T>(&mut self, name: &str, limit: u64, f: impl FnOnce() -> T) -> R<T> {
        let mut plan = Plan::of(&Case::default(), limit);
        self.lib_io(name, &mut plan, &[], 0, f)
    }
    pub fn lib_io<T>(&mut self, name: &str, plan: &mut Plan, file: &[u8], visible: usize, f: impl FnOnce() -> T) -> R<T> {
        Self::op(name);
        self.st.lib_calls += 1;
        let r = catch_unwind(AssertUnwindSafe(|| rt::inproc(plan, file, visible, f)));
        self.st.steps += plan.steps;
        self.st.sim_us += plan.vclock_ns / 1000;
        plan.add_fired(&mut self.st.counts);
        Self::op("");
        match r {
            Ok(x) => Ok(x),
            Err(_) => {
                let m = LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default();
                fail(&format!("panic:{}", name), format!("{} panicked: {}", name, m))
            }
        }
    }
    pub fn cli(&mut self, bin: &str, args: &[&str], plan: Box<Plan>, file: &Store, stdin: &[u8], out_cap: usize) -> rt::Run {
        Self::op(bin);
        let r = self.machine.run(bin, args, plan, file, stdin, out_cap, self.verbose);
        self.st.processes += 1;
        self.st.steps += r.plan.steps;
        self.st.sim_us += r.plan.vclock_ns / 1000;
        r.plan.add_fired(&mut self.st.counts);
        self.sig = mix64(self.sig ^ r.cov_sig);
        self.see(r.digest());
        if self.verbose {
            eprintln!("--- {} {}", bin, args.join(" "));
            eprint!("{}", r.trace);
            eprintln!("--- stdout\n{}--- stderr\n{}---", String::from_utf8_lossy(&r.stdout), String::from_utf8_lossy(&r.stderr));
            eprintln!("exit {:?} signal {:?} steps {} reason {}", r.exit, r.signal, r.plan.steps, r.plan.reason);
        }
        r
    }
}
/// the step allowance for one operation on a log of n bytes
pub fn limit(n: usize) -> u64 {
    4_000_000 + 6_000 * n as u64
}
