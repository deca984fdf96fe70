//! The runtime below the code under test (simrt/simrt.c): plans, in-process runs and whole-process runs.
use crate::case::Case;
use crate::world::Store;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

pub const OP_OPEN: i64 = 0;
pub const OP_READ: i64 = 1;
pub const OP_STAT: i64 = 2;
pub const OP_MMAP: i64 = 3;
pub const OP_STDIN: i64 = 4;
pub const OP_STDOUT: i64 = 5;
pub const K_SHORT: i64 = 1;
pub const K_EINTR: i64 = 2;
pub const K_EIO: i64 = 3;
pub const K_ENOSPC: i64 = 4;
pub const K_EPIPE: i64 = 5;
pub const K_ENOENT: i64 = 6;
pub const K_EACCES: i64 = 7;
pub const K_EMFILE: i64 = 8;
pub const K_ENOMEM: i64 = 9;
pub const K_ENODEV: i64 = 10;
pub const K_STALL: i64 = 11;
pub const K_WRONGHINT: i64 = 13;
pub const OP_THREAD: i64 = 7;
pub const OP_ALLOC: i64 = 8;
pub const OP_SPAWN: i64 = 9;
pub const OPS: [&str; 16] = ["open", "read", "stat", "mmap", "stdin", "stdout", "seek", "thread", "alloc", "spawn", "", "", "", "", "", ""];
pub const KINDS: [&str; 16] = [
    "", "short", "EINTR", "EIO", "ENOSPC", "EPIPE", "ENOENT", "EACCES", "EMFILE", "ENOMEM", "ENODEV", "stall", "EFBIG",
    "wrong_size_hint", "append_during_load", "preempt",
];

const MAGIC: u32 = 0x44535431;
const MAXF: usize = 48;
const MAXCH: usize = 16;
const MAXGROW: usize = 32;
const MAXDEC: usize = 8192;
const MAXPRE: usize = 64;
const COV: usize = 65536;

#[repr(C)]
#[derive(Clone, Copy)]
struct Fault {
    op: u32,
    kind: u32,
    nth: u32,
    pad: u32,
    arg: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Plan {
    magic: u32,
    cli: u32,
    ncpu: u32,
    trace_on: u32,
    seed: u64,
    step_limit: u64,
    pub file_len: u64,
    file_cap: u64,
    hole_at: u64,
    hole_len: u64,
    block_len: u64,
    off_block: u64,
    stdin_len: u64,
    read_err_at: i64,
    stdin_err_at: i64,
    stdout_err_at: i64,
    read_errno: u32,
    stdin_errno: u32,
    stdout_errno: u32,
    nfaults: u32,
    nread_ch: u32,
    nstdin_ch: u32,
    nstdout_ch: u32,
    ngrow: u32,
    read_ch: [u32; MAXCH],
    stdin_ch: [u32; MAXCH],
    stdout_ch: [u32; MAXCH],
    grow: [(u64, u64); MAXGROW],
    faults: [Fault; MAXF],
    ndec: u32,
    npre: u32,
    pre: [u64; MAXPRE],
    dec: [u8; MAXDEC],
    pub mem_limit: u64,
    off_cov: u64,
    off_trace: u64,
    off_stdout: u64,
    off_stderr: u64,
    off_stdin: u64,
    off_file: u64,
    cap_trace: u64,
    cap_stdout: u64,
    cap_stderr: u64,
    pub done: u32,
    pub reason: u32,
    pub steps: u64,
    pub switches: u64,
    pub preempted: u64,
    pub decisions: u64,
    pub vclock_ns: u64,
    pub nthreads: u64,
    stdout_len: u64,
    stderr_len: u64,
    trace_len: u64,
    pub trace_hash: u64,
    pub stdin_taken: u64,
    pub multi_from: u64,
    pub multi_to: u64,
    heap: i64,
    pub heap_peak: i64,
    pub nops: [u64; 16],
    pub fired: [[u64; 16]; 16],
}
extern "C" {
    fn sim_begin(p: *mut Plan, file: *const u8);
    fn sim_end();
    fn sim_cov() -> *mut u8;
    fn sim_sizeof() -> u64;
    fn sim_seed(s: u64);
}
/// the randomness of this process from here on
pub fn seed(s: u64) {
    unsafe { sim_seed(s) }
}
impl Plan {
    /// the fault and schedule events of a case
    pub fn of(c: &Case, step_limit: u64) -> Box<Plan> {
        let mut p: Box<Plan> = unsafe { Box::new(std::mem::zeroed()) };
        p.magic = MAGIC;
        p.ncpu = c.get("ncpu").clamp(1, 256) as u32;
        p.seed = c.seed;
        p.step_limit = step_limit;
        p.read_err_at = -1;
        p.stdin_err_at = -1;
        p.stdout_err_at = -1;
        for e in &c.ev {
            let n = |i: usize| e.get(i).max(0);
            match e.k.as_str() {
                "chunk" => {
                    let s = n(1).min(1 << 30) as u32;
                    let (ch, k) = match e.get(0) {
                        OP_READ => (&mut p.read_ch, &mut p.nread_ch),
                        OP_STDIN => (&mut p.stdin_ch, &mut p.nstdin_ch),
                        _ => (&mut p.stdout_ch, &mut p.nstdout_ch),
                    };
                    if (*k as usize) < MAXCH {
                        ch[*k as usize] = s;
                        *k += 1;
                    }
                }
                "fault" => {
                    let k = p.nfaults as usize;
                    if k < MAXF {
                        p.faults[k] =
                            Fault { op: n(0) as u32 & 15, kind: n(1) as u32 & 15, nth: n(2) as u32, pad: 0, arg: n(3) as u64 };
                        p.nfaults += 1;
                    }
                }
                "err" => {
                    let no = match e.get(2) {
                        K_EIO if e.get(3) > 0 && e.get(3) < 4096 => e.get(3) as i32,
                        K_ENOSPC => libc::ENOSPC,
                        K_EPIPE => libc::EPIPE,
                        _ => libc::EIO,
                    } as u32;
                    match e.get(0) {
                        OP_READ => (p.read_err_at, p.read_errno) = (n(1), no),
                        OP_STDIN => (p.stdin_err_at, p.stdin_errno) = (n(1), no),
                        _ => (p.stdout_err_at, p.stdout_errno) = (n(1), no),
                    }
                }
                "grow" => {
                    let k = p.ngrow as usize;
                    if k < MAXGROW {
                        p.grow[k] = (n(0) as u64, n(1) as u64);
                        p.ngrow += 1;
                    }
                }
                "pre" => {
                    let k = p.npre as usize;
                    if k < MAXPRE {
                        p.pre[k] = n(0) as u64;
                        p.npre += 1;
                    }
                }
                "dec" => {
                    for x in &e.d {
                        let k = p.ndec as usize;
                        if k < MAXDEC {
                            p.dec[k] = *x;
                            p.ndec += 1;
                        }
                    }
                }
                _ => {}
            }
        }
        let k = p.npre as usize;
        p.pre[..k].sort();
        p
    }
    pub fn hard_fired(&self, op: i64) -> bool {
        self.fired[op as usize].iter().enumerate().any(|(k, n)| *n > 0 && (3..=12).contains(&k) && k != K_STALL as usize)
    }
    /// the machine had no memory or no thread left
    pub fn starved(&self) -> bool {
        self.fired[OP_ALLOC as usize][K_ENOMEM as usize] + self.fired[OP_SPAWN as usize][K_ENOMEM as usize] > 0
    }
    pub fn add_fired(&self, m: &mut BTreeMap<String, u64>) {
        for (o, row) in self.fired.iter().enumerate() {
            for (k, n) in row.iter().enumerate() {
                if *n > 0 {
                    let name = match (o as i64, k as i64) {
                        (OP_THREAD, K_SHORT) => "spurious_wakeup".into(),
                        (OP_ALLOC, _) => "allocation_failed".into(),
                        (OP_SPAWN, _) => "thread_not_created".into(),
                        _ => format!("{}_{}", OPS[o], KINDS[k]),
                    };
                    *m.entry(name).or_insert(0) += n;
                }
            }
        }
    }
}

/// Runs `f` in this process with virtual files; the step counter keeps counting through it.
pub fn inproc<T>(plan: &mut Plan, file: &[u8], visible: usize, f: impl FnOnce() -> T) -> T {
    plan.file_cap = file.len() as u64;
    plan.file_len = visible as u64;
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            unsafe { sim_end() }
        }
    }
    unsafe { sim_begin(plan, if file.is_empty() { std::ptr::null() } else { file.as_ptr() }) };
    let _g = Guard;
    f()
}
pub fn cov() -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(sim_cov(), COV) }
}
pub fn cov_signature(c: &[u8]) -> u64 {
    let mut h = 0u64;
    for (i, w) in c.chunks(8).enumerate() {
        let x = u64::from_le_bytes(w.try_into().unwrap());
        if x != 0 {
            for (j, b) in w.iter().enumerate() {
                if *b != 0 {
                    let bucket = 8 - b.leading_zeros() as u64;
                    h = crate::rng::mix64(h ^ ((i * 8 + j) as u64) << 8 ^ bucket).wrapping_add(0x9e37);
                }
            }
        }
    }
    h
}

// ------------------------------------------------------------ whole processes
pub struct Machine {
    fd: i32,
    map: *mut u8,
    size: usize,
    dir: String,
    /// what the next process finds in its environment
    pub env: Vec<(String, String)>,
}
#[derive(Clone)]
pub struct Run {
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub exit: Option<i32>,
    pub signal: Option<i32>,
    pub plan: Box<Plan>,
    pub cov_sig: u64,
    pub trace: String,
}
impl Run {
    /// how the process ended, if not by itself
    pub fn stopped(&self) -> Option<String> {
        if self.exit == Some(97) {
            return Some(match self.plan.reason {
                1 => "does not end (step limit)".into(),
                2 => "deadlock".into(),
                3 => "endless output".into(),
                r => format!("stopped by the simulator ({})", r),
            });
        }
        match self.signal {
            Some(14) => Some("does not end (watchdog)".into()),
            Some(s) => Some(format!("killed by signal {}", s)),
            None => None,
        }
    }
    pub fn digest(&self) -> u64 {
        let h = crate::rng::hash_bytes(self.plan.trace_hash, &self.stdout);
        let h = crate::rng::hash_bytes(h ^ self.cov_sig, &self.stderr);
        crate::rng::mix64(h ^ self.plan.steps ^ (self.exit.unwrap_or(-1) as u64) << 40)
    }
}
impl Machine {
    pub fn new(dir: &str) -> Machine {
        unsafe {
            assert_eq!(sim_sizeof(), std::mem::size_of::<Plan>() as u64, "plan layout");
        }
        let fd = unsafe { libc::memfd_create(b"sim\0".as_ptr() as *const libc::c_char, 0) };
        assert!(fd >= 0, "memfd");
        Machine { fd, map: std::ptr::null_mut(), size: 0, dir: dir.into(), env: vec![] }
    }
    fn ensure(&mut self, n: usize) {
        if n <= self.size {
            return;
        }
        unsafe {
            if !self.map.is_null() {
                libc::munmap(self.map as *mut _, self.size);
            }
            assert_eq!(libc::ftruncate(self.fd, n as i64), 0);
            let m = libc::mmap(std::ptr::null_mut(), n, 3, libc::MAP_SHARED, self.fd, 0);
            assert!(m != libc::MAP_FAILED);
            self.map = m as *mut u8;
            self.size = n;
        }
    }
    pub fn run(&mut self, bin: &str, args: &[&str], mut plan: Box<Plan>, file: &Store, stdin: &[u8], out_cap: usize, trace: bool) -> Run {
        let align = |x: usize| (x + 4095) & !4095;
        let (hat, hlen) = file.hole.unwrap_or((0, 0));
        (plan.hole_at, plan.hole_len) = (hat as u64, hlen as u64);
        let kept = file.len() - hlen;
        let ph = align(std::mem::size_of::<Plan>());
        let tcap = if trace { 16 << 20 } else { 0 };
        let o_trace = ph + COV;
        let o_out = o_trace + align(tcap);
        let o_err = o_out + align(out_cap);
        let o_in = o_err + 65536;
        let o_file = o_in + align(stdin.len());
        let block = file.block();
        let o_block = o_file + align(kept) + 4096;
        let need = o_block + align(block.len());
        self.ensure(need.max(1 << 20));
        plan.cli = 1;
        plan.trace_on = trace as u32;
        plan.file_len = file.len() as u64;
        plan.file_cap = file.len() as u64;
        plan.stdin_len = stdin.len() as u64;
        plan.off_cov = ph as u64;
        plan.off_trace = o_trace as u64;
        plan.off_stdout = o_out as u64;
        plan.off_stderr = o_err as u64;
        plan.off_stdin = o_in as u64;
        plan.off_file = o_file as u64;
        plan.off_block = o_block as u64;
        plan.block_len = block.len() as u64;
        plan.cap_trace = tcap as u64;
        plan.cap_stdout = out_cap as u64;
        plan.cap_stderr = 65536;
        let mem = unsafe { std::slice::from_raw_parts_mut(self.map, self.size) };
        mem[ph..ph + COV].fill(0);
        mem[o_in..o_in + stdin.len()].copy_from_slice(stdin);
        mem[o_block..o_block + block.len()].copy_from_slice(block);
        if hlen == 0 {
            mem[o_file..o_file + kept].copy_from_slice(file);
        } else {
            mem[o_file..o_file + hat].copy_from_slice(&file[..hat]);
            mem[o_file + hat..o_file + kept].copy_from_slice(&file[hat + hlen..]);
        }
        unsafe { std::ptr::write(self.map as *mut Plan, *plan) };
        let st = Command::new(format!("{}/{}", self.dir, bin))
            .args(args)
            .env_clear()
            .env("SIM_FD", self.fd.to_string())
            .envs(self.env.drain(..))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .expect("cannot start the program under test");
        let plan: Box<Plan> = Box::new(unsafe { std::ptr::read(self.map as *const Plan) });
        let mem = unsafe { std::slice::from_raw_parts(self.map, self.size) };
        use std::os::unix::process::ExitStatusExt;
        let r = Run {
            stdout: mem[o_out..o_out + plan.stdout_len as usize].to_vec(),
            stderr: mem[o_err..o_err + plan.stderr_len as usize].to_vec(),
            exit: st.code(),
            signal: st.signal(),
            cov_sig: cov_signature(&mem[ph..ph + COV]),
            trace: String::from_utf8_lossy(&mem[o_trace..o_trace + plan.trace_len as usize]).into(),
            plan,
        };
        // big logs are rare: give the memory back
        if self.size > 64 << 20 {
            unsafe {
                libc::munmap(self.map as *mut _, self.size);
                libc::ftruncate(self.fd, 0);
            }
            self.map = std::ptr::null_mut();
            self.size = 0;
        }
        r
    }
}
impl Drop for Machine {
    fn drop(&mut self) {
        unsafe {
            if !self.map.is_null() {
                libc::munmap(self.map as *mut _, self.size);
            }
            libc::close(self.fd);
        }
    }
}
