//! Orchestrator: seeded search over simulated runs, minimisation, replay, evidence.
mod case;
mod ctx;
mod model;
mod props;
mod rng;
mod rt;
mod world;

use case::Case;
use ctx::{Ctx, Stats, CUR_OP, LAST_PANIC};
use props::{Prop, PROPS};
use rng::{hash_bytes, Rng};
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

/// Searching code treats unaligned ends of a buffer differently: the same alignment makes the same steps.
struct Aligned;
unsafe impl std::alloc::GlobalAlloc for Aligned {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l.align_to(64).unwrap())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l.align_to(64).unwrap())
    }
}
#[global_allocator]
static ALLOC: Aligned = Aligned;

const SHARDS: usize = 8;
/// consecutive cases that one shard takes
const BLOCK: u64 = 8;

struct Args {
    cmd: String,
    what: String,
    bindir: String,
    tier: String,
    seed: u64,
    out: String,
    replays: String,
    n: u64,
    secs: u64,
    trace: bool,
}
fn die(msg: &str) -> ! {
    eprintln!("error: {}", msg);
    std::process::exit(2)
}
fn args() -> Args {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut a = Args {
        cmd: v.get(0).cloned().unwrap_or_default(),
        what: v.get(1).cloned().unwrap_or_default(),
        bindir: ".".into(),
        tier: "quick".into(),
        seed: 1,
        out: String::new(),
        replays: ".".into(),
        n: 0,
        secs: 0,
        trace: false,
    };
    let mut i = 2;
    while i < v.len() {
        let val = || v.get(i + 1).cloned().unwrap_or_else(|| die("missing value"));
        match v[i].as_str() {
            "--bindir" => a.bindir = val(),
            "--tier" => a.tier = val(),
            "--seed" => a.seed = val().parse().unwrap_or(1),
            "--out" => a.out = val(),
            "--replays" => a.replays = val(),
            "--n" => a.n = val().parse().unwrap_or(0),
            "--secs" => a.secs = val().parse().unwrap_or(0),
            "--trace" => {
                a.trace = true;
                i += 1;
                continue;
            }
            x => die(&format!("unknown argument {}", x)),
        }
        i += 2;
    }
    a
}
fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| die(&format!("no property {}", id)))
}
fn generate(p: &Prop, seed: u64, index: u64, x: &mut Ctx) -> Case {
    let mut c = Case::new(p.id, seed, index);
    let id = p.id.bytes().fold(0u64, |h, b| h * 256 + b as u64);
    let mut r = Rng::new(&[seed, id, index]);
    (p.gen)(&mut r, &mut c, x);
    c
}
fn case_hash(c: &Case) -> u64 {
    let mut c = c.clone();
    (c.index, c.seed) = (0, 0);
    hash_bytes(0, c.write("", "").as_bytes())
}
/// Clears the stack of a reused thread: optimised code may branch on slots it does not care about.
#[inline(never)]
fn scrub() {
    std::hint::black_box(&mut [0u8; 256 << 10]);
}
/// one simulated run
fn run_case(p: &Prop, c: &Case, x: &mut Ctx) -> Result<(), ctx::V> {
    x.digest = 0;
    x.sig = 0;
    x.nontrivial = false;
    rt::cov().fill(0);
    // A thread of its own: hash maps are seeded per thread, and their seeds count up. Both come from the simulator.
    struct Shuttle<T>(T);
    unsafe impl<T> Send for Shuttle<T> {}
    let arg = Shuttle((p, c, &mut *x));
    rt::seed(c.seed);
    let large = c.get("hole") > 1 << 30 || c.get("ballast") > 0;
    if large {
        room(14);
    }
    let r = std::thread::scope(|s| {
        let body = move || {
            let a = arg;
            let (p, c, x) = a.0;
            scrub();
            Shuttle(catch_unwind(AssertUnwindSafe(|| (p.run)(c, x))))
        };
        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, body).expect("thread").join()
    });
    if large {
        room(6);
    }
    let r = match r.expect("case thread").0 {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    x.sig ^= rt::cov_signature(rt::cov());
    x.see(x.sig);
    r
}

// ------------------------------------------------------------- shared state
#[repr(C)]
struct Slot {
    cur: AtomicU64,
    op: [u8; 64],
}
#[repr(C)]
struct Shared {
    worst: AtomicU64,
    slots: [Slot; SHARDS + 1],
}
fn shared() -> &'static Shared {
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED);
        let s = &*(m as *const Shared);
        s.worst.store(u64::MAX, SeqCst);
        s
    }
}
fn room(gib: u64) {
    let l = libc::rlimit { rlim_cur: gib << 30, rlim_max: 14 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}
fn arm(s: &Shared, slot: usize) {
    unsafe {
        CUR_OP = s.slots[slot].op.as_ptr() as *mut [u8; 64];
        room(6);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
fn op_name(s: &Shared, slot: usize) -> String {
    let o = unsafe { std::ptr::read_volatile(&s.slots[slot].op) };
    String::from_utf8_lossy(&o).trim_end_matches('\0').to_string()
}
/// the class of a run that ended its process
fn death(s: &Shared, slot: usize, status: i32) -> Option<(String, String)> {
    let op = op_name(s, slot);
    if libc::WIFEXITED(status) {
        match libc::WEXITSTATUS(status) {
            97 => Some((format!("hang:{}", op), format!("{} does not end within its step allowance", op))),
            _ => None,
        }
    } else {
        match libc::WTERMSIG(status) {
            libc::SIGALRM => Some((format!("hang:{}", op), format!("{} does not end (watchdog)", op))),
            libc::SIGKILL => None,
            sig => Some((format!("crash:{}", op), format!("{} dies of signal {}", op, sig))),
        }
    }
}
fn fork() -> i32 {
    let p = unsafe { libc::fork() };
    if p < 0 {
        die("fork");
    }
    p
}
fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = format!("{}{}", m.unwrap_or_default(), at);
        }
    }));
}
fn last_panic() -> String {
    LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default()
}

/// The runs that the worker did before this one, as far as the case asks for them: they matter if the code
/// under test keeps state from one operation to the next.
fn before(c: &Case) -> Vec<u64> {
    let n = c.get("after").max(0) as usize;
    let slot = c.index / BLOCK % SHARDS as u64;
    let mut v: Vec<u64> = (0..c.index).rev().filter(|i| i / BLOCK % SHARDS as u64 == slot).take(n).collect();
    v.reverse();
    v
}
/// runs a case in a child process; Some((class, message)) if it violates
fn eval(p: &Prop, c: &Case, a: &Args, s: &'static Shared) -> Option<(String, String)> {
    let mut fds = [0i32; 2];
    unsafe { assert_eq!(libc::pipe(fds.as_mut_ptr()), 0) };
    let pid = fork();
    if pid == 0 {
        arm(s, SHARDS);
        unsafe { libc::alarm(if c.get("after") > 0 { 300 } else { 120 }) };
        let mut x = Ctx::new(&a.bindir, a.tier == "thorough");
        for i in before(c) {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let k = generate(p, c.seed, i, &mut x);
                for _ in 0..1 + (i % 61 == 7) as u32 {
                    let _ = run_case(p, &k, &mut x);
                }
            }));
        }
        x.verbose = a.trace;
        let r = catch_unwind(AssertUnwindSafe(|| run_case(p, c, &mut x)));
        let text = match r {
            Ok(Ok(())) => String::new(),
            Ok(Err(v)) => format!("{}\n{}", v.class, v.msg),
            Err(_) => {
                eprintln!("harness panic: {}", last_panic());
                unsafe { libc::_exit(101) }
            }
        };
        let t = text.as_bytes();
        let t = &t[..t.len().min(60000)];
        unsafe {
            libc::write(fds[1], t.as_ptr() as *const _, t.len());
            libc::_exit(0)
        }
    }
    unsafe { libc::close(fds[1]) };
    let mut buf = vec![];
    {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        let mut f = unsafe { std::fs::File::from_raw_fd(fds[0]) };
        let _ = f.read_to_end(&mut buf);
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if let Some(d) = death(s, SHARDS, st) {
        return Some(d);
    }
    let t = String::from_utf8_lossy(&buf).into_owned();
    let (class, msg) = t.split_once('\n')?;
    Some((class.into(), msg.into()))
}

fn shard(p: &Prop, a: &Args, s: &'static Shared, slot: usize, first: u64, count: u64, dir: &str, run: usize, end: Instant) {
    arm(s, slot);
    let mut x = Ctx::new(&a.bindir, a.tier == "thorough");
    let mut idx = first;
    let slow: u64 = std::env::var("SIM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    while idx < count {
        if (idx / BLOCK) as usize % SHARDS != slot {
            idx += BLOCK - idx % BLOCK;
            continue;
        }
        if idx > s.worst.load(SeqCst) || Instant::now() > end {
            break;
        }
        s.slots[slot].cur.store(idx, SeqCst);
        unsafe { libc::alarm(180) };
        let began = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let c = generate(p, a.seed, idx, &mut x);
            let r = run_case(p, &c, &mut x);
            (c, r)
        }));
        let (c, r) = match r {
            Ok(r) => r,
            Err(_) => {
                eprintln!("harness panic in {} case {}: {}", p.id, idx, last_panic());
                unsafe { libc::_exit(101) }
            }
        };
        if slow > 0 && began.elapsed().as_secs() >= slow {
            eprintln!("note: case {} of {} took {:?}", idx, p.id, began.elapsed());
        }
        x.st.evals += 1;
        x.st.sigs.insert(x.sig);
        if x.nontrivial {
            x.st.nontrivial += 1;
            x.st.distinct.insert(case_hash(&c));
            if x.st.samples.is_empty() && slot < 3 {
                x.st.samples.push(c.write("", "").chars().take(1200).collect());
            }
        }
        x.st.digest = x.st.digest.wrapping_add(rng::mix64(x.digest ^ idx));
        if let Err(v) = r {
            s.worst.fetch_min(idx, SeqCst);
            let _ = std::fs::write(format!("{}/v-{}", dir, idx), format!("{}\n{}", v.class, v.msg));
            break;
        }
        // the same case must run the same way again
        if idx % 61 == 7 {
            let (d, sv) = (x.digest, x.st.clone());
            let cov1 = rt::cov().to_vec();
            let _ = run_case(p, &c, &mut x);
            let same = d == x.digest;
            x.st = sv;
            x.st.rechecked += 1;
            if !same {
                if std::env::var_os("SIM_DIFF").is_some() {
                    let a = cov1;
                    let b = rt::cov();
                    eprintln!("{}", (0..a.len()).filter(|&i| a[i] != b[i]).map(|i| format!("{}:{}/{}", i, a[i], b[i])).collect::<Vec<_>>().join(" "));
                }
                x.st.mismatched += 1;
                eprintln!("note: case {} of {} did not repeat exactly", idx, p.id);
            }
        }
        idx += 1;
    }
    unsafe { libc::alarm(0) };
    let _ = std::fs::write(format!("{}/s-{}-{}", dir, slot, run), x.st.write());
    unsafe { libc::_exit(0) }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let p = prop(&a.what);
    let thorough = a.tier == "thorough";
    let count = if a.n > 0 { a.n } else if thorough { p.thorough } else { p.quick };
    let secs = if a.secs > 0 { a.secs } else if thorough { 2400 } else { 240 };
    let end = t0 + std::time::Duration::from_secs(secs);
    let dir = format!("{}/sim-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let s = shared();
    let mut pids: BTreeMap<i32, (usize, usize)> = BTreeMap::new();
    let mut harness_error = false;
    let start = |slot: usize, first: u64, run: usize| -> i32 {
        let pid = fork();
        if pid == 0 {
            shard(p, a, s, slot, first, count, &dir, run, end);
        }
        pid
    };
    for slot in 0..SHARDS {
        pids.insert(start(slot, 0, 0), (slot, 0));
    }
    while !pids.is_empty() {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        let Some((slot, run)) = pids.remove(&pid) else { continue };
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            continue;
        }
        let idx = s.slots[slot].cur.load(SeqCst);
        match death(s, slot, st) {
            Some((class, msg)) => {
                s.worst.fetch_min(idx, SeqCst);
                let _ = std::fs::write(format!("{}/v-{}", dir, idx), format!("{}\n{}", class, msg));
                pids.insert(start(slot, idx + 1, run + 1), (slot, run + 1));
            }
            None => {
                eprintln!("error: shard {} ended with status {:#x} in case {}", slot, st, idx);
                harness_error = true;
            }
        }
    }
    let mut st = Stats::default();
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|f| f.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        if f.file_name().map_or(false, |n| n.to_string_lossy().starts_with("s-")) {
            st.merge(&Stats::read(&std::fs::read_to_string(&f).unwrap_or_default()));
        }
    }
    let worst = s.worst.load(SeqCst);
    let found = (worst != u64::MAX).then(|| {
        let t = std::fs::read_to_string(format!("{}/v-{}", dir, worst)).unwrap_or_default();
        let (c, m) = t.split_once('\n').unwrap_or(("", ""));
        (c.to_string(), m.to_string())
    });
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    let mut replay = String::new();
    if let Some((class, msg)) = &found {
        replay = report(p, a, s, worst, class, msg);
    }
    let wall = t0.elapsed().as_secs_f64();
    if !a.out.is_empty() {
        write_evidence(p, a, &st, count, search_s, wall, found.is_some());
    }
    println!(
        "{} {} seed {}: {} runs ({} distinct non-trivial, {} behaviours), {} processes, {:.1} s, digest {:016x}",
        p.id, a.tier, a.seed, st.evals, st.distinct.len(), st.sigs.len(), st.processes, wall, st.digest
    );
    if found.is_some() {
        println!("VIOLATION property={} replay={}", p.id, replay);
        return 1;
    }
    if harness_error {
        return 2;
    }
    if st.mismatched > 0 {
        println!("note: {} of {} repeated runs differed", st.mismatched, st.rechecked);
    }
    0
}
/// minimises the violation, writes the replay file, and makes sure it reproduces
fn report(p: &Prop, a: &Args, s: &'static Shared, index: u64, class: &str, msg: &str) -> String {
    let mut x = Ctx::new(&a.bindir, a.tier == "thorough");
    let c = generate(p, a.seed, index, &mut x);
    drop(x);
    let t0 = Instant::now();
    let alone = eval(p, &c, a, s);
    let (min, used) = match &alone {
        Some(v) if v.0 == class => case::minimise(&c, 3000, |k| {
            t0.elapsed().as_secs() < 60 && eval(p, k, a, s).map_or(false, |v| v.0 == class)
        }),
        _ => (c.clone(), 0),
    };
    let (mut best, mut what) = (min, alone.unwrap_or((class.into(), msg.into())));
    match eval(p, &best, a, s) {
        Some(v) if v.0 == class => what = v,
        _ => best = c.clone(),
    }
    println!("{}: case {} of seed {} violates the property: {}", p.id, index, a.seed, msg.lines().next().unwrap_or(""));
    println!("  minimised in {} runs from {} to {} events: [{}] {}", used, c.ev.len(), best.ev.len(), what.0, what.1);
    let _ = std::fs::create_dir_all(&a.replays);
    let path = format!("{}/{}-seed{}-case{}.replay", a.replays, p.id, a.seed, index);
    let write = |c: &Case| {
        let _ = std::fs::write(&path, c.write(class, &what.1));
    };
    let again = || {
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", &path, "--bindir", &a.bindir, "--tier", &a.tier])
            .output();
        o.map_or(false, |o| o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("[{}]", class)))
    };
    write(&best);
    if !again() {
        write(&c);
        if !again() {
            // state left behind by earlier runs: repeat as many of them as it takes
            let mut k = c.clone();
            let mut n = 1;
            k.set("after", i64::MAX);
            let all = before(&k).len() as i64;
            loop {
                k.set("after", n.min(all));
                if eval(p, &k, a, s).map_or(false, |v| v.0 == class) || n >= all || t0.elapsed().as_secs() > 200 {
                    break;
                }
                n *= 2;
            }
            println!("  reproduced after the {} runs before it in the same process", k.get("after"));
            write(&k);
            if !again() {
                println!("  warning: the replay did not reproduce the violation");
            }
        }
    }
    println!("  to repeat: tools/replay.sh {}", path);
    path
}
fn write_evidence(p: &Prop, a: &Args, st: &Stats, planned: u64, search_s: f64, wall: f64, bad: bool) {
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let samples: Vec<String> = st.samples.iter().take(3).map(|s| json_str(s)).collect();
    let cli = ["C01", "C02", "C07", "C11", "C17", "C18"].contains(&p.id);
    let real = match p.id {
        "C01" | "C02" => "the dd_dlt program with rapiddlt, Rust std (stdio, buffering) and the process's exit path",
        "C17" | "C18" => "the dd_dlt and ripdlt programs with all their libraries and the process's start and exit path",
        "C07" => "the ripdlt program with matchit, rapiddlt, rayon, crossbeam, Rust std threads and stdio; the partitioning library",
        "C11" => "the ripdlt program with matchit, rapiddlt, memmap, regex, memchr, itertools, Rust std files and stdio",
        "C08" => "matchit and rapiddlt in process, and the ripdlt program",
        _ => "matchit and rapiddlt with regex, memchr, memmap, zerocopy and Rust std, in process",
    };
    let stub = "operating system: files, pipes, standard streams, clock, CPU count, randomness and thread scheduling (simrt); ECUs, network, logger and disk (world)";
    let bound = st.counts.iter().filter(|(k, _)| !k.starts_with("net_")).count();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"wall_s\": {:.2},\n \"violations\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_planned\": {},\n  \"runs_per_hour\": {},\n  \"seeds\": \"every run has its own seed, derived from (seed, property, index): seeds per hour are runs per hour\",\n  \"simulated_time_s\": {:.1},\n  \"simulated_steps\": {},\n  \"library_operations\": {},\n  \"simulated_processes\": {},\n  \"faults_fired\": {},\n  \"fault_kinds_fired\": {},\n  \"distinct_behaviours\": {},\n  \"behaviour_measure\": \"distinct sets of executed control-flow edges of the code under test with bucketed hit counts\",\n  \"distinct_schedules\": {},\n  \"schedule_measure\": {},\n  \"probes\": {},\n  \"repeated_runs\": {},\n  \"repeated_runs_that_differed\": {},\n  \"history_digest\": \"{:016x}\",\n  \"real_components\": {},\n  \"stub_components\": {}\n }},\n \"assumptions\": [{}]\n}}\n",
        json_str(p.id),
        json_str(&a.tier),
        a.seed,
        wall,
        bad as u32,
        st.evals,
        st.distinct.len(),
        json_str(&format!("each run is generated from (seed, property, index); it counts as non-trivial if it has {}; two runs are distinct if their histories (parameters, events, faults, schedule) differ", p.rule)),
        samples.join(", "),
        planned,
        per_h(st.evals),
        st.sim_us as f64 / 1e6,
        st.steps,
        st.lib_calls,
        st.processes,
        json_map(&st.counts),
        bound,
        st.sigs.len(),
        st.schedules.len(),
        json_str(if cli { "distinct hashes of the sequence of thread switches, wake-ups, preemptions and I/O calls" } else { "distinct arrival orders (C10, C13); other properties have no schedule" }),
        json_map(&st.probes),
        st.rechecked,
        st.mismatched,
        st.digest,
        json_str(real),
        json_str(stub),
        json_str("the simulated operating system behaves as simrt/simrt.c describes; memory-ordering effects weaker than sequential consistency are not simulated")
    );
    if let Some(d) = std::path::Path::new(&a.out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&a.out, j).is_err() {
        eprintln!("warning: cannot write {}", a.out);
    }
}
fn replay(a: &Args) -> i32 {
    let t = std::fs::read_to_string(&a.what).unwrap_or_else(|_| die("cannot read the replay file"));
    let Some((c, class)) = Case::read(&t) else { die("not a replay file") };
    let p = prop(&c.prop);
    let s = shared();
    match eval(p, &c, a, s) {
        Some((k, m)) => {
            println!("[{}] {}", k, m);
            if k != class {
                println!("(the file was recorded for [{}])", class);
            }
            println!("VIOLATION property={} replay={}", p.id, a.what);
            1
        }
        None => {
            println!("{}: no violation", p.id);
            0
        }
    }
}
fn show(a: &Args) -> i32 {
    let p = prop(&a.what);
    let mut x = Ctx::new(&a.bindir, a.tier == "thorough");
    let c = generate(p, a.seed, a.n, &mut x);
    print!("{}", c.write("", ""));
    0
}
fn main() {
    let a = args();
    // same addresses in every run
    if std::env::var_os("SIM_FIXED").is_none() {
        unsafe { libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong) };
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("SIM_FIXED", "1").exec();
        die(&format!("cannot restart: {}", e));
    }
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
    }
    quiet_panics();
    let code = match a.cmd.as_str() {
        "check" => check(&a),
        "replay" => replay(&a),
        "show" => show(&a),
        _ => die("usage: sim check PROPERTY | replay FILE | show PROPERTY"),
    };
    std::process::exit(code)
}
