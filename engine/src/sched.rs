//! Process-level work sharing, native replay and result aggregation.
use crate::exec::*;
use crate::ir::Module;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> c_int;
    fn _exit(c: c_int) -> !;
    fn getpid() -> c_int;
    fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    fn kill(p: c_int, s: c_int) -> c_int;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn alarm(s: u32) -> u32;
    fn open(p: *const c_char, f: c_int, ...) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
}

#[derive(Clone, Debug)]
pub struct Job {
    pub entry: String,
    pub params: Vec<u32>,
    pub label: String,
}

pub const NCOV: usize = 1024;
#[repr(C)]
struct Shared {
    next_job: AtomicU32,
    slots: AtomicI32,
    stop: AtomicU32, // 1 = violation found, 2 = budget exhausted
    started: AtomicU32,
    finished: AtomicU32,
    covers: [AtomicU64; NCOV],
    n_viol: AtomicU32,
}

fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as *mut u8
    }
}

pub struct Opts {
    pub workers: i32,
    pub time: f64,
    pub tmp: String,
    pub max_steps: u64,
    pub samples: usize,
    pub so: String,
    pub seed: u64,
    pub dump_smt: Option<String>,
    pub keep_going: bool,
    pub verbose: bool,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub job: u32,
    pub kind: String,
    pub code: u32,
    pub msg: String,
    pub inputs: Vec<u8>,
    pub bt: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub job: u32,
    pub inputs: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub unknown: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub stats: BTreeMap<String, u64>,
    pub job_paths: Vec<u64>,
    /// which of the first 64 cover marks each job reached
    pub job_covers: Vec<u64>,
    pub job_ns: Vec<u64>,
    pub covers: BTreeMap<u32, u64>,
    pub budget: bool,
    pub jobs_done: u64,
    pub lost: u32,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b {
        let _ = write!(s, "{:02x}", c);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}

struct Worker {
    out: String,
    unknown: BTreeMap<String, u64>,
    samples: Vec<Sample>,
    seen: u64,
    per_job: BTreeMap<u32, u32>,
    st: BTreeMap<&'static str, u64>,
    rng: u64,
    base: [u64; 12],
}

impl Worker {
    fn new(seed: u64) -> Worker {
        Worker { out: String::new(), unknown: BTreeMap::new(), samples: vec![], seen: 0, per_job: BTreeMap::new(), st: BTreeMap::new(), rng: seed | 1, base: [0; 12] }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
}

fn counters(mc: &Machine) -> [u64; 12] {
    let q = &mc.s.st;
    [mc.insts, mc.forks, mc.concretized, mc.tables, q.queries, q.hits, q.z3, q.sat, q.unsat, q.unknown, q.z3_ns, q.intervals]
}
const CNAMES: [&str; 12] = ["instructions", "forks", "concretizations", "table_loads", "queries", "query_cache_hits", "solver_calls", "solver_sat", "solver_unsat", "solver_unknown", "solver_ns", "interval_refutations"];

pub fn run(module: &'static Module, jobs: &[Job], o: &Opts, cov: *mut u8) -> Outcome {
    let sh: &'static Shared = unsafe { &*(map_shared(std::mem::size_of::<Shared>()) as *const Shared) };
    let jp: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(map_shared(jobs.len() * 16 + 8) as *const AtomicU64, jobs.len() * 2) };
    let jt: &'static [AtomicU64] = unsafe { std::slice::from_raw_parts(map_shared(jobs.len() * 8 + 8) as *const AtomicU64, jobs.len()) };
    unsafe { prctl(36, 1, 0, 0, 0) }; // PR_SET_CHILD_SUBREAPER
    let t0 = Instant::now();
    let n = o.workers.max(1);
    let mut live = 0;
    sh.slots.store(n, SeqCst);
    for _ in 0..n.min(jobs.len() as i32) {
        sh.slots.fetch_sub(1, SeqCst);
        sh.started.fetch_add(1, SeqCst);
        live += 1;
        unsafe {
            if fork() == 0 {
                let mut mc = Machine::new(module, cov);
                mc.max_steps = o.max_steps;
                if let Some(d) = &o.dump_smt {
                    mc.s.dump = std::fs::File::create(format!("{}.{}.smt2", d, getpid())).ok();
                }
                worker(&mut mc, jobs, o, sh, jp, jt, t0);
                _exit(0);
            }
        }
    }
    let _ = live;
    // wait for all descendants
    let mut crashed = 0;
    loop {
        let mut st = 0;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p <= 0 {
            break;
        }
        if st != 0 {
            crashed += 1;
            // a worker died (e.g. out of memory): stop the others
            sh.stop.store(2, SeqCst);
        }
    }
    let mut out = Outcome { job_paths: jp.iter().take(jobs.len()).map(|a| a.load(SeqCst)).collect(), job_covers: jp.iter().skip(jobs.len()).map(|a| a.load(SeqCst)).collect(), job_ns: jt.iter().map(|a| a.load(SeqCst)).collect(), ..Default::default() };
    out.lost = crashed.max(sh.started.load(SeqCst) - sh.finished.load(SeqCst));
    out.budget = sh.stop.load(SeqCst) == 2;
    out.jobs_done = sh.next_job.load(SeqCst).min(jobs.len() as u32) as u64;
    for (i, c) in sh.covers.iter().enumerate() {
        let v = c.load(SeqCst);
        if v > 0 {
            out.covers.insert(i as u32, v);
        }
    }
    if let Ok(rd) = std::fs::read_dir(&o.tmp) {
        for f in rd.flatten() {
            if !f.file_name().to_string_lossy().starts_with("w.") {
                continue;
            }
            let t = std::fs::read_to_string(f.path()).unwrap_or_default();
            for l in t.lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p[0] {
                    "V" => out.viols.push(Viol {
                        job: p[1].parse().unwrap(),
                        kind: p[2].into(),
                        code: p[3].parse().unwrap(),
                        msg: p[4].into(),
                        inputs: unhex(p[5]),
                        bt: p[6].split('|').map(|s| s.to_string()).collect(),
                    }),
                    "U" => *out.unknown.entry(p[2].to_string()).or_insert(0) += p[1].parse::<u64>().unwrap(),
                    "S" => out.samples.push(Sample {
                        job: p[1].parse().unwrap(),
                        inputs: unhex(p[2]),
                        obs: p[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
                    }),
                    "T" => {
                        let e = out.stats.entry(p[1].to_string()).or_insert(0);
                        let v: u64 = p[2].parse().unwrap();
                        if p[1].starts_with("max_") {
                            *e = (*e).max(v)
                        } else {
                            *e += v
                        }
                    }
                    _ => {}
                }
            }
            let _ = std::fs::remove_file(f.path());
        }
    }
    out
}

fn worker(mc: &mut Machine, jobs: &[Job], o: &Opts, sh: &'static Shared, jp: &'static [AtomicU64], jt: &'static [AtomicU64], t0: Instant) {
    let base = counters(mc);
    let mut w = Worker::new(o.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ unsafe { getpid() } as u64);
    w.base = base;
    loop {
        drain(mc, jobs, o, sh, jp, jt, t0, &mut w);
        if sh.stop.load(SeqCst) != 0 {
            break;
        }
        let j = sh.next_job.fetch_add(1, SeqCst);
        if j as usize >= jobs.len() {
            break;
        }
        let job = &jobs[j as usize];
        match mc.initial(&job.entry, &job.params, j) {
            Ok(s) => mc.stack.push(s),
            Err(e) => *w.unknown.entry(esc(&e)).or_insert(0) += 1,
        }
    }
    finish(mc, o, &mut w);
    sh.finished.fetch_add(1, SeqCst);
    sh.slots.fetch_add(1, SeqCst);
}

fn finish(mc: &mut Machine, o: &Opts, w: &mut Worker) {
    let mut t = std::mem::take(&mut w.out);
    for (k, v) in &w.unknown {
        let _ = writeln!(t, "U\t{}\t{}", v, k);
    }
    for s in &w.samples {
        let ob: Vec<String> = s.obs.iter().map(|x| x.to_string()).collect();
        let _ = writeln!(t, "S\t{}\t{}\t{}", s.job, hex(&s.inputs), ob.join(","));
    }
    for (k, v) in &w.st {
        let _ = writeln!(t, "T\t{}\t{}", k, v);
    }
    let c = counters(mc);
    for i in 0..12 {
        let _ = writeln!(t, "T\t{}\t{}", CNAMES[i], c[i] - w.base[i]);
    }
    let _ = writeln!(t, "T\tmax_query_ns\t{}", mc.s.st.max_ns);
    let _ = writeln!(t, "T\tmax_exprs\t{}", mc.x.len());
    let _ = std::fs::write(format!("{}/w.{}", o.tmp, unsafe { getpid() }), t);
}

#[allow(clippy::too_many_arguments)]
fn drain(mc: &mut Machine, jobs: &[Job], o: &Opts, sh: &'static Shared, jp: &'static [AtomicU64], jt: &'static [AtomicU64], t0: Instant, w: &mut Worker) {
    while let Some(mut st) = mc.stack.pop() {
        if sh.stop.load(SeqCst) != 0 {
            mc.stack.clear();
            return;
        }
        if t0.elapsed().as_secs_f64() > o.time {
            sh.stop.store(2, SeqCst);
            mc.stack.clear();
            return;
        }
        // share work with idle slots
        if mc.stack.len() >= 2 && sh.next_job.load(SeqCst) as usize >= jobs.len() {
            let mut k = sh.slots.load(SeqCst);
            while k > 0 {
                match sh.slots.compare_exchange(k, k - 1, SeqCst, SeqCst) {
                    Ok(_) => {
                        sh.started.fetch_add(1, SeqCst);
                        let half = (mc.stack.len() + 1) / 2;
                        let pid = unsafe { fork() };
                        if pid == 0 {
                            mc.stack.truncate(half);
                            if let Some(d) = &o.dump_smt {
                                mc.s.dump = std::fs::File::create(format!("{}.{}.smt2", d, unsafe { getpid() })).ok();
                            }
                            worker(mc, jobs, o, sh, jp, jt, t0);
                            unsafe { _exit(0) };
                        }
                        if pid < 0 {
                            sh.started.fetch_sub(1, SeqCst);
                            sh.slots.fetch_add(1, SeqCst);
                        } else {
                            mc.stack.drain(..half);
                        }
                        break;
                    }
                    Err(x) => k = x,
                }
            }
        }
        let tt = Instant::now();
        let end = mc.run(&mut st);
        let j = st.job;
        jt[j as usize].fetch_add(tt.elapsed().as_nanos() as u64, SeqCst);
        let inputs: Vec<u8> = st
            .ins
            .iter()
            .enumerate()
            .map(|(i, k)| match k {
                In::Ascii => st.model[i] & 0x7f,
                _ => st.model[i],
            })
            .collect();
        match end {
            End::Infeasible => *w.st.entry("paths_assumed_away").or_insert(0) += 1,
            End::Ok => {
                *w.st.entry("paths").or_insert(0) += 1;
                jp[j as usize].fetch_add(1, SeqCst);
                for c in &st.covers {
                    if (*c as usize) < NCOV {
                        sh.covers[*c as usize].fetch_add(1, SeqCst);
                    }
                    if *c < 64 {
                        jp[jobs.len() + j as usize].fetch_or(1 << *c, SeqCst);
                    }
                }
                let m = w.st.entry("max_path_constraints").or_insert(0);
                *m = (*m).max(st.pc.len() as u64);
                let m = w.st.entry("max_symbolic_inputs").or_insert(0);
                *m = (*m).max(st.ins.len() as u64);
                // reservoir of samples, plus the first of each job
                w.seen += 1;
                let first = w.per_job.entry(j).or_insert(0);
                *first += 1;
                let take_first = *first <= 2;
                let slot = if take_first || w.samples.len() < o.samples {
                    Some(w.samples.len())
                } else {
                    let k = (w.rnd() % w.seen) as usize;
                    if k < o.samples { Some(k) } else { None }
                };
                if let Some(k) = slot {
                    mc.x.new_epoch();
                    let obs: Vec<u64> = st
                        .obs
                        .iter()
                        .map(|v| match v {
                            crate::expr::V::C(c) => *c,
                            crate::expr::V::S(e) => mc.x.eval(*e, &st.model) as u64,
                        })
                        .collect();
                    let s = Sample { job: j, inputs, obs };
                    if k == w.samples.len() {
                        w.samples.push(s)
                    } else {
                        w.samples[k] = s
                    }
                }
            }
            End::Unknown(m) => {
                *w.unknown.entry(format!("{} [{}]", esc(&m), esc(&jobs[j as usize].label))).or_insert(0) += 1;
            }
            End::Violation { kind, code, msg } => {
                let bt = mc.backtrace(&st);
                let nv = sh.n_viol.fetch_add(1, SeqCst);
                if nv < 200 {
                    let _ = writeln!(w.out, "V\t{}\t{}\t{}\t{}\t{}\t{}", j, kind, code, esc(&msg), hex(&inputs), bt.join("|"));
                }
                if !o.keep_going {
                    sh.stop.store(1, SeqCst);
                }
            }
        }
    }
}

// ---- native replay ------------------------------------------------------------------------

static mut IN: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut OBS: Vec<u64> = Vec::new();
static mut RES: *mut u32 = std::ptr::null_mut(); // [status, code, index, mismatches]

fn next_in() -> u8 {
    unsafe {
        #[allow(static_mut_refs)]
        let v = IN.get(POS).copied();
        POS += 1;
        match v {
            Some(v) => v,
            None => {
                *RES = 4;
                _exit(0)
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_u8() -> u8 {
    next_in()
}
#[no_mangle]
pub extern "C" fn sx_ascii() -> u8 {
    next_in()
}
#[no_mangle]
pub extern "C" fn sx_choose(n: u32) -> u32 {
    let v = next_in() as u32;
    if v >= n {
        unsafe {
            *RES = 4;
            _exit(0)
        }
    }
    v
}
#[no_mangle]
pub extern "C" fn sx_assume(b: bool) {
    if !b {
        unsafe {
            *RES = 3;
            _exit(0)
        }
    }
}
#[no_mangle]
pub extern "C" fn sx_fail(c: u32) -> ! {
    unsafe {
        *RES = 2;
        *RES.add(1) = c;
        _exit(0)
    }
}
#[no_mangle]
pub extern "C" fn sx_cover(_c: u32) {}
#[no_mangle]
pub extern "C" fn sx_observe(v: u64) {
    unsafe {
        #[allow(static_mut_refs)]
        OBS.push(v)
    }
}
#[no_mangle]
pub extern "C" fn sx_force(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sx_native() -> u32 {
    1
}
static mut NOTES: bool = false;
/// Text for the report of a replay (the parsed document, the two results, ...).
#[no_mangle]
pub extern "C" fn sx_note(p: *const u8, n: usize) {
    unsafe {
        if NOTES {
            let s = std::slice::from_raw_parts(p, n);
            eprintln!("{}", String::from_utf8_lossy(s));
        }
    }
}
static mut JOBS: String = String::new();
#[no_mangle]
pub extern "C" fn sx_job(e: *const u8, en: usize, a: u32, b: u32, c: u32, d: u32, p: *const u8, n: usize) {
    unsafe {
        let e = String::from_utf8_lossy(std::slice::from_raw_parts(e, en));
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n));
        #[allow(static_mut_refs)]
        let _ = writeln!(JOBS, "{} {} {} {} {} {}", e, a, b, c, d, s.replace('\n', " "));
    }
}
/// Asks the harness for the jobs of a property.
pub fn list_jobs(so: &str, prop: u32, thorough: bool) -> Result<String, String> {
    unsafe {
        let h = lib(so)?;
        let j = Job { entry: "jobs".into(), params: vec![prop, thorough as u32, 0, 0], label: String::new() };
        call_entry(h, &j)?;
        #[allow(static_mut_refs)]
        Ok(JOBS.clone())
    }
}
#[allow(clippy::type_complexity)]
struct Keep([*const c_void; 11]);
unsafe impl Sync for Keep {}
#[used]
static KEEP: Keep = Keep([
    sx_u8 as *const c_void,
    sx_ascii as *const c_void,
    sx_choose as *const c_void,
    sx_assume as *const c_void,
    sx_fail as *const c_void,
    sx_cover as *const c_void,
    sx_observe as *const c_void,
    sx_force as *const c_void,
    sx_native as *const c_void,
    sx_note as *const c_void,
    sx_job as *const c_void,
]);

unsafe fn lib(so: &str) -> Result<*mut c_void, String> {
    let p = CString::new(so).unwrap();
    let h = dlopen(p.as_ptr(), 0x102);
    if h.is_null() {
        return Err(CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
    }
    Ok(h)
}
unsafe fn call_entry(h: *mut c_void, j: &Job) -> Result<(), String> {
    let n = CString::new(j.entry.as_str()).unwrap();
    let f = dlsym(h, n.as_ptr());
    if f.is_null() {
        return Err(format!("no symbol {}", j.entry));
    }
    let f: extern "C" fn(u32, u32, u32, u32) = std::mem::transmute(f);
    let p = |i: usize| j.params.get(i).copied().unwrap_or(0);
    f(p(0), p(1), p(2), p(3));
    Ok(())
}

#[derive(Debug, Clone, PartialEq)]
pub enum Native {
    Returned(Vec<u64>),
    Fail(u32),
    Crash(String),
    Timeout,
    AssumeFalse,
    BadInput,
    Error(String),
}

/// Execute one input natively in a child process.
pub fn native(so: &str, j: &Job, inputs: &[u8], tmp: &str, secs: u32) -> (Native, String) {
    unsafe {
        let sh = map_shared(1 << 16);
        let res = sh as *mut u32;
        let errf = format!("{}/native.err", tmp);
        let _ = std::fs::write(&errf, "");
        let pid = fork();
        if pid == 0 {
            let c = CString::new(errf.as_str()).unwrap();
            let fd = open(c.as_ptr(), 1, 0);
            dup2(fd, 2);
            setrlimit(4, &[0, 0]); // core
            setrlimit(9, &[8 << 30, 8 << 30]); // address space
            alarm(secs);
            RES = res;
            NOTES = true;
            IN = inputs.to_vec();
            match lib(so).and_then(|h| call_entry(h, j)) {
                Ok(()) => {
                    #[allow(static_mut_refs)]
                    let n = OBS.len().min(4000);
                    *res.add(4) = n as u32;
                    let o = sh.add(64) as *mut u64;
                    for i in 0..n {
                        #[allow(static_mut_refs)]
                        o.add(i).write(OBS[i]);
                    }
                    *res = 1;
                }
                Err(e) => {
                    eprintln!("{}", e);
                    *res = 5;
                }
            }
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let err = std::fs::read_to_string(&errf).unwrap_or_default();
        let _ = std::fs::remove_file(&errf);
        let sig = st & 0x7f;
        if sig == 14 {
            return (Native::Timeout, err);
        }
        if sig != 0 {
            return (Native::Crash(format!("signal {}", sig)), err);
        }
        let r = match *res {
            1 => {
                let n = *res.add(4) as usize;
                let o = sh.add(64) as *const u64;
                Native::Returned((0..n).map(|i| o.add(i).read()).collect())
            }
            2 => Native::Fail(*res.add(1)),
            3 => Native::AssumeFalse,
            4 => Native::BadInput,
            _ => Native::Error(err.clone()),
        };
        (r, err)
    }
}

/// Run all samples natively (batched); returns (agreeing, disagreeing descriptions).
pub fn validate(so: &str, jobs: &[Job], samples: &[Sample], tmp: &str) -> (u64, Vec<(usize, String)>) {
    let mut bad = vec![];
    let mut good = 0;
    let mut i = 0;
    unsafe {
        let sh = map_shared(1 << 12);
        let res = sh as *mut u32;
        while i < samples.len() {
            *res = 0;
            *res.add(2) = i as u32;
            *res.add(3) = 0;
            let errf = format!("{}/native.err", tmp);
            let _ = std::fs::write(&errf, "");
            let pid = fork();
            if pid == 0 {
                let c = CString::new(errf.as_str()).unwrap();
                let fd = open(c.as_ptr(), 1, 0);
                dup2(fd, 2);
                setrlimit(4, &[0, 0]);
                RES = res;
                let h = match lib(so) {
                    Ok(h) => h,
                    Err(e) => {
                        eprintln!("{}", e);
                        _exit(9)
                    }
                };
                for k in i..samples.len() {
                    *res.add(2) = k as u32;
                    alarm(20);
                    IN = samples[k].inputs.clone();
                    POS = 0;
                    #[allow(static_mut_refs)]
                    OBS.clear();
                    if let Err(e) = call_entry(h, &jobs[samples[k].job as usize]) {
                        eprintln!("{}", e);
                        _exit(9)
                    }
                    #[allow(static_mut_refs)]
                    if OBS != samples[k].obs {
                        eprintln!("observations differ: native {:?}, symbolic {:?}", OBS, samples[k].obs);
                        *res = 7;
                        _exit(0);
                    }
                }
                *res = 1;
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let err = std::fs::read_to_string(&errf).unwrap_or_default();
            let k = *res.add(2) as usize;
            if st == 0 && *res == 1 {
                good += (samples.len() - i) as u64;
                break;
            }
            good += (k - i) as u64;
            bad.push((k, format!("status {:#x}/{}: {}", st, *res, err.trim().chars().take(600).collect::<String>())));
            i = k + 1;
            if bad.len() > 20 {
                break;
            }
        }
        let _ = std::fs::remove_file(format!("{}/native.err", tmp));
    }
    (good, bad)
}

#[allow(dead_code)]
fn unused() {
    unsafe {
        kill(0, 0);
    }
    let _ = Duration::from_secs(0);
}
