//! Runs simulations, each one in its own forked process, looks for violations,
//! minimises and replays them, and writes the evidence.

use {
    crate::{
        rng::{
            mix,
            Rng,
        },
        sched::{
            self,
            Dec,
            Outcome,
            SchedCfg,
        },
        sys,
        term,
    },
    serde::{
        de::DeserializeOwned,
        Deserialize,
        Serialize,
    },
    serde_json::{
        json,
        Value,
    },
    std::{
        any::Any,
        collections::{
            BTreeMap,
            HashSet,
        },
        io::Write as _,
        path::PathBuf,
    },
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property violation
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// stable identifier of what's wrong
    pub class: String,
    pub msg: String,
}
pub type Verdict = Result<(), Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        class: class.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::driver::viol($class, format!($($arg)*));
        }
    };
}

/// A simulated property
pub trait Prop: Sync {
    type Sc: Serialize + DeserializeOwned + Clone;
    fn id(&self) -> &'static str;
    /// number of simulated runs of the quick check
    fn quick_runs(&self) -> u64 {
        4000
    }
    /// generate a scenario (workload and faults)
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Self::Sc;
    fn sched(&self, sc: &Self::Sc) -> SchedCfg;
    /// the simulated run, in thread 0
    fn body(&self, sc: &Self::Sc);
    /// decide, from the history of the run
    fn judge(&self, sc: &Self::Sc, outcome: &Outcome) -> Verdict;
    fn rule(&self) -> &'static str;
    fn real_components(&self) -> &'static [&'static str];
    fn stub_components(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
}

/// same thing, type erased
pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn quick_runs(&self) -> u64;
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Value;
    fn sched(&self, sc: &Value) -> Option<SchedCfg>;
    fn set_sched(&self, sc: &Value, cfg: &SchedCfg) -> Value;
    fn body(&self, sc: &Value);
    fn judge(&self, sc: &Value, outcome: &Outcome) -> Verdict;
    fn rule(&self) -> &'static str;
    fn real_components(&self) -> &'static [&'static str];
    fn stub_components(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str];
}
impl<P: Prop> Check for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }
    fn quick_runs(&self) -> u64 {
        Prop::quick_runs(self)
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> Value {
        serde_json::to_value(Prop::gen(self, rng, idx, tier)).unwrap()
    }
    fn sched(&self, sc: &Value) -> Option<SchedCfg> {
        let sc: P::Sc = serde_json::from_value(sc.clone()).ok()?;
        Some(Prop::sched(self, &sc))
    }
    fn set_sched(&self, sc: &Value, cfg: &SchedCfg) -> Value {
        let mut sc = sc.clone();
        sc["sched"] = serde_json::to_value(cfg).unwrap();
        sc
    }
    fn body(&self, sc: &Value) {
        let sc: P::Sc = serde_json::from_value(sc.clone()).unwrap();
        Prop::body(self, &sc)
    }
    fn judge(&self, sc: &Value, outcome: &Outcome) -> Verdict {
        let sc: P::Sc = serde_json::from_value(sc.clone()).unwrap();
        Prop::judge(self, &sc, outcome)
    }
    fn rule(&self) -> &'static str {
        Prop::rule(self)
    }
    fn real_components(&self) -> &'static [&'static str] {
        Prop::real_components(self)
    }
    fn stub_components(&self) -> &'static [&'static str] {
        Prop::stub_components(self)
    }
    fn assumptions(&self) -> &'static [&'static str] {
        Prop::assumptions(self)
    }
}

// ---------------------------------------------------------------- run globals

static mut RUN: *mut Run = std::ptr::null_mut();

struct Run {
    check: &'static dyn Check,
    sc: Value,
    shm: *mut u8,
    state: Option<Box<dyn Any>>,
    stats: BTreeMap<String, u64>,
    nontrivial: bool,
    fp: u64,
    live: Option<Viol>,
}

#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { &mut *RUN }
}

/// the state of the run, shared between its threads and the judge
pub fn state<T: Any + Default>() -> &'static mut T {
    let r = run();
    if r.state.is_none() {
        r.state = Some(Box::new(T::default()));
    }
    r.state.as_mut().unwrap().downcast_mut::<T>().unwrap()
}
/// count something which happened during the run
pub fn count(key: &str, n: u64) {
    if unsafe { RUN.is_null() } {
        return;
    }
    *run().stats.entry(key.to_string()).or_insert(0) += n;
}
pub fn nontrivial() {
    run().nontrivial = true;
}
/// contribute to the fingerprint of the behavior of the run
pub fn fingerprint(v: u64) {
    let r = run();
    r.fp = (r.fp ^ v).wrapping_mul(0x100_0000_01b3);
    r.fp ^= r.fp >> 31;
}
/// Report a violation seen while the run proceeds (the first one is kept)
pub fn live_violation(class: &str, msg: String) {
    let r = run();
    if r.live.is_none() {
        if sched::active() {
            sched::note_str("VIOLATION", class);
        }
        r.live = Some(Viol {
            class: class.to_string(),
            msg,
        });
    }
}

pub fn has_live_violation() -> bool {
    run().live.is_some()
}

const SHM_SIZE: usize = 64 << 20;
const COV_SIZE: usize = 64 << 10;

/// the first byte of the edge coverage map
static mut COV: *mut u8 = std::ptr::null_mut();
#[inline(always)]
pub fn cov_hit(id: u32) {
    unsafe {
        if !COV.is_null() && (id as usize) < COV_SIZE {
            *COV.add(id as usize) = 1;
        }
    }
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct RunResult {
    pub viol: Option<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub fp: u64,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub threads: u64,
    pub decs: Vec<Dec>,
    pub log: Option<String>,
    pub outcome: String,
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    unsafe { libc::_exit(3) }
}

/// end the run now, because it would never end by itself
pub fn end_run(why: &str) -> ! {
    finish(Outcome::StepLimit(why.to_string()))
}

fn finish(outcome: Outcome) -> ! {
    sched::stop();
    let s = sched::sim();
    let r = run();
    let verdict = std::panic::catch_unwind(|| {
        if let Some(v) = run().live.clone() {
            return Err(v);
        }
        run().check.judge(&run().sc, &outcome)
    });
    let viol = match verdict {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) => {
            harness_error(&format!("the judge panicked: {}", panic_text(&*e)));
        }
    };
    term::export_stats();
    let res = RunResult {
        viol,
        stats: std::mem::take(&mut r.stats),
        nontrivial: r.nontrivial,
        fp: r.fp,
        log_hash: s.log_hash,
        sched_hash: s.sched_hash,
        steps: sched::step(),
        sim_ns: sched::now() - sched::START_NS,
        switches: s.switches,
        preemptions: s.preemptions,
        stalls: s.stalls,
        spurious: s.spurious,
        threads: s.threads.len() as u64,
        decs: std::mem::take(&mut s.recorded),
        log: s.log.take(),
        outcome: format!("{outcome:?}"),
    };
    let data = serde_json::to_vec(&res).unwrap();
    if data.len() + 8 > SHM_SIZE {
        harness_error("result too big");
    }
    unsafe {
        std::ptr::copy_nonoverlapping(data.as_ptr(), r.shm.add(8), data.len());
        (r.shm as *mut u64).write_volatile(data.len() as u64);
        libc::_exit(0);
    }
}

fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

pub fn set_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit('/').next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if sched::active() {
            let txt = format!("{msg} at {loc}");
            sched::note_str("panic", &msg);
            let tid = sched::cur_tid();
            sched::sim().panics.push((tid, txt));
        } else {
            eprintln!("panic outside of a simulation: {msg} at {loc}");
        }
    }));
}

/// Turn a panic into data: to be used around calls to the code under test
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let msg = sched::sim()
                .panics
                .last()
                .map(|(_, m)| m.clone())
                .unwrap_or_else(|| panic_text(&*e));
            Err(msg)
        }
    }
}

/// All is done in a child process
fn child(
    check: &'static dyn Check,
    sc: &Value,
    cfg: SchedCfg,
    replay: Option<Vec<Dec>>,
    keep_log: bool,
    shm: *mut u8,
) -> ! {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 20,
            rlim_max: 25,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit {
            rlim_cur: 2 << 30,
            rlim_max: 2 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::alarm(120);
    }
    let r = Box::new(Run {
        check,
        sc: sc.clone(),
        shm,
        state: None,
        stats: BTreeMap::new(),
        nontrivial: false,
        fp: 0xcbf2_9ce4_8422_2325,
        live: None,
    });
    unsafe {
        RUN = Box::into_raw(r);
    }
    term::reset();
    sched::start(cfg, replay, keep_log, finish);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        run().check.body(&run().sc);
    }));
    let outcome = match res {
        Ok(()) => Outcome::Done,
        Err(e) => {
            let msg = sched::sim()
                .panics
                .iter()
                .rev()
                .find(|p| p.0 == 0)
                .map(|p| p.1.clone())
                .unwrap_or_else(|| panic_text(&*e));
            Outcome::Panicked(msg)
        }
    };
    finish(outcome)
}

pub struct Runner {
    shm: *mut u8,
}

impl Runner {
    pub fn new() -> Self {
        let shm = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHM_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8
        };
        unsafe {
            if COV.is_null() {
                COV = libc::mmap(
                    std::ptr::null_mut(),
                    COV_SIZE,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                ) as *mut u8;
            }
        }
        Runner { shm }
    }
    /// execute a run in a new process
    pub fn run(
        &self,
        check: &'static dyn Check,
        sc: &Value,
        replay: Option<Vec<Dec>>,
        keep_log: bool,
    ) -> RunResult {
        self.try_run(check, sc, replay, keep_log)
            .unwrap_or_else(|e| {
                eprintln!("scenario: {sc}");
                harness_error(&e)
            })
    }
    /// execute a run in a new process, an error being one of the simulator
    pub fn try_run(
        &self,
        check: &'static dyn Check,
        sc: &Value,
        replay: Option<Vec<Dec>>,
        keep_log: bool,
    ) -> Result<RunResult, String> {
        let cfg = match check.sched(sc) {
            Some(c) => c,
            None => return Err("invalid scenario".to_string()),
        };
        unsafe {
            (self.shm as *mut u64).write_volatile(0);
            let pid = libc::fork();
            if pid < 0 {
                harness_error("fork failed");
            }
            if pid == 0 {
                child(check, sc, cfg, replay, keep_log, self.shm);
            }
            let mut status = 0;
            while libc::waitpid(pid, &mut status, 0) < 0 {}
            let len = (self.shm as *mut u64).read_volatile() as usize;
            if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 && len > 0 {
                let data = std::slice::from_raw_parts(self.shm.add(8), len);
                return serde_json::from_slice(data).map_err(|e| format!("bad result: {e}"));
            }
            if libc::WIFSIGNALED(status) {
                let sig = libc::WTERMSIG(status);
                let class = match sig {
                    libc::SIGXCPU | libc::SIGKILL => Some("hang"),
                    libc::SIGABRT => Some("abort"),
                    libc::SIGSEGV | libc::SIGBUS | libc::SIGILL => Some("crash"),
                    _ => None,
                };
                if let Some(class) = class {
                    return Ok(RunResult {
                        viol: Some(Viol {
                            class: class.to_string(),
                            msg: format!("the process was ended by signal {sig}"),
                        }),
                        outcome: format!("signal {sig}"),
                        ..Default::default()
                    });
                }
            }
            Err(format!("simulated process ended with status {status:#x}"))
        }
    }
}

// ---------------------------------------------------------------- search

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    runs: u64,
    det_checks: u64,
    det_failures: Vec<u64>,
    stats: BTreeMap<String, u64>,
    fps: Vec<u64>,
    scheds: Vec<u64>,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    preemptions: u64,
    stalls: u64,
    spurious: u64,
    max_threads: u64,
    nontrivial: u64,
    violations: Vec<(u64, Value, Viol)>,
    errors: Vec<String>,
    known: BTreeMap<String, String>,
    cov: Vec<u32>,
    samples: Vec<Value>,
    log_xor: u64,
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub workers: u64,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub verif: PathBuf,
    pub no_min: bool,
    pub write_evidence: bool,
}

fn scenario_at(check: &dyn Check, seed: u64, idx: u64, tier: Tier) -> Value {
    let mut rng = Rng::new(mix(check.id(), &[seed, idx]));
    check.gen(&mut rng, idx, tier)
}

fn worker(
    check: &'static dyn Check,
    o: &Opts,
    w: u64,
    total: u64,
    deadline: u64,
    known: &[Known],
) -> WorkerReport {
    let runner = Runner::new();
    let mut rep = WorkerReport::default();
    let mut fps = HashSet::new();
    let mut scheds = HashSet::new();
    let mut idx = w;
    while idx < total {
        if sys::wall_ns() > deadline {
            break;
        }
        let sc = scenario_at(check, o.seed, idx, o.tier);
        let r = match runner.try_run(check, &sc, None, false) {
            Ok(r) => r,
            Err(e) => {
                // not an answer for this run, but another one may show a violation
                rep.errors.push(format!("run {idx}: {e}"));
                if rep.errors.len() > 20 {
                    break;
                }
                idx += o.workers;
                continue;
            }
        };
        rep.runs += 1;
        if r.viol.is_none() && idx % 40 == w % 40 {
            // determinism: the same seed, and the recorded decisions, must give the same run
            let again = runner.run(check, &sc, None, false);
            let replayed = runner.run(check, &sc, Some(r.decs.clone()), false);
            rep.det_checks += 2;
            if again.log_hash != r.log_hash || again.steps != r.steps {
                rep.det_failures.push(idx);
            }
            if replayed.log_hash != r.log_hash || replayed.steps != r.steps {
                rep.det_failures.push(idx);
            }
        }
        for (k, v) in &r.stats {
            *rep.stats.entry(k.clone()).or_insert(0) += v;
        }
        rep.log_xor ^= mix("log", &[idx, r.log_hash]);
        rep.steps += r.steps;
        rep.sim_ns += r.sim_ns;
        rep.switches += r.switches;
        rep.preemptions += r.preemptions;
        rep.stalls += r.stalls;
        rep.spurious += r.spurious;
        rep.max_threads = rep.max_threads.max(r.threads);
        if r.nontrivial {
            rep.nontrivial += 1;
            fps.insert(r.fp);
        }
        scheds.insert(r.sched_hash);
        if w == 0 && rep.samples.len() < 3 && r.nontrivial {
            rep.samples.push(json!({
                "index": idx, "scenario": sc, "steps": r.steps, "simulated_us": r.sim_ns / 1000,
                "thread_switches": r.switches, "outcome": r.outcome, "log_hash": format!("{:016x}", r.log_hash),
            }));
        }
        if let Some(v) = r.viol {
            if let Some(k) = known.iter().find(|k| k.class == v.class) {
                rep.known.insert(k.class.clone(), k.what.clone());
            } else {
                rep.violations.push((idx, sc, v));
                break;
            }
        }
        idx += o.workers;
    }
    rep.fps = fps.into_iter().collect();
    rep.scheds = scheds.into_iter().collect();
    unsafe {
        for i in 0..COV_SIZE {
            if *COV.add(i) != 0 {
                rep.cov.push(i as u32);
            }
        }
    }
    rep
}

struct Known {
    class: String,
    what: String,
}

fn load_known(o: &Opts, id: &str) -> Vec<Known> {
    let mut v = Vec::new();
    let txt = std::fs::read_to_string(o.verif.join("known_findings.txt")).unwrap_or_default();
    for line in txt.lines() {
        // known: property=<id> class=<class> <what>
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|p| p.strip_prefix("property="));
            let c = it.next().and_then(|p| p.strip_prefix("class="));
            if let (Some(p), Some(c)) = (p, c) {
                if p == id {
                    v.push(Known {
                        class: c.to_string(),
                        what: it.next().unwrap_or("").to_string(),
                    });
                }
            }
        }
    }
    v
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub violation: Viol,
    pub verif_seed: u64,
    pub run_index: u64,
    pub scenario: Value,
    pub decisions: Vec<Dec>,
    pub log_hash: u64,
    pub trace: Vec<String>,
}

/// Search for a violation; return the exit code
pub fn search(check: &'static dyn Check, o: &Opts) -> i32 {
    let t0 = sys::wall_ns();
    let id = check.id();
    let (total, secs) = match o.tier {
        Tier::Quick => (o.runs.unwrap_or(check.quick_runs()), o.secs.unwrap_or(150)),
        Tier::Thorough => (o.runs.unwrap_or(u64::MAX), o.secs.unwrap_or(600)),
    };
    let deadline = t0 + secs * 1_000_000_000;
    println!("property {id}: VERIF_SEED={} tier={:?}", o.seed, o.tier);
    let known = load_known(o, id);
    // worker processes, each one reporting in a pipe
    let mut pipes = Vec::new();
    for w in 0..o.workers {
        let mut fds = [0; 2];
        unsafe {
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                harness_error("pipe failed");
            }
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid < 0 {
                harness_error("fork failed");
            }
            if pid == 0 {
                // pin it: the threads of a simulated process run one at a time
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64;
                libc::CPU_SET((w % n) as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                let rep = worker(check, o, w, total, deadline, &known);
                let data = serde_json::to_vec(&rep).unwrap();
                let mut off = 0;
                while off < data.len() {
                    let n = libc::write(
                        fds[1],
                        data[off..].as_ptr() as *const libc::c_void,
                        data.len() - off,
                    );
                    if n <= 0 {
                        libc::_exit(3);
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((pid, fds[0]));
        }
    }
    let mut reps = Vec::new();
    for (pid, fd) in pipes {
        let mut data = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        let mut status = 0;
        unsafe {
            libc::close(fd);
            libc::waitpid(pid, &mut status, 0);
        }
        if status != 0 {
            harness_error(&format!("a worker ended with status {status:#x}"));
        }
        match serde_json::from_slice::<WorkerReport>(&data) {
            Ok(r) => reps.push(r),
            Err(e) => harness_error(&format!("bad worker report: {e}")),
        }
    }
    let mut all = WorkerReport::default();
    let mut fps = HashSet::new();
    let mut scheds = HashSet::new();
    let mut cov = HashSet::new();
    for r in reps {
        all.runs += r.runs;
        all.det_checks += r.det_checks;
        all.det_failures.extend(r.det_failures);
        for (k, v) in r.stats {
            *all.stats.entry(k).or_insert(0) += v;
        }
        all.log_xor ^= r.log_xor;
        all.steps += r.steps;
        all.sim_ns += r.sim_ns;
        all.switches += r.switches;
        all.preemptions += r.preemptions;
        all.stalls += r.stalls;
        all.spurious += r.spurious;
        all.max_threads = all.max_threads.max(r.max_threads);
        all.nontrivial += r.nontrivial;
        fps.extend(r.fps);
        scheds.extend(r.scheds);
        cov.extend(r.cov);
        all.violations.extend(r.violations);
        all.errors.extend(r.errors);
        all.known.extend(r.known);
        all.samples.extend(r.samples);
    }
    let search_wall = (sys::wall_ns() - t0) as f64 / 1e9;
    if !all.det_failures.is_empty() && all.violations.is_empty() {
        harness_error(&format!(
            "the simulation isn't deterministic for runs {:?}",
            all.det_failures
        ));
    }
    if !all.errors.is_empty() && all.violations.is_empty() {
        harness_error(&all.errors.join("\n"));
    }
    all.violations.sort_by_key(|v| v.0);
    let mut violated = Vec::new();
    for (idx, sc, v) in &all.violations {
        println!("run {idx}: {}: {}", v.class, v.msg);
        if let Some((path, v)) = report_violation(check, o, *idx, sc, v, &known) {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={id} replay={}", path.display());
            violated.push(json!({"run_index": idx, "class": v.class, "message": v.msg, "replay": path.display().to_string()}));
            break;
        }
        println!("the violation of run {idx} ({}) doesn't reproduce", v.class);
    }
    if violated.is_empty() && !all.violations.is_empty() {
        harness_error("no violation is reproducible");
    }
    for (c, w) in &all.known {
        println!("KNOWN-FINDING: property={id} [{c}] {w}");
    }
    let wall = (sys::wall_ns() - t0) as f64 / 1e9;
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &all.stats {
        if let Some(k) = k.strip_prefix("fault.") {
            faults.insert(k.to_string(), *v);
        } else {
            probes.insert(k.clone(), *v);
        }
    }
    faults.insert("thread_preemptions".into(), all.preemptions);
    faults.insert("thread_stalls".into(), all.stalls);
    faults.insert("spurious_wakeups".into(), all.spurious);
    let evidence = json!({
        "property": id,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": fps.len(),
            "rule": check.rule(),
            "samples": all.samples.iter().take(3).collect::<Vec<_>>(),
            "nontrivial_runs": all.nontrivial,
            "simulated_runs": all.runs,
            "seeds": all.runs,
            "runs_per_hour": (all.runs as f64 / search_wall * 3600.0) as u64,
            "simulated_time_s": all.sim_ns as f64 / 1e9,
            "scheduler_steps": all.steps,
            "thread_switches": all.switches,
            "max_threads": all.max_threads,
            "distinct_schedules": scheds.len(),
            "distinct_schedules_measure": "hash of the sequence of (thread, next thread, last executed edge of the code under test) at each thread switch",
            "faults_injected": faults,
            "probes": probes,
            "edges_of_termimad_reached": cov.len(),
            "edges_of_termimad_total": sys::guard_count(),
            "determinism_reruns": all.det_checks,
            "determinism_failures": all.det_failures.len(),
            "log_digest": format!("{:016x}", all.log_xor),
            "real_components": check.real_components(),
            "stub_components": check.stub_components(),
            "violations_found": violated,
        },
        "assumptions": check.assumptions(),
        "wall_s": wall,
        "violations": violated.len(),
    });
    if o.write_evidence {
        let dir = o.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{id}.json"));
        if std::fs::write(&file, serde_json::to_string_pretty(&evidence).unwrap()).is_err() {
            harness_error("can't write the evidence file");
        }
    }
    println!(
        "{id}: {} runs, {} distinct behaviors, {} distinct schedules, {} steps, {:.1} simulated s, {} determinism reruns, {:.1}s, digest {:016x}",
        all.runs, fps.len(), scheds.len(), all.steps, all.sim_ns as f64 / 1e9, all.det_checks, wall, all.log_xor
    );
    if violated.is_empty() {
        0
    } else {
        1
    }
}

// ---------------------------------------------------------------- minimisation

/// A way to make a scenario smaller: what to do at the end of a path
struct Shrink {
    path: Vec<Step>,
    op: ShrinkOp,
}
#[derive(Clone)]
enum Step {
    Idx(usize),
    Key(String),
}
enum ShrinkOp {
    Drain(usize, usize),
    Set(Value),
}
impl Shrink {
    fn apply(&self, v: &Value) -> Value {
        let mut r = v.clone();
        let mut at = &mut r;
        for s in &self.path {
            at = match s {
                Step::Idx(i) => &mut at[*i],
                Step::Key(k) => &mut at[k.as_str()],
            };
        }
        match (&self.op, at) {
            (ShrinkOp::Drain(i, j), Value::Array(a)) => {
                a.drain(*i..*j);
            }
            (ShrinkOp::Set(x), at) => *at = x.clone(),
            _ => {}
        }
        r
    }
}

fn shrinks(v: &Value, path: &mut Vec<Step>, out: &mut Vec<Shrink>) {
    let mut add = |op| {
        out.push(Shrink {
            path: path.clone(),
            op,
        })
    };
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                while i < n {
                    add(ShrinkOp::Drain(i, (i + chunk).min(n)));
                    i += chunk;
                }
                chunk /= 2;
            }
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Idx(i));
                shrinks(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if k == "sched" || k == "keep" {
                    continue;
                }
                path.push(Step::Key(k.clone()));
                shrinks(x, path, out);
                path.pop();
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                let mut c = vec![0, n / 2, n.saturating_sub(1)];
                c.dedup();
                for x in c {
                    if x < n {
                        add(ShrinkOp::Set(json!(x)));
                    }
                }
            } else if let Some(n) = n.as_i64() {
                add(ShrinkOp::Set(json!(0)));
                add(ShrinkOp::Set(json!(n / 2)));
            }
        }
        Value::Bool(true) => add(ShrinkOp::Set(json!(false))),
        Value::String(s) if s.chars().count() > 1 => {
            let ch: Vec<char> = s.chars().collect();
            let h = ch.len() / 2;
            add(ShrinkOp::Set(json!(ch[..h].iter().collect::<String>())));
            add(ShrinkOp::Set(json!(ch[h..].iter().collect::<String>())));
            if ch.len() < 60 {
                for i in 0..ch.len() {
                    let mut b = ch.clone();
                    b.remove(i);
                    add(ShrinkOp::Set(json!(b.iter().collect::<String>())));
                }
            }
        }
        _ => {}
    }
}

fn minimise(
    check: &'static dyn Check,
    runner: &Runner,
    sc: &Value,
    class: &str,
    budget_ns: u64,
) -> (Value, Vec<Dec>) {
    let end = sys::wall_ns() + budget_ns;
    let fails = |sc: &Value, decs: Option<Vec<Dec>>| -> Option<RunResult> {
        check.sched(sc)?;
        // (a candidate may be something the harness can't execute)
        let r = runner.try_run(check, sc, decs, false).ok()?;
        match &r.viol {
            Some(v) if v.class == class => Some(r),
            _ => None,
        }
    };
    let mut best = sc.clone();
    // first: does it fail without any scheduling noise ?
    if let Some(cfg) = check.sched(&best) {
        let calm = SchedCfg {
            step_limit: cfg.step_limit,
            ..SchedCfg::calm(cfg.seed)
        };
        for k in 0..3u64 {
            let mut c = calm.clone();
            c.seed = mix("calm", &[cfg.seed, k]);
            let cand = check.set_sched(&best, &c);
            if fails(&cand, None).is_some() {
                best = cand;
                break;
            }
        }
    }
    // then: a smaller scenario
    'outer: loop {
        let mut edits = Vec::new();
        shrinks(&best, &mut Vec::new(), &mut edits);
        for e in edits {
            let c = e.apply(&best);
            if sys::wall_ns() > end {
                break 'outer;
            }
            let cfg = match check.sched(&c) {
                Some(cfg) => cfg,
                None => continue,
            };
            if fails(&c, None).is_some() {
                best = c;
                continue 'outer;
            }
            // other schedules
            if cfg.preempt > 0.0 || cfg.pct > 0 {
                for k in 0..3u64 {
                    let mut d = cfg.clone();
                    d.seed = mix("shrink", &[cfg.seed, k]);
                    let cand = check.set_sched(&c, &d);
                    if fails(&cand, None).is_some() {
                        best = cand;
                        continue 'outer;
                    }
                }
            }
        }
        break;
    }
    // at last: a smaller schedule and fault trace
    let mut decs = runner.run(check, &best, None, false).decs;
    let mut chunk = decs.len().max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < decs.len() {
            if sys::wall_ns() > end + 20_000_000_000 {
                return (best, decs);
            }
            let mut d = decs.clone();
            let hi = (i + chunk).min(d.len());
            d.drain(i..hi);
            if fails(&best, Some(d.clone())).is_some() {
                decs = d;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            if !changed {
                break;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
        if decs.is_empty() {
            break;
        }
    }
    (best, decs)
}

fn report_violation(
    check: &'static dyn Check,
    o: &Opts,
    idx: u64,
    sc: &Value,
    v: &Viol,
    _known: &[Known],
) -> Option<(PathBuf, Viol)> {
    let runner = Runner::new();
    let mut first = runner.run(check, sc, None, false);
    if first.viol.as_ref().map(|x| &x.class) != Some(&v.class) {
        // it may be something depending on the machine (signal): once more
        first = runner.run(check, sc, None, false);
        if first.viol.as_ref().map(|x| &x.class) != Some(&v.class) {
            return None;
        }
    }
    let budget = if v.class == "hang" { 0 } else { 25_000_000_000 };
    let (sc, decs) = if o.no_min {
        (sc.clone(), first.decs.clone())
    } else {
        minimise(check, &runner, sc, &v.class, budget)
    };
    let mut fin = runner.run(check, &sc, Some(decs.clone()), true);
    let mut sc = sc;
    let mut decs = decs;
    if fin.viol.as_ref().map(|x| &x.class) != Some(&v.class) {
        // decisions alone don't reproduce: a signal probably (no decision came back)
        sc = scenario_at(check, o.seed, idx, o.tier);
        decs = first.decs.clone();
        fin = runner.run(check, &sc, Some(decs.clone()), true);
        if fin.viol.is_none() {
            return None;
        }
    }
    let viol = fin.viol.clone()?;
    let dir = o.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", check.id(), o.seed, idx));
    let file = ReplayFile {
        property: check.id().to_string(),
        violation: viol.clone(),
        verif_seed: o.seed,
        run_index: idx,
        scenario: sc,
        decisions: decs,
        log_hash: fin.log_hash,
        trace: fin
            .log
            .unwrap_or_default()
            .lines()
            .map(|l| l.to_string())
            .collect(),
    };
    if std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).is_err() {
        harness_error("can't write the replay file");
    }
    // replay it in a fresh process
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe)
        .arg("replay")
        .arg(&path)
        .output();
    match out {
        Ok(out) if out.status.code() == Some(1) => Some((path, viol)),
        Ok(out) => {
            eprintln!("{}", String::from_utf8_lossy(&out.stdout));
            eprintln!("{}", String::from_utf8_lossy(&out.stderr));
            None
        }
        Err(_) => None,
    }
}

/// replay a violation; exit code 1 if it's still there
pub fn replay(checks: &[&'static dyn Check], path: &str, verbose: bool) -> i32 {
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => harness_error(&format!("can't read {path}: {e}")),
    };
    let f: ReplayFile = match serde_json::from_str(&txt) {
        Ok(f) => f,
        Err(e) => harness_error(&format!("bad replay file: {e}")),
    };
    let check = match checks.iter().find(|c| c.id() == f.property) {
        Some(c) => *c,
        None => harness_error("unknown property"),
    };
    let runner = Runner::new();
    let r = runner.run(check, &f.scenario, Some(f.decisions.clone()), true);
    if verbose {
        println!("{}", r.log.as_deref().unwrap_or(""));
        println!("outcome: {}", r.outcome);
    }
    match r.viol {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!(
                "log hash {:016x}, {}",
                r.log_hash,
                if r.log_hash == f.log_hash {
                    "same as recorded"
                } else {
                    "different from the recorded one"
                }
            );
            println!("VIOLATION property={} replay={path}", f.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// one run, for debugging
pub fn one(check: &'static dyn Check, o: &Opts, idx: u64) {
    let sc = scenario_at(check, o.seed, idx, o.tier);
    println!("{}", serde_json::to_string_pretty(&sc).unwrap());
    let runner = Runner::new();
    let r = runner.run(check, &sc, None, true);
    println!("{}", r.log.as_deref().unwrap_or(""));
    println!("outcome: {} viol: {:?}", r.outcome, r.viol);
    println!("stats: {:?} fp={:x} steps={} decs={}", r.stats, r.fp, r.steps, r.decs.len());
}

/// many executions of the same run, for debugging the determinism
pub fn det(check: &'static dyn Check, o: &Opts, idx: u64, n: u64) {
    let sc = scenario_at(check, o.seed, idx, o.tier);
    let runner = Runner::new();
    let a = runner.run(check, &sc, None, true);
    for i in 0..n {
        for replay in [None, Some(a.decs.clone())] {
            let kind = if replay.is_some() { "replay" } else { "again" };
            let b = runner.run(check, &sc, replay, true);
            if a.log_hash != b.log_hash || a.steps != b.steps {
                println!("{kind} {i} differs: steps {} vs {}", a.steps, b.steps);
                let (la, lb) = (a.log.clone().unwrap(), b.log.clone().unwrap());
                for (x, y) in la.lines().zip(lb.lines()) {
                    if x != y {
                        println!("  {x}\n  {y}");
                        break;
                    }
                }
                println!("{} decisions, last ones: {:?}", a.decs.len(), &a.decs[a.decs.len().saturating_sub(6)..]);
                println!("{}", la);
            }
        }
    }
}

/// Count the violations by class, without stopping at the first one
pub fn survey(check: &'static dyn Check, o: &Opts, n: u64) {
    let runner = Runner::new();
    let mut seen: BTreeMap<String, (u64, u64, String, usize)> = BTreeMap::new();
    for idx in 0..n {
        let sc = scenario_at(check, o.seed, idx, o.tier);
        let size = sc.to_string().len();
        let r = runner.run(check, &sc, None, false);
        if let Some(v) = r.viol {
            let e = seen.entry(v.class).or_insert((0, idx, v.msg.clone(), usize::MAX));
            e.0 += 1;
            // the smallest one is shown
            if size < e.3 {
                e.1 = idx;
                e.2 = v.msg;
                e.3 = size;
            }
        }
    }
    for (c, (k, idx, msg, _)) in seen {
        println!("{c}: {k} of {n}, for example {idx}: {}", msg.chars().take(900).collect::<String>());
    }
}
