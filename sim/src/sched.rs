//! The deterministic scheduler.
//!
//! Real OS threads run real code, but only one of them at a time: the one
//! holding the "baton". Every blocking or time dependent call of the process
//! (see `sys.rs`) ends here, where a seeded generator (or a recorded list of
//! decisions) chooses who runs next. The clock is simulated: it advances by a
//! small cost at each step, and jumps to the next deadline when nobody can run.

use {
    crate::rng::Rng,
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        fmt::Write as _,
        sync::atomic::{
            AtomicU32,
            Ordering,
        },
    },
};

/// How the schedule of a run is decided
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedCfg {
    pub seed: u64,
    /// probability of a preemption at a step (edge of the code under test or seam)
    pub preempt: f64,
    /// PCT: use random priorities and that number of change points instead
    pub pct: u32,
    /// simulated cost of an instrumented edge, in ns
    pub edge_cost: u64,
    /// max simulated cost of a seam call, in ns
    pub seam_cost: u64,
    /// probability, at each preemption, that the preempted thread is stalled
    pub stall: f64,
    /// max duration of a stall, in ns
    pub stall_max: u64,
    /// probability of a spurious wake up of a thread blocked on a futex, at each preemption
    pub spurious: f64,
    pub step_limit: u64,
}

impl SchedCfg {
    /// a run without anything special: a thread runs until it blocks
    pub fn calm(seed: u64) -> Self {
        SchedCfg {
            seed,
            preempt: 0.0,
            pct: 0,
            edge_cost: 0,
            seam_cost: 0,
            stall: 0.0,
            stall_max: 0,
            spurious: 0.0,
            step_limit: 3_000_000,
        }
    }
    /// swarm style: every run has its own scheduling style
    pub fn swarm(rng: &mut Rng) -> Self {
        let mut cfg = Self::calm(rng.next());
        cfg.preempt = *rng.pick(&[0.0, 0.002, 0.01, 0.05, 0.2, 0.5]);
        if rng.one_in(4) {
            cfg.pct = rng.range(1, 6) as u32;
        }
        cfg.edge_cost = *rng.pick(&[0, 0, 7, 100, 1000]);
        cfg.seam_cost = *rng.pick(&[0, 0, 50, 1000, 20_000]);
        if rng.one_in(3) {
            cfg.stall = *rng.pick(&[0.02, 0.1, 0.3]);
            cfg.stall_max = *rng.pick(&[1_000, 1_000_000, 300_000_000, 2_000_000_000]);
        }
        if rng.one_in(3) {
            cfg.spurious = *rng.pick(&[0.05, 0.3]);
        }
        cfg
    }
}

/// A scheduling decision differing from the default one
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Dec {
    /// at this step, that thread runs
    Run { step: u64, tid: u32 },
    /// at this step, that thread is stalled for some time
    Stall { step: u64, tid: u32, ns: u64 },
    /// at this step, that thread is spuriously woken up
    Spurious { step: u64, tid: u32 },
}
impl Dec {
    pub fn step(&self) -> u64 {
        match self {
            Dec::Run { step, .. } | Dec::Stall { step, .. } | Dec::Spurious { step, .. } => *step,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    Woken,
    TimedOut,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Runnable,
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    /// waiting for something of the simulated world (kind says what)
    World { kind: &'static str, deadline: u64 },
    Join { tid: u32 },
    /// waiting for nobody being able to run and no timer being armed
    Quiesce { deadline: u64 },
    Done,
}

const NEVER: u64 = u64::MAX;

pub struct Tcb {
    pub gate: AtomicU32,
    pub st: St,
    pub why: Why,
    pub stalled_until: u64,
    pub prio: u64,
    pub pthread: usize,
    pub blocked_since: u64,
    pub wait_seq: u64,
    pub exit_time: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Done,
    Panicked(String),
    /// nobody can run any more, and thread 0 isn't waiting for that
    Stuck(String),
    StepLimit(String),
}

pub struct Sim {
    pub cfg: SchedCfg,
    rng: Rng,
    pub threads: Vec<Box<Tcb>>,
    pub cur: usize,
    pub seq: u64,
    pub now_base: u64,
    replay: Option<Vec<Dec>>,
    replay_idx: usize,
    pub recorded: Vec<Dec>,
    change_points: Vec<u64>,
    next_fair: u64,
    next_preempt: u64,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub log: Option<String>,
    pub log_lines: usize,
    pub switches: u64,
    lone_yields: u32,
    pub spins: u64,
    pub preemptions: u64,
    pub stalls: u64,
    pub spurious: u64,
    pub stall_ns: u64,
    pub idle_ns: u64,
    pub panics: Vec<(u32, String)>,
    pub finish: fn(Outcome) -> !,
    pub spawn_faults: Vec<u32>,
    pub spawn_count: u32,
}

// Hot state, touched by the instrumentation callback. Only the baton holder
// accesses it, so plain statics are enough.
pub static mut ACTIVE: bool = false;
pub static mut STEP: u64 = 0;
pub static mut NEXT: u64 = 0;
pub static mut NOW: u64 = 0;
pub static mut EDGE_COST: u64 = 0;
/// the code being run is a part of the judge, not of the simulated program
pub static mut MUTE: bool = false;
static mut SIM: *mut Sim = std::ptr::null_mut();

/// execute (instrumented) code outside of the schedule: no step, no preemption, no time
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Guard(bool);
    impl Drop for Guard {
        fn drop(&mut self) {
            unsafe { MUTE = self.0 };
        }
    }
    let _guard = Guard(unsafe { MUTE });
    unsafe { MUTE = true };
    f()
}

const FAIR_GAP: u64 = 20_000;
pub const START_NS: u64 = 1_000_000_000_000;

pub fn active() -> bool {
    unsafe { ACTIVE }
}
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn now() -> u64 {
    unsafe { NOW }
}
pub fn step() -> u64 {
    unsafe { STEP }
}
pub fn cur_tid() -> u32 {
    sim().cur as u32
}

/// time which went by because of something else than an idle process
/// (CPU cost of the steps, stalls)
pub fn overhead_ns() -> u64 {
    let s = sim();
    now() - START_NS - s.idle_ns + s.stall_ns
}

/// Make the calling thread the thread 0 of a new simulation
pub fn start(cfg: SchedCfg, replay: Option<Vec<Dec>>, keep_log: bool, finish: fn(Outcome) -> !) {
    let mut rng = Rng::new(cfg.seed);
    let mut change_points = Vec::new();
    for _ in 0..cfg.pct {
        change_points.push(rng.range(1, 4000));
    }
    change_points.sort();
    let prio0 = rng.next() | (1 << 63);
    let mut s = Box::new(Sim {
        rng,
        threads: Vec::with_capacity(MAX_THREADS),
        cur: 0,
        seq: 0,
        now_base: START_NS,
        replay,
        replay_idx: 0,
        recorded: Vec::new(),
        change_points,
        next_fair: FAIR_GAP,
        next_preempt: 0,
        log_hash: 0xcbf2_9ce4_8422_2325,
        sched_hash: 0xcbf2_9ce4_8422_2325,
        log: if keep_log { Some(String::new()) } else { None },
        log_lines: 0,
        switches: 0,
        lone_yields: 0,
        spins: 0,
        preemptions: 0,
        stalls: 0,
        spurious: 0,
        stall_ns: 0,
        idle_ns: 0,
        panics: Vec::new(),
        finish,
        spawn_faults: Vec::new(),
        spawn_count: 0,
        cfg,
    });
    s.threads.push(Box::new(Tcb {
        gate: AtomicU32::new(0),
        st: St::Runnable,
        why: Why::Woken,
        stalled_until: 0,
        prio: prio0,
        pthread: 0,
        blocked_since: 0,
        wait_seq: 0,
        exit_time: 0,
    }));
    unsafe {
        SIM = Box::into_raw(s);
        STEP = 0;
        NOW = START_NS;
        EDGE_COST = sim().cfg.edge_cost;
    }
    sim().plan_preempt();
    sim().plan_next();
    unsafe {
        ACTIVE = true;
    }
}

/// Leave the simulation (the other threads stay parked for ever)
pub fn stop() {
    unsafe {
        ACTIVE = false;
    }
}

fn fnv(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x100_0000_01b3);
    *h ^= *h >> 29;
}

/// Record something observable in the log of the run
pub fn note(kind: &str, a: u64, b: u64) {
    let s = sim();
    for c in kind.bytes() {
        fnv(&mut s.log_hash, c as u64);
    }
    fnv(&mut s.log_hash, step());
    fnv(&mut s.log_hash, now());
    fnv(&mut s.log_hash, s.cur as u64);
    fnv(&mut s.log_hash, a);
    fnv(&mut s.log_hash, b);
    if let Some(log) = s.log.as_mut() {
        s.log_lines += 1;
        if s.log_lines < 4000 {
            let _ = writeln!(
                log,
                "step={} t={}us thread={} {} {} {}",
                unsafe { STEP },
                (unsafe { NOW } - START_NS) / 1000,
                s.cur,
                kind,
                a,
                b
            );
        }
    }
}
pub fn note_str(kind: &str, txt: &str) {
    let s = sim();
    for c in kind.bytes().chain(txt.bytes()) {
        fnv(&mut s.log_hash, c as u64);
    }
    fnv(&mut s.log_hash, step());
    fnv(&mut s.log_hash, now());
    fnv(&mut s.log_hash, s.cur as u64);
    if let Some(log) = s.log.as_mut() {
        s.log_lines += 1;
        if s.log_lines < 4000 {
            let _ = writeln!(
                log,
                "step={} t={}us thread={} {} {}",
                unsafe { STEP },
                (unsafe { NOW } - START_NS) / 1000,
                s.cur,
                kind,
                txt
            );
        }
    }
}

impl Sim {
    fn plan_preempt(&mut self) {
        if self.replay.is_some() {
            self.next_preempt = NEVER;
            return;
        }
        if self.cfg.pct > 0 {
            self.next_preempt = self
                .change_points
                .iter()
                .copied()
                .find(|c| *c > step())
                .unwrap_or(NEVER);
        } else if self.cfg.preempt > 0.0 {
            self.next_preempt = step() + self.rng.gap(self.cfg.preempt);
        } else {
            self.next_preempt = NEVER;
        }
    }
    fn plan_next(&mut self) {
        let mut n = self.cfg.step_limit.min(self.next_fair).min(self.next_preempt);
        if let Some(r) = &self.replay {
            while self.replay_idx < r.len() && r[self.replay_idx].step() < step() {
                self.replay_idx += 1;
            }
            if let Some(d) = r.get(self.replay_idx) {
                n = n.min(d.step());
            }
        }
        unsafe {
            NEXT = n;
        }
    }
    fn can_run(&self, t: usize) -> bool {
        let th = &self.threads[t];
        let now = now();
        if th.stalled_until > now {
            return false;
        }
        match th.st {
            St::Runnable => true,
            St::Futex { deadline, .. }
            | St::Sleep { deadline }
            | St::World { deadline, .. } => deadline <= now,
            St::Join { tid } => self.threads[tid as usize].st == St::Done,
            St::Quiesce { deadline } => deadline <= now,
            St::Done => false,
        }
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.threads.len()).filter(|t| self.can_run(*t)).collect()
    }
    fn next_deadline(&self, with_quiesce: bool) -> u64 {
        let mut best = NEVER;
        for th in &self.threads {
            let d = match th.st {
                St::Runnable => {
                    if th.stalled_until > now() {
                        th.stalled_until
                    } else {
                        NEVER
                    }
                }
                St::Futex { deadline, .. }
                | St::Sleep { deadline }
                | St::World { deadline, .. }
                | St::Quiesce { deadline } => {
                    if deadline == NEVER || (!with_quiesce && matches!(th.st, St::Quiesce { .. })) {
                        NEVER
                    } else {
                        deadline.max(th.stalled_until)
                    }
                }
                St::Join { tid } => {
                    if self.threads[tid as usize].st == St::Done {
                        th.stalled_until
                    } else {
                        NEVER
                    }
                }
                St::Done => NEVER,
            };
            best = best.min(d);
        }
        best
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, th) in self.threads.iter().enumerate() {
            let st = match th.st {
                St::Futex { deadline, .. } => format!(
                    "blocked on a lock/channel{}",
                    if deadline == NEVER { "" } else { " with a timeout" }
                ),
                St::World { kind, .. } => format!("waiting for {kind}"),
                St::Sleep { .. } => "sleeping".to_string(),
                St::Join { tid } => format!("joining thread {tid}"),
                St::Runnable => "runnable".to_string(),
                St::Quiesce { .. } => "waiting for quiescence".to_string(),
                St::Done => "done".to_string(),
            };
            let _ = write!(s, "[thread {i}: {st}]");
        }
        s
    }
    fn replayed_here(&mut self) -> Vec<Dec> {
        let mut v = Vec::new();
        if let Some(r) = &self.replay {
            while self.replay_idx < r.len() && r[self.replay_idx].step() <= step() {
                if r[self.replay_idx].step() == step() {
                    v.push(r[self.replay_idx]);
                }
                self.replay_idx += 1;
            }
        }
        v
    }
    /// Choose who runs next (time may jump). The current thread has its state set.
    /// `voluntary`: the current thread is runnable but it's a preemption
    fn choose(&mut self, preempt: bool, yielding: bool) -> usize {
        let cur = self.cur;
        let here = self.replayed_here();
        let replaying = self.replay.is_some();
        // faults first
        if replaying {
            for d in &here {
                match *d {
                    Dec::Stall { tid, ns, .. } => self.stall(tid as usize, ns),
                    Dec::Spurious { tid, .. } => self.spurious_wake(tid as usize),
                    _ => {}
                }
            }
        } else if preempt {
            if self.cfg.stall > 0.0 && self.stalls < 300 && self.rng.chance(self.cfg.stall) {
                let ns = 1 + self.rng.below(self.cfg.stall_max);
                let t = if self.rng.one_in(3) {
                    self.rng.usize(self.threads.len())
                } else {
                    cur
                };
                if self.threads[t].st != St::Done {
                    self.recorded.push(Dec::Stall {
                        step: step(),
                        tid: t as u32,
                        ns,
                    });
                    self.stall(t, ns);
                }
            }
            if self.cfg.spurious > 0.0 && self.rng.chance(self.cfg.spurious) {
                let c: Vec<usize> = (0..self.threads.len())
                    .filter(|t| matches!(self.threads[*t].st, St::Futex { .. }))
                    .collect();
                if !c.is_empty() {
                    let t = c[self.rng.usize(c.len())];
                    self.recorded.push(Dec::Spurious {
                        step: step(),
                        tid: t as u32,
                    });
                    self.spurious_wake(t);
                }
            }
        }
        loop {
            let cands = self.runnable();
            if cands.is_empty() {
                let d = self.next_deadline(true);
                if self.next_deadline(false) == NEVER {
                    // nobody will ever run: quiescence
                    for t in 0..self.threads.len() {
                        if let St::Quiesce { .. } = self.threads[t].st {
                            self.threads[t].st = St::Runnable;
                            self.threads[t].why = Why::Woken;
                            let jump = self.threads[t].stalled_until.saturating_sub(now());
                            self.idle_ns += jump;
                            unsafe {
                                NOW += jump;
                            }
                            return t;
                        }
                    }
                    let descr = self.describe();
                    unsafe { ACTIVE = false };
                    (self.finish)(Outcome::Stuck(descr));
                }
                // the process is idle: the clock jumps
                let jump = d.saturating_sub(now());
                self.idle_ns += jump;
                unsafe {
                    NOW = NOW.max(d);
                }
                continue;
            }
            if yielding && cands.len() == 1 && cands[0] == cur {
                // it's actively waiting for something that others, stalled or sleeping,
                // may do
                // (a bounded time, because it may also be about to block)
                let d = self.next_deadline(false);
                self.lone_yields += 1;
                if d != NEVER && d > now() && self.lone_yields > 16 {
                    let jump = (d - now()).min(1000 << (self.lone_yields - 16).min(20));
                    unsafe {
                        NOW += jump;
                    }
                    if d <= now() {
                        continue;
                    }
                }
            }
            // the default decision: go on with the same thread, unless it yields
            let default = if cands.contains(&cur) && !yielding {
                cur
            } else {
                // next one, in round robin
                *cands.iter().find(|t| **t > cur).unwrap_or(&cands[0])
            };
            let chosen = if replaying {
                here.iter()
                    .find_map(|d| match d {
                        Dec::Run { tid, .. } if cands.contains(&(*tid as usize)) => {
                            Some(*tid as usize)
                        }
                        _ => None,
                    })
                    .unwrap_or(default)
            } else if self.cfg.pct > 0 {
                if preempt || yielding {
                    // change point: the current thread gets the lowest priority
                    let low = self.rng.below(1 << 40);
                    self.threads[cur].prio = low;
                }
                *cands
                    .iter()
                    .max_by_key(|t| self.threads[**t].prio)
                    .unwrap()
            } else if self.cfg.preempt == 0.0 {
                // no noise at all: default decision, except for forced ones
                if cands.contains(&cur) && !yielding {
                    cur
                } else {
                    cands[self.rng.usize(cands.len())]
                }
            } else if preempt && cands.len() > 1 && !self.rng.one_in(4) {
                // really change
                let others: Vec<usize> = cands.iter().copied().filter(|t| *t != cur).collect();
                others[self.rng.usize(others.len())]
            } else {
                cands[self.rng.usize(cands.len())]
            };
            if chosen != default && !replaying {
                self.recorded.push(Dec::Run {
                    step: step(),
                    tid: chosen as u32,
                });
            }
            return chosen;
        }
    }
    fn stall(&mut self, t: usize, ns: u64) {
        if t < self.threads.len() {
            self.stalls += 1;
            self.stall_ns += ns;
            let until = now() + ns;
            let th = &mut self.threads[t];
            th.stalled_until = th.stalled_until.max(until);
            note("stall", t as u64, ns);
        }
    }
    fn spurious_wake(&mut self, t: usize) {
        if t < self.threads.len() {
            if let St::Futex { .. } = self.threads[t].st {
                self.spurious += 1;
                self.threads[t].st = St::Runnable;
                self.threads[t].why = Why::Woken;
                note("spurious_wake", t as u64, 0);
            }
        }
    }
    fn resume(&mut self, t: usize) {
        let th = &mut self.threads[t];
        match th.st {
            St::Runnable | St::Done => {}
            St::Join { .. } => {
                th.st = St::Runnable;
                th.why = Why::Woken;
            }
            _ => {
                // it runs because its deadline is reached
                th.st = St::Runnable;
                th.why = Why::TimedOut;
            }
        }
    }
    fn dispatch(&mut self, preempt: bool, yielding: bool, exiting: bool) {
        let me = self.cur;
        let next = self.choose(preempt, yielding);
        if self.next_preempt <= step() {
            self.plan_preempt();
        }
        if next != me || step() >= self.next_fair {
            self.next_fair = step() + FAIR_GAP;
        }
        self.plan_next();
        self.resume(next);
        if next == me {
            return;
        }
        self.switches += 1;
        self.lone_yields = 0;
        if preempt {
            self.preemptions += 1;
        }
        fnv(&mut self.sched_hash, (me as u64) << 32 | next as u64);
        fnv(&mut self.sched_hash, unsafe { LAST_EDGE } as u64);
        self.cur = next;
        self.wake_gate(next);
        if !exiting {
            self.wait_gate(me);
        }
    }
    fn wake_gate(&self, t: usize) {
        let g = &self.threads[t].gate;
        g.store(1, Ordering::Release);
        crate::sys::real_futex_wake(g);
    }
    fn wait_gate(&self, t: usize) {
        let g: *const AtomicU32 = &self.threads[t].gate;
        let g = unsafe { &*g };
        while g.swap(0, Ordering::Acquire) == 0 {
            crate::sys::real_futex_wait(g, 0);
        }
    }
}

pub static mut LAST_EDGE: u32 = 0;

/// slow path of a step: something must be decided
#[inline(never)]
pub fn slow_step() {
    let s = sim();
    if step() >= s.cfg.step_limit {
        let descr = s.describe();
        unsafe { ACTIVE = false };
        (s.finish)(Outcome::StepLimit(descr));
    }
    let fair = step() >= s.next_fair;
    if fair {
        // burning CPU for long takes time
        unsafe { NOW += 1_000_000 };
    }
    if s.threads.iter().filter(|t| t.st != St::Done).count() < 2 {
        if fair {
            s.next_fair = step() + FAIR_GAP;
        }
        if s.next_preempt <= step() {
            s.plan_preempt();
        }
        // a stall may hit a single thread too
        s.replayed_here();
        s.plan_next();
        return;
    }
    s.dispatch(true, fair, false);
}

/// A step at a seam: a preemption point
pub fn point() {
    if !active() || unsafe { MUTE } {
        return;
    }
    unsafe {
        STEP += 1;
        NOW += seam_cost();
        if STEP >= NEXT {
            slow_step();
        }
    }
}

fn seam_cost() -> u64 {
    let c = sim().cfg.seam_cost;
    if c == 0 {
        0
    } else {
        // deterministic, not drawn from the generator: same in replays
        (step().wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) % c
    }
}

/// the current thread uses some time
pub fn spend(ns: u64) {
    unsafe {
        NOW += ns;
    }
}

/// The current thread gives its turn
pub fn yield_now() {
    unsafe {
        STEP += 1;
        NOW += seam_cost();
    }
    let s = sim();
    if step() >= s.cfg.step_limit {
        slow_step();
    }
    s.dispatch(false, true, false);
}

/// A thread spins in crossbeam, waiting for what another one started
#[no_mangle]
fn __termsim_spin() {
    if !active() {
        return;
    }
    let s = sim();
    s.spins += 1;
    if s.spins % 4 == 0 {
        yield_now();
    } else {
        point();
    }
}

/// Block the current thread until it's woken up or the deadline is reached
pub fn block(st: St) -> Why {
    unsafe {
        STEP += 1;
        NOW += seam_cost();
    }
    let s = sim();
    if step() >= s.cfg.step_limit {
        slow_step();
    }
    let me = s.cur;
    s.lone_yields = 0;
    s.seq += 1;
    let seq = s.seq;
    let th = &mut s.threads[me];
    th.st = st;
    th.blocked_since = now();
    th.wait_seq = seq;
    s.dispatch(false, false, false);
    s.threads[me].why
}

pub fn sleep_ns(ns: u64) {
    block(St::Sleep {
        deadline: now().saturating_add(ns).min(NEVER - 1),
    });
}

/// wait for the world to have something, return false on timeout
pub fn wait_world(kind: &'static str, deadline: Option<u64>) -> bool {
    block(St::World {
        kind,
        deadline: deadline.unwrap_or(NEVER),
    }) == Why::Woken
}

/// wake the threads waiting for this kind of thing
pub fn wake_world(kind: &'static str) {
    let s = sim();
    for th in s.threads.iter_mut() {
        if let St::World { kind: k, .. } = th.st {
            if k == kind {
                th.st = St::Runnable;
                th.why = Why::Woken;
            }
        }
    }
}

/// Wait until no other thread can run and no timer is armed.
/// return false if it didn't happen in this simulated time
pub fn quiesce(max_ns: u64) -> bool {
    let deadline = if max_ns == NEVER {
        NEVER
    } else {
        now().saturating_add(max_ns)
    };
    block(St::Quiesce { deadline }) == Why::Woken
}

// ---- futexes

pub fn futex_wait(addr: usize, expected: u32, deadline: Option<u64>) -> Result<(), i32> {
    point();
    let v = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if v != expected {
        return Err(libc::EAGAIN);
    }
    match block(St::Futex {
        addr,
        deadline: deadline.unwrap_or(NEVER),
    }) {
        Why::Woken => Ok(()),
        Why::TimedOut => Err(libc::ETIMEDOUT),
    }
}

pub fn futex_wake(addr: usize, max: u32) -> u32 {
    let s = sim();
    let mut n = 0;
    while n < max {
        // first in, first out
        let mut best: Option<usize> = None;
        for (i, th) in s.threads.iter().enumerate() {
            if let St::Futex { addr: a, .. } = th.st {
                if a == addr && best.map_or(true, |b| s.threads[b].wait_seq > th.wait_seq) {
                    best = Some(i);
                }
            }
        }
        match best {
            Some(i) => {
                s.threads[i].st = St::Runnable;
                s.threads[i].why = Why::Woken;
                n += 1;
            }
            None => break,
        }
    }
    point();
    n
}

// ---- threads

/// Register a new thread, which will wait for its turn
/// The list of threads must never be moved in memory: a new thread looks for
/// its gate while the one which has spawned it goes on
const MAX_THREADS: usize = 4096;

pub fn new_thread() -> u32 {
    let s = sim();
    if s.threads.len() >= MAX_THREADS {
        crate::driver::harness_error("too many threads");
    }
    let tid = s.threads.len() as u32;
    let prio = if s.replay.is_some() {
        0
    } else {
        s.rng.next() | (1 << 63)
    };
    s.threads.push(Box::new(Tcb {
        gate: AtomicU32::new(0),
        st: St::Runnable,
        why: Why::Woken,
        stalled_until: 0,
        prio,
        pthread: 0,
        blocked_since: 0,
        wait_seq: 0,
        exit_time: 0,
    }));
    note("spawn", tid as u64, 0);
    tid
}
pub fn unregister_last_thread() {
    let s = sim();
    s.threads.pop();
}
/// first thing done in a new thread
pub fn thread_enter(tid: u32) {
    let s = sim();
    s.wait_gate(tid as usize);
}
/// last thing done in a thread
pub fn thread_exit(tid: u32) {
    if !active() {
        return;
    }
    let s = sim();
    note("exit", tid as u64, 0);
    s.threads[tid as usize].st = St::Done;
    s.threads[tid as usize].exit_time = now();
    unsafe {
        STEP += 1;
    }
    s.dispatch(false, false, true);
}
pub fn join_thread(tid: u32) {
    let s = sim();
    point();
    if s.threads[tid as usize].st != St::Done {
        block(St::Join { tid });
    }
}
pub fn find_thread(pthread: usize) -> Option<u32> {
    let s = sim();
    s.threads
        .iter()
        .rposition(|t| t.pthread == pthread)
        .map(|i| i as u32)
}
pub fn thread_count() -> usize {
    sim().threads.len()
}
pub fn is_done(tid: u32) -> bool {
    sim().threads[tid as usize].st == St::Done
}
pub fn exit_time(tid: u32) -> u64 {
    sim().threads[tid as usize].exit_time
}
pub fn state_of(tid: u32) -> St {
    sim().threads[tid as usize].st
}

/// the callback of the instrumented edges
#[inline(always)]
pub fn edge(id: u32) {
    unsafe {
        if !ACTIVE || MUTE {
            return;
        }
        LAST_EDGE = id;
        STEP += 1;
        NOW += EDGE_COST;
        if STEP >= NEXT {
            slow_step();
        }
    }
}
