//! Simulation of an application using a `Ticker`: beams started, stopped,
//! dropped, with a consumer of the ticks.

use {
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        sync::{
            Arc,
            Mutex,
        },
        time::Duration,
    },
    termimad::Ticker,
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum TOp {
    Once { after_ns: u64 },
    Several { period_ns: u64, count: u64 },
    Infinite { period_ns: u64 },
    /// stop the n-th beam (modulo), whatever its state
    Stop { beam: u64 },
    /// stop an id which was never given
    StopUnknown { id: u64 },
    StopAll,
    Sleep { us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TkSc {
    pub sched: SchedCfg,
    pub ops: Vec<TOp>,
    /// ops done by a second thread sharing the ticker
    pub other_ops: Vec<TOp>,
    /// a thread dedicated to the ticks, instead of the main thread
    pub consumer: bool,
    /// wait for the bounded beams before the end
    pub wait_end: bool,
    /// the application keeps a receiver after the ticker is dropped
    pub keep_receiver: bool,
}

#[derive(Clone, Debug)]
struct Start {
    id: usize,
    tid: u32,
    period: u64,
    count: Option<u64>,
    before: u64,
    after: u64,
}
#[derive(Clone, Debug)]
struct Stop {
    /// None: all of them (those started before the `started` th)
    beam: Option<usize>,
    started: usize,
    before: u64,
    after: u64,
}
#[derive(Clone, Debug)]
struct Tick {
    beam: usize,
    time: u64,
    overhead: u64,
}

#[derive(Default)]
struct Hist {
    starts: Vec<Start>,
    stops: Vec<Stop>,
    ticks: Vec<Tick>,
    /// (number of stops done, number of ticks received) after the draining following a stop
    drained: Vec<(usize, usize)>,
    consumer_end: Option<u64>,
    consumer_end_overhead: u64,
    disconnected: bool,
    before_drop: u64,
    drop: u64,
    drop_overhead: u64,
    drop_ticks: usize,
    waited: bool,
    wait_from: u64,
    wait_to: u64,
    wait_overhead: u64,
    end: bool,
    states: Vec<(bool, u64)>,
    end_overhead: u64,
}
fn hist() -> &'static mut Hist {
    driver::state::<Hist>()
}

fn got(beam: u32) {
    let h = hist();
    h.ticks.push(Tick {
        beam: beam as usize,
        time: sched::now(),
        overhead: sched::overhead_ns(),
    });
    sched::note("tick", beam as u64, 0);
    driver::fingerprint(beam as u64);
    count("ticks_received", 1);
    driver::nontrivial();
    if h.drop > 0 && h.ticks.len() > h.drop_ticks + 2000 {
        // a flood
        driver::end_run("ticks go on after the drop of the ticker");
    }
}

fn drain(rx: &crossbeam::channel::Receiver<u32>) {
    while let Ok(b) = rx.try_recv() {
        got(b);
    }
}

fn do_op(op: &TOp, ticker: &Mutex<Ticker<u32>>, inline: bool) {
    match *op {
        TOp::Sleep { us } => {
            std::thread::sleep(Duration::from_micros(us));
            if inline {
                let t = ticker.lock().unwrap();
                drain(&t.tick_receiver);
            }
        }
        TOp::Once { .. } | TOp::Several { .. } | TOp::Infinite { .. } => {
            let mut t = ticker.lock().unwrap();
            let idx = hist().starts.len() as u32;
            let before = sched::now();
            let tid = sched::thread_count() as u32;
            let (id, period, count) = match *op {
                TOp::Once { after_ns } => (
                    t.tick_once(idx, Duration::from_nanos(after_ns)),
                    after_ns,
                    Some(1),
                ),
                TOp::Several { period_ns, count } => (
                    t.tick_several_times(idx, Duration::from_nanos(period_ns), count as usize),
                    period_ns,
                    Some(count),
                ),
                TOp::Infinite { period_ns } => (
                    t.tick_infinitely(idx, Duration::from_nanos(period_ns)),
                    period_ns,
                    None,
                ),
                _ => unreachable!(),
            };
            hist().starts.push(Start {
                id,
                tid,
                period,
                count,
                before,
                after: sched::now(),
            });
            sched::note("beam", idx as u64, period);
        }
        TOp::Stop { beam } => {
            let mut t = ticker.lock().unwrap();
            let n = hist().starts.len();
            if n == 0 {
                return;
            }
            let b = beam as usize % n;
            let before = sched::now();
            let id = hist().starts[b].id;
            t.stop_beam(id);
            sched::note("stop", b as u64, 0);
            hist().stops.push(Stop {
                beam: Some(b),
                started: n,
                before,
                after: sched::now(),
            });
            count("beams_stopped", 1);
            if inline {
                drain(&t.tick_receiver);
                let h = hist();
                h.drained.push((h.stops.len(), h.ticks.len()));
            }
        }
        TOp::StopUnknown { id } => {
            let mut t = ticker.lock().unwrap();
            let id = 1000 + id as usize;
            count("unknown_ids_stopped", 1);
            t.stop_beam(id);
        }
        TOp::StopAll => {
            let mut t = ticker.lock().unwrap();
            let n = hist().starts.len();
            let before = sched::now();
            t.stop_all_beams();
            sched::note("stop_all", 0, 0);
            hist().stops.push(Stop {
                beam: None,
                started: n,
                before,
                after: sched::now(),
            });
            count("all_beams_stopped", 1);
            if inline {
                drain(&t.tick_receiver);
                let h = hist();
                h.drained.push((h.stops.len(), h.ticks.len()));
            }
        }
    }
}

fn run_body(sc: &TkSc) {
    let ticker = Ticker::<u32>::new();
    let rx = ticker.tick_receiver.clone();
    let ticker = Arc::new(Mutex::new(ticker));
    let consumer = if sc.consumer {
        let rx = rx.clone();
        Some(std::thread::spawn(move || {
            while let Ok(b) = rx.recv() {
                got(b);
            }
            hist().disconnected = true;
            hist().consumer_end = Some(sched::now());
            hist().consumer_end_overhead = sched::overhead_ns();
        }))
    } else {
        None
    };
    let other = if sc.other_ops.is_empty() {
        None
    } else {
        let ops = sc.other_ops.clone();
        let ticker = Arc::clone(&ticker);
        let inline = !sc.consumer;
        Some(std::thread::spawn(move || {
            for op in &ops {
                do_op(op, &ticker, inline);
            }
        }))
    };
    for op in &sc.ops {
        do_op(op, &ticker, !sc.consumer);
    }
    if let Some(other) = other {
        let _ = other.join();
    }
    if sc.wait_end {
        let max = hist()
            .starts
            .iter()
            .filter_map(|s| s.count.map(|c| s.period.saturating_mul(c)))
            .max()
            .unwrap_or(0);
        let from = sched::now();
        hist().wait_from = from;
        std::thread::sleep(Duration::from_nanos(max + 1_000_000));
        if !sc.consumer {
            let t = ticker.lock().unwrap();
            drain(&t.tick_receiver);
        }
        hist().waited = true;
        hist().wait_to = sched::now();
        hist().wait_overhead = sched::overhead_ns();
    }
    let ticker = match Arc::try_unwrap(ticker) {
        Ok(t) => t.into_inner().unwrap(),
        Err(_) => driver::harness_error("ticker still shared"),
    };
    let rx = if sc.keep_receiver { Some(rx) } else { None };
    hist().before_drop = sched::now();
    sched::note("drop_ticker", 0, 0);
    drop(ticker);
    hist().drop = sched::now();
    hist().drop_overhead = sched::overhead_ns();
    hist().drop_ticks = hist().ticks.len();
    if let Some(rx) = &rx {
        if !sc.consumer {
            drain(rx);
            hist().drop_ticks = hist().ticks.len();
            // up to the end of the beams
            while let Ok(b) = rx.recv() {
                got(b);
            }
            hist().disconnected = true;
            hist().consumer_end = Some(sched::now());
            hist().consumer_end_overhead = sched::overhead_ns();
        }
    }
    if let Some(c) = consumer {
        let _ = c.join();
    }
    sched::quiesce(u64::MAX);
    let h = hist();
    h.end = true;
    h.end_overhead = sched::overhead_ns();
    for s in &h.starts {
        h.states.push((sched::is_done(s.tid), sched::exit_time(s.tid)));
    }
}

// ---------------------------------------------------------------- judges

fn ticks_of(h: &Hist, b: usize) -> Vec<&Tick> {
    h.ticks.iter().filter(|t| t.beam == b).collect()
}
/// when the beam was first asked to stop (before, after)
fn stopped(h: &Hist, b: usize) -> Option<(u64, u64)> {
    h.stops
        .iter()
        .find(|s| s.beam == Some(b) || (s.beam.is_none() && b < s.started))
        .map(|s| (s.before, s.after))
}

fn sound(o: &Outcome) -> Verdict {
    match o {
        Outcome::Done => {
            for (tid, p) in &sched::sim().panics {
                return viol("panic", format!("thread {tid} panicked: {p}"));
            }
            Ok(())
        }
        Outcome::Panicked(m) => viol("panic", format!("a call of the application panicked: {m}")),
        Outcome::Stuck(s) => viol("stuck", format!("nothing can run any more: {s}")),
        Outcome::StepLimit(s) => viol("livelock", format!("no progress: {s}")),
    }
}

fn judge_counts(_sc: &TkSc, o: &Outcome) -> Verdict {
    let h = hist();
    for t in &h.ticks {
        ensure!(
            t.beam < h.starts.len() + 2,
            "foreign-payload",
            "a tick with payload {} was received but no beam has it",
            t.beam
        );
    }
    for (b, s) in h.starts.iter().enumerate() {
        let ticks = ticks_of(h, b);
        let n = ticks.len() as u64;
        if let Some(c) = s.count {
            ensure!(
                n <= c,
                "too-many-ticks",
                "beam {b} had to tick {c} times, {n} ticks were received"
            );
        }
        let stop = stopped(h, b);
        for (k, t) in ticks.iter().enumerate() {
            let due = s.period.saturating_mul(k as u64 + 1);
            ensure!(
                t.time >= s.before.saturating_add(due),
                "early-tick",
                "tick {} of beam {b} (period {}ns) came {}ns after its start",
                k + 1,
                s.period,
                t.time - s.before
            );
        }
        if h.waited {
            // missing ticks
            let stop_time = stop.map_or(h.wait_to, |s| s.0.min(h.wait_to));
            let lived = stop_time.saturating_sub(s.after);
            let useful = lived.saturating_sub(h.wait_overhead);
            // a tick due when the stop comes may be lost
            let due = if s.period == 0 {
                if s.count.is_some() && stop.is_none() && useful > 0 {
                    s.count.unwrap()
                } else {
                    0
                }
            } else {
                let d = if useful % s.period == 0 && useful > 0 {
                    useful / s.period - 1
                } else {
                    useful / s.period
                };
                s.count.map_or(d, |c| c.min(d))
            };
            let by = ticks
                .iter()
                .filter(|t| t.time <= h.wait_to)
                .count() as u64;
            ensure!(
                by >= due,
                "missing-tick",
                "beam {b} (period {}ns, count {:?}) ran for {}ns but only {by} ticks came instead of at least {due}",
                s.period,
                s.count,
                lived
            );
            if let (Some(c), None) = (s.count, stop) {
                if useful >= s.period.saturating_mul(c) + 1 {
                    count("complete_beams", 1);
                    ensure!(
                        n == c,
                        "missing-tick",
                        "beam {b} had the time to tick {c} times, {n} ticks were received"
                    );
                }
            }
        }
    }
    // ticks aren't late, but for what the other threads and the stalls cost
    if _sc.consumer {
        for (b, s) in h.starts.iter().enumerate() {
            for (k, t) in ticks_of(h, b).iter().enumerate() {
                let due = s.after + s.period.saturating_mul(k as u64 + 1);
                ensure!(
                    t.time <= due + t.overhead,
                    "late-tick",
                    "tick {} of beam {b} (period {}ns) came {}ns late while stalls and CPU only explain {}ns",
                    k + 1,
                    s.period,
                    t.time - due,
                    t.overhead
                );
                count("tick_dates_checked", 1);
            }
        }
    }
    let _ = h.wait_from;
    sound(o)
}

fn judge_stops(sc: &TkSc, o: &Outcome) -> Verdict {
    let h = hist();
    // ids are unique
    for (i, s) in h.starts.iter().enumerate() {
        for t in &h.starts[..i] {
            ensure!(
                s.id != t.id,
                "same-id",
                "two beams got the same id {}",
                s.id
            );
        }
    }
    if !sc.consumer {
        for (stops, ticks) in &h.drained {
            let st = &h.stops[*stops - 1];
            let beams: Vec<usize> = match st.beam {
                Some(b) => vec![b],
                None => (0..st.started).collect(),
            };
            for b in beams {
                let after = h.ticks[*ticks..].iter().filter(|t| t.beam == b).count();
                ensure!(
                    after <= 1,
                    "tick-after-stop",
                    "{after} ticks of beam {b} were sent after it was stopped"
                );
                count("stops_checked", 1);
                if after == 1 {
                    count("in_flight_tick_after_stop", 1);
                }
            }
        }
        if h.end {
            for b in 0..h.starts.len() {
                if stopped(h, b).is_some() {
                    continue;
                }
                let after = h.ticks[h.drop_ticks..].iter().filter(|t| t.beam == b).count();
                ensure!(
                    after <= 1 || !sc.keep_receiver,
                    "tick-after-drop",
                    "{after} ticks of beam {b} were sent after the ticker was dropped"
                );
            }
        }
    }
    // the other beams aren't changed
    judge_counts(sc, o)
}

fn judge_end(sc: &TkSc, o: &Outcome) -> Verdict {
    let h = hist();
    sound(o)?;
    if !h.end {
        return Ok(());
    }
    for (b, s) in h.starts.iter().enumerate() {
        let (done, exit) = h.states[b];
        ensure!(
            done,
            "thread-not-ended",
            "the thread of beam {b} is still there after its ticker was dropped"
        );
        let mut limit = h.drop;
        if let Some((_, after)) = stopped(h, b) {
            limit = limit.min(after);
            count("ended_by_a_stop", 1);
        }
        if let Some(c) = s.count {
            let natural = s.after.saturating_add(s.period.saturating_mul(c));
            limit = limit.min(natural);
        }
        ensure!(
            exit <= limit.saturating_add(h.end_overhead),
            "thread-ends-late",
            "the thread of beam {b} (period {}ns) ended {}ns after it should have, while stalls and CPU only explain {}ns",
            s.period,
            exit - limit,
            h.end_overhead
        );
        count("thread_ends_checked", 1);
    }
    if sc.consumer || sc.keep_receiver {
        ensure!(
            h.disconnected,
            "channel-not-closed",
            "the receiver of ticks isn't disconnected after the drop of the ticker"
        );
        if let Some(e) = h.consumer_end {
            ensure!(
                e <= h.drop + h.consumer_end_overhead,
                "channel-closed-late",
                "the receiver of ticks was disconnected {}ns after the drop of the ticker",
                e - h.drop
            );
            count("disconnections_checked", 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation

fn gen_period(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 1,
        1 => rng.range(1, 1000),
        2 => rng.range(1000, 1_000_000),
        3 => 1_000_000,
        4 => 10_000_000,
        5 => rng.range(1_000_000, 900_000_000),
        6 => 250_000_000,
        _ => *rng.pick(&[3_600_000_000_000, 3_600_000_000_000, 10_800_000_000_000, 90_000_000_000_000]),
    }
}

fn gen_ops(rng: &mut Rng, n: u64, only_stops: bool) -> Vec<TOp> {
    let mut ops = Vec::new();
    // infinite beams must not give millions of ticks
    let slow = rng.one_in(2);
    let mut min_period = u64::MAX;
    if !only_stops && rng.one_in(6) {
        // many beams at once, some of them being stopped
        let beams = rng.range(3, 7);
        for _ in 0..beams {
            let period = gen_period(rng).max(1_000_000);
            ops.push(if rng.one_in(3) {
                TOp::Several {
                    period_ns: period,
                    count: rng.range(1, 12),
                }
            } else {
                min_period = min_period.min(period);
                TOp::Infinite { period_ns: period }
            });
        }
        for _ in 0..rng.range(1, beams) {
            if rng.one_in(3) {
                ops.push(TOp::Sleep { us: min_period.min(100_000_000) / 500 });
            }
            ops.push(TOp::Stop { beam: rng.below(beams) });
        }
        ops.push(TOp::Sleep { us: min_period.min(100_000_000) / 1000 * rng.range(1, 12) });
    }
    for _ in 0..n {
        let mut period = gen_period(rng);
        if slow {
            period = period.max(1_000_000);
        }
        let op = match rng.below(if only_stops { 6 } else { 12 }) {
            0 | 1 | 2 => {
                let cap = if min_period == u64::MAX {
                    2_000_000_000
                } else {
                    min_period.saturating_mul(30).min(2_000_000_000)
                };
                let us = if min_period != u64::MAX && rng.one_in(3) {
                    // exactly at the time of a tick
                    min_period.saturating_mul(rng.range(1, 4)).min(cap) / 1000
                } else {
                    rng.below(cap + 1) / 1000
                };
                TOp::Sleep { us }
            }
            3 => TOp::Stop { beam: rng.below(8) },
            4 => TOp::StopUnknown { id: rng.below(50) },
            5 => {
                if rng.one_in(3) {
                    TOp::StopAll
                } else {
                    TOp::Stop { beam: rng.below(8) }
                }
            }
            6 | 7 => TOp::Once { after_ns: period },
            8 | 9 => TOp::Several {
                period_ns: if rng.one_in(12) { 0 } else { period },
                count: rng.size(12),
            },
            _ => {
                let p = period.max(1000);
                min_period = min_period.min(p);
                TOp::Infinite { period_ns: p }
            }
        };
        ops.push(op);
    }
    ops
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Counts,
    Stops,
    End,
}

pub struct TickProp {
    pub id: &'static str,
    pub focus: Focus,
    pub rule: &'static str,
}

impl Prop for TickProp {
    type Sc = TkSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> TkSc {
        let mut sched = SchedCfg::swarm(rng);
        sched.step_limit = 2_000_000;
        if idx % 6 == 0 {
            sched = SchedCfg {
                step_limit: sched.step_limit,
                ..SchedCfg::calm(sched.seed)
            };
        }
        if sched.stall_max > 300_000_000 {
            sched.stall_max = 10_000_000;
        }
        let max = if tier == Tier::Thorough { 24 } else { 12 };
        let n = rng.range(1, max);
        let mut ops = gen_ops(rng, n, false);
        // now and then, a beam with really many ticks
        let long = if idx % 4096 == 7 {
            rng.range(65_530, 66_500)
        } else if idx % 256 == 9 {
            rng.range(250, 3_000)
        } else {
            0
        };
        if long > 0 {
            let period = *rng.pick(&[1_000, 1_000_000, 50_000_000]);
            ops.truncate(rng.usize(3));
            ops.retain(|o| !matches!(o, TOp::Infinite { .. }));
            ops.push(TOp::Several { period_ns: period, count: long });
            sched.step_limit += long * 400;
            sched.stall_max = sched.stall_max.min(period * 20);
        }
        // an infinite beam with a short period can't be kept for long
        let infinite = ops
            .iter()
            .filter_map(|o| match o {
                TOp::Infinite { period_ns } => Some(*period_ns),
                _ => None,
            })
            .min()
            .unwrap_or(u64::MAX);
        if infinite != u64::MAX {
            sched.stall_max = sched.stall_max.min(infinite.saturating_mul(20));
        }
        let bounded_len = ops
            .iter()
            .filter_map(|o| match o {
                TOp::Once { after_ns } => Some(*after_ns),
                TOp::Several { period_ns, count } => Some(period_ns.saturating_mul(*count)),
                _ => None,
            })
            .max()
            .unwrap_or(0);
        let can_wait = infinite == u64::MAX || bounded_len <= infinite.saturating_mul(200);
        let other_ops = if rng.one_in(4) {
            let n = rng.range(1, 6);
            gen_ops(rng, n, true)
                .into_iter()
                .map(|o| match o {
                    TOp::Sleep { us } => TOp::Sleep {
                        us: if infinite == u64::MAX {
                            us
                        } else {
                            us.min(infinite.saturating_mul(30) / 1000)
                        },
                    },
                    o => o,
                })
                .collect()
        } else {
            Vec::new()
        };
        TkSc {
            sched,
            ops,
            other_ops,
            consumer: match self.focus {
                Focus::Counts => rng.one_in(2),
                Focus::Stops => rng.one_in(4),
                Focus::End => rng.chance(0.7),
            },
            wait_end: can_wait
                && ((long > 0 && self.focus == Focus::Counts) || rng.chance(0.8))
                && (self.focus != Focus::End || rng.one_in(4)),
            keep_receiver: rng.one_in(2),
        }
    }
    fn sched(&self, sc: &TkSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &TkSc) {
        run_body(sc);
    }
    fn judge(&self, sc: &TkSc, o: &Outcome) -> Verdict {
        match self.focus {
            Focus::Counts => judge_counts(sc, o),
            Focus::Stops => judge_stops(sc, o),
            Focus::End => judge_end(sc, o),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad::Ticker and its beam threads",
            "crossbeam channels",
            "std threads, mutexes, parking, Instant and sleep (over the simulated clock)",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &["futex, clock, sleep, thread creation order (seeded scheduler)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "context switches happen at control-flow edges of termimad (generic crossbeam code included), in crossbeam spin loops and at libc calls; memory is sequentially consistent",
            "creating a thread doesn't fail",
        ]
    }
}
