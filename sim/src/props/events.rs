//! Simulation of an application around an `EventSource`: a simulated user and
//! terminal on one side, consumer and observer threads on the other one.

use {
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            self,
            term,
            Ev,
            In,
            KeyName,
            MouseName,
            OutFault,
        },
    },
    crossbeam::channel::{
        Receiver,
        RecvTimeoutError,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        sync::{
            atomic::{
                AtomicBool,
                Ordering,
            },
            Arc,
        },
        time::{
            Duration,
            Instant,
        },
    },
    termimad::{
        crossterm::event::*,
        *,
    },
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reaction {
    /// time taken by the application to handle the event
    pub think_us: u64,
    /// drain the escape sequence channel
    pub seqs: bool,
    /// additional unblock(false), nobody asked for
    pub extra_ack: bool,
    /// when there are several consumers: let another thread do the unblocking
    pub hand_over: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Quit {
    /// unblock(true) as answer to an event, all handles being kept
    Answer,
    /// everything dropped instead of answering an event
    DropOnEvent,
    /// source dropped, receiver kept, instead of answering an event
    DropSourceOnEvent,
    /// the application panics while handling an event
    PanicOnEvent,
    /// unblock(true) while the source waits for input
    Idle,
    /// everything dropped while the source waits for input
    DropIdle,
    /// source dropped, receiver kept, while the source waits for input
    DropSourceIdle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub combine: bool,
    pub mandate: bool,
    pub discard_raw: bool,
    pub discard_move: bool,
    pub discard_drag: bool,
    pub kitty: bool,
    pub kitty_query_err: bool,
    pub enable_raw_err: bool,
    /// faults of the standard output while the keyboard flags are pushed
    pub out_faults: Vec<OutFault>,
    pub input: Vec<(u64, In)>,
    pub reactions: Vec<Reaction>,
    /// number of events after which the application quits on event
    pub quit_after: u32,
    pub quit: Quit,
    /// what the user types after the application is gone
    pub late_input: Vec<(u64, In)>,
    pub consumers: u8,
    pub observers: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvSc {
    pub sched: SchedCfg,
    pub lives: Vec<Life>,
}

#[derive(Clone, Debug)]
pub struct RecvRec {
    pub step: u64,
    pub now: u64,
    pub ev: TimedEvent,
    pub count: usize,
    pub acks_before: usize,
}

/// What happened during a life of an event source
pub struct LifeHist {
    pub built: Option<bool>,
    pub build_step: u64,
    pub combining: bool,
    pub raw_after_build: bool,
    pub kitty_after_build: i64,
    pub first_read: usize,
    pub first_read_start: usize,
    pub tids: (u32, u32),
    pub recvs: Vec<RecvRec>,
    /// as displayed
    pub seqs_texts: Vec<String>,
    pub seqs: Vec<(u64, Vec<KeyEvent>)>,
    pub seqs_disconnected: bool,
    pub events_disconnected: Option<bool>,
    /// recv said "disconnected" before any quit
    pub closed_early: bool,
    /// (step, quit)
    pub acks: Vec<(u64, bool)>,
    pub obs: Vec<(u64, u32, usize)>,
    /// the application saw no event for a very long time
    pub idle_reached: bool,
    pub extra_acks: usize,
    pub stop_here: bool,
    pub idle_step: u64,
    pub reads_at_idle: usize,
    pub quit_step: Option<u64>,
    pub quit_done_step: Option<u64>,
    pub final_count: Option<usize>,
    pub drop_step: Option<u64>,
    pub raw_before_drop: bool,
    pub raw_after_drop: Option<bool>,
    pub late_step: Option<u64>,
    pub end: Option<EndState>,
    pub end_count: Option<usize>,
}
pub struct EndState {
    pub step: u64,
    pub threads_done: bool,
    pub states: String,
    pub kitty: (i64, i64),
    pub raw: bool,
    pub quiescent: bool,
    pub reads: usize,
    pub read_starts: usize,
}

impl Default for LifeHist {
    fn default() -> Self {
        LifeHist {
            built: None,
            build_step: 0,
            combining: false,
            raw_after_build: false,
            kitty_after_build: 0,
            first_read: 0,
            first_read_start: 0,
            tids: (0, 0),
            recvs: Vec::new(),
            seqs_texts: Vec::new(),
            seqs: Vec::new(),
            seqs_disconnected: false,
            events_disconnected: None,
            closed_early: false,
            acks: Vec::new(),
            obs: Vec::new(),
            idle_reached: false,
            extra_acks: 0,
            stop_here: false,
            idle_step: 0,
            reads_at_idle: 0,
            quit_step: None,
            quit_done_step: None,
            final_count: None,
            drop_step: None,
            raw_before_drop: false,
            raw_after_drop: None,
            late_step: None,
            end: None,
            end_count: None,
        }
    }
}

#[derive(Default)]
pub struct Hist {
    pub start: Option<Instant>,
    pub start_ns: u64,
    pub lives: Vec<LifeHist>,
    pub completed: bool,
}

fn hist() -> &'static mut Hist {
    driver::state::<Hist>()
}
fn life() -> &'static mut LifeHist {
    hist().lives.last_mut().unwrap()
}

const IDLE_TIMEOUT: Duration = Duration::from_secs(3_600);

// ---------------------------------------------------------------- body

// (the type of the sequences isn't nameable out of termimad)
macro_rules! drain_seqs {
    ($rx:expr) => {
        loop {
            sched::point();
            match $rx.try_recv() {
                Ok(seq) => {
                    count("escape_sequences_received", 1);
                    driver::nontrivial();
                    driver::fingerprint(0x3000);
                    let l = life();
                    l.seqs_texts.push(seq.to_string());
                    l.seqs.push((sched::step(), seq.keys));
                }
                Err(e) => {
                    if e.is_disconnected() {
                        life().seqs_disconnected = true;
                    }
                    break;
                }
            }
        }
    };
}

fn ack(source: &EventSource, quit: bool) {
    life().acks.push((sched::step(), quit));
    sched::note("unblock", quit as u64, 0);
    driver::fingerprint(0x2000 + quit as u64);
    source.unblock(quit);
}

/// receive an event and record it. None when idle or disconnected
fn receive(
    rx: &Receiver<TimedEvent>,
    source_count: &std::sync::atomic::AtomicUsize,
    idle_timeout: Duration,
) -> Option<TimedEvent> {
    match rx.recv_timeout(idle_timeout) {
        Ok(ev) => {
            let c = source_count.load(Ordering::SeqCst);
            let l = life();
            let acks_before = l.acks.iter().filter(|a| !a.1).count();
            l.recvs.push(RecvRec {
                step: sched::step(),
                now: sched::now(),
                ev: ev.clone(),
                count: c,
                acks_before,
            });
            sched::note("recv", l.recvs.len() as u64, c as u64);
            count("events_received", 1);
            driver::nontrivial();
            driver::fingerprint(0x1000 + c as u64);
            sched::point();
            Some(ev)
        }
        Err(RecvTimeoutError::Timeout) => {
            sched::note("idle", 0, 0);
            None
        }
        Err(RecvTimeoutError::Disconnected) => {
            life().closed_early = true;
            sched::note("disconnected", 0, 0);
            None
        }
    }
}

enum Cmd {
    Ack,
    Stop,
}

fn run_life(sc: &Life) {
    hist().lives.push(LifeHist::default());
    {
        let t = term();
        t.kitty = sc.kitty;
        t.kitty_query_err = sc.kitty_query_err;
        t.fail_enable_raw = sc.enable_raw_err;
        t.out_faults = sc.out_faults.iter().cloned().collect();
    }
    let first_tid = sched::thread_count() as u32;
    {
        let l = life();
        l.first_read = term().reads.len();
        l.first_read_start = term().read_starts.len();
    }
    let options = EventSourceOptions {
        combine_keys: sc.combine,
        mandate_modifier_for_multiple_keys: sc.mandate,
        discard_raw_key_events: sc.discard_raw,
        discard_mouse_move: sc.discard_move,
        discard_mouse_drag: sc.discard_drag,
    };
    let built = EventSource::with_options(options);
    {
        let l = life();
        l.build_step = sched::step();
        l.tids = (first_tid, sched::thread_count() as u32);
        l.built = Some(built.is_ok());
        l.raw_after_build = term().raw;
        l.kitty_after_build = term::kitty_depth().0;
    }
    term().out_faults.clear();
    let source = match built {
        Ok(s) => s,
        Err(_) => {
            count("construction_failures", 1);
            driver::nontrivial();
            term().fail_enable_raw = false;
            end_life(first_tid, sched::thread_count() as u32);
            // (bytes which couldn't be written may stay in the buffer of std's stdout,
            // so the keyboard mode isn't judged any more)
            life().stop_here = sc.out_faults.iter().any(|f| matches!(f, OutFault::Errno(_)));
            return;
        }
    };
    life().combining = source.supports_multi_key_combinations();
    term::feed_input(&sc.input);
    let source = Arc::new(source);
    let rx = source.receiver();
    let rx_seqs = source.escape_sequence_receiver();
    let shared_count = source.shared_event_count();
    // observers of the shared count
    let stop = Arc::new(AtomicBool::new(false));
    let mut observers = Vec::new();
    for o in 0..sc.observers {
        let c = source.shared_event_count();
        let stop = Arc::clone(&stop);
        observers.push(std::thread::spawn(move || {
            let mut n = 0;
            while !stop.load(Ordering::SeqCst) && n < 300 {
                n += 1;
                let v = c.load(Ordering::SeqCst);
                life().obs.push((sched::step(), o as u32, v));
                sched::point();
                if n % 8 == 0 {
                    std::thread::sleep(Duration::from_micros(500 * n));
                } else {
                    std::thread::yield_now();
                }
            }
        }));
    }
    // other threads which do the unblocking on demand (external programs, etc.)
    let mut helpers = Vec::new();
    for _ in 1..sc.consumers.clamp(1, 3) {
        let (tx, rx) = crossbeam::channel::unbounded::<Cmd>();
        let source = Arc::downgrade(&source);
        let h = std::thread::spawn(move || {
            while let Ok(Cmd::Ack) = rx.recv() {
                if let Some(source) = source.upgrade() {
                    ack(&source, false);
                }
            }
        });
        helpers.push((tx, h));
    }
    let on_event_quit = matches!(
        sc.quit,
        Quit::Answer | Quit::DropOnEvent | Quit::DropSourceOnEvent | Quit::PanicOnEvent
    );
    let no_reaction = Reaction {
        think_us: 0,
        seqs: false,
        extra_ack: false,
        hand_over: false,
    };
    let mut n = 0u32;
    let mut quit_now = false;
    let idle_timeout = if sc.input.iter().any(|i| matches!(i.1, In::Broken(_))) {
        // the source may be actively trying to read
        Duration::from_secs(3)
    } else {
        IDLE_TIMEOUT
    };
    loop {
        let Some(_ev) = receive(&rx, &shared_count, idle_timeout) else {
            break;
        };
        n += 1;
        let re = if sc.reactions.is_empty() {
            &no_reaction
        } else {
            &sc.reactions[(n as usize - 1) % sc.reactions.len()]
        };
        if re.think_us > 0 {
            std::thread::sleep(Duration::from_micros(re.think_us));
        }
        if re.seqs {
            drain_seqs!(&rx_seqs);
        }
        if on_event_quit && n > sc.quit_after {
            quit_now = true;
            break;
        }
        if re.extra_ack {
            count("fault.unsolicited_unblock", 1);
            life().extra_acks += 1;
            ack(&source, false);
        }
        if re.hand_over && !helpers.is_empty() {
            let h = &helpers[n as usize % helpers.len()];
            let _ = h.0.send(Cmd::Ack);
        } else {
            ack(&source, false);
        }
    }
    if !quit_now {
        let l = life();
        l.idle_reached = true;
        l.idle_step = sched::step();
        l.reads_at_idle = term().reads.len();
        l.final_count = Some(shared_count.load(Ordering::SeqCst));
    }
    drain_seqs!(&rx_seqs);
    // the other threads of the application end first
    stop.store(true, Ordering::SeqCst);
    for o in observers {
        let _ = o.join();
    }
    for (tx, h) in helpers {
        let _ = tx.send(Cmd::Stop);
        let _ = h.join();
    }
    let source = match Arc::try_unwrap(source) {
        Ok(s) => s,
        Err(_) => driver::harness_error("source still shared"),
    };
    {
        let l = life();
        l.quit_step = Some(sched::step());
        l.raw_before_drop = term().raw;
    }
    sched::note("quit", quit_now as u64, 0);
    let quit = if quit_now {
        sc.quit
    } else {
        match sc.quit {
            Quit::Answer => Quit::Idle,
            Quit::DropOnEvent => Quit::DropIdle,
            Quit::DropSourceOnEvent | Quit::PanicOnEvent => Quit::DropSourceIdle,
            q => q,
        }
    };
    let mut keep = None;
    let mut kept_source = None;
    match quit {
        Quit::Answer | Quit::Idle => {
            ack(&source, true);
            kept_source = Some(source);
            keep = Some((rx, rx_seqs));
        }
        Quit::DropOnEvent | Quit::DropIdle => {
            drop(rx);
            drop(rx_seqs);
            drop_source(source);
        }
        Quit::DropSourceOnEvent | Quit::DropSourceIdle => {
            drop_source(source);
            keep = Some((rx, rx_seqs));
        }
        Quit::PanicOnEvent => {
            count("fault.application_panic", 1);
            let _ = driver::catch(|| {
                let _source = source;
                let _rx = rx;
                let _rx_seqs = rx_seqs;
                panic!("simulated bug in the application");
            });
            life().drop_step = Some(sched::step());
            life().raw_after_drop = Some(term().raw);
        }
    }
    life().quit_done_step = Some(sched::step());
    // the user goes on typing
    life().late_step = Some(sched::step());
    term::feed_input(&sc.late_input);
    sched::quiesce(u64::MAX);
    if let Some((rx, rx_seqs)) = keep {
        // what was still sent
        loop {
            match rx.try_recv() {
                Ok(ev) => {
                    let l = life();
                    let acks_before = l.acks.iter().filter(|a| !a.1).count();
                    l.recvs.push(RecvRec {
                        step: sched::step(),
                        now: sched::now(),
                        ev,
                        count: shared_count.load(Ordering::SeqCst),
                        acks_before,
                    });
                }
                Err(e) => {
                    life().events_disconnected = Some(e.is_disconnected());
                    break;
                }
            }
        }
        drain_seqs!(&rx_seqs);
    }
    life().end_count = Some(shared_count.load(Ordering::SeqCst));
    if let Some(source) = kept_source {
        drop_source(source);
    }
    let tids = life().tids;
    end_life(tids.0, tids.1);
}

fn drop_source(source: EventSource) {
    drop(source);
    life().drop_step = Some(sched::step());
    life().raw_after_drop = Some(term().raw);
}

fn end_life(t0: u32, t1: u32) {
    let quiescent = sched::quiesce(u64::MAX);
    let mut done = true;
    let mut states = String::new();
    for t in t0..t1 {
        if !sched::is_done(t) {
            done = false;
            states.push_str(&format!("{:?} ", sched::state_of(t)));
        }
    }
    life().end = Some(EndState {
        step: sched::step(),
        threads_done: done,
        states,
        kitty: term::kitty_depth(),
        raw: term().raw,
        quiescent,
        reads: term().reads.len(),
        read_starts: term().read_starts.len(),
    });
    term().input.clear();
}

pub fn run_body(sc: &EvSc) {
    hist().start = Some(Instant::now());
    hist().start_ns = sched::now();
    for l in &sc.lives {
        run_life(l);
        if let Some(e) = &life().end {
            if !e.threads_done || life().stop_here {
                // a previous thread would compete for the input
                return;
            }
        }
    }
    hist().completed = true;
}

// ---------------------------------------------------------------- reference model

/// What the source should emit
#[derive(Clone, Debug, PartialEq)]
pub enum Emit {
    Ev {
        event: Event,
        kc: Option<crokey::KeyCombination>,
        /// index of the read which caused it
        read: usize,
        /// true for a key first kept as part of an escape sequence
        replayed: bool,
    },
    Seq {
        keys: Vec<KeyEvent>,
        read: usize,
    },
}

/// Reference: from what was read on the terminal to what must be emitted
pub fn model(reads: &[Option<Event>], o: &Life, combining: bool) -> Vec<Emit> {
    let mut out = Vec::new();
    let mut comb = crokey::Combiner::default();
    if combining {
        comb.set_keyboard_enhancement_flags_externally_managed();
        let _ = comb.enable_combining();
    }
    comb.set_mandate_modifier_for_multiple_keys(o.mandate);
    let mut pending: Vec<KeyEvent> = Vec::new();
    for (read, r) in reads.iter().enumerate() {
        let Some(ev) = r else { continue };
        let mut flushed = Vec::new();
        if !pending.is_empty() {
            if let Event::Key(k) = ev {
                let alt = k.modifiers.contains(KeyModifiers::ALT);
                let ctrl = k.modifiers.contains(KeyModifiers::CONTROL);
                if k.code == KeyCode::Char('\\') && k.modifiers == KeyModifiers::ALT {
                    let mut keys = std::mem::take(&mut pending);
                    keys.push(*k);
                    out.push(Emit::Seq { keys, read });
                    continue;
                }
                if !alt && !ctrl {
                    pending.push(*k);
                    continue;
                }
            }
            flushed = std::mem::take(&mut pending);
        } else if let Event::Key(k) = ev {
            if k.code == KeyCode::Char('_') && k.modifiers == KeyModifiers::ALT {
                pending.push(*k);
                continue;
            }
        }
        for k in flushed {
            let kc = comb.transform(k);
            if kc.is_some() || !o.discard_raw {
                out.push(Emit::Ev {
                    event: Event::Key(k),
                    kc,
                    read,
                    replayed: true,
                });
            }
        }
        let mut kc = None;
        match ev {
            Event::Mouse(m) => {
                if o.discard_move && m.kind == MouseEventKind::Moved {
                    continue;
                }
                if o.discard_drag {
                    if let MouseEventKind::Drag(_) = m.kind {
                        continue;
                    }
                }
            }
            Event::Key(k) => {
                kc = comb.transform(*k);
                if kc.is_none() && o.discard_raw {
                    continue;
                }
            }
            _ => {}
        }
        out.push(Emit::Ev {
            event: ev.clone(),
            kc,
            read,
            replayed: false,
        });
    }
    out
}

/// per life view for the judges
pub struct View<'a> {
    pub sc: &'a Life,
    pub l: &'a LifeHist,
    pub reads: Vec<Option<Event>>,
    pub read_times: Vec<(u64, u64)>, // step, time
    pub read_starts: Vec<u64>,
    pub expected: Vec<Emit>,
    /// expected events only
    pub events: Vec<(Event, Option<crokey::KeyCombination>, usize, bool)>,
    pub seqs: Vec<(Vec<KeyEvent>, usize)>,
    pub n_life: usize,
    pub unsolicited: bool,
}

fn views<'a>(sc: &'a EvSc) -> Vec<View<'a>> {
    let h = hist();
    let t = term();
    let mut v = Vec::new();
    for (i, l) in h.lives.iter().enumerate() {
        let end = h.lives.get(i + 1).map_or(t.reads.len(), |n| n.first_read);
        let end_start = h
            .lives
            .get(i + 1)
            .map_or(t.read_starts.len(), |n| n.first_read_start);
        let recs = &t.reads[l.first_read..end];
        // a broken terminal may give a lot of errors: no need to see them all
        let recs = &recs[..recs.len().min(5000)];
        let reads: Vec<_> = recs.iter().map(|r| r.ev.clone()).collect();
        let expected = model(&reads, &sc.lives[i], l.combining);
        let mut events = Vec::new();
        let mut seqs = Vec::new();
        for e in &expected {
            match e {
                Emit::Ev {
                    event,
                    kc,
                    read,
                    replayed,
                } => events.push((event.clone(), *kc, *read, *replayed)),
                Emit::Seq { keys, read } => seqs.push((keys.clone(), *read)),
            }
        }
        v.push(View {
            sc: &sc.lives[i],
            l,
            read_times: recs.iter().map(|r| (r.step, r.time)).collect(),
            reads,
            read_starts: t.read_starts[l.first_read_start..end_start]
                .iter()
                .take(5000)
                .map(|s| s.0)
                .collect(),
            expected,
            events,
            seqs,
            n_life: i,
            unsolicited: l.extra_acks > 0,
        });
    }
    v
}

// ---------------------------------------------------------------- judges

/// exactly once, in order, with the right decoration
fn judge_delivery(sc: &EvSc, o: &Outcome) -> Verdict {
    let sub = |v: &View| -> Verdict {
        for (i, r) in v.l.recvs.iter().enumerate() {
            let Some((ev, kc, _, _)) = v.events.get(i) else {
                return viol(
                    "event-from-nowhere",
                    format!(
                        "event {} received ({:?}) while the terminal only produced {} deliverable events",
                        i + 1,
                        r.ev.event,
                        v.events.len()
                    ),
                );
            };
            if r.ev.event != *ev {
                return viol(
                    "wrong-event",
                    format!(
                        "event {} received is {:?}, the reference says {:?}",
                        i + 1,
                        r.ev.event,
                        ev
                    ),
                );
            }
            ensure!(
                r.ev.key_combination == *kc,
                "wrong-combination",
                "event {} ({:?}) has key combination {:?}, the reference says {:?}",
                i + 1,
                ev,
                r.ev.key_combination,
                kc
            );
            // the same, asked as a program does
            let own = match ev {
                Event::Key(k) => Some(crokey::KeyCombination::from(*k)),
                _ => None,
            };
            let others = [
                crokey::KeyCombination::from(KeyCode::Char('q')),
                crokey::KeyCombination::from(KeyEvent::new(KeyCode::F(12), KeyModifiers::CONTROL)),
            ];
            let more = own.map(|k| crokey::KeyCombination::new(k.codes, k.modifiers ^ KeyModifiers::ALT));
            for k in others.into_iter().chain(*kc).chain(own).chain(more) {
                let exp = *kc == Some(k) || own == Some(k);
                ensure!(
                    r.ev.is_key(k) == exp,
                    "wrong-is-key",
                    "event {} ({:?}), with combination {:?}: is_key({:?}) is {}",
                    i + 1,
                    ev,
                    kc,
                    k,
                    !exp
                );
            }
        }
        Ok(())
    };
    let vs = views(sc);
    for v in &vs {
        sub(v)?;
        if v.l.idle_reached && !v.l.closed_early {
            // all events were acknowledged, and the application waited for very long
            let n = model(
                &v.reads[..v.l.reads_at_idle.min(v.reads.len() + v.l.first_read) - v.l.first_read],
                v.sc,
                v.l.combining,
            )
            .iter()
            .filter(|e| matches!(e, Emit::Ev { .. }))
            .count();
            let got = v.l.recvs.iter().filter(|r| r.step <= v.l.idle_step).count();
            ensure!(
                got == n,
                "event-lost",
                "{got} events received, all acknowledged, but the terminal produced {n} of them"
            );
            let broken = v.sc.input.iter().position(|i| matches!(i.1, In::Broken(_)));
            let limit = broken.unwrap_or(v.sc.input.len());
            let done = v.l.reads_at_idle - v.l.first_read;
            ensure!(
                done >= limit,
                "input-not-read",
                "only {done} of the {limit} inputs were read while the application acknowledged all events and waited"
            );
        }
        ensure!(
            !v.l.closed_early,
            "closed-too-soon",
            "the event channel was closed while the application was using it"
        );
    }
    stuck(o, "event-lost", &vs)
}

/// what can't happen in a sound run
fn stuck(o: &Outcome, class: &str, vs: &[View]) -> Verdict {
    match o {
        Outcome::Done => Ok(()),
        Outcome::Panicked(m) => viol(
            "panic",
            format!("a call of the application panicked: {m}"),
        ),
        Outcome::Stuck(s) => viol(class, format!("nothing can run any more: {s}")),
        Outcome::StepLimit(s) => {
            let broken = vs.last().map_or(false, |v| {
                v.sc.input
                    .iter()
                    .chain(&v.sc.late_input)
                    .any(|i| matches!(i.1, In::Broken(_)))
            });
            if broken {
                // the source goes on trying to read a broken terminal, this is the
                // subject of the property on ending
                Ok(())
            } else {
                viol("livelock", format!("no progress: {s}"))
            }
        }
    }
}

fn judge_lockstep(sc: &EvSc, o: &Outcome) -> Verdict {
    let vs = views(sc);
    for v in &vs {
        let acks_before = |step: u64| v.l.acks.iter().filter(|a| !a.1 && a.0 <= step).count();
        for (i, r) in v.l.recvs.iter().enumerate() {
            if r.step > v.l.quit_step.unwrap_or(u64::MAX) {
                break;
            }
            ensure!(
                r.acks_before >= i,
                "event-before-unblock",
                "event {} was delivered while only {} of the previous ones were acknowledged with unblock(false)",
                i + 1,
                r.acks_before
            );
        }
        // no reading of the terminal while an event isn't acknowledged
        for (i, start) in v.read_starts.iter().enumerate() {
            let done = i.min(v.reads.len());
            let emitted = v.events.iter().filter(|e| e.2 < done).count();
            let acks = acks_before(*start);
            ensure!(
                acks >= emitted,
                "read-before-unblock",
                "the terminal was read (read {}) while {} events were emitted and only {} acknowledged",
                i + 1,
                emitted,
                acks
            );
            if emitted > 0 && acks == emitted {
                count("reads_right_after_ack", 1);
            }
        }
        // emissions, even not received yet, can be seen by the count
        for (step, _, c) in &v.l.obs {
            let acks = acks_before(*step);
            ensure!(
                *c <= acks + 1,
                "event-before-unblock",
                "{c} events emitted (shared count) while only {acks} were acknowledged"
            );
        }
    }
    stuck(o, "never-unblocked", &vs)
}

fn judge_quit(sc: &EvSc, o: &Outcome) -> Verdict {
    let vs = views(sc);
    for v in &vs {
        if v.l.built == Some(false) {
            if let Some(e) = &v.l.end {
                ensure!(
                    e.threads_done,
                    "thread-leaked-by-failing-construction",
                    "a thread is left by a failing construction: {}",
                    e.states
                );
            }
            continue;
        }
        let Some(quit_step) = v.l.quit_step else {
            continue;
        };
        let quit_on_event = !v.l.idle_reached;
        // reads started after the quit was asked
        let quit_done = v.l.quit_done_step.unwrap_or(u64::MAX);
        let late_starts = v.read_starts.iter().filter(|s| **s > quit_done).count();
        if quit_on_event && !v.unsolicited {
            let starts_after_quit = v.read_starts.iter().filter(|s| **s > quit_step).count();
            ensure!(
                starts_after_quit == 0,
                "read-after-quit",
                "the terminal is read {} times after the application quit while handling an event",
                starts_after_quit
            );
            let late = v.l.recvs.iter().filter(|r| r.step > quit_step).count();
            ensure!(
                late == 0,
                "event-after-quit",
                "{late} events were delivered after the application quit while handling an event"
            );
        }
        let late_events: usize = v
            .events
            .iter()
            .filter(|e| v.read_times[e.2].0 > quit_done)
            .count();
        let _ = late_starts;
        if let Some(e) = &v.l.end {
            let broken = v
                .sc
                .input
                .iter()
                .chain(&v.sc.late_input)
                .any(|i| matches!(i.1, In::Broken(_)));
            if v.unsolicited {
                // the source has credits left: it may go on for that number of events
                continue;
            }
            if quit_on_event || late_events >= 1 || broken {
                ensure!(
                    e.threads_done,
                    "thread-not-ended",
                    "the thread of the source is still there after the quit: {}",
                    e.states
                );
                count("threads_ended", 1);
                if let Some(d) = v.l.events_disconnected {
                    ensure!(
                        d,
                        "channel-not-closed",
                        "the thread is gone but the event channel isn't closed"
                    );
                }
            }
            // one event at most: the one which wakes the source
            if !quit_on_event {
                let late_recvs = v.l.recvs.iter().filter(|r| r.step > quit_done).count();
                ensure!(
                    late_recvs <= 1,
                    "event-after-quit",
                    "{late_recvs} events were delivered after the quit"
                );
                // and no read after this event
                if let Some(first) = v.events.iter().find(|e| v.read_times[e.2].0 > quit_done) {
                    let after = v
                        .read_starts
                        .iter()
                        .filter(|s| **s > v.read_times[first.2].0)
                        .count();
                    ensure!(
                        after == 0,
                        "read-after-quit",
                        "the terminal is read {after} times after the event which should have ended the source"
                    );
                }
            }
        }
    }
    match o {
        Outcome::Done => Ok(()),
        Outcome::Panicked(m) => viol("panic", format!("a call of the application panicked: {m}")),
        Outcome::Stuck(s) => viol("thread-not-ended", format!("nothing can run any more: {s}")),
        // the quit has not yet been asked
        Outcome::StepLimit(_) if vs.last().map_or(true, |v| v.l.quit_step.is_none()) => Ok(()),
        Outcome::StepLimit(s) => viol(
            "busy-after-quit",
            format!("the source goes on for ever in a loop: {s}"),
        ),
    }
}

fn judge_count(sc: &EvSc, o: &Outcome) -> Verdict {
    let vs = views(sc);
    for v in &vs {
        let acks_before = |step: u64| v.l.acks.iter().filter(|a| !a.1 && a.0 <= step).count();
        for (i, r) in v.l.recvs.iter().enumerate() {
            let k = i + 1;
            ensure!(
                r.count >= k,
                "count-late",
                "at the reception of event {k}, the shared count is only {}",
                r.count
            );
            if !v.unsolicited && r.step <= v.l.quit_step.unwrap_or(u64::MAX) {
                ensure!(
                    r.count <= k,
                    "count-too-big",
                    "at the reception of event {k}, with all previous ones acknowledged, the shared count is {}",
                    r.count
                );
            }
        }
        let mut last = [0usize; 8];
        for (step, o, c) in &v.l.obs {
            let o = *o as usize % 8;
            ensure!(
                *c >= last[o],
                "count-decreasing",
                "the shared count went from {} to {c}",
                last[o]
            );
            last[o] = *c;
            let received = v.l.recvs.iter().filter(|r| r.step < *step).count();
            ensure!(
                *c >= received,
                "count-late",
                "an observer sees a count of {c} while {received} events have been received"
            );
            let emittable = v
                .events
                .iter()
                .filter(|e| v.read_times[e.2].0 <= *step)
                .count();
            ensure!(
                *c <= emittable.min(acks_before(*step) + 1),
                "count-too-big",
                "an observer sees a count of {c} while at most {} events may have been emitted",
                emittable.min(acks_before(*step) + 1)
            );
        }
        if let Some(c) = v.l.final_count {
            let got = v.l.recvs.iter().filter(|r| r.step <= v.l.idle_step).count();
            ensure!(
                c == got,
                "count-wrong-at-rest",
                "at rest, the shared count is {c}, but {got} events have been received"
            );
        }
    }
    stuck(o, "stuck", &vs)
}

const DOUBLE_CLICK_NS: u128 = 700_000_000;

fn judge_clicks(sc: &EvSc, o: &Outcome) -> Verdict {
    let start = hist().start;
    let vs = views(sc);
    for v in &vs {
        let mut last_up: Option<(Instant, u16, u16)> = None;
        let mut prev: Option<Instant> = None;
        for (i, r) in v.l.recvs.iter().enumerate() {
            let te = &r.ev;
            if let Some(p) = prev {
                ensure!(
                    te.time >= p,
                    "time-decreasing",
                    "event {} is dated before the previous one",
                    i + 1
                );
            }
            prev = Some(te.time);
            if let (Some(start), Some(e)) = (start, v.events.get(i)) {
                // simulated dates
                let t = te
                    .time
                    .checked_duration_since(start)
                    .map(|d| d.as_nanos() as u64);
                let t0 = v.read_times[e.2].1;
                if let Some(t) = t {
                    // start was taken at the very beginning of the run
                    let t = t + start_ns();
                    ensure!(
                        t >= t0,
                        "time-before-read",
                        "event {} is dated {}ns before it came from the terminal",
                        i + 1,
                        t0 - t
                    );
                    ensure!(
                        t <= r.now,
                        "time-in-future",
                        "event {} is dated after its reception",
                        i + 1
                    );
                    if !e.3 {
                        // it's dated when it arrives: not waiting for something else. The bound
                        // is the start of what the source does next
                        count("dates_checked", 1);
                    }
                }
            }
            let mut expected = false;
            if let Event::Mouse(MouseEvent {
                kind, column, row, ..
            }) = te.event
            {
                let left = matches!(
                    kind,
                    MouseEventKind::Down(MouseButton::Left) | MouseEventKind::Up(MouseButton::Left)
                );
                if left {
                    if let Some((t, x, y)) = last_up {
                        let d = (te.time - t).as_nanos();
                        if x == column && y == row {
                            expected = d < DOUBLE_CLICK_NS;
                            count(
                                if expected {
                                    "double_clicks"
                                } else {
                                    "too_slow_double_clicks"
                                },
                                1,
                            );
                            if d.abs_diff(DOUBLE_CLICK_NS) <= 2_000_000 {
                                count("double_clicks_near_the_limit", 1);
                            }
                        }
                    }
                    if kind == MouseEventKind::Up(MouseButton::Left) {
                        last_up = Some((te.time, column, row));
                    }
                }
            }
            ensure!(
                te.double_click == expected,
                if expected { "double-click-missed" } else { "false-double-click" },
                "event {} ({:?}) has double_click={}, the reference says {}",
                i + 1,
                te.event,
                te.double_click,
                expected
            );
            let click = match te.event {
                Event::Mouse(MouseEvent {
                    kind: MouseEventKind::Up(MouseButton::Left),
                    column,
                    row,
                    modifiers: KeyModifiers::NONE,
                }) if !expected => Some((column, row)),
                _ => None,
            };
            ensure!(
                te.as_click() == click,
                "wrong-click",
                "event {} ({:?}, double click: {expected}): as_click is {:?}",
                i + 1,
                te.event,
                te.as_click()
            );
        }
    }
    stuck(o, "stuck", &vs)
}

fn start_ns() -> u64 {
    hist().start_ns
}

fn judge_modes(sc: &EvSc, o: &Outcome) -> Verdict {
    let vs = views(sc);
    for (i, v) in vs.iter().enumerate() {
        let l = v.l;
        match l.built {
            None => {}
            Some(false) => {
                ensure!(
                    !l.raw_after_build,
                    "raw-mode-left-by-failing-construction",
                    "the construction of the source failed but the terminal is left in raw mode"
                );
                if v.sc.out_faults.is_empty() {
                    ensure!(
                        l.kitty_after_build == 0,
                        "keyboard-mode-left-by-failing-construction",
                        "the construction of the source failed but the keyboard mode is left changed"
                    );
                }
            }
            Some(true) => {
                ensure!(
                    l.raw_after_build,
                    "not-raw",
                    "the source is built but the terminal isn't in raw mode"
                );
                let expect_combining = v.sc.combine && v.sc.kitty;
                ensure!(
                    l.combining == expect_combining,
                    "combining-misreported",
                    "combining is {} but asked={} supported={}",
                    l.combining,
                    v.sc.combine,
                    v.sc.kitty
                );
                ensure!(
                    l.kitty_after_build == expect_combining as i64,
                    "keyboard-mode-wrong",
                    "depth of keyboard flags is {} after construction, combining={}",
                    l.kitty_after_build,
                    expect_combining
                );
                if l.quit_step.is_some() {
                    ensure!(
                        l.raw_before_drop,
                        "raw-mode-lost",
                        "the terminal isn't in raw mode any more while the source is in use"
                    );
                }
                if let Some(raw) = l.raw_after_drop {
                    ensure!(
                        !raw,
                        "raw-mode-not-restored",
                        "the source is dropped but the terminal is still in raw mode"
                    );
                }
                // no flicker in the mean time
                let t = term();
                let end = l.drop_step.unwrap_or(u64::MAX);
                let start_quit = l.quit_step.unwrap_or(u64::MAX);
                for (step, enable, _) in &t.raw_ops {
                    if *step > l.build_step && *step < start_quit.min(end) {
                        ensure!(
                            *enable,
                            "raw-mode-lost",
                            "raw mode is disabled while the source is in use"
                        );
                    }
                }
                if let Some(e) = &l.end {
                    ensure!(
                        !e.raw,
                        "raw-mode-not-restored",
                        "at end, the terminal is still in raw mode"
                    );
                    if e.threads_done {
                        ensure!(
                            e.kitty.0 == 0,
                            "keyboard-mode-not-restored",
                            "the thread of the source is ended but the depth of keyboard flags is {}",
                            e.kitty.0
                        );
                    }
                    ensure!(
                        e.kitty.1 >= 0,
                        "keyboard-mode-popped-twice",
                        "keyboard flags popped more than pushed"
                    );
                    if !e.threads_done && expect_combining {
                        ensure!(
                            e.kitty.0 <= 1,
                            "keyboard-mode-wrong",
                            "depth of keyboard flags is {}",
                            e.kitty.0
                        );
                    }
                }
            }
        }
        let _ = i;
    }
    stuck(o, "stuck", &vs)
}

fn judge_seqs(sc: &EvSc, o: &Outcome) -> Verdict {
    judge_delivery(sc, o)?;
    let vs = views(sc);
    for v in &vs {
        // received ones are a subsequence of the valid ones
        let mut next = 0;
        let mut accepted: Vec<bool> = vec![false; v.seqs.len()];
        for (i, (_, s)) in v.l.seqs.iter().enumerate() {
            let found = (next..v.seqs.len()).find(|j| v.seqs[*j].0 == *s);
            // the same sequence may come twice: in case of doubt, prefer the
            // first one, which is the stronger assumption for loss detection
            match found {
                Some(j) => {
                    accepted[j] = true;
                    next = j + 1;
                }
                None => {
                    return viol(
                        "wrong-sequence",
                        format!(
                            "sequence {} received ({:?}) isn't one of the {} complete sequences typed, in order",
                            i + 1,
                            s.len(),
                            v.seqs.len()
                        ),
                    );
                }
            }
        }
        // the text of a sequence
        for (i, ((_, keys), text)) in v.l.seqs.iter().zip(&v.l.seqs_texts).enumerate() {
            let exp: String = keys
                .iter()
                .filter(|k| KeyModifiers::SHIFT.contains(k.modifiers))
                .filter_map(|k| match k.code {
                    KeyCode::Char(c) => Some(c),
                    _ => None,
                })
                .collect();
            ensure!(
                *text == exp,
                "wrong-text",
                "sequence {}, whose chars are {exp:?}, is displayed as {text:?}",
                i + 1
            );
        }
        // a sequence may be lost only if the channel was full
        let complete = v.l.seqs_disconnected || v.l.idle_reached;
        if !complete {
            continue;
        }
        let mut taken = 0;
        for (j, (_, read)) in v.seqs.iter().enumerate() {
            let read_step = v.read_times[*read].0;
            if v.l.idle_reached && !v.l.seqs_disconnected && read_step > v.l.idle_step {
                continue;
            }
            if accepted[j] {
                taken += 1;
                continue;
            }
            if matches!(v.sc.quit, Quit::DropOnEvent | Quit::DropIdle | Quit::PanicOnEvent)
                && read_step > v.l.quit_step.unwrap_or(u64::MAX)
            {
                continue;
            }
            let received_before = v.l.seqs.iter().filter(|s| s.0 < read_step).count();
            let pending_max = taken - received_before.min(taken);
            ensure!(
                pending_max >= 10,
                "sequence-lost",
                "complete escape sequence {} was lost while only {} sequences were waiting",
                j + 1,
                pending_max
            );
            count("sequences_dropped_because_full", 1);
        }
        count("complete_sequences", v.seqs.len() as u64);
        count(
            "replayed_sequence_keys",
            v.events.iter().filter(|e| e.3).count() as u64,
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- generation

fn gen_key(rng: &mut Rng, kitty: bool) -> Vec<Ev> {
    let code = match rng.below(12) {
        0 => KeyName::Enter,
        1 => KeyName::Esc,
        2 => KeyName::Left,
        3 => KeyName::F(rng.range(1, 12) as u8),
        4 => KeyName::Char(' '),
        5 => KeyName::Char(*rng.pick(&['_', '\\', '|', 'é'])),
        _ => KeyName::Char((b'a' + rng.below(26) as u8) as char),
    };
    let m = match rng.below(8) {
        0 => 2,
        1 => 4,
        2 => 1,
        3 => 6,
        _ => 0,
    };
    if kitty {
        let mut v = Vec::new();
        match rng.below(6) {
            0 => v.push(Ev::Key(code, m, rng.below(3) as u8)),
            1 => {
                // a combination of several keys
                let other = KeyName::Char((b'a' + rng.below(26) as u8) as char);
                v.push(Ev::Key(code, m, 0));
                v.push(Ev::Key(other, m, 0));
                v.push(Ev::Key(code, m, 2));
                v.push(Ev::Key(other, m, 2));
            }
            2 => {
                v.push(Ev::Key(KeyName::LeftShift, 1, 0));
                v.push(Ev::Key(code, m | 1, 0));
                v.push(Ev::Key(code, m | 1, 2));
                v.push(Ev::Key(KeyName::LeftShift, 1, 2));
            }
            _ => {
                v.push(Ev::Key(code, m, 0));
                v.push(Ev::Key(code, m, 2));
            }
        }
        v
    } else {
        let kind = if rng.one_in(12) { rng.below(3) as u8 } else { 0 };
        vec![Ev::Key(code, m, kind)]
    }
}

fn gen_mouse(rng: &mut Rng, cells: u64) -> Ev {
    let name = *rng.pick(&[
        MouseName::LeftDown,
        MouseName::LeftUp,
        MouseName::LeftDown,
        MouseName::LeftUp,
        MouseName::LeftDrag,
        MouseName::RightDown,
        MouseName::RightUp,
        MouseName::MiddleUp,
        MouseName::MiddleDown,
        MouseName::Moved,
        MouseName::ScrollUp,
        MouseName::ScrollDown,
        MouseName::RightDrag,
        MouseName::MiddleDrag,
    ]);
    Ev::Mouse(
        name,
        rng.below(cells) as u16,
        rng.below(cells) as u16,
        if rng.one_in(6) { 2 } else { 0 },
    )
}

fn gen_seq(rng: &mut Rng, valid: bool) -> Vec<Ev> {
    let mut v = vec![Ev::Key(KeyName::Char('_'), 4, 0)];
    let len = match rng.below(60) {
        0 => rng.range(100, 1100),
        1..=3 => rng.size(100),
        _ => rng.size(8),
    };
    for _ in 0..len {
        let letter = rng.below(26) as u8;
        let (code, m) = match rng.below(12) {
            0 => (KeyName::Char((b'A' + letter) as char), 1),
            1 => (KeyName::Char(*rng.pick(&['=', ';', '0', '7', ' ', '_', '\\', 'é', '漢'])), 0),
            2 => (*rng.pick(&[KeyName::Enter, KeyName::Tab, KeyName::Backspace, KeyName::Left]), 0),
            3 if rng.one_in(6) => (KeyName::Char((b'a' + letter) as char), 8),
            _ => (KeyName::Char((b'a' + letter) as char), 0),
        };
        v.push(Ev::Key(code, m, 0));
    }
    if valid {
        v.push(Ev::Key(KeyName::Char('\\'), 4, 0));
    } else {
        match rng.below(6) {
            0 => v.push(gen_mouse(rng, 4)),
            1 => v.push(Ev::Resize(rng.range(1, 200) as u16, rng.range(1, 90) as u16)),
            2 => v.push(Ev::Key(KeyName::Char('c'), 2, 0)),
            3 => v.push(Ev::Key(KeyName::Char('_'), 4, 0)),
            4 => v.push(Ev::Key(KeyName::Char('\\'), 6, 0)),
            _ => v.push(Ev::Paste("pasted".into())),
        }
    }
    v
}

fn gen_delay(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => 0,
        1 => rng.below(50),
        2 => rng.below(5_000),
        3 => rng.below(900_000),
        4 => *rng.pick(&[699_000, 699_999, 700_000, 700_001, 350_000]),
        _ => rng.below(200_000),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Delivery,
    Lockstep,
    Quit,
    Count,
    Clicks,
    Modes,
    Seqs,
}

fn gen_life(rng: &mut Rng, focus: Focus, tier: Tier) -> Life {
    let combine = rng.chance(if focus == Focus::Modes { 0.8 } else { 0.35 });
    let kitty = rng.chance(0.7);
    let on = combine && kitty;
    let max = if tier == Tier::Thorough { 60 } else { 25 };
    let len = rng.size(max);
    let w_seq = if focus == Focus::Seqs {
        6
    } else {
        *rng.pick(&[0, 1, 3])
    };
    let w_mouse = if focus == Focus::Clicks {
        12
    } else {
        *rng.pick(&[0, 2, 6])
    };
    let w_key = if focus == Focus::Clicks { 1 } else { 6 };
    let w_other = *rng.pick(&[0, 1, 3]);
    let p_err = *rng.pick(&[0.0, 0.0, 0.05, 0.3]);
    let cells = rng.range(1, 4);
    let total = w_seq + w_mouse + w_key + w_other;
    let burst = rng.one_in(3);
    let repeats = rng.one_in(4);
    let size = (rng.range(1, 200) as u16, rng.range(1, 90) as u16);
    let mut input: Vec<(u64, In)> = Vec::new();
    let click_pattern = focus == Focus::Clicks && rng.one_in(2);
    while (input.len() as u64) < len {
        let mut x = rng.below(total);
        let evs = if x < w_seq {
            let valid = rng.chance(0.6);
            let mut s = gen_seq(rng, valid);
            if rng.one_in(5) && s.len() > 1 {
                // torn: the end never comes, or something is lost
                let i = rng.usize(s.len());
                s.remove(i);
            }
            s
        } else {
            x -= w_seq;
            if x < w_mouse {
                if click_pattern {
                    let c = (rng.below(cells) as u16, rng.below(cells) as u16);
                    vec![
                        Ev::Mouse(MouseName::LeftDown, c.0, c.1, 0),
                        Ev::Mouse(MouseName::LeftUp, c.0, c.1, 0),
                    ]
                } else {
                    vec![gen_mouse(rng, cells)]
                }
            } else {
                x -= w_mouse;
                if x < w_key {
                    gen_key(rng, on)
                } else {
                    vec![match rng.below(5) {
                        4 => Ev::Resize(size.0, size.1),
                        0 => Ev::Resize(rng.range(1, 200) as u16, rng.range(1, 90) as u16),
                        1 => Ev::Paste(format!("p{}", rng.below(100))),
                        2 => Ev::FocusGained,
                        _ => Ev::FocusLost,
                    }]
                }
            }
        };
        let evs = if repeats && evs.len() <= 100 && rng.one_in(4) {
            // the same again
            let n = if rng.one_in(20) { rng.range(2, 60) } else { 2 };
            (0..n).flat_map(|_| evs.clone()).collect()
        } else {
            evs
        };
        for e in evs {
            let d = if burst { rng.below(3) } else { gen_delay(rng) };
            input.push((d, In::Ev(e)));
            if rng.chance(p_err) {
                for _ in 0..rng.range(1, 3) {
                    input.push((rng.below(100), In::Err(rng.below(5) as u8)));
                }
            }
        }
    }
    if focus == Focus::Seqs && rng.one_in(4) {
        // many sequences in a row: the channel gets full
        for _ in 0..rng.range(9, 14) {
            for e in gen_seq(rng, true) {
                input.push((rng.below(20), In::Ev(e)));
            }
        }
        for _ in 0..rng.below(4) {
            for e in gen_key(rng, on) {
                input.push((rng.below(20), In::Ev(e)));
            }
        }
    }
    let p_extra = if matches!(focus, Focus::Quit) || !rng.one_in(5) {
        0.0
    } else {
        0.2
    };
    let mut reactions = Vec::new();
    for _ in 0..rng.range(1, 6) {
        reactions.push(Reaction {
            think_us: if rng.one_in(2) { 0 } else { gen_delay(rng) },
            seqs: rng.chance(0.4),
            extra_ack: rng.chance(p_extra),
            hand_over: rng.chance(0.3),
        });
    }
    let quit = *rng.pick(&[
        Quit::Answer,
        Quit::Answer,
        Quit::DropOnEvent,
        Quit::DropSourceOnEvent,
        Quit::PanicOnEvent,
        Quit::Idle,
        Quit::Idle,
        Quit::DropIdle,
        Quit::DropSourceIdle,
    ]);
    let quit_after = if matches!(focus, Focus::Quit | Focus::Modes) {
        rng.size(8) as u32
    } else if rng.one_in(4) {
        rng.size(20) as u32
    } else {
        100_000
    };
    let mut late_input: Vec<(u64, In)> = Vec::new();
    for _ in 0..rng.below(4) {
        late_input.push((rng.below(1000), In::Err(rng.below(5) as u8)));
        for e in gen_key(rng, on) {
            late_input.push((gen_delay(rng), In::Ev(e)));
        }
        if rng.one_in(3) {
            late_input.push((gen_delay(rng), In::Ev(gen_mouse(rng, 3))));
        }
    }
    if rng.chance(0.85) {
        for _ in 0..2 {
            late_input.push((
                rng.below(1000),
                In::Ev(Ev::Resize(rng.range(1, 100) as u16, 20)),
            ));
        }
    }
    if focus == Focus::Quit && rng.one_in(8) {
        if rng.one_in(2) {
            input.push((rng.below(1000), In::Broken(rng.below(5) as u8)));
        }
        late_input.insert(0, (rng.below(1000), In::Broken(rng.below(5) as u8)));
    }
    let faults = focus == Focus::Modes || rng.one_in(20);
    let mut out_faults = Vec::new();
    if faults && combine && rng.one_in(3) {
        for _ in 0..rng.range(1, 3) {
            out_faults.push(match rng.below(3) {
                0 => OutFault::Short(rng.range(1, 6) as u32),
                1 => OutFault::Eintr,
                _ => OutFault::Errno(*rng.pick(&[libc::EIO, libc::EPIPE, libc::EAGAIN, libc::ENOSPC])),
            });
        }
    }
    let has_broken = input.iter().any(|i| matches!(i.1, In::Broken(_)));
    Life {
        combine,
        mandate: rng.chance(0.5),
        discard_raw: rng.chance(0.6),
        discard_move: rng.chance(0.5),
        discard_drag: rng.chance(0.4),
        kitty,
        kitty_query_err: faults && rng.one_in(4),
        enable_raw_err: faults && rng.one_in(6),
        out_faults,
        input,
        reactions,
        quit_after,
        quit,
        late_input,
        consumers: *rng.pick(&[1, 1, 2, 3]),
        observers: if has_broken {
            0
        } else if focus == Focus::Count {
            rng.range(1, 2) as u8
        } else if rng.one_in(3) {
            1
        } else {
            0
        },
    }
}

pub struct EventProp {
    pub id: &'static str,
    pub focus: Focus,
    pub rule: &'static str,
}

impl Prop for EventProp {
    type Sc = EvSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        30000
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> EvSc {
        let mut sched = SchedCfg::swarm(rng);
        sched.step_limit = 400_000;
        if idx % 8 == 0 {
            // a calm run, once in a while
            sched = SchedCfg {
                step_limit: sched.step_limit,
                ..SchedCfg::calm(sched.seed)
            };
        }
        let n = if self.focus == Focus::Modes {
            rng.range(1, 3)
        } else {
            1
        };
        let lives: Vec<Life> = (0..n).map(|_| gen_life(rng, self.focus, tier)).collect();
        let inputs: usize = lives
            .iter()
            .map(|l| l.input.len() + l.late_input.len())
            .sum();
        sched.step_limit += 2_000 * inputs as u64;
        EvSc { sched, lives }
    }
    fn sched(&self, sc: &EvSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &EvSc) {
        run_body(sc);
    }
    fn judge(&self, sc: &EvSc, o: &Outcome) -> Verdict {
        match self.focus {
            Focus::Delivery => judge_delivery(sc, o),
            Focus::Lockstep => judge_lockstep(sc, o),
            Focus::Quit => judge_quit(sc, o),
            Focus::Count => judge_count(sc, o),
            Focus::Clicks => judge_clicks(sc, o),
            Focus::Modes => judge_modes(sc, o),
            Focus::Seqs => judge_seqs(sc, o),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad::EventSource and its thread",
            "crokey::Combiner",
            "crossbeam channels",
            "std threads, mutexes, parking, Instant (over the simulated clock)",
            "crossterm commands",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "crossterm::event::read/poll (simulated terminal input)",
            "crossterm raw mode, size and keyboard enhancement query (simulated terminal)",
            "futex, clock, sleep, thread creation order (seeded scheduler)",
            "stdout (recorded, with faults)",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "context switches happen at control-flow edges of termimad (generic crossbeam code included) and at libc calls, memory is sequentially consistent",
            "crossterm delivers events in the order they were typed",
        ]
    }
}
