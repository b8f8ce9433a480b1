//! Simulation of a whole application: an event source reading the simulated
//! terminal, a background thread producing data, a view receiving the events,
//! and frames drawn on a simulated screen, with resizes at any time and
//! failing writes.

mod input;
mod list;
mod mad;

use {
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            self,
            term,
            Ev,
            In,
            KeyName,
            MouseName,
            OutFault,
        },
        vt::{
            Vt,
            UNTOUCHED,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        io::Write,
        sync::Arc,
        time::Duration,
    },
    termimad::{
        crossterm::event::Event,
        Area,
        CompoundStyle,
        EventSource,
        EventSourceOptions,
        Rect,
        TimedEvent,
    },
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    /// frames are drawn in their area and cover it, whatever the view
    Frames,
    /// scrolling of texts
    Scroll,
    /// text of the input fields
    Edit,
    /// display of the input fields
    Cursor,
    /// rows and selection of list views
    Rows,
    /// scroll of list views
    ListScroll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum ViewSc {
    Mad(mad::MadSc),
    Input(input::InputSc),
    List(list::ListSc),
}

/// something coming from the background thread
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Bg {
    /// new row (a sort key)
    Row(u32),
    Clear,
    Redraw,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AppSc {
    pub sched: SchedCfg,
    pub size: (u16, u16),
    /// left, top, right, bottom
    pub margins: (u16, u16, u16, u16),
    /// the margins are kept even when there's no room for the view
    #[serde(default)]
    pub squeeze: bool,
    /// max width of the view (0: none)
    #[serde(default)]
    pub max_width: u16,
    /// 0: no border, 1: border, 2: filled border
    pub border: u8,
    pub view: ViewSc,
    pub input: Vec<(u64, In)>,
    pub bg: Vec<(u64, Bg)>,
    pub out_faults: Vec<OutFault>,
    /// 0: the view's own writing on stdout, 1: stdout through write_on,
    /// 2: buffered, 3: not buffered at all
    pub writer: u8,
    /// which functions of the view get the events
    pub api: u8,
    /// the application takes some time to handle an event
    pub think_us: u64,
}

pub struct Ctx {
    pub focus: Focus,
    pub api: u8,
}

impl Ctx {
    /// report a violation, if it's about the checked property
    pub fn report(&self, focus: Focus, class: &str, msg: String) {
        if self.focus == focus {
            driver::live_violation(class, msg);
        }
    }
}

/// a view, with its model
pub trait Session {
    fn resize(&mut self, cx: &Ctx, area: &Area);
    fn event(&mut self, cx: &Ctx, ev: &TimedEvent, frame: &Vt);
    fn background(&mut self, cx: &Ctx, bg: &Bg);
    fn write_on(&mut self, cx: &Ctx, w: &mut dyn Write) -> Result<(), termimad::Error>;
    fn write(&mut self) -> Result<(), termimad::Error>;
    /// check what's seen after a complete drawing on a blank screen
    fn check_frame(&mut self, cx: &Ctx, vt: &Vt);
    /// the part of the area which must be covered by every frame
    fn covered(&self, area: &Area) -> Area {
        area.clone()
    }
    /// minimal size of the area
    fn min_size(&self) -> (u16, u16) {
        (1, 1)
    }
}

/// the area of the view, and the one of the border
fn layout(cx: &Ctx, sc: &AppSc, size: (u16, u16), min: (u16, u16)) -> (Area, Option<Area>) {
    let cut = |len: u16, a: u16, b: u16, min: u16| {
        if len >= a.saturating_add(b).saturating_add(min) {
            (a, len - a - b)
        } else if sc.squeeze {
            (a.min(len), len.saturating_sub(a.saturating_add(b)))
        } else {
            (0, len)
        }
    };
    let (left, width) = cut(size.0, sc.margins.0, sc.margins.2, min.0);
    let (top, height) = cut(size.1, sc.margins.1, sc.margins.3, min.1);
    let (full, real) = sched::quiet(|| {
        let t = term();
        let real = if t.size_err { (50, 20) } else { t.size };
        (Area::full_screen(), real)
    });
    if (full.left, full.top, full.width, full.height) != (0, 0, real.0, real.1) {
        cx.report(Focus::Frames, "wrong-area", format!("full screen area {full:?} on a terminal whose size is {real:?}"));
    }
    let mut area = Area::new(left, top, width, height);
    let (mut left, mut top, mut width, mut height) = (left, top, width, height);
    let check = |what: &str, area: &Area, (left, top, width, height): (u16, u16, u16, u16)| {
        if *area != Area::new(left, top, width, height) {
            cx.report(
                Focus::Frames,
                "wrong-area",
                format!("{what}: {area:?} instead of {:?}", Area::new(left, top, width, height)),
            );
        }
        let (right, bottom) = (left.saturating_add(width), top.saturating_add(height));
        if area.right() != right || area.bottom() != bottom {
            cx.report(Focus::Frames, "wrong-area", format!("{what}: {area:?} up to {} and {}", area.right(), area.bottom()));
        }
        for x in [0, left.saturating_sub(1), left, left + width / 2, right.saturating_sub(1), right] {
            for y in [0, top.saturating_sub(1), top, top + height / 2, bottom.saturating_sub(1), bottom] {
                let inside = x >= left && x < right && y >= top && y < bottom;
                if area.contains(x, y) != inside {
                    cx.report(Focus::Frames, "wrong-area", format!("{what}: is ({x}, {y}) in {area:?} ?"));
                }
            }
        }
    };
    if sc.max_width >= min.0 + 2 {
        area.pad_for_max_width(sc.max_width);
        if width > sc.max_width {
            left += (width - sc.max_width) / 2;
            width = sc.max_width;
        }
        check("area padded for a max width", &area, (left, top, width, height));
    }
    if sc.border > 0 && width >= min.0 + 2 && height >= min.1 + 2 {
        let outer = area.clone();
        area.pad(1, 1);
        left += 1;
        top += 1;
        width -= 2;
        height -= 2;
        check("padded area", &area, (left, top, width, height));
        (area, Some(outer))
    } else {
        (area, None)
    }
}

fn draw_border<W: Write>(sc: &AppSc, outer: &Area, w: &mut W) -> Result<(), termimad::Error> {
    let mut rect = Rect::new(outer.clone(), CompoundStyle::default());
    rect.set_border_style(termimad::BORDER_STYLE_MIDDLE_SQUARE_LINE);
    rect.set_fill(sc.border == 2);
    rect.draw(w)
}

struct Raw;
impl Write for Raw {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        term::stdout_write(b).map_err(std::io::Error::from_raw_os_error)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct App<'s> {
    sc: &'s AppSc,
    cx: Ctx,
    size: (u16, u16),
    area: Area,
    outer: Option<Area>,
    session: Box<dyn Session>,
    /// the last frame, alone on a blank screen
    frame: Vt,
    ended: bool,
}

fn is_violated() -> bool {
    driver::has_live_violation()
}

impl App<'_> {
    fn resize(&mut self, size: (u16, u16)) {
        self.size = size;
        let (area, outer) = layout(&self.cx, self.sc, size, self.session.min_size());
        self.area = area;
        self.outer = outer;
        self.session.resize(&self.cx, &self.area);
    }
    /// what should be drawn, and checks on it
    fn reference_frame(&mut self) -> Vec<u8> {
        let mut bytes = Vec::new();
        // the border first, on a blank screen
        let mut vt = Vt::new(self.size.0, self.size.1);
        if let Some(outer) = &self.outer {
            if let Err(e) = draw_border(self.sc, outer, &mut bytes) {
                self.cx.report(Focus::Frames, "error-without-fault", format!("drawing of a rect: {e}"));
            }
            vt.feed(&bytes);
            self.check_region("rect", &vt, outer, None, if self.sc.border == 2 { None } else { Some(&self.area) });
        }
        // a rect of any size, alone
        if self.sc.squeeze && self.cx.focus == Focus::Frames {
            let area = self.area.clone();
            let mut rbytes = Vec::new();
            if let Err(e) = draw_border(self.sc, &area, &mut rbytes) {
                self.cx.report(Focus::Frames, "error-without-fault", format!("drawing of a rect: {e}"));
            }
            let mut vt = Vt::new(self.size.0, self.size.1);
            vt.feed(&rbytes);
            let hole = if self.sc.border != 2 && area.width > 2 && area.height > 2 {
                Some(Area::new(area.left + 1, area.top + 1, area.width - 2, area.height - 2))
            } else {
                None
            };
            self.check_region("rect", &vt, &area, None, hole.as_ref());
        }
        // the view, alone
        let mut vbytes = Vec::new();
        if let Err(e) = self.session.write_on(&self.cx, &mut vbytes) {
            self.cx.report(Focus::Frames, "error-without-fault", format!("drawing of a view: {e}"));
        }
        let mut vt = Vt::new(self.size.0, self.size.1);
        vt.feed(&vbytes);
        let covered = self.session.covered(&self.area);
        self.check_region("view", &vt, &self.area.clone(), Some(&covered), None);
        if vt.broken_utf8 > 0 {
            self.cx.report(Focus::Frames, "invalid-utf8", "a frame isn't valid UTF-8".to_string());
        }
        if self.area.width > 0 && self.area.height > 0 {
            self.session.check_frame(&self.cx, &vt);
        } else {
            count("frames_without_room", 1);
        }
        self.frame = vt;
        bytes.extend(vbytes);
        bytes
    }
    /// nothing is drawn out of the area, all of the covered part is drawn, nothing is in the hole
    fn check_region(&self, what: &str, vt: &Vt, area: &Area, covered: Option<&Area>, hole: Option<&Area>) {
        let min = self.session.min_size();
        let empty = area.width == 0 || area.height == 0;
        if !empty && what != "rect" && (self.area.width < min.0 || self.area.height < min.1) {
            return;
        }
        let covered = covered.unwrap_or(area);
        for y in 0..vt.h {
            for x in 0..vt.w {
                let c = vt.cell(x, y);
                let (ux, uy) = (x as u16, y as u16);
                let in_hole = hole.map_or(false, |h| h.contains(ux, uy));
                if (!area.contains(ux, uy) || in_hole) && !c.untouched() {
                    self.cx.report(
                        Focus::Frames,
                        &format!("{what}-out-of-area"),
                        format!("{:?} was drawn at ({x}, {y}), out of {:?} (screen {}x{})\n{}", c.ch, area, vt.w, vt.h, vt.dump()),
                    );
                    return;
                }
                if covered.contains(ux, uy) && !in_hole && c.untouched() {
                    self.cx.report(
                        Focus::Frames,
                        &format!("{what}-not-covered"),
                        format!("nothing was drawn at ({x}, {y}), in {:?} (screen {}x{})\n{}", area, vt.w, vt.h, vt.dump()),
                    );
                    return;
                }
            }
        }
        if vt.scrolled_lines > 0 || vt.wraps > 0 {
            self.cx.report(
                Focus::Frames,
                &format!("{what}-out-of-area"),
                format!("drawing in {:?} made the screen ({}x{}) wrap or scroll\n{}", area, vt.w, vt.h, vt.dump()),
            );
        }
    }
    fn draw_once(&mut self) -> Result<(), termimad::Error> {
        let sc = self.sc;
        let outer = self.outer.clone();
        let draw = |session: &mut Box<dyn Session>, cx: &Ctx, w: &mut dyn Write| -> Result<(), termimad::Error> {
            let mut w = w;
            if let Some(outer) = &outer {
                draw_border(sc, outer, &mut w)?;
            }
            session.write_on(cx, &mut w)
        };
        match sc.writer {
            0 => {
                if let Some(outer) = &outer {
                    draw_border(sc, outer, &mut std::io::stdout())?;
                }
                self.session.write()
            }
            1 => {
                let mut w = std::io::stdout();
                draw(&mut self.session, &self.cx, &mut w)?;
                Ok(w.flush()?)
            }
            2 => {
                let mut w = std::io::BufWriter::with_capacity(200, Raw);
                let r = draw(&mut self.session, &self.cx, &mut w)
                    .and_then(|()| Ok(w.flush()?));
                // no new attempt at drop
                let _ = w.into_parts();
                r
            }
            _ => draw(&mut self.session, &self.cx, &mut Raw),
        }
    }
    /// draw, several times if there are errors
    fn draw(&mut self) {
        if is_violated() {
            return;
        }
        let expected = sched::quiet(|| self.reference_frame());
        for _ in 0..4 {
            let from = term().out.len();
            let faults = term().out_errors;
            let r = self.draw_once();
            let failed = term().out_errors > faults;
            let got = &term().out[from..];
            match r {
                Ok(()) => {
                    if failed {
                        self.cx.report(
                            Focus::Frames,
                            "error-lost",
                            "a write failed while drawing but no error was returned".to_string(),
                        );
                    }
                    if !got.ends_with(&expected) {
                        self.cx.report(
                            Focus::Frames,
                            "incomplete-frame",
                            format!(
                                "the drawing succeeded but the terminal got {} bytes ending in {:?} instead of the {} of the frame ending in {:?}",
                                got.len(),
                                tail(got),
                                expected.len(),
                                tail(&expected)
                            ),
                        );
                    }
                    count("frames", 1);
                    return;
                }
                Err(e) => {
                    count("failed_frames", 1);
                    if !failed {
                        self.cx.report(
                            Focus::Frames,
                            "error-without-fault",
                            format!("no write failed but an error was returned: {e}"),
                        );
                        return;
                    }
                }
            }
        }
    }
    fn event(&mut self, ev: &TimedEvent) {
        if let Event::Resize(w, h) = ev.event {
            count("resizes", 1);
            sched::note("resize", w as u64, h as u64);
            self.resize((w, h));
            return;
        }
        let frame = self.frame.clone();
        self.session.event(&self.cx, ev, &frame);
    }
}

fn tail(b: &[u8]) -> String {
    let i = b.len().saturating_sub(40);
    String::from_utf8_lossy(&b[i..]).into_owned()
}

fn run_body(sc: &AppSc, focus: Focus) {
    {
        let t = term();
        t.size = sc.size;
        t.screen = Some(Vt::new(sc.size.0, sc.size.1));
    }
    let cx = Ctx {
        focus,
        api: sc.api,
    };
    // (the area is set after the min size is known)
    let mut session: Box<dyn Session> = match &sc.view {
        ViewSc::Mad(m) => Box::new(mad::MadSession::new(m)),
        ViewSc::Input(i) => Box::new(input::InputSession::new(i)),
        ViewSc::List(l) => Box::new(list::ListSession::new(l)),
    };
    let (area, outer) = layout(&cx, sc, sc.size, session.min_size());
    session.resize(&cx, &area);
    let mut app = App {
        sc,
        cx,
        size: sc.size,
        area,
        outer,
        session,
        frame: Vt::new(1, 1),
        ended: false,
    };
    let source = EventSource::with_options(EventSourceOptions {
        discard_mouse_move: true,
        ..Default::default()
    })
    .expect("the event source should start");
    let rx = source.receiver();
    let (bg_tx, bg_rx) = crossbeam::channel::unbounded::<Bg>();
    let bg = sc.bg.clone();
    let producer = std::thread::spawn(move || {
        for (d, b) in bg {
            if d > 0 {
                std::thread::sleep(Duration::from_micros(d));
            }
            if bg_tx.send(b).is_err() {
                break;
            }
        }
    });
    term::feed_input(&sc.input);
    term().out_faults = sc.out_faults.iter().cloned().collect();
    app.draw();
    let mut bg_alive = true;
    let source = Arc::new(source);
    while !is_violated() {
        let never = crossbeam::channel::never();
        let bgr = if bg_alive { &bg_rx } else { &never };
        crossbeam::select! {
            recv(rx) -> ev => match ev {
                Ok(ev) => {
                    driver::nontrivial();
                    count("events", 1);
                    if sc.think_us > 0 {
                        std::thread::sleep(Duration::from_micros(sc.think_us));
                    }
                    app.event(&ev);
                    app.draw();
                    source.unblock(false);
                }
                Err(_) => {
                    driver::live_violation("disconnected", "the event source stopped".to_string());
                }
            },
            recv(bgr) -> b => match b {
                Ok(b) => {
                    count("background_messages", 1);
                    driver::fingerprint(0x5000);
                    app.session.background(&app.cx, &b);
                    app.draw();
                }
                Err(_) => bg_alive = false,
            },
            default(Duration::from_secs(3600)) => break,
        }
    }
    let _ = producer.join();
    // no more faults: what the user sees at the end is right
    if !is_violated() {
        term().out_faults.clear();
        app.draw();
    }
    if !is_violated() {
        let screen = term().screen.take().unwrap_or_else(|| Vt::new(1, 1));
        let area = &app.area;
        for y in area.top..area.bottom() {
            for x in area.left..area.right() {
                let (a, b) = (
                    screen.cell(x as usize, y as usize),
                    app.frame.cell(x as usize, y as usize),
                );
                if b.ch != UNTOUCHED && (a.ch != b.ch || a.cont != b.cont) {
                    app.cx.report(
                        Focus::Frames,
                        "wrong-final-screen",
                        format!(
                            "at the end, the screen has {:?} instead of {:?} at ({x}, {y})\n{}\ninstead of\n{}",
                            a.ch,
                            b.ch,
                            screen.dump(),
                            app.frame.dump()
                        ),
                    );
                }
            }
        }
    }
    app.ended = true;
    source.unblock(true);
    drop(source);
    driver::state::<End>().0 = true;
}

#[derive(Default)]
struct End(bool);

fn gen_faults(rng: &mut Rng) -> Vec<OutFault> {
    let mut v = Vec::new();
    if rng.one_in(3) {
        let n = rng.range(1, 40);
        let p = *rng.pick(&[2, 4, 12]);
        for _ in 0..n {
            v.push(if !rng.one_in(p) {
                OutFault::Ok
            } else {
                match rng.below(4) {
                    0 | 1 => OutFault::Short(rng.range(1, 50) as u32),
                    2 => OutFault::Eintr,
                    _ => OutFault::Errno(*rng.pick(&[libc::EIO, libc::EPIPE, libc::EAGAIN, libc::ENOSPC])),
                }
            });
        }
    }
    v
}

pub fn gen_size(rng: &mut Rng, kind: u64) -> (u16, u16) {
    match kind {
        0 => (rng.range(30, 120) as u16, rng.range(8, 40) as u16),
        1 => (rng.range(8, 40) as u16, rng.range(3, 12) as u16),
        _ => (rng.range(1, 14) as u16, rng.range(1, 8) as u16),
    }
}

pub struct AppProp {
    pub id: &'static str,
    pub focus: Focus,
    pub rule: &'static str,
}

impl Prop for AppProp {
    type Sc = AppSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        12000
    }
    fn gen(&self, rng: &mut Rng, idx: u64, tier: Tier) -> AppSc {
        let mut sched = SchedCfg::swarm(rng);
        sched.step_limit = 500_000_000;
        sched.preempt = *rng.pick(&[0.0, 0.0001, 0.001, 0.01]);
        sched.edge_cost = *rng.pick(&[0, 0, 7, 100]);
        if idx % 4 == 0 {
            sched = SchedCfg {
                step_limit: sched.step_limit,
                ..SchedCfg::calm(sched.seed)
            };
        }
        let size_kind = *rng.pick(&[0, 0, 1, 1, 1, 2]);
        let size = gen_size(rng, size_kind);
        let kind = match self.focus {
            Focus::Frames => rng.below(3),
            Focus::Scroll => 0,
            Focus::Edit | Focus::Cursor => 1,
            Focus::Rows | Focus::ListScroll => 2,
        };
        let max = if tier == Tier::Thorough { 120 } else { 40 };
        let len = rng.size(max) as usize;
        let margins = if rng.one_in(3) {
            (0, 0, 0, 0)
        } else {
            (
                rng.below(6) as u16,
                rng.below(4) as u16,
                rng.below(6) as u16,
                rng.below(4) as u16,
            )
        };
        let border = *rng.pick(&[0, 0, 1, 2]);
        let max_width = if rng.one_in(5) { rng.range(1, 60) as u16 } else { 0 };
        let (view, mut evs, bg) = match kind {
            0 => {
                let (m, e) = mad::gen(rng, len);
                (ViewSc::Mad(m), e, Vec::new())
            }
            1 => {
                let (i, e) = input::gen(rng, len, size, self.focus == Focus::Edit);
                (ViewSc::Input(i), e, Vec::new())
            }
            _ => {
                let (l, e, bg) = list::gen(rng, len);
                (ViewSc::List(l), e, bg)
            }
        };
        // resizes, alone or in bursts
        let big = match &view {
            ViewSc::Mad(m) => m.repeat > 1000,
            ViewSc::Input(i) => i.repeat > 1000,
            ViewSc::List(_) => false,
        };
        evs.truncate(if big { 4 } else { usize::MAX });
        let p = if big { 0.1 } else { *rng.pick(&[0.0, 0.05, 0.3]) };
        let mut i = 0;
        while i < evs.len() {
            if rng.chance(p) {
                for _ in 0..rng.range(1, 3) {
                    let (w, h) = gen_size(rng, size_kind);
                    evs.insert(i, Ev::Resize(w, h));
                    i += 1;
                }
            }
            i += 1;
        }
        let burst = rng.one_in(2);
        let p_err = *rng.pick(&[0.0, 0.0, 0.05]);
        let mut input = Vec::new();
        for e in evs {
            if rng.chance(p_err) {
                input.push((rng.below(100), In::Err(rng.below(5) as u8)));
            }
            let d = if burst {
                rng.below(30)
            } else {
                *rng.pick(&[0, 50, 1000, 100_000, 400_000, 900_000])
            };
            input.push((d, In::Ev(e)));
        }
        let mut bg = bg;
        if bg.is_empty() && rng.one_in(4) {
            for _ in 0..rng.below(6) {
                bg.push((rng.below(200_000), Bg::Redraw));
            }
        }
        AppSc {
            sched,
            size,
            margins,
            // (how to scroll or edit without any line isn't specified)
            squeeze: self.focus == Focus::Frames && rng.one_in(3),
            max_width,
            border,
            view,
            input,
            bg,
            out_faults: if self.focus == Focus::Frames {
                gen_faults(rng)
            } else {
                Vec::new()
            },
            writer: if self.focus == Focus::Frames {
                rng.below(4) as u8
            } else {
                3
            },
            api: rng.below(4) as u8,
            think_us: *rng.pick(&[0, 0, 100, 50_000]),
        }
    }
    fn sched(&self, sc: &AppSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &AppSc) {
        run_body(sc, self.focus);
    }
    fn judge(&self, _sc: &AppSc, o: &Outcome) -> Verdict {
        match o {
            Outcome::Done => {
                ensure!(driver::state::<End>().0, "not-ended", "the application didn't end");
                Ok(())
            }
            Outcome::Panicked(p) => {
                let place = p.rsplit(" at ").next().unwrap_or("").split(':').next().unwrap_or("");
                viol(&format!("panic-in-{place}"), p.clone())
            }
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad's views, skins, writers and rects",
            "termimad::EventSource and its thread, crokey, crossbeam channels and select",
            "crossterm commands",
            "std threads, Stdout, BufWriter",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "crossterm::event::read/poll (simulated terminal input, resizing the simulated screen)",
            "crossterm raw mode, size and keyboard enhancement query",
            "futex, clock, sleep, thread creation order (seeded scheduler)",
            "write on fd 1 (screen emulator, with short writes, EINTR and errors)",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "the simulated screen follows the usual VT rules: autowrap at the last column, chars as wide as unicode-width says",
            "the application clears nothing by itself: it redraws its view after each event, resize and background message",
        ]
    }
}

pub fn key(k: KeyName, m: u8) -> Ev {
    Ev::Key(k, m, 0)
}
pub fn ctrl(c: char) -> Ev {
    key(KeyName::Char(c), 2)
}
pub fn mouse(k: MouseName, x: u16, y: u16) -> Ev {
    Ev::Mouse(k, x, y, 0)
}
/// a readable form for messages
pub fn area_str(a: &Area) -> String {
    format!("{}x{} at ({}, {})", a.width, a.height, a.left, a.top)
}

const THUMB: char = '\u{2503}';
const TRACK: char = '┆';

/// check the column of a scrollbar
pub fn check_scrollbar(col: &str, height: usize, total: usize, scroll: usize) -> Option<&'static str> {
    let max = total.saturating_sub(height);
    let thumbs: Vec<usize> = col
        .chars()
        .enumerate()
        .filter(|(_, c)| *c == THUMB)
        .map(|(i, _)| i)
        .collect();
    let bars = col.chars().filter(|c| *c == THUMB || *c == TRACK).count();
    if total <= height {
        return (bars > 0).then_some("there's a scrollbar but nothing to scroll");
    }
    if bars != height {
        return Some("the scrollbar is missing or not complete");
    }
    if height == 1 {
        return None;
    }
    if thumbs.is_empty() {
        return Some("the scrollbar has no thumb");
    }
    let (a, b) = (thumbs[0], thumbs[thumbs.len() - 1]);
    if b - a + 1 != thumbs.len() {
        Some("the thumb is in several parts")
    } else if scroll == 0 && a != 0 {
        Some("the thumb isn't at top while the content is")
    } else if scroll > 0 && a == 0 && height > 1 {
        Some("the thumb is at top while the content isn't")
    } else if scroll >= max && b != height - 1 {
        Some("the thumb isn't at bottom while the content is")
    } else if scroll < max && b == height - 1 && height > 3 {
        Some("the thumb is at bottom while the content isn't")
    } else if a.abs_diff(scroll * height / total) > 2 {
        Some("the thumb isn't where the scroll is")
    } else if thumbs.len().abs_diff(height * height / total) > 2 {
        Some("the thumb hasn't the size of the visible part")
    } else {
        None
    }
}
