//! Simulation of programs drawing with all the functions of the library on
//! writers which take only a part of what they get, are interrupted, or fail
//! at seeded points (and may be fine again afterwards).

use {
    super::doc::{
        gen_doc,
        gen_skin,
        gen_spans,
        make_skin,
        SkinOp,
    },
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            term,
            OutFault,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        fmt::Write as _,
        io::{
            self,
            Write,
        },
    },
    termimad::{
        crossterm::{
            style::Color,
            terminal::ClearType,
        },
        minimad::Composite,
        Alignment,
        Area,
        CompoundStyle,
        CropWriter,
        Filling,
        InputField,
        ListView,
        ListViewCell,
        ListViewColumn,
        MadSkin,
        MadView,
        ProgressBar,
        PushStyleTokens,
        Rect,
        Spacing,
        StyledChar,
        TextView,
    },
};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum WFault {
    Ok,
    Short(u16),
    Eintr,
    /// nothing is taken
    Zero,
    /// an error, of this kind
    Fail(u8),
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::OutOfMemory,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WOp {
    pub kind: u8,
    pub a: u16,
    pub b: u16,
    /// one list of faults per drawing
    pub plans: Vec<Vec<WFault>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WrSc {
    pub sched: SchedCfg,
    pub base: u8,
    pub skin: Vec<SkinOp>,
    pub lines: Vec<String>,
    pub span: String,
    pub size: (u16, u16),
    pub size_err: bool,
    pub ops: Vec<WOp>,
}

/// a writer executing a plan
pub(super) struct FaultyWriter<'p> {
    plan: &'p [WFault],
    calls: usize,
    pub(super) accepted: Vec<u8>,
    pub(super) hard: usize,
}
impl<'p> FaultyWriter<'p> {
    pub(super) fn new(plan: &'p [WFault]) -> Self {
        Self {
            plan,
            calls: 0,
            accepted: Vec::new(),
            hard: 0,
        }
    }
}
impl Write for FaultyWriter<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        sched::point();
        let f = self.plan.get(self.calls).copied().unwrap_or(WFault::Ok);
        self.calls += 1;
        let n = match f {
            WFault::Ok => b.len(),
            WFault::Short(n) => {
                if (n as usize) < b.len() {
                    count("fault.short_write", 1);
                }
                b.len().min((n as usize).max(1))
            }
            WFault::Eintr => {
                count("fault.eintr", 1);
                return Err(io::ErrorKind::Interrupted.into());
            }
            WFault::Zero => {
                count("fault.write_zero", 1);
                self.hard += 1;
                return Ok(0);
            }
            WFault::Fail(k) => {
                count("fault.write_error", 1);
                self.hard += 1;
                return Err(KINDS[k as usize % KINDS.len()].into());
            }
        };
        self.accepted.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub(super) struct Fmt<'a, 'p>(pub(super) &'a mut FaultyWriter<'p>);
impl std::fmt::Write for Fmt<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let w = &mut self.0;
        if s.is_empty() {
            return Ok(());
        }
        let f = w.plan.get(w.calls).copied().unwrap_or(WFault::Ok);
        w.calls += 1;
        if let WFault::Zero | WFault::Fail(_) = f {
            count("fault.fmt_error", 1);
            w.hard += 1;
            return Err(std::fmt::Error);
        }
        w.accepted.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

#[derive(Default)]
struct Hist {
    end: bool,
}

const KINDS_ON_WRITER: u8 = 24;
const KINDS_FMT: u8 = 7;
const KINDS_STDOUT: u8 = 7;
const ALL: u8 = KINDS_ON_WRITER + KINDS_FMT + KINDS_STDOUT;

fn kind_name(k: u8) -> &'static str {
    const NAMES: &[&str] = &[
        "write_text_on",
        "write_inline_on",
        "write_composite",
        "write_composite_fill",
        "write_in_area_on",
        "mad_write_inline",
        "Rect::draw",
        "TextView::write_on",
        "MadView::write_on",
        "ListView::write_on",
        "InputField::display_on",
        "Filling::queue_unstyled",
        "Filling::queue_styled",
        "fill_bg",
        "StyledChar::queue",
        "StyledChar::queue_repeat",
        "CompoundStyle::queue",
        "CompoundStyle::queue_str",
        "CompoundStyle::queue_fg and queue_bg",
        "CompoundStyle::clear",
        "Spacing::write_str",
        "CropWriter",
        "write_style_tokens",
        "CropWriter::fill",
        "Display of FmtText",
        "Display of an unwrapped FmtText",
        "Display of FmtInline",
        "Display of StyledChar",
        "Display of ProgressBar",
        "Display of a repeated StyledChar",
        "Display of InputFieldContent",
        "write_text",
        "write_inline",
        "write_in_area",
        "TextView::write",
        "MadView::write",
        "ListView::write",
        "InputField::display",
    ];
    NAMES[k as usize]
}

struct Things {
    skin: &'static MadSkin,
    md: &'static str,
    span: &'static str,
    cs: CompoundStyle,
    area: Area,
}

impl Things {
    fn new(sc: &WrSc) -> Self {
        let (skin, _) = make_skin(sc.base, &sc.skin);
        let skin: &'static MadSkin = Box::leak(Box::new(skin));
        let md: &'static str = Box::leak(sc.lines.join("\n").into_boxed_str());
        let span: &'static str = Box::leak(sc.span.clone().into_boxed_str());
        let mut cs = skin.headers[0].compound_style.clone();
        cs.overwrite_with(&skin.inline_code);
        let area = Area::new(1, 1, sc.size.0.max(12) - 2, sc.size.1.max(6) - 2);
        Things {
            skin,
            md,
            span,
            cs,
            area,
        }
    }
    fn list(&self, op: &WOp) -> ListView<'static, u32> {
        let skin = self.skin;
        let mut list = ListView::new(
            self.area.clone(),
            vec![
                ListViewColumn::new(
                    "id",
                    3,
                    5,
                    Box::new(move |n: &u32| ListViewCell::new(format!("#{n}"), &skin.bold)),
                ),
                ListViewColumn::new(
                    "some info",
                    5,
                    20,
                    Box::new(move |n: &u32| {
                        ListViewCell::new("info ".repeat(*n as usize % 7), &skin.paragraph.compound_style)
                    }),
                )
                .with_align(Alignment::Left),
            ],
            skin,
        );
        for i in 0..op.a % 40 {
            list.add_row(i as u32);
        }
        list.update_dimensions();
        for _ in 0..op.b % 5 {
            list.try_select_next(false);
        }
        list
    }
    fn input(&self, op: &WOp) -> InputField {
        let mut input = InputField::new(self.area.clone());
        if op.b % 2 == 0 {
            input.new_line_on(InputField::ALT_ENTER);
        }
        input.set_str(self.md);
        input.set_focus(op.a % 3 != 0);
        input.password_mode = op.b % 7 == 0;
        for _ in 0..op.a % 9 {
            input.move_left();
        }
        input
    }
    /// what draws
    #[allow(clippy::type_complexity)]
    fn drawer(&self, op: &WOp) -> Box<dyn Fn(&mut dyn Write) -> Result<(), termimad::Error>> {
        let skin = self.skin;
        let md = self.md;
        let span = self.span;
        let cs = self.cs.clone();
        let area = self.area.clone();
        let (a, b) = (op.a as usize, op.b as usize);
        match op.kind {
            0 => Box::new(move |mut w| skin.write_text_on(&mut w, md)),
            1 => Box::new(move |mut w| skin.write_inline_on(&mut w, span)),
            2 => Box::new(move |mut w| skin.write_composite(&mut w, Composite::from_inline(span))),
            3 => Box::new(move |mut w| {
                skin.write_composite_fill(
                    &mut w,
                    Composite::from_inline(span),
                    a % 50,
                    [Alignment::Left, Alignment::Center, Alignment::Right][b % 3],
                )
            }),
            4 => Box::new(move |mut w| skin.write_in_area_on(&mut w, md, &area)),
            5 => Box::new(move |mut w| {
                termimad::mad_write_inline!(&mut w, skin, "**$0**: `$1` *a* ~~$0~~", span, a)
            }),
            6 => {
                Box::new(move |mut w| {
                    let mut rect = Rect::new(area.clone(), cs.clone());
                    rect.set_fill(b % 2 == 0);
                    rect.set_border_style(
                        [
                            termimad::BORDER_STYLE_BLAND,
                            termimad::BORDER_STYLE_MIDDLE_ROUND_LINE,
                            termimad::BORDER_STYLE_HALF_WIDTH_OUTSIDE,
                        ][a % 3],
                    );
                    rect.draw(&mut w)
                })
            }
            7 => Box::new(move |mut w| {
                let text = skin.area_text(md, &area);
                let mut view = TextView::from(&area, &text);
                view.set_scroll(a % 20);
                view.write_on(&mut w)
            }),
            8 => {
                let mut view = MadView::from(md.to_string(), area, skin.clone());
                view.try_scroll_lines((a % 20) as i32);
                Box::new(move |mut w| view.write_on(&mut w))
            }
            9 => {
                let list = self.list(op);
                Box::new(move |mut w| list.write_on(&mut w))
            }
            10 => {
                let input = self.input(op);
                Box::new(move |mut w| input.display_on(&mut w).map(|_| ()))
            }
            11 => {
                let filling = Filling::from_char(if b % 2 == 0 { ' ' } else { '═' });
                let n = if b % 5 == 0 { a * 7 % 3500 } else { a % 90 };
                Box::new(move |mut w| filling.queue_unstyled(&mut w, n))
            }
            12 => {
                let filling = Filling::from_char(if b % 2 == 0 { ' ' } else { '═' });
                let n = if b % 5 == 0 { a * 7 % 3500 } else { a % 90 };
                Box::new(move |mut w| filling.queue_styled(&mut w, &cs, n))
            }
            13 => Box::new(move |mut w| termimad::fill_bg(&mut w, a % 90, Color::AnsiValue(b as u8))),
            14 => {
                let c = StyledChar::new(cs, '▒');
                Box::new(move |mut w| c.queue(&mut w))
            }
            15 => {
                let c = StyledChar::new(cs, '▒');
                Box::new(move |mut w| c.queue_repeat(&mut w, a % 90))
            }
            16 => Box::new(move |mut w| cs.queue(&mut w, a)),
            17 => Box::new(move |mut w| cs.queue_str(&mut w, span)),
            18 => Box::new(move |mut w| {
                cs.queue_fg(&mut w)?;
                cs.queue_bg(&mut w)
            }),
            19 => Box::new(move |mut w| cs.clear(&mut w, ClearType::UntilNewLine)),
            20 => {
                let spacing = Spacing {
                    width: a % 60,
                    align: [Alignment::Left, Alignment::Center, Alignment::Right][b % 3],
                };
                Box::new(move |mut w| spacing.write_str(&mut w, span, &cs))
            }
            21 => Box::new(move |mut w| {
                let mut cw = CropWriter::new(&mut w, a % 70);
                cw.queue_str(&cs, "start")?;
                cw.queue_unstyled_str(span)?;
                cw.queue_char(&cs, '道')?;
                cw.queue_unstyled_char('x')?;
                cw.queue_fg(&cs)?;
                cw.queue_bg(&cs)?;
                cw.queue_g_string(&cs, "gentle".to_string())?;
                cw.queue_unstyled_g_string("string".to_string())?;
                cw.fill_with_space(&cs)
            }),
            22 => Box::new(move |mut w| {
                let mut tokens = Vec::new();
                cs.push_style_tokens(&mut tokens);
                termimad::write_style_tokens(&mut w, &tokens)?;
                Ok(())
            }),
            _ => Box::new(move |mut w| {
                let mut cw = CropWriter::new(&mut w, a % 70);
                cw.queue_unstyled_str(span)?;
                cw.repeat(&cs, &termimad::SPACE_FILLING, b % 9)?;
                cw.repeat_unstyled(&termimad::SPACE_FILLING, b % 5)?;
                cw.fill_unstyled(&termimad::SPACE_FILLING)
            }),
        }
    }
    #[allow(clippy::type_complexity)]
    fn displayed(&self, op: &WOp) -> Box<dyn Fn(&mut FaultyWriter) -> std::fmt::Result> {
        let skin = self.skin;
        let md = self.md;
        let span = self.span;
        let cs = self.cs.clone();
        let (a, b) = (op.a as usize, op.b as usize);
        match op.kind - KINDS_ON_WRITER {
            0 => Box::new(move |w| write!(Fmt(w), "{}", skin.text(md, Some(10 + a % 100)))),
            1 => Box::new(move |w| write!(Fmt(w), "{}", skin.text(md, None))),
            2 => Box::new(move |w| write!(Fmt(w), "{}", skin.inline(span))),
            3 => Box::new(move |w| write!(Fmt(w), "{}", StyledChar::new(cs.clone(), '▒'))),
            4 => Box::new(move |w| {
                let bar = ProgressBar::new((b % 101) as f32 / 100.0, a % 50);
                write!(Fmt(w), "{:50}|", bar)
            }),
            5 => Box::new(move |w| write!(Fmt(w), "{}", StyledChar::new(cs.clone(), '▒').repeated(a % 50))),
            _ => {
                let input = self.input(op);
                Box::new(move |w| write!(Fmt(w), "{}", input.content()))
            }
        }
    }
    fn on_stdout(&self, op: &WOp) -> Result<(), termimad::Error> {
        let a = op.a as usize;
        match op.kind - KINDS_ON_WRITER - KINDS_FMT {
            0 => self.skin.write_text(self.md),
            1 => self.skin.write_inline(self.span),
            2 => self.skin.write_in_area(self.md, &self.area),
            3 => {
                let text = self.skin.area_text(self.md, &self.area);
                let mut view = TextView::from(&self.area, &text);
                view.set_scroll(a % 20);
                view.write()
            }
            4 => {
                let mut view = MadView::from(self.md.to_string(), self.area.clone(), self.skin.clone());
                view.try_scroll_lines((a % 20) as i32);
                view.write()
            }
            5 => self.list(op).write(),
            _ => self.input(op).display().map(|_| ()),
        }
    }
}

/// the function writing on a writer which is used by the one writing on stdout
fn equivalent(kind: u8) -> u8 {
    [0, 1, 4, 7, 8, 9, 10][(kind - KINDS_ON_WRITER - KINDS_FMT) as usize]
}

fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(200)]).to_string();
    format!("{s:?}")
}

fn soft(plan: &[WFault]) -> Vec<OutFault> {
    plan.iter()
        .map(|f| match f {
            WFault::Ok => OutFault::Ok,
            WFault::Short(n) => OutFault::Short(*n as u32),
            WFault::Eintr => OutFault::Eintr,
            WFault::Zero => OutFault::Errno(libc::ENOSPC),
            WFault::Fail(k) => OutFault::Errno([libc::EIO, libc::EPIPE, libc::EAGAIN, libc::ENOSPC][*k as usize % 4]),
        })
        .collect()
}

fn run_op(things: &Things, op: &WOp, idx: usize) -> Result<bool, driver::Viol> {
    let name = format!("operation {} ({})", idx + 1, kind_name(op.kind));
    sched::note("op", op.kind as u64, 0);
    let mut f = op.kind as u64;
    let mut fp = |v: u64| f = (f ^ v).wrapping_mul(0x100_0000_01b3);
    if op.kind < KINDS_ON_WRITER + KINDS_FMT {
        let draw: Box<dyn Fn(&mut FaultyWriter) -> Result<(), String>> = if op.kind < KINDS_ON_WRITER {
            let d = things.drawer(op);
            Box::new(move |w| d(w).map_err(|e| e.to_string()))
        } else {
            let d = things.displayed(op);
            Box::new(move |w| d(w).map_err(|e| e.to_string()))
        };
        let go = |w: &mut FaultyWriter| match driver::catch(|| draw(w)) {
            Ok(r) => Ok(r),
            Err(p) => viol("panic", format!("{name}: {p}")),
        };
        let mut w = FaultyWriter::new(&[]);
        if let Err(e) = go(&mut w)? {
            return viol("error", format!("{name} failed while the writer is fine: {e}"));
        }
        let calls = w.calls;
        let whole = w.accepted;
        // a failure at each of the writes (or at some of them if they're many, the last ones included)
        let step = 1 + calls / 50;
        let mut plan = Vec::new();
        for k in (0..calls).filter(|k| k % step == op.a as usize % step || k + 4 > calls) {
            plan.clear();
            plan.resize(k, WFault::Ok);
            plan.push(if (k + op.b as usize) % 5 == 0 { WFault::Zero } else { WFault::Fail(op.b as u8) });
            let mut w = FaultyWriter::new(&plan);
            let r = go(&mut w)?;
            count("failures_swept", 1);
            ensure!(
                whole.starts_with(&w.accepted),
                "garbled",
                "{name}: what's written before the failure of write {} isn't a prefix of the drawing: {} instead of {}",
                k + 1,
                short(&w.accepted),
                short(&whole)
            );
            ensure!(
                r.is_err(),
                "swallowed-error",
                "{name}: success with {} of {} bytes written, and write {} failed",
                w.accepted.len(),
                whole.len(),
                k + 1
            );
            ensure!(
                w.hard == 1 && w.calls == k + 1,
                "write-after-error",
                "{name}: it went on after the failure of write {}",
                k + 1
            );
        }
        for (ip, plan) in op.plans.iter().enumerate() {
            let mut w = FaultyWriter::new(plan);
            let r = go(&mut w)?;
            fp(w.accepted.len() as u64);
            ensure!(
                whole.starts_with(&w.accepted),
                "garbled",
                "{name}, drawing {}: what's written isn't a prefix of the drawing: {} instead of {}",
                ip + 1,
                short(&w.accepted),
                short(&whole)
            );
            if w.hard > 0 {
                count("drawings.failed", 1);
                ensure!(
                    r.is_err(),
                    "swallowed-error",
                    "{name}, drawing {}: success with {} of {} bytes written, and a failed write",
                    ip + 1,
                    w.accepted.len(),
                    whole.len()
                );
                ensure!(
                    w.hard == 1,
                    "write-after-error",
                    "{name}, drawing {}: it went on after a failed write",
                    ip + 1
                );
            } else {
                count("drawings.complete", 1);
                if let Err(e) = r {
                    return viol("error", format!("{name}, drawing {}: error {e} while no write failed", ip + 1));
                }
                ensure!(
                    w.accepted.len() == whole.len(),
                    "incomplete",
                    "{name}, drawing {}: {} bytes written instead of {}",
                    ip + 1,
                    w.accepted.len(),
                    whole.len()
                );
            }
        }
        // fine again
        let mut w = FaultyWriter::new(&[]);
        if let Err(e) = go(&mut w)? {
            return viol("error", format!("{name} failed while the writer is fine again: {e}"));
        }
        ensure!(
            w.accepted == whole,
            "unlike-before",
            "{name}: the drawing isn't the same after the failed ones: {} instead of {}",
            short(&w.accepted),
            short(&whole)
        );
        if op.kind == 22 {
            let mut tokens = Vec::new();
            things.cs.push_style_tokens(&mut tokens);
            let s = termimad::style_tokens_to_string(&tokens);
            ensure!(
                whole == s.as_bytes(),
                "style-tokens",
                "{name}: {} written instead of {:?}",
                short(&whole),
                s
            );
        }
    } else {
        // what should be written
        let on_writer = WOp {
            kind: equivalent(op.kind),
            ..op.clone()
        };
        let mut whole = Vec::new();
        let draw = things.drawer(&on_writer);
        match driver::catch(|| draw(&mut whole)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol("error", format!("{name} failed while the writer is fine: {e}")),
            Err(p) => return viol("panic", format!("{name}: {p}")),
        }
        for (ip, plan) in op.plans.iter().enumerate() {
            let from = term().out.len();
            let errors = term().out_errors;
            term().out_faults = soft(plan).into();
            let r = match driver::catch(|| things.on_stdout(op)) {
                Ok(r) => r,
                Err(p) => return viol("panic", format!("{name}: {p}")),
            };
            term().out_faults.clear();
            let failed = term().out_errors > errors;
            let out = &term().out[from..];
            fp(out.len() as u64);
            ensure!(
                whole.starts_with(out),
                "garbled",
                "{name}, drawing {}: what's on the terminal isn't a prefix of the drawing: {} instead of {}",
                ip + 1,
                short(out),
                short(&whole)
            );
            if failed {
                count("drawings.failed", 1);
                ensure!(
                    r.is_err(),
                    "swallowed-error",
                    "{name}, drawing {}: success with {} of {} bytes on the terminal, and a failed write",
                    ip + 1,
                    out.len(),
                    whole.len()
                );
                // the standard output still has the rest
                driver::fingerprint(f);
                return Ok(false);
            }
            count("drawings.complete", 1);
            if let Err(e) = r {
                return viol("error", format!("{name}, drawing {}: error {e} while no write failed", ip + 1));
            }
            ensure!(
                out.len() == whole.len(),
                "not-flushed",
                "{name}, drawing {}: {} bytes on the terminal instead of {}",
                ip + 1,
                out.len(),
                whole.len()
            );
        }
    }
    driver::fingerprint(f);
    driver::nontrivial();
    Ok(true)
}

fn run_body(sc: &WrSc) {
    term().size = sc.size;
    term().size_err = sc.size_err;
    let things = match driver::catch(|| Things::new(sc)) {
        Ok(t) => t,
        Err(p) => {
            driver::live_violation("panic", p);
            return;
        }
    };
    for (i, op) in sc.ops.iter().enumerate() {
        let mut op = op.clone();
        op.kind %= ALL;
        match run_op(&things, &op, i) {
            Ok(true) => {}
            Ok(false) => break,
            Err(v) => {
                driver::live_violation(&v.class, v.msg);
                break;
            }
        }
    }
    driver::state::<Hist>().end = true;
}

pub(super) fn gen_plan(rng: &mut Rng) -> Vec<WFault> {
    let mut v = Vec::new();
    // first, where it's fine
    let quiet = *rng.pick(&[0, 0, 3, 30, 200]);
    for _ in 0..rng.size(quiet) {
        v.push(WFault::Ok);
    }
    let softs = rng.one_in(2);
    for _ in 0..rng.size(12) {
        v.push(if !softs {
            WFault::Ok
        } else {
            match rng.below(4) {
                0 => WFault::Eintr,
                1 => WFault::Ok,
                _ => WFault::Short(1 + rng.size(20) as u16),
            }
        });
    }
    if rng.one_in(2) {
        v.push(if rng.one_in(4) { WFault::Zero } else { WFault::Fail(rng.below(6) as u8) });
        // the writer stays broken or not
        if rng.one_in(3) {
            for _ in 0..20 {
                v.push(WFault::Fail(1));
            }
        }
    }
    v
}

pub struct WriterProp {
    pub rule: &'static str,
}

impl Prop for WriterProp {
    type Sc = WrSc;
    fn id(&self) -> &'static str {
        "W02"
    }
    fn quick_runs(&self) -> u64 {
        30000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> WrSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 60_000_000;
        let (base, skin) = gen_skin(rng);
        let blocks = 1 + rng.size(5);
        let lines = gen_doc(rng, blocks, false);
        let span = gen_spans(rng, 10, true, false);
        let mut ops = Vec::new();
        for _ in 0..1 + rng.size(if tier == Tier::Thorough { 9 } else { 5 }) {
            let mut plans = Vec::new();
            for _ in 0..1 + rng.size(3) {
                plans.push(gen_plan(rng));
            }
            ops.push(WOp {
                kind: rng.below(ALL as u64) as u8,
                a: rng.below(1000) as u16,
                b: rng.below(1000) as u16,
                plans,
            });
        }
        WrSc {
            sched,
            base,
            skin,
            lines,
            span,
            size: (rng.range(12, 90) as u16, rng.range(6, 30) as u16),
            size_err: rng.one_in(12),
            ops,
        }
    }
    fn sched(&self, sc: &WrSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &WrSc) {
        run_body(sc)
    }
    fn judge(&self, _sc: &WrSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => {
                ensure!(
                    driver::state::<Hist>().end || driver::has_live_violation(),
                    "unfinished",
                    "the run isn't finished"
                );
                Ok(())
            }
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad (skins, views, lists, inputs, rectangles, croppers, fillings, styles)",
            "minimad, coolor, unicode-width",
            "crossterm's styles and commands",
            "std's fmt and io, stdout (line buffering)",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "the writers given to the drawing functions: short, interrupted, failing writes",
            "write(2) on the standard output: same",
            "terminal size",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a complete drawing is the one done on a writer without fault (its content is the matter of other properties)"]
    }
}

