//! Simulation of programs drawing with styles, styled chars, fillings and spacings
//! on a terminal whose writer is interrupted, short or failing at seeded points,
//! after histories of changes of those styles.

use {
    super::{
        doc::{
            blanks,
            glyph,
            matches,
            sty,
            Col,
            Exp,
            Match,
            Sty,
        },
        fit::{
            exps,
            longest_prefix,
        },
        writers::{
            gen_plan,
            FaultyWriter,
            Fmt,
            WFault,
        },
    },
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            Outcome,
            SchedCfg,
        },
        vt::Vt,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        collections::BTreeSet,
        fmt::Write as _,
        io::Write as _,
    },
    termimad::{
        crossterm::{
            cursor::MoveTo,
            style::{
                Attribute,
                Attributes,
                Color,
                ContentStyle,
            },
            terminal::ClearType,
        },
        Alignment,
        CompoundStyle,
        Filling,
        LineStyle,
        ProgressBar,
        ScrollBarStyle,
        Spacing,
        StyledChar,
    },
};

// ---------------------------------------------------------------- scenarios

/// in which style: one of the compound styles, line styles, styled chars, or the
/// track or thumb of the scrollbar style
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Reg {
    C(u8),
    L(u8),
    S(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum StOp {
    Fg(Reg, ACol),
    Bg(Reg, ACol),
    FgBg(Reg, ACol, ACol),
    Attr(Reg, u8),
    NoAttr(Reg, u8),
    Blend(Reg, ACol, u8),
    /// destination, source
    Over(Reg, Reg),
    Copy(Reg, Reg),
    New(Reg, Option<ACol>, Option<ACol>, Vec<u8>),
    With(Reg, u8, ACol, ACol, u8),
    Char(u8, char),
    BarBg(ACol),
    BarFrom(u8),
    BarNew,
    Draw(Draw, (u16, u16), Vec<WFault>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum ACol {
    Gray(u8),
    Ansi(u8),
    Rgb(u8, u8, u8),
    Other(Col),
}
impl ACol {
    /// as the program makes it
    fn ct(self) -> Color {
        match self {
            ACol::Gray(n) => termimad::gray(n),
            ACol::Ansi(n) => termimad::ansi(n),
            ACol::Rgb(r, g, b) => termimad::rgb(r, g, b),
            ACol::Other(c) => c.ct(),
        }
    }
    /// what it should be
    fn model(self) -> Color {
        match self {
            ACol::Gray(n) => Color::AnsiValue(if n < 23 { 232 + n } else { 255 }),
            ACol::Ansi(n) => Color::AnsiValue(n),
            ACol::Rgb(r, g, b) => Color::Rgb { r, g, b },
            ACol::Other(c) => c.ct(),
        }
    }
    fn gen(rng: &mut Rng) -> Self {
        match rng.below(5) {
            0 => ACol::Gray(rng.below(30) as u8),
            1 => ACol::Ansi(rng.below(256) as u8),
            2 => ACol::Rgb(rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8),
            _ => ACol::Other(Col::gen(rng)),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Draw {
    Queue(u8, String),
    QueueStr(u8, String),
    QueueNumber(u8, u32),
    Apply(u8, String),
    StyleChar(u8, char),
    /// style, what, string, count
    Repeat(Reg, u8, String, u16),
    /// foreground, background, text, unstyled
    Colors(u8, bool, bool, String),
    Clear(u8, u8),
    Char(u8, u8, u16),
    Fill(u8, bool, char, u16),
    FillBg(ACol, u16),
    /// style, width, alignment, string, counted
    Spacing(u8, u16, u8, String, bool),
    /// part in thousandths, length, style, minimal width
    Bar(u16, u8, u8, u8),
    Thumb(bool, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StSc {
    pub sched: SchedCfg,
    pub size: (u16, u16),
    pub ops: Vec<StOp>,
}

#[derive(Default)]
struct Hist {
    end: bool,
}

// ---------------------------------------------------------------- model

const ATTRS: [Attribute; 10] = [
    Attribute::Bold,
    Attribute::Dim,
    Attribute::Italic,
    Attribute::Underlined,
    Attribute::SlowBlink,
    Attribute::RapidBlink,
    Attribute::Reverse,
    Attribute::CrossedOut,
    Attribute::Encircled,
    Attribute::OverLined,
];

#[derive(Clone, Debug, Default, PartialEq)]
struct M {
    fg: Option<Color>,
    bg: Option<Color>,
    attrs: BTreeSet<u8>,
}
impl M {
    fn attributes(&self) -> Attributes {
        let mut a = Attributes::default();
        for i in &self.attrs {
            a = a | ATTRS[*i as usize];
        }
        a
    }
    /// how it looks
    fn sty(&self) -> Sty {
        sty(&CompoundStyle::from(ContentStyle {
            foreground_color: self.fg,
            background_color: self.bg,
            underline_color: None,
            attributes: self.attributes(),
        }))
    }
    fn over(&mut self, o: &M) {
        if o.fg.is_some() {
            self.fg = o.fg;
        }
        if o.bg.is_some() {
            self.bg = o.bg;
        }
        self.attrs.extend(&o.attrs);
    }
    fn blend(&mut self, c: Color, weight: f32) {
        for k in [&mut self.fg, &mut self.bg].into_iter().flatten() {
            let (src, dest): (termimad::coolor::Color, termimad::coolor::Color) = ((*k).into(), c.into());
            *k = termimad::coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
        }
    }
}

/// the styles of the program
struct Real {
    c: Vec<CompoundStyle>,
    l: Vec<LineStyle>,
    s: Vec<StyledChar>,
    bar: ScrollBarStyle,
}
/// what they should be
struct Model {
    c: Vec<M>,
    l: Vec<M>,
    s: Vec<(M, char)>,
    bar: [(M, char); 2],
}
const NC: usize = 4;
const NL: usize = 2;
const NS: usize = 3;

impl Model {
    fn get(&mut self, r: Reg) -> &mut M {
        match r {
            Reg::C(i) => &mut self.c[i as usize % NC],
            Reg::L(i) => &mut self.l[i as usize % NL],
            Reg::S(i) => &mut self.s[i as usize % NS].0,
        }
    }
}
impl Real {
    fn cs(&self, r: Reg) -> CompoundStyle {
        match r {
            Reg::C(i) => self.c[i as usize % NC].clone(),
            Reg::L(i) => self.l[i as usize % NL].compound_style.clone(),
            Reg::S(i) => self.s[i as usize % NS].compound_style().clone(),
        }
    }
    fn set(&mut self, r: Reg, cs: CompoundStyle) {
        match r {
            Reg::C(i) => self.c[i as usize % NC] = cs,
            Reg::L(i) => {
                let l = &mut self.l[i as usize % NL];
                *l = if i % 3 == 0 { LineStyle::from(cs) } else { LineStyle::new(cs, l.align) };
            }
            Reg::S(i) => {
                let s = &mut self.s[i as usize % NS];
                if i % 2 == 0 {
                    s.set_compound_style(cs)
                } else {
                    *s = StyledChar::new(cs, s.get_char())
                }
            }
        }
    }
}

fn check_cs(cs: &CompoundStyle, m: &M, what: &str) -> Verdict {
    ensure!(cs.get_fg() == m.fg, "wrong-color", "{what}: the foreground is {:?} instead of {:?}", cs.get_fg(), m.fg);
    ensure!(cs.get_bg() == m.bg, "wrong-color", "{what}: the background is {:?} instead of {:?}", cs.get_bg(), m.bg);
    for (i, a) in ATTRS.iter().enumerate() {
        let (has, exp) = (cs.has_attr(*a), m.attrs.contains(&(i as u8)));
        ensure!(has == exp, "wrong-attribute", "{what}: {a:?} is {has} instead of {exp}");
    }
    ensure!(
        cs.attrs() == m.attributes(),
        "wrong-attribute",
        "{what}: the attributes are {:?} instead of {:?}",
        cs.attrs(),
        m.attributes()
    );
    Ok(())
}

fn check_sc(s: &StyledChar, m: &(M, char), what: &str) -> Verdict {
    check_cs(s.compound_style(), &m.0, what)?;
    ensure!(
        s.get_fg() == m.0.fg && s.get_bg() == m.0.bg,
        "wrong-color",
        "{what}: the colors are {:?} on {:?} instead of {:?} on {:?}",
        s.get_fg(),
        s.get_bg(),
        m.0.fg,
        m.0.bg
    );
    ensure!(
        s.get_char() == m.1 && s.nude_char() == m.1,
        "wrong-char",
        "{what}: the char is {:?}/{:?} instead of {:?}",
        s.get_char(),
        s.nude_char(),
        m.1
    );
    // as it's displayed
    let mut vt = Vt::new(4, 2);
    vt.feed(format!("{s}").as_bytes());
    for (x, e) in glyph(m.1, m.0.sty()).iter().enumerate() {
        ensure!(
            matches(e, vt.cell(x, 0)) == Match::Full,
            "wrong-char",
            "{what}: it's displayed as {:?} instead of {:?}",
            vt.cell(x, 0),
            e
        );
    }
    Ok(())
}

fn check_all(r: &Real, m: &Model, what: &str) -> Verdict {
    for i in 0..NC {
        check_cs(&r.c[i], &m.c[i], &format!("{what}, compound style {i}"))?;
    }
    for i in 0..NL {
        check_cs(&r.l[i].compound_style, &m.l[i], &format!("{what}, line style {i}"))?;
    }
    for i in 0..NS {
        check_sc(&r.s[i], &m.s[i], &format!("{what}, styled char {i}"))?;
    }
    check_sc(&r.bar.track, &m.bar[0], &format!("{what}, track of the scrollbar"))?;
    check_sc(&r.bar.thumb, &m.bar[1], &format!("{what}, thumb of the scrollbar"))
}

// ---------------------------------------------------------------- changes of styles

fn change(r: &mut Real, m: &mut Model, op: &StOp) {
    match op {
        StOp::Fg(g, c) => {
            m.get(*g).fg = Some(c.model());
            let c = c.ct();
            match *g {
                Reg::C(i) => r.c[i as usize % NC].set_fg(c),
                Reg::L(i) => r.l[i as usize % NL].set_fg(c),
                Reg::S(i) => r.s[i as usize % NS].set_fg(c),
            }
        }
        StOp::Bg(g, c) => {
            m.get(*g).bg = Some(c.model());
            let c = c.ct();
            match *g {
                Reg::C(i) => r.c[i as usize % NC].set_bg(c),
                Reg::L(i) => r.l[i as usize % NL].set_bg(c),
                Reg::S(i) => r.s[i as usize % NS].set_bg(c),
            }
        }
        StOp::FgBg(g, c, d) => {
            m.get(*g).fg = Some(c.model());
            m.get(*g).bg = Some(d.model());
            let (c, d) = (c.ct(), d.ct());
            match *g {
                Reg::C(i) => r.c[i as usize % NC].set_fgbg(c, d),
                Reg::L(i) => r.l[i as usize % NL].set_fgbg(c, d),
                Reg::S(i) => {
                    r.s[i as usize % NS].set_fg(c);
                    r.s[i as usize % NS].set_bg(d);
                }
            }
        }
        StOp::Attr(g, a) => {
            let i = *a as usize % ATTRS.len();
            m.get(*g).attrs.insert(i as u8);
            match *g {
                Reg::C(k) => r.c[k as usize % NC].add_attr(ATTRS[i]),
                Reg::L(k) => r.l[k as usize % NL].add_attr(ATTRS[i]),
                Reg::S(_) => {
                    let mut cs = r.cs(*g);
                    cs.add_attr(ATTRS[i]);
                    r.set(*g, cs);
                }
            }
        }
        StOp::NoAttr(g, a) => {
            let i = *a as usize % ATTRS.len();
            m.get(*g).attrs.remove(&(i as u8));
            match *g {
                Reg::C(k) => r.c[k as usize % NC].remove_attr(ATTRS[i]),
                Reg::L(k) => r.l[k as usize % NL].compound_style.remove_attr(ATTRS[i]),
                Reg::S(_) => {
                    let mut cs = r.cs(*g);
                    cs.remove_attr(ATTRS[i]);
                    r.set(*g, cs);
                }
            }
        }
        StOp::Blend(g, c, w) => {
            let w = (*w % 101) as f32 / 100.0;
            m.get(*g).blend(c.model(), w);
            match *g {
                Reg::C(i) => r.c[i as usize % NC].blend_with(c.ct(), w),
                Reg::L(i) => r.l[i as usize % NL].blend_with(c.ct(), w),
                Reg::S(i) => r.s[i as usize % NS].blend_with(c.ct(), w),
            }
        }
        StOp::Over(g, o) => {
            let om = m.get(*o).clone();
            m.get(*g).over(&om);
            let ocs = r.cs(*o);
            match *g {
                Reg::C(i) => r.c[i as usize % NC].overwrite_with(&ocs),
                Reg::L(i) => r.l[i as usize % NL].compound_style.overwrite_with(&ocs),
                Reg::S(_) => {
                    let mut cs = r.cs(*g);
                    cs.overwrite_with(&ocs);
                    r.set(*g, cs);
                }
            }
        }
        StOp::Copy(g, o) => {
            let om = m.get(*o).clone();
            *m.get(*g) = om;
            let cs = r.cs(*o);
            r.set(*g, cs);
        }
        StOp::New(g, f, b, attrs) => {
            let mut a = Attributes::default();
            let mut n = M {
                fg: f.map(|c| c.model()),
                bg: b.map(|c| c.model()),
                attrs: BTreeSet::new(),
            };
            for k in attrs {
                let k = *k as usize % ATTRS.len();
                a.set(ATTRS[k]);
                n.attrs.insert(k as u8);
            }
            *m.get(*g) = n;
            r.set(*g, CompoundStyle::new(f.map(|c| c.ct()), b.map(|c| c.ct()), a));
        }
        StOp::With(g, how, c, d, a) => {
            let k = *a as usize % ATTRS.len();
            let mut n = M::default();
            let (fc, bc) = (c.ct(), d.ct());
            let cs = match how % 4 {
                0 => {
                    n.fg = Some(c.model());
                    n.bg = Some(d.model());
                    CompoundStyle::with_fgbg(fc, bc)
                }
                1 => {
                    n.fg = Some(c.model());
                    CompoundStyle::with_fg(fc)
                }
                2 => {
                    n.bg = Some(d.model());
                    CompoundStyle::with_bg(bc)
                }
                _ => {
                    n.attrs.insert(k as u8);
                    CompoundStyle::with_attr(ATTRS[k])
                }
            };
            *m.get(*g) = n;
            match (*g, how % 4) {
                (Reg::S(i), 1) => {
                    let i = i as usize % NS;
                    r.s[i] = StyledChar::from_fg_char(fc, r.s[i].nude_char());
                }
                _ => r.set(*g, cs),
            }
        }
        StOp::Char(i, c) => {
            let i = *i as usize % NS;
            m.s[i].1 = *c;
            if m.s[i].0 == M::default() {
                r.s[i] = StyledChar::nude(*c);
            } else {
                r.s[i].set_char(*c);
            }
        }
        StOp::BarBg(c) => {
            m.bar[0].0.bg = Some(c.model());
            m.bar[1].0.bg = Some(c.model());
            r.bar.set_bg(c.ct());
        }
        StOp::BarFrom(i) => {
            let i = *i as usize % NS;
            let (s, c) = m.s[i].clone();
            let one = |col: Option<Color>, def: u8| M {
                fg: Some(col.unwrap_or(Color::AnsiValue(232 + def))),
                ..M::default()
            };
            m.bar = [(one(s.bg, 5), c), (one(s.fg, 21), c)];
            r.bar = ScrollBarStyle::from(r.s[i].clone());
        }
        StOp::BarNew => {
            r.bar = ScrollBarStyle::new();
            m.bar = default_bar();
        }
        StOp::Draw(..) => {}
    }
}

fn default_bar() -> [(M, char); 2] {
    let one = |n: u8| {
        (
            M {
                fg: Some(Color::AnsiValue(232 + n)),
                ..M::default()
            },
            '▐',
        )
    };
    [one(5), one(21)]
}

// ---------------------------------------------------------------- drawings

/// something displayed through a formatter
struct Disp<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result>(F);
impl<F: Fn(&mut std::fmt::Formatter<'_>) -> std::fmt::Result> std::fmt::Display for Disp<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (self.0)(f)
    }
}

fn err<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

fn clear_type(n: u8) -> ClearType {
    match n % 5 {
        0 => ClearType::UntilNewLine,
        1 => ClearType::CurrentLine,
        2 => ClearType::FromCursorDown,
        3 => ClearType::FromCursorUp,
        _ => ClearType::All,
    }
}

fn align(n: u8) -> Alignment {
    [Alignment::Unspecified, Alignment::Left, Alignment::Center, Alignment::Right][n as usize % 4]
}

/// draw, and give what should be drawn (from the cursor, on one line)
fn draw(r: &Real, m: &Model, d: &Draw, w: &mut FaultyWriter) -> (Result<(), String>, Vec<Exp>) {
    match d {
        Draw::Queue(i, s) => {
            let i = *i as usize % NC;
            (r.c[i].queue(w, s.clone()).map_err(err), exps(s, m.c[i].sty()))
        }
        Draw::QueueStr(i, s) => {
            let i = *i as usize % NC;
            (r.c[i].queue_str(w, s.as_str()).map_err(err), exps(s, m.c[i].sty()))
        }
        Draw::QueueNumber(i, n) => {
            let i = *i as usize % NC;
            (r.c[i].queue(w, *n).map_err(err), exps(&n.to_string(), m.c[i].sty()))
        }
        Draw::Apply(i, s) => {
            let i = *i as usize % NC;
            (write!(Fmt(w), "{}", r.c[i].apply_to(s)).map_err(err), exps(s, m.c[i].sty()))
        }
        Draw::StyleChar(i, c) => {
            let i = *i as usize % NC;
            (r.c[i].style_char(*c).queue(w).map_err(err), exps(&c.to_string(), m.c[i].sty()))
        }
        Draw::Repeat(g, what, s, n) => {
            let n = *n as usize;
            let c = s.chars().next().unwrap_or('x');
            let sty = match *g {
                Reg::L(i) => m.l[i as usize % NL].sty(),
                Reg::C(i) | Reg::S(i) => m.c[i as usize % NC].sty(),
            };
            let res = match *g {
                Reg::L(i) => {
                    let l = &r.l[i as usize % NL];
                    match what % 3 {
                        0 => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_string(f, s, n))),
                        1 => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_char(f, c, n))),
                        _ => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_space(f, n))),
                    }
                }
                Reg::C(i) | Reg::S(i) => {
                    let l = &r.c[i as usize % NC];
                    match what % 3 {
                        0 => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_string(f, s, n))),
                        1 => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_char(f, c, n))),
                        _ => write!(Fmt(w), "{}", Disp(|f: &mut std::fmt::Formatter<'_>| l.repeat_space(f, n))),
                    }
                }
            };
            let shown = match what % 3 {
                0 => s.repeat(n),
                1 => c.to_string().repeat(n),
                _ => " ".repeat(n),
            };
            (res.map_err(err), exps(&shown, sty))
        }
        Draw::Colors(i, f, b, s) => {
            let i = *i as usize % NC;
            let res = (|| {
                if *f {
                    r.c[i].queue_fg(w).map_err(err)?;
                }
                if *b {
                    r.c[i].queue_bg(w).map_err(err)?;
                }
                write!(w, "{s}\x1b[0m").map_err(err)
            })();
            let m = M {
                fg: if *f { m.c[i].fg } else { None },
                bg: if *b { m.c[i].bg } else { None },
                attrs: BTreeSet::new(),
            };
            (res, exps(s, m.sty()))
        }
        Draw::Clear(i, t) => {
            let i = *i as usize % NC;
            let res = r.c[i]
                .clear(w, clear_type(*t))
                .map_err(err)
                .and_then(|_| write!(w, "\x1b[0m").map_err(err));
            (res, Vec::new())
        }
        Draw::Char(i, what, n) => {
            let i = *i as usize % NS;
            let s = &r.s[i];
            let (res, n) = match what % 4 {
                0 => (s.queue(w).map_err(err), 1),
                1 => (s.queue_repeat(w, *n as usize).map_err(err), *n as usize),
                2 => (write!(Fmt(w), "{s}").map_err(err), 1),
                _ => (write!(Fmt(w), "{}", s.repeated(*n as usize)).map_err(err), *n as usize),
            };
            (res, exps(&m.s[i].1.to_string().repeat(n), m.s[i].0.sty()))
        }
        Draw::Fill(i, styled, c, n) => {
            let i = *i as usize % NC;
            let f = Filling::from_char(*c);
            let n = *n as usize;
            let shown = c.to_string().repeat(n);
            if *styled {
                (f.queue_styled(w, &r.c[i], n).map_err(err), exps(&shown, m.c[i].sty()))
            } else {
                (f.queue_unstyled(w, n).map_err(err), exps(&shown, Sty::default()))
            }
        }
        Draw::FillBg(c, n) => {
            let res = termimad::fill_bg(w, *n as usize, c.ct())
                .map_err(err)
                .and_then(|_| write!(w, "\x1b[0m").map_err(err));
            let m = M {
                bg: Some(c.model()),
                ..M::default()
            };
            (res, blanks(*n as usize, m.sty()))
        }
        Draw::Spacing(i, width, a, s, counted) => {
            let i = *i as usize % NC;
            let width = *width as usize;
            let spacing = Spacing {
                width,
                align: align(*a),
            };
            let (all, total, _) = longest_prefix(s, usize::MAX);
            let res = if *counted {
                spacing.write_counted_str(w, s, total, &r.c[i])
            } else {
                spacing.write_str(w, s, &r.c[i])
            };
            let sty = m.c[i].sty();
            let v = if total > width {
                let (shown, n, _) = longest_prefix(s, width);
                let mut v = exps(&shown, sty);
                v.extend(blanks(width - n, sty));
                v
            } else {
                let rest = width - total;
                let left = match align(*a) {
                    Alignment::Center => rest / 2,
                    Alignment::Right => rest,
                    _ => 0,
                };
                let mut v = blanks(left, sty);
                v.extend(exps(&all, sty));
                v.extend(blanks(rest - left, sty));
                v
            };
            (res.map_err(err), v)
        }
        Draw::Bar(part, len, i, min) => {
            let i = *i as usize % NC;
            let part = (*part % 1001) as f32 / 1000.0;
            let bar = ProgressBar::new(part, *len as usize);
            let res = write!(Fmt(w), "{}", r.c[i].apply_to(format!("{bar:min$}", min = *min as usize)));
            (res.map_err(err), Vec::new())
        }
        Draw::Thumb(thumb, n) => {
            let (s, m) = if *thumb { (&r.bar.thumb, &m.bar[1]) } else { (&r.bar.track, &m.bar[0]) };
            (s.queue_repeat(w, *n as usize).map_err(err), exps(&m.1.to_string().repeat(*n as usize), m.0.sty()))
        }
    }
}

/// check the drawing of a progress bar, and give how many columns it takes
fn check_bar(vt: &Vt, x0: usize, y: usize, part: f32, len: usize, min: usize, sty: Sty, what: &str) -> Result<usize, driver::Viol> {
    const CHARS: [char; 8] = ['▏', '▎', '▍', '▌', '▋', '▊', '▉', '█'];
    let mut eighths = 0;
    let mut x = x0;
    while x < vt.w {
        let Some(p) = CHARS.iter().position(|c| *c == vt.cell(x, y).ch) else { break };
        if eighths % 8 != 0 {
            return viol("bar", format!("{what}: there's a hole in the bar:\n{}", vt.dump()));
        }
        let c = vt.cell(x, y);
        if (c.attrs, c.fg, c.bg) != (sty.attrs, sty.fg, sty.bg) {
            return viol("style", format!("{what}: the bar has the style {c:?}"));
        }
        eighths += p + 1;
        x += 1;
    }
    if x - x0 > len {
        return viol("bar", format!("{what}: the bar takes {} columns", x - x0));
    }
    let exp = part as f64 * len as f64 * 8.0;
    if (eighths as f64 - exp).abs() > 0.51 {
        return viol("bar", format!("{what}: the bar has {eighths} eighths of columns instead of {exp}"));
    }
    let end = x.max(x0 + min);
    for k in x..end {
        if matches(&blanks(1, sty)[0], vt.cell(k, y)) != Match::Full {
            return viol("bar", format!("{what}: {:?} after the bar, at column {k}", vt.cell(k, y)));
        }
    }
    Ok(end)
}

fn run_body(sc: &StSc) {
    let mut r = Real {
        c: vec![CompoundStyle::default(); NC],
        l: vec![LineStyle::default(); NL],
        s: vec![StyledChar::nude('*'); NS],
        bar: ScrollBarStyle::default(),
    };
    let mut m = Model {
        c: vec![M::default(); NC],
        l: vec![M::default(); NL],
        s: vec![(M::default(), '*'); NS],
        bar: default_bar(),
    };
    let mut fp = 0u64;
    for (i, op) in sc.ops.iter().enumerate() {
        let what = format!("operation {} ({op:?})", i + 1);
        let res = (|| -> Verdict {
            if let Err(p) = driver::catch(|| change(&mut r, &mut m, op)) {
                return viol("panic", format!("{what}: {p}"));
            }
            check_all(&r, &m, &what)?;
            if let StOp::Draw(d, pos, plan) = op {
                let n = run_draw(&r, &m, d, *pos, sc.size, plan, &what)?;
                fp = (fp ^ n as u64 ^ (i as u64) << 32).wrapping_mul(0x100_0000_01b3);
                driver::fingerprint(fp);
                count("style.drawings", 1);
            }
            Ok(())
        })();
        if let Err(v) = res {
            driver::live_violation(&v.class, v.msg);
            break;
        }
    }
    driver::state::<Hist>().end = true;
}

fn run_draw(
    r: &Real,
    m: &Model,
    d: &Draw,
    pos: (u16, u16),
    size: (u16, u16),
    plan: &[WFault],
    what: &str,
) -> Result<usize, driver::Viol> {
    // the drawing is on one line, never wrapped: the terminal is made wide enough
    let room = match d {
        Draw::Clear(..) => 0,
        Draw::Fill(_, _, _, n) | Draw::FillBg(_, n) => *n as usize + 4,
        _ => 700,
    };
    let (x0, y0) = ((pos.0 % size.0) as usize, (pos.1 % size.1) as usize);
    let mut vt = Vt::new(size.0 + room as u16, size.1);
    // there's something drawn before
    for y in 0..vt.h {
        vt.feed(format!("\x1b[{};1H\x1b[7;31;44m", y + 1).as_bytes());
        vt.feed("#".repeat(vt.w).as_bytes());
    }
    vt.feed(b"\x1b[0m");
    let mut before = Vec::new();
    for y in 0..vt.h {
        for x in 0..vt.w {
            before.push(vt.cell(x, y).clone());
        }
    }
    vt.feed(format!("{}", Disp(|f: &mut std::fmt::Formatter<'_>| {
        use termimad::crossterm::Command;
        MoveTo(x0 as u16, y0 as u16).write_ansi(f)
    })).as_bytes());
    let mut w = FaultyWriter::new(plan);
    let (res, exp) = match driver::catch(|| draw(r, m, d, &mut w)) {
        Ok(r) => r,
        Err(p) => return viol("panic", format!("{what}: {p}")).map(|_: ()| 0),
    };
    driver::nontrivial();
    vt.feed(&w.accepted);
    if w.hard > 0 {
        count("style.failed", 1);
        if res.is_ok() {
            return viol("swallowed-error", format!("{what}: success while a write failed"));
        }
        // nothing must be drawn out of the place of the drawing
        if !matches!(d, Draw::Clear(..) | Draw::Bar(..)) {
            for y in 0..vt.h {
                for x in 0..vt.w {
                    if (y != y0 || x < x0 || x >= x0 + exp.len()) && *vt.cell(x, y) != before[y * vt.w + x] {
                        return viol("out-of-place", format!("{what}: after a failure, {x},{y} is drawn"));
                    }
                }
            }
        }
        return Ok(w.accepted.len());
    }
    if let Err(e) = res {
        return viol("error", format!("{what}: {e} while no write failed"));
    }
    let end = match d {
        Draw::Clear(i, t) => {
            let m = M {
                bg: m.c[*i as usize % NC].bg,
                ..M::default()
            };
            let blank = &blanks(1, m.sty())[0];
            for y in 0..vt.h {
                for x in 0..vt.w {
                    let here = (y, x) >= (y0, x0);
                    let cleared = match clear_type(*t) {
                        ClearType::UntilNewLine => y == y0 && x >= x0,
                        ClearType::CurrentLine => y == y0,
                        ClearType::FromCursorDown => here,
                        ClearType::FromCursorUp => (y, x) <= (y0, x0),
                        _ => true,
                    };
                    let c = vt.cell(x, y);
                    if cleared && matches(blank, c) != Match::Full {
                        return viol("not-cleared", format!("{what}: {x},{y} isn't cleared with the style ({c:?} instead of {blank:?})"));
                    }
                    if !cleared && *c != before[y * vt.w + x] {
                        return viol("out-of-place", format!("{what}: {x},{y} is cleared"));
                    }
                }
            }
            return Ok(w.accepted.len());
        }
        Draw::Bar(part, len, i, min) => {
            let part = (*part % 1001) as f32 / 1000.0;
            check_bar(&vt, x0, y0, part, *len as usize, *min as usize, m.c[*i as usize % NC].sty(), what)?
        }
        _ => {
            for (k, e) in exp.iter().enumerate() {
                let c = vt.cell(x0 + k, y0);
                match matches(e, c) {
                    Match::Full => {}
                    Match::Glyphs => {
                        return viol("style", format!("{what}: at column {k} of the drawing, the style is {c:?} instead of {e:?}"))
                    }
                    Match::No => {
                        return viol(
                            "content",
                            format!("{what}: at column {k} of the drawing, there's {c:?} instead of {e:?}:\n{}", vt.dump()),
                        )
                    }
                }
            }
            x0 + exp.len()
        }
    };
    for y in 0..vt.h {
        for x in 0..vt.w {
            if (y != y0 || x < x0 || x >= end) && *vt.cell(x, y) != before[y * vt.w + x] {
                return viol(
                    "out-of-place",
                    format!("{what}: {x},{y} is drawn while the drawing is of {} columns at {x0},{y0}:\n{}", end - x0, vt.dump()),
                );
            }
        }
    }
    ensure!(
        (vt.x, vt.y) == (end, y0),
        "cursor",
        "{what}: the cursor is at {},{} instead of {end},{y0}",
        vt.x,
        vt.y
    );
    // what's written next isn't in the style
    vt.feed(b"z");
    let z = vt.cell(end, y0);
    ensure!(
        z.ch == 'z' && (z.attrs, z.fg, z.bg) == (0, 0, 0),
        "leak",
        "{what}: what's written next is {z:?}"
    );
    Ok(w.accepted.len())
}

// ---------------------------------------------------------------- generation

fn gen_reg_in(rng: &mut Rng, narrow: bool) -> Reg {
    if narrow {
        return *rng.pick(&[Reg::C(0), Reg::C(0), Reg::C(1), Reg::L(0), Reg::S(0)]);
    }
    gen_reg(rng)
}
fn gen_reg(rng: &mut Rng) -> Reg {
    match rng.below(8) {
        0 | 1 => Reg::L(rng.below(6) as u8),
        2 | 3 => Reg::S(rng.below(6) as u8),
        _ => Reg::C(rng.below(NC as u64) as u8),
    }
}
fn gen_char(rng: &mut Rng) -> char {
    *rng.pick(&['a', '*', ' ', '─', '█', 'é', '漢', '▐', '😀', '0', '\u{301}'])
}
/// a char which takes a column, at least
fn gen_mark(rng: &mut Rng) -> char {
    match gen_char(rng) {
        '\u{301}' => '-',
        c => c,
    }
}
fn gen_str(rng: &mut Rng, max: u64, tabs: bool) -> String {
    let mut s = String::new();
    if rng.one_in(8) {
        return s;
    }
    s.push(gen_mark(rng));
    for _ in 0..rng.size(max) {
        s.push(if tabs && rng.one_in(12) { '\t' } else { gen_char(rng) });
    }
    s
}
fn gen_draw(rng: &mut Rng) -> Draw {
    let i = rng.below(NC as u64) as u8;
    match rng.below(16) {
        0 => Draw::Queue(i, gen_str(rng, 30, false)),
        1 => Draw::QueueStr(i, gen_str(rng, 30, false)),
        2 => Draw::QueueNumber(i, rng.below(1 << 32) as u32),
        3 => Draw::Apply(i, gen_str(rng, 30, false)),
        4 => Draw::StyleChar(i, gen_mark(rng)),
        5 | 6 => Draw::Repeat(gen_reg(rng), rng.below(3) as u8, gen_str(rng, 5, false), rng.size(40) as u16),
        7 => Draw::Colors(i, rng.one_in(2), rng.one_in(2), gen_str(rng, 20, false)),
        8 => Draw::Clear(i, rng.below(5) as u8),
        9 | 10 => Draw::Char(rng.below(NS as u64) as u8, rng.below(4) as u8, rng.size(90) as u16),
        11 => {
            let c = *rng.pick(&[' ', '=', '─', '█', 'é', '0']);
            let n = if rng.one_in(3) { 990 + rng.below(2100) } else { rng.size(90) };
            Draw::Fill(i, rng.one_in(2), c, n as u16)
        }
        12 => Draw::FillBg(ACol::gen(rng), if rng.one_in(3) { 990 + rng.below(2100) } else { rng.size(90) } as u16),
        13 => Draw::Spacing(i, rng.size(30) as u16, rng.below(4) as u8, gen_str(rng, 20, true), rng.one_in(2)),
        14 => {
            let part = match rng.below(4) {
                0 => 1000 * rng.below(2),
                1 => 125 * rng.below(9),
                _ => rng.below(1001),
            };
            Draw::Bar(part as u16, rng.size(60) as u8, i, if rng.one_in(2) { 0 } else { rng.size(70) as u8 })
        }
        _ => Draw::Thumb(rng.one_in(2), rng.size(30) as u16),
    }
}

pub struct StyleProp {
    pub rule: &'static str,
}

impl Prop for StyleProp {
    type Sc = StSc;
    fn id(&self) -> &'static str {
        "S03"
    }
    fn quick_runs(&self) -> u64 {
        30000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> StSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 20_000_000;
        let mut ops = Vec::new();
        // a few runs do much with few styles and attributes
        let narrow = rng.one_in(3);
        let mut n = 2 + rng.size(if tier == Tier::Thorough { 40 } else { 16 });
        if narrow {
            n += rng.below(25);
        }
        let attrs: Vec<u8> = if narrow {
            (0..3).map(|_| rng.below(10) as u8).collect()
        } else {
            (0..10).collect()
        };
        for _ in 0..n {
            let op = match rng.below(if narrow { 28 } else { 26 }) {
                0 => StOp::Fg(gen_reg_in(rng, narrow), ACol::gen(rng)),
                1 => StOp::Bg(gen_reg_in(rng, narrow), ACol::gen(rng)),
                2 => StOp::FgBg(gen_reg_in(rng, narrow), ACol::gen(rng), ACol::gen(rng)),
                3 | 4 | 25 if narrow => StOp::Attr(gen_reg_in(rng, narrow), *rng.pick(&attrs)),
                3 | 4 => StOp::Attr(gen_reg_in(rng, narrow), *rng.pick(&attrs)),
                5 | 26 | 27 => StOp::NoAttr(gen_reg_in(rng, narrow), *rng.pick(&attrs)),
                6 => StOp::Blend(gen_reg_in(rng, narrow), ACol::gen(rng), rng.below(101) as u8),
                7 | 8 => StOp::Over(gen_reg_in(rng, narrow), gen_reg_in(rng, narrow)),
                9 => StOp::Copy(gen_reg_in(rng, narrow), gen_reg_in(rng, narrow)),
                10 => {
                    let (f, b) = (rng.one_in(2), rng.one_in(2));
                    let f = if f { Some(ACol::gen(rng)) } else { None };
                    let b = if b { Some(ACol::gen(rng)) } else { None };
                    let attrs = (0..rng.below(4)).map(|_| *rng.pick(&attrs)).collect();
                    StOp::New(gen_reg_in(rng, narrow), f, b, attrs)
                }
                11 | 12 => StOp::With(gen_reg_in(rng, narrow), rng.below(4) as u8, ACol::gen(rng), ACol::gen(rng), *rng.pick(&attrs)),
                13 => StOp::Char(rng.below(NS as u64) as u8, gen_mark(rng)),
                14 => match rng.below(3) {
                    0 => StOp::BarBg(ACol::gen(rng)),
                    1 => StOp::BarFrom(rng.below(NS as u64) as u8),
                    _ => StOp::BarNew,
                },
                _ => StOp::Draw(
                    gen_draw(rng),
                    (rng.below(30) as u16, rng.below(5) as u16),
                    if rng.one_in(2) { Vec::new() } else { gen_plan(rng) },
                ),
            };
            ops.push(op);
        }
        StSc {
            sched,
            size: (rng.range(1, 30) as u16, rng.range(1, 5) as u16),
            ops,
        }
    }
    fn sched(&self, sc: &StSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &StSc) {
        run_body(sc)
    }
    fn judge(&self, _sc: &StSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => {
                ensure!(
                    driver::state::<Hist>().end || driver::has_live_violation(),
                    "unfinished",
                    "the run isn't finished"
                );
                Ok(())
            }
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad (compound and line styles, styled chars, scrollbar styles, fillings, spacings, colors, progress bars)",
            "coolor, unicode-width",
            "crossterm's styles and commands",
            "std's fmt and io",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "the writers: short, interrupted, failing writes",
            "the terminal: an emulated screen, with things already drawn on it",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["blends of colors are the ones of coolor, and crossterm says how a style is written for the terminal"]
    }
}
