//! Simulation of a program printing markdown documents on a terminal whose
//! size changes between the prints (and sometimes isn't known), through a
//! standard output which takes what it wants of each write.
//!
//! What's printed is read back as a terminal would show it, and compared to
//! the parsed document: the judge doesn't decide where lines must be wrapped,
//! but checks that what's on screen is one of the acceptable layouts.

use {
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            term,
            OutFault,
        },
        vt::{
            Cell,
            Vt,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::io::Write,
    termimad::{
        crossterm::style::{
            Attribute,
            Color,
        },
        minimad::{
            self,
            Alignment,
            Composite,
            CompositeStyle,
            Compound,
            Line,
        },
        CompoundStyle,
        FmtText,
        ListItemsIndentationMode,
        MadSkin,
        StyledChar,
        TableBorderChars,
        ASCII_TABLE_BORDER_CHARS,
        ROUNDED_TABLE_BORDER_CHARS,
    },
    unicode_width::UnicodeWidthChar,
};

// ---------------------------------------------------------------- scenario

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Col {
    Ansi(u8),
    Rgb(u8, u8, u8),
    Named(u8),
}
impl Col {
    pub fn ct(self) -> Color {
        match self {
            Col::Ansi(n) => Color::AnsiValue(n),
            Col::Rgb(r, g, b) => Color::Rgb { r, g, b },
            Col::Named(n) => [Color::Red, Color::DarkBlue, Color::Green, Color::Yellow, Color::Grey, Color::Black]
                [n as usize % 6],
        }
    }
    pub(super) fn gen(rng: &mut Rng) -> Self {
        match rng.below(3) {
            0 => Col::Ansi(rng.below(256) as u8),
            1 => Col::Rgb(rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8),
            _ => Col::Named(rng.below(6) as u8),
        }
    }
}

pub const ATTRS: [Attribute; 5] = [
    Attribute::Bold,
    Attribute::Italic,
    Attribute::Underlined,
    Attribute::CrossedOut,
    Attribute::Reverse,
];

/// parts of a skin which have a style
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Part {
    Paragraph,
    Bold,
    Italic,
    Strikeout,
    InlineCode,
    CodeBlock,
    Header(u8),
    Table,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum SkinOp {
    SetFg(Col),
    SetBg(Col),
    SetHeadersFg(Col),
    SetHeadersBg(Col),
    SetGlobalBg(Col),
    /// color, weight (percents)
    Blend(Col, u8),
    Ascii,
    Rounded,
    FirstLineOnly,
    /// 0 left, 1 center, 2 right
    Align(Part, u8),
    Margins(Part, u8, u8),
    Fg(Part, Col),
    Bg(Part, Col),
    FgBg(Part, Col, Col),
    Attr(Part, u8),
    /// bullet, quote mark, rule (0..3), char, color
    Mark(u8, char, Col),
    /// a char replaced with another one
    Special(Col),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Print {
    pub width: u16,
    /// the size of the terminal can't be known
    pub no_size: bool,
    /// the function used
    pub via: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DocSc {
    pub sched: SchedCfg,
    /// default, nude, dark, light
    pub base: u8,
    pub skin: Vec<SkinOp>,
    pub lines: Vec<String>,
    pub crlf: bool,
    pub prints: Vec<Print>,
    pub out_faults: Vec<OutFault>,
}

pub const SPECIAL: &str = "⚑";
const SPECIAL_REPL: char = '⚐';

// ---------------------------------------------------------------- skin model

#[derive(Clone)]
struct LineSk {
    cs: CompoundStyle,
    align: Alignment,
    margins: (usize, usize),
}
#[derive(Clone)]
struct Mark {
    cs: CompoundStyle,
    c: char,
}
/// what the skin should be
#[derive(Clone)]
pub struct Sk {
    paragraph: LineSk,
    code_block: LineSk,
    headers: Vec<LineSk>,
    table: LineSk,
    bold: CompoundStyle,
    italic: CompoundStyle,
    strikeout: CompoundStyle,
    inline_code: CompoundStyle,
    bullet: Mark,
    quote: Mark,
    rule: Mark,
    pub(super) ellipsis: CompoundStyle,
    /// thumb and track of scrollbars
    bar: [Mark; 2],
    borders: TableBorderChars,
    pub(super) block_mode: bool,
    special: Option<Mark>,
}

fn fg(cs: &mut CompoundStyle, c: Color) {
    cs.object_style.foreground_color = Some(c);
}
fn bg(cs: &mut CompoundStyle, c: Color) {
    cs.object_style.background_color = Some(c);
}
fn blended(cs: &mut CompoundStyle, dest: Color, weight: f32) {
    let f = |c: Color| -> Color {
        let src: termimad::coolor::Color = c.into();
        let dest: termimad::coolor::Color = dest.into();
        termimad::coolor::Color::blend(src, 1.0 - weight, dest, weight).into()
    };
    cs.object_style.foreground_color = cs.object_style.foreground_color.map(f);
    cs.object_style.background_color = cs.object_style.background_color.map(f);
}
fn overlay(a: &CompoundStyle, b: &CompoundStyle) -> CompoundStyle {
    let mut r = a.clone();
    if let Some(c) = b.object_style.foreground_color {
        fg(&mut r, c);
    }
    if let Some(c) = b.object_style.background_color {
        bg(&mut r, c);
    }
    for at in Attribute::iterator() {
        if b.object_style.attributes.has(at) {
            r.object_style.attributes.set(at);
        }
    }
    r
}

fn align(n: u8) -> Alignment {
    match n % 3 {
        0 => Alignment::Left,
        1 => Alignment::Center,
        _ => Alignment::Right,
    }
}

impl Sk {
    fn of(s: &MadSkin) -> Self {
        let line = |l: &termimad::LineStyle| LineSk {
            cs: l.compound_style.clone(),
            align: l.align,
            margins: (l.left_margin, l.right_margin),
        };
        let mark = |c: &StyledChar| Mark {
            cs: c.compound_style().clone(),
            c: c.get_char(),
        };
        Sk {
            paragraph: line(&s.paragraph),
            code_block: line(&s.code_block),
            headers: s.headers.iter().map(line).collect(),
            table: line(&s.table),
            bold: s.bold.clone(),
            italic: s.italic.clone(),
            strikeout: s.strikeout.clone(),
            inline_code: s.inline_code.clone(),
            bullet: mark(&s.bullet),
            quote: mark(&s.quote_mark),
            rule: mark(&s.horizontal_rule),
            ellipsis: s.ellipsis.clone(),
            bar: [mark(&s.scrollbar.thumb), mark(&s.scrollbar.track)],
            borders: s.table_border_chars.clone(),
            block_mode: s.list_items_indentation_mode == ListItemsIndentationMode::Block,
            special: None,
        }
    }
    fn part(&mut self, p: Part) -> &mut CompoundStyle {
        match p {
            Part::Paragraph => &mut self.paragraph.cs,
            Part::Bold => &mut self.bold,
            Part::Italic => &mut self.italic,
            Part::Strikeout => &mut self.strikeout,
            Part::InlineCode => &mut self.inline_code,
            Part::CodeBlock => &mut self.code_block.cs,
            Part::Header(n) => &mut self.headers[n as usize % 8].cs,
            Part::Table => &mut self.table.cs,
        }
    }
    fn line(&mut self, p: Part) -> Option<&mut LineSk> {
        match p {
            Part::Paragraph => Some(&mut self.paragraph),
            Part::CodeBlock => Some(&mut self.code_block),
            Part::Header(n) => Some(&mut self.headers[n as usize % 8]),
            Part::Table => Some(&mut self.table),
            _ => None,
        }
    }
    fn apply(&mut self, op: &SkinOp) {
        match op {
            SkinOp::SetFg(c) => {
                let c = c.ct();
                for cs in [
                    &mut self.paragraph.cs,
                    &mut self.bold,
                    &mut self.italic,
                    &mut self.strikeout,
                    &mut self.bullet.cs,
                    &mut self.quote.cs,
                    &mut self.rule.cs,
                    &mut self.ellipsis,
                ] {
                    fg(cs, c);
                }
                for h in &mut self.headers {
                    fg(&mut h.cs, c);
                }
                if let Some(s) = self.special.as_mut() {
                    fg(&mut s.cs, c);
                }
            }
            SkinOp::SetBg(c) => {
                let c = c.ct();
                for cs in [
                    &mut self.paragraph.cs,
                    &mut self.bold,
                    &mut self.italic,
                    &mut self.strikeout,
                    &mut self.table.cs,
                    &mut self.bullet.cs,
                    &mut self.quote.cs,
                    &mut self.rule.cs,
                    &mut self.ellipsis,
                ] {
                    bg(cs, c);
                }
                for h in &mut self.headers {
                    bg(&mut h.cs, c);
                }
                for m in &mut self.bar {
                    bg(&mut m.cs, c);
                }
                if let Some(s) = self.special.as_mut() {
                    bg(&mut s.cs, c);
                }
            }
            SkinOp::SetHeadersFg(c) => {
                for h in &mut self.headers {
                    fg(&mut h.cs, c.ct());
                }
            }
            SkinOp::SetHeadersBg(c) => {
                for h in &mut self.headers {
                    bg(&mut h.cs, c.ct());
                }
            }
            SkinOp::SetGlobalBg(c) => {
                for h in &mut self.headers {
                    bg(&mut h.cs, c.ct());
                }
                bg(&mut self.paragraph.cs, c.ct());
                bg(&mut self.rule.cs, c.ct());
            }
            SkinOp::Blend(c, w) => {
                let (c, w) = (c.ct(), *w as f32 / 100.0);
                for cs in [
                    &mut self.paragraph.cs,
                    &mut self.bold,
                    &mut self.italic,
                    &mut self.strikeout,
                    &mut self.inline_code,
                    &mut self.code_block.cs,
                    &mut self.table.cs,
                    &mut self.bullet.cs,
                    &mut self.quote.cs,
                    &mut self.rule.cs,
                    &mut self.ellipsis,
                ] {
                    blended(cs, c, w);
                }
                for h in &mut self.headers {
                    blended(&mut h.cs, c, w);
                }
            }
            SkinOp::Ascii => {
                self.borders = ASCII_TABLE_BORDER_CHARS.clone();
                self.bullet.c = '*';
                self.quote.c = '>';
                self.rule.c = '-';
            }
            SkinOp::Rounded => self.borders = ROUNDED_TABLE_BORDER_CHARS.clone(),
            SkinOp::FirstLineOnly => self.block_mode = false,
            SkinOp::Align(p, a) => {
                if let Some(l) = self.line(*p) {
                    l.align = align(*a);
                }
            }
            SkinOp::Margins(p, l, r) => {
                // margins of tables aren't a thing
                if *p != Part::Table {
                    if let Some(s) = self.line(*p) {
                        s.margins = (*l as usize, *r as usize);
                    }
                }
            }
            SkinOp::Fg(p, c) => fg(self.part(*p), c.ct()),
            SkinOp::Bg(p, c) => bg(self.part(*p), c.ct()),
            SkinOp::FgBg(p, c, d) => {
                fg(self.part(*p), c.ct());
                bg(self.part(*p), d.ct());
            }
            SkinOp::Attr(p, a) => self
                .part(*p)
                .object_style
                .attributes
                .set(ATTRS[*a as usize % ATTRS.len()]),
            SkinOp::Mark(which, c, col) => {
                let m = match which % 3 {
                    0 => &mut self.bullet,
                    1 => &mut self.quote,
                    _ => &mut self.rule,
                };
                m.c = *c;
                fg(&mut m.cs, col.ct());
            }
            SkinOp::Special(c) => {
                let mut cs = CompoundStyle::default();
                fg(&mut cs, c.ct());
                self.special = Some(Mark { cs, c: SPECIAL_REPL });
            }
        }
    }
    fn kind_line(&self, style: &CompositeStyle) -> &LineSk {
        match style {
            CompositeStyle::Code => &self.code_block,
            CompositeStyle::Header(n) => &self.headers[(*n as usize).clamp(1, 8) - 1],
            _ => &self.paragraph,
        }
    }
}

fn special_key() -> Compound<'static> {
    Compound::raw_str(SPECIAL).bold()
}

/// apply the same thing to the real skin, through its API
fn apply_op(s: &mut MadSkin, op: &SkinOp) {
    fn cs(s: &mut MadSkin, p: Part) -> &mut CompoundStyle {
        match p {
            Part::Paragraph => &mut s.paragraph.compound_style,
            Part::Bold => &mut s.bold,
            Part::Italic => &mut s.italic,
            Part::Strikeout => &mut s.strikeout,
            Part::InlineCode => &mut s.inline_code,
            Part::CodeBlock => &mut s.code_block.compound_style,
            Part::Header(n) => &mut s.headers[n as usize % 8].compound_style,
            Part::Table => &mut s.table.compound_style,
        }
    }
    fn ls(s: &mut MadSkin, p: Part) -> Option<&mut termimad::LineStyle> {
        match p {
            Part::Paragraph => Some(&mut s.paragraph),
            Part::CodeBlock => Some(&mut s.code_block),
            Part::Header(n) => Some(&mut s.headers[n as usize % 8]),
            Part::Table => Some(&mut s.table),
            _ => None,
        }
    }
    match op {
        SkinOp::SetFg(c) => s.set_fg(c.ct()),
        SkinOp::SetBg(c) => s.set_bg(c.ct()),
        SkinOp::SetHeadersFg(c) => s.set_headers_fg(c.ct()),
        SkinOp::SetHeadersBg(c) => s.set_headers_bg(c.ct()),
        SkinOp::SetGlobalBg(c) => s.set_global_bg(c.ct()),
        SkinOp::Blend(c, w) => s.blend_with(c.ct(), *w as f32 / 100.0),
        SkinOp::Ascii => s.limit_to_ascii(),
        SkinOp::Rounded => s.table_border_chars = ROUNDED_TABLE_BORDER_CHARS,
        SkinOp::FirstLineOnly => {
            s.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly
        }
        SkinOp::Align(p, a) => {
            if let Some(l) = ls(s, *p) {
                l.align = align(*a);
            }
        }
        SkinOp::Margins(p, l, r) => {
            if *p != Part::Table {
                if let Some(s) = ls(s, *p) {
                    s.left_margin = *l as usize;
                    s.right_margin = *r as usize;
                }
            }
        }
        SkinOp::Fg(p, c) => match ls(s, *p) {
            Some(l) => l.set_fg(c.ct()),
            None => cs(s, *p).set_fg(c.ct()),
        },
        SkinOp::Bg(p, c) => match ls(s, *p) {
            Some(l) => l.set_bg(c.ct()),
            None => cs(s, *p).set_bg(c.ct()),
        },
        SkinOp::FgBg(p, c, d) => match ls(s, *p) {
            Some(l) => l.set_fgbg(c.ct(), d.ct()),
            None => cs(s, *p).set_fgbg(c.ct(), d.ct()),
        },
        SkinOp::Attr(p, a) => {
            let a = ATTRS[*a as usize % ATTRS.len()];
            match ls(s, *p) {
                Some(l) => l.add_attr(a),
                None => cs(s, *p).add_attr(a),
            }
        }
        SkinOp::Mark(which, c, col) => {
            let m = match which % 3 {
                0 => &mut s.bullet,
                1 => &mut s.quote_mark,
                _ => &mut s.horizontal_rule,
            };
            m.set_char(*c);
            m.set_fg(col.ct());
        }
        SkinOp::Special(c) => {
            s.special_chars
                .insert(special_key(), StyledChar::from_fg_char(c.ct(), SPECIAL_REPL));
        }
    }
}

pub fn make_skin(base: u8, ops: &[SkinOp]) -> (MadSkin, Sk) {
    let mut s = match base % 4 {
        0 => MadSkin::default(),
        1 => MadSkin::no_style(),
        2 => MadSkin::default_dark(),
        _ => MadSkin::default_light(),
    };
    let mut m = Sk::of(&s);
    for op in ops {
        apply_op(&mut s, op);
        m.apply(op);
    }
    (s, m)
}

// ---------------------------------------------------------------- judge

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub(super) struct Sty {
    pub(super) attrs: u16,
    pub(super) fg: u32,
    pub(super) bg: u32,
}
/// how the terminal shows this style
pub(super) fn sty(cs: &CompoundStyle) -> Sty {
    let mut vt = Vt::new(4, 1);
    vt.feed(format!("{}", cs.object_style.apply('x')).as_bytes());
    let c = vt.cell(0, 0);
    Sty {
        attrs: c.attrs,
        fg: c.fg,
        bg: c.bg,
    }
}
/// attributes which are visible on a blank
const VISIBLE: u16 = 1 << 4 | 1 << 7 | 1 << 9 | 7 << 10;

#[derive(Clone, Debug)]
pub(super) struct Exp {
    pub(super) ch: char,
    pub(super) marks: String,
    pub(super) cont: bool,
    pub(super) sty: Sty,
}

#[derive(PartialEq, Clone, Copy, PartialOrd)]
pub enum Match {
    No,
    Glyphs,
    Full,
}

pub(super) fn matches(e: &Exp, c: &Cell) -> Match {
    if e.ch != c.ch || e.marks != c.marks || e.cont != c.cont {
        return Match::No;
    }
    let ok = if e.ch == ' ' && !e.cont && e.marks.is_empty() {
        let reversed = e.sty.attrs & 1 << 7 != 0;
        e.sty.bg == c.bg && e.sty.attrs & VISIBLE == c.attrs & VISIBLE && (!reversed || e.sty.fg == c.fg)
    } else {
        e.sty.bg == c.bg && e.sty.fg == c.fg && e.sty.attrs == c.attrs
    };
    if ok {
        Match::Full
    } else {
        Match::Glyphs
    }
}

pub(super) fn blanks(n: usize, sty: Sty) -> Vec<Exp> {
    vec![
        Exp {
            ch: ' ',
            marks: String::new(),
            cont: false,
            sty,
        };
        n
    ]
}
pub(super) fn glyph(c: char, sty: Sty) -> Vec<Exp> {
    let mut v = vec![Exp {
        ch: c,
        marks: String::new(),
        cont: false,
        sty,
    }];
    if c.width() == Some(2) {
        v.push(Exp {
            ch: ' ',
            marks: String::new(),
            cont: true,
            sty,
        });
    }
    v
}

/// a char and its marks
#[derive(Clone, Debug)]
pub(super) struct Unit {
    pub(super) ch: char,
    pub(super) marks: String,
    pub(super) w: usize,
    pub(super) sty: Sty,
    /// a blank which may be replaced with a new line
    pub(super) blank: bool,
    /// first one of a part of the line with another style
    pub(super) first: bool,
}

fn left_completion(a: Alignment, inner: usize, outer: usize) -> usize {
    if inner >= outer {
        return 0;
    }
    match a {
        Alignment::Left | Alignment::Unspecified => 0,
        Alignment::Center => (outer - inner) / 2,
        Alignment::Right => outer - inner,
    }
}

/// a possible position in a line, after a row
#[derive(Clone, Copy, Debug, PartialEq)]
struct At {
    pos: usize,
    /// columns taken in the row
    row_w: usize,
}

pub(super) struct Lo {
    pub(super) units: Vec<Unit>,
    /// what's before the text, on the first line and on the next ones
    pub(super) prefix: [Vec<Exp>; 2],
    pub(super) compounds: usize,
    pub(super) line_sty: Sty,
}
impl Lo {
    fn text_width(&self) -> usize {
        self.units.iter().map(|u| u.w).sum()
    }
    fn width(&self) -> usize {
        self.prefix[0].len() + self.text_width()
    }
    fn done(&self, pos: usize) -> bool {
        self.units[pos..].iter().all(|u| u.blank)
    }
    /// whether the end has been reached. It may be impossible to know when the
    /// end is made of blanks which can't be dropped
    fn all_done(&self, ats: &[At]) -> Result<bool, OutOfScope> {
        let n = ats.iter().filter(|at| self.done(at.pos)).count();
        if n == ats.len() {
            Ok(true)
        } else if n == 0 {
            Ok(false)
        } else {
            Err(OutOfScope)
        }
    }
    fn widest(&self) -> usize {
        self.units.iter().map(|u| u.w).max().unwrap_or(0)
    }
    fn all_text(&self, a: usize, b: usize) -> String {
        self.units[a..b].iter().map(|u| format!("{}{}", u.ch, u.marks)).collect()
    }
    fn range_width(&self, a: usize, b: usize) -> usize {
        self.units[a..b].iter().map(|u| u.w).sum()
    }
    /// a part which doesn't have to be on several lines: [start, end[
    fn word(&self, at: usize) -> (usize, usize) {
        let mut a = at;
        while a > 0 && !self.units[a].first && !self.units[a - 1].blank {
            a -= 1;
        }
        let mut b = at + 1;
        while b < self.units.len() && !self.units[b].first && !self.units[b].blank {
            b += 1;
        }
        (a, b)
    }
}

/// how a row is placed
struct Place {
    align: Alignment,
    margins: (usize, usize),
    /// width of the terminal
    outer: Option<usize>,
    /// justification of the text
    spacing: Option<(usize, Alignment)>,
    /// what's available for the text with its prefix
    avail: usize,
    paragraph: Sty,
}

pub struct Judge<'a> {
    sk: &'a Sk,
    vt: &'a Vt,
    /// width for which the text is wrapped
    width: Option<usize>,
    /// width in which it's aligned
    pub outer: Option<usize>,
    y: usize,
    rows: usize,
    extents: Vec<usize>,
    what: String,
    /// what's required
    need: Match,
}

fn new_viol(class: &str, msg: String) -> driver::Viol {
    driver::Viol {
        class: class.to_string(),
        msg,
    }
}

/// the document isn't in what the properties are about
pub struct OutOfScope;

fn usable(s: &str) -> bool {
    s.chars().all(|c| c.width().is_some()) && !s.contains('…')
}

/// what an inline markdown should display, and the style of the line
/// what's before the text of a list item
pub(super) fn list_prefix(sk: &Sk, depth: u8) -> Vec<Exp> {
    let par = sty(&sk.paragraph.cs);
    let mut v = blanks(depth as usize, par);
    v.extend(glyph(sk.bullet.c, sty(&sk.bullet.cs)));
    v.extend(blanks(1, par));
    v
}
pub(super) fn quote_prefix(sk: &Sk) -> Vec<Exp> {
    let mut v = glyph(sk.quote.c, sty(&sk.quote.cs));
    v.extend(blanks(1, sty(&sk.paragraph.cs)));
    v
}
pub(super) fn inline_units(sk: &Sk, comp: &Composite) -> Option<(Vec<Unit>, Sty)> {
    let vt = Vt::new(1, 1);
    let judge = Judge::new(sk, &vt, None, 0, Match::Full);
    match judge.lo(comp) {
        Ok(lo) => Some((lo.units, lo.line_sty)),
        Err(OutOfScope) => None,
    }
}

impl<'a> Judge<'a> {
    pub fn new(sk: &'a Sk, vt: &'a Vt, width: Option<usize>, rows: usize, need: Match) -> Self {
        let mut extents = Vec::new();
        for y in 0..rows {
            let mut n = vt.w;
            while n > 0 && vt.cell(n - 1, y).untouched() {
                n -= 1;
            }
            extents.push(n);
        }
        Judge {
            sk,
            vt,
            width,
            outer: width,
            y: 0,
            rows,
            extents,
            what: String::new(),
            need,
        }
    }
    fn compound_sty(&self, line: &CompoundStyle, c: &Compound) -> (Sty, Option<char>) {
        if let Some(m) = &self.sk.special {
            if *c == special_key() {
                return (sty(&m.cs), Some(m.c));
            }
        }
        let mut cs = line.clone();
        if c.italic {
            cs = overlay(&cs, &self.sk.italic);
        }
        if c.strikeout {
            cs = overlay(&cs, &self.sk.strikeout);
        }
        if c.bold {
            cs = overlay(&cs, &self.sk.bold);
        }
        if c.code {
            cs = overlay(&cs, &self.sk.inline_code);
        }
        (sty(&cs), None)
    }
    fn lo(&self, comp: &Composite) -> Result<Lo, OutOfScope> {
        let line = self.sk.kind_line(&comp.style);
        let par = sty(&self.sk.paragraph.cs);
        let mut units: Vec<Unit> = Vec::new();
        for (ci, c) in comp.compounds.iter().enumerate() {
            let s = c.as_str();
            if !usable(s) {
                return Err(OutOfScope);
            }
            // parts made only of blanks at an end of a line
            if comp.compounds.len() > 1
                && (ci == 0 || ci + 1 == comp.compounds.len() || c.code)
                && s.chars().all(|c| c.is_whitespace())
            {
                return Err(OutOfScope);
            }
            let (sty, repl) = self.compound_sty(&line.cs, c);
            for (i, ch) in s.char_indices() {
                let w = ch.width().unwrap_or(0);
                if w == 0 {
                    match units.last_mut() {
                        Some(u) if i > 0 => u.marks.push(ch),
                        _ => return Err(OutOfScope),
                    }
                    continue;
                }
                units.push(Unit {
                    ch: repl.unwrap_or(ch),
                    marks: String::new(),
                    w,
                    sty,
                    blank: ch.is_whitespace() && !c.code,
                    first: i == 0,
                });
            }
        }
        let mut first = Vec::new();
        let mut next = Vec::new();
        match comp.style {
            CompositeStyle::ListItem(d) => {
                first.extend(blanks(d as usize, par));
                first.extend(glyph(self.sk.bullet.c, sty(&self.sk.bullet.cs)));
                first.extend(blanks(1, par));
                if self.sk.block_mode {
                    next.extend(blanks(2 + d as usize, par));
                }
            }
            CompositeStyle::Quote => {
                first.extend(glyph(self.sk.quote.c, sty(&self.sk.quote.cs)));
                first.extend(blanks(1, par));
                next = first.clone();
            }
            _ => {}
        }
        Ok(Lo {
            units,
            prefix: [first, next],
            compounds: comp.compounds.len(),
            line_sty: sty(&line.cs),
        })
    }
    fn expected(&self, lo: &Lo, p: &Place, first: bool, a: usize, b: usize) -> Vec<Exp> {
        let prefix = &lo.prefix[if first { 0 } else { 1 }];
        let n = prefix.len() + lo.range_width(a, b);
        let (lpi, rpi, inner) = match p.spacing {
            Some((w, al)) => {
                let l = left_completion(al, n, w);
                (l, w.saturating_sub(n + l), w)
            }
            None => (0, 0, n),
        };
        let lpo = match p.outer {
            Some(w) => left_completion(p.align, inner + p.margins.0 + p.margins.1, w),
            None => 0,
        };
        let mut v = blanks(lpo + p.margins.0, p.paragraph);
        v.extend(blanks(lpi, lo.line_sty));
        v.extend(prefix.iter().cloned());
        for u in &lo.units[a..b] {
            let at = v.len();
            v.extend(glyph(u.ch, u.sty));
            v[at].marks = u.marks.clone();
        }
        v.extend(blanks(rpi, lo.line_sty));
        v
    }
    fn compare(&self, exp: &[Exp], y: usize, x0: usize, x1: usize) -> Match {
        if exp.len() != x1 - x0 {
            return Match::No;
        }
        let mut m = Match::Full;
        for (i, e) in exp.iter().enumerate() {
            let c = matches(e, self.vt.cell(x0 + i, y));
            if c < m {
                m = c;
            }
            if m == Match::No {
                break;
            }
        }
        m
    }
    fn row_text(&self, y: usize) -> String {
        self.vt.text(y, 0, self.extents[y])
    }
    /// read a part of a row, as a continuation of a line.
    ///
    /// It's not always possible to know whether blanks at the end of a row
    /// were dropped or not (there's a padding), so there may be several
    /// ranges of units which render as this row
    #[allow(clippy::too_many_arguments)]
    fn read_row(
        &self,
        lo: &Lo,
        p: &Place,
        first: bool,
        from: &[At],
        y: usize,
        x0: usize,
        x1: usize,
    ) -> Result<Vec<At>, driver::Viol> {
        let n = lo.units.len();
        let prefix_w = lo.prefix[if first { 0 } else { 1 }].len();
        let mut best = Match::No;
        let mut to: Vec<At> = Vec::new();
        let mut refused = None;
        for at in from {
            let mut a = at.pos;
            loop {
                let mut b = a;
                loop {
                    let progress = b > a || n == 0;
                    // nothing but blanks: only if there's nothing else to show,
                    // or if they are before a first word which is too wide
                    let ok = progress && (first || !lo.units[a..b].iter().all(|u| u.blank));
                    if ok {
                        let exp = self.expected(lo, p, first, a, b);
                        if exp.len() > x1 - x0 + 200 {
                            break;
                        }
                        let m = self.compare(&exp, y, x0, x1);
                        if m > best {
                            best = m;
                        }
                        if m >= self.need {
                            let broken = if first {
                                Ok(())
                            } else {
                                self.check_break(lo, p, at.row_w, at.pos, a)
                            };
                            match broken {
                                Ok(()) => {
                                    let new = At {
                                        pos: b,
                                        row_w: prefix_w + lo.range_width(a, b),
                                    };
                                    if !to.contains(&new) {
                                        to.push(new);
                                    }
                                }
                                Err(v) => {
                                    refused.get_or_insert(v);
                                }
                            }
                        }
                    }
                    if b >= n {
                        break;
                    }
                    b += 1;
                }
                if first || a >= n || !lo.units[a].blank {
                    break;
                }
                a += 1;
            }
        }
        if !to.is_empty() {
            if !first {
                count("wrapped_lines", 1);
            }
            return Ok(to);
        }
        if let Some(v) = refused {
            return Err(v);
        }
        if best == Match::Glyphs {
            return Err(new_viol(
                "style",
                format!(
                    "{}: row {} has the right chars but not their styles: {:?}",
                    self.what,
                    y + 1,
                    self.row_text(y)
                ),
            ));
        }
        Err(new_viol(
            "content",
            format!(
                "{}: row {} isn't a rendering of what comes next ({:?}, indentation {}): {:?}",
                self.what,
                y + 1,
                lo.all_text(from[0].pos, n),
                prefix_w,
                self.row_text(y),
            ),
        ))
    }
    /// whether it was right to break the line there
    fn check_break(&self, lo: &Lo, p: &Place, row_w: usize, prev_b: usize, a: usize) -> Verdict {
        // neighbour units
        let legit = a > prev_b || lo.units[prev_b - 1].blank || lo.units[a].blank || lo.units[a].first;
        let max_word = p.avail.saturating_sub(lo.prefix[0].len()).max(1);
        if !legit {
            let (wa, wb) = lo.word(a);
            ensure!(
                lo.range_width(wa, wb) > max_word,
                "word-cut",
                "{}: {:?} is cut while it would fit in {} columns",
                self.what,
                lo.all_text(wa, wb),
                max_word
            );
            return Ok(());
        }
        // would the next word have been fine there ?
        if lo.compounds == 2 || lo.compounds == 3 {
            // lines may be cut between their parts
            let mut i = prev_b;
            while i > 1 && lo.units[i - 1].blank {
                i -= 1;
            }
            while i < lo.units.len() {
                if lo.units[i].first {
                    return Ok(());
                }
                if i >= a && !lo.units[i].blank {
                    break;
                }
                i += 1;
            }
        }
        let mut i = prev_b;
        while i < lo.units.len() && lo.units[i].blank {
            i += 1;
        }
        if i >= lo.units.len() {
            return Ok(());
        }
        let (_, wb) = lo.word(i);
        let word_w = lo.range_width(i, wb);
        if word_w > max_word || lo.units[prev_b..wb].iter().any(|u| u.w == 0) {
            return Ok(());
        }
        ensure!(
            row_w + lo.range_width(prev_b, wb) > p.avail,
            "broken-too-early",
            "{}: there's room ({} columns) for {:?} after {:?} ({} columns)",
            self.what,
            p.avail,
            lo.all_text(prev_b, wb),
            lo.all_text(0, prev_b),
            row_w
        );
        Ok(())
    }
    /// read the rows of a line
    fn read_line(&mut self, lo: &Lo, p: &Place) -> Result<Verdict, OutOfScope> {
        let mut at = vec![At { pos: 0, row_w: 0 }];
        let mut first = true;
        loop {
            let y = self.y;
            if y >= self.rows {
                return Ok(viol(
                    "missing-rows",
                    format!(
                        "{}: nothing on screen for {:?}",
                        self.what,
                        lo.all_text(at[0].pos, lo.units.len())
                    ),
                ));
            }
            at = match self.read_row(lo, p, first, &at, y, 0, self.extents[y]) {
                Ok(at) => at,
                Err(v) => return Ok(Err(v)),
            };
            self.y += 1;
            if lo.all_done(&at)? {
                break;
            }
            if lo.width() <= p.avail {
                return Ok(viol(
                    "useless-break",
                    format!(
                        "{}: the line takes {} columns, and is broken while there are {}",
                        self.what,
                        lo.width(),
                        p.avail
                    ),
                ));
            }
            first = false;
        }
        Ok(Ok(()))
    }
    fn check(&mut self, lines: &[Line]) -> Result<Verdict, OutOfScope> {
        let mut i = 0;
        while i < lines.len() {
            let v = match &lines[i] {
                Line::Normal(comp) => {
                    let l = self.sk.kind_line(&comp.style).clone();
                    let margins = match self.width {
                        Some(w) if w < l.margins.0 + l.margins.1 + 3 => (0, 0),
                        _ => l.margins,
                    };
                    let avail = match self.width {
                        Some(w) => w - margins.0 - margins.1,
                        None => usize::MAX / 2,
                    };
                    let margins = match self.outer {
                        Some(w) if w < l.margins.0 + l.margins.1 + 3 => (0, 0),
                        _ => l.margins,
                    };
                    let mut spacing = None;
                    if matches!(comp.style, CompositeStyle::Code) {
                        // width of the block
                        let mut a = i;
                        while a > 0 && is_code(&lines[a - 1]) {
                            a -= 1;
                        }
                        let mut w = 0;
                        let mut j = a;
                        while j < lines.len() && is_code(&lines[j]) {
                            if let Line::Normal(c) = &lines[j] {
                                w = w.max(self.lo(c)?.width());
                            }
                            j += 1;
                        }
                        spacing = Some((w.min(avail), Alignment::Left));
                    }
                    let lo = self.lo(comp)?;
                    if lo.prefix[0].len().max(lo.prefix[1].len()) + lo.widest() > avail {
                        return Err(OutOfScope);
                    }
                    let p = Place {
                        align: l.align,
                        margins,
                        outer: self.outer,
                        spacing,
                        avail,
                        paragraph: sty(&self.sk.paragraph.cs),
                    };
                    self.what = format!("line {} ({:?})", i + 1, comp.style);
                    count(
                        match comp.style {
                            CompositeStyle::Paragraph => "lines.paragraph",
                            CompositeStyle::Header(_) => "lines.header",
                            CompositeStyle::ListItem(_) => "lines.list_item",
                            CompositeStyle::Code => "lines.code",
                            CompositeStyle::Quote => "lines.quote",
                        },
                        1,
                    );
                    i += 1;
                    self.read_line(&lo, &p)?
                }
                Line::TableRow(_) | Line::TableRule(_) => {
                    let a = i;
                    while i < lines.len() && matches!(lines[i], Line::TableRow(_) | Line::TableRule(_)) {
                        i += 1;
                    }
                    self.what = format!("table of lines {} to {}", a + 1, i);
                    self.check_table(&lines[a..i])?
                }
                Line::HorizontalRule => {
                    i += 1;
                    self.what = format!("rule, line {i}");
                    count("lines.rule", 1);
                    self.check_rule()
                }
                Line::CodeFence(_) => return Err(OutOfScope),
            };
            if v.is_err() {
                return Ok(v);
            }
        }
        if self.y != self.rows {
            return Ok(viol(
                "extra-rows",
                format!("{} rows after the end: {:?}", self.rows - self.y, self.row_text(self.y)),
            ));
        }
        Ok(Ok(()))
    }
    fn check_rule(&mut self) -> Verdict {
        ensure!(self.y < self.rows, "missing-rows", "{}: not on screen", self.what);
        let n = self.outer.unwrap_or(0);
        let mut exp = Vec::new();
        for _ in 0..n {
            exp.extend(glyph(self.sk.rule.c, sty(&self.sk.rule.cs)));
        }
        let m = self.compare(&exp, self.y, 0, self.extents[self.y]);
        ensure!(
            m >= self.need,
            if m == Match::No { "rule" } else { "style" },
            "{}: not {} columns of {:?} in the style of the skin: {:?}",
            self.what,
            n,
            self.sk.rule.c,
            self.row_text(self.y)
        );
        self.y += 1;
        Ok(())
    }
    fn check_table(&mut self, lines: &[Line]) -> Result<Verdict, OutOfScope> {
        let mut n = 0;
        for l in lines {
            n = n.max(match l {
                Line::TableRow(r) => r.cells.len(),
                Line::TableRule(r) => r.cells.len(),
                _ => 0,
            });
        }
        if n == 0 {
            return Err(OutOfScope);
        }
        let k = match self.width {
            Some(w) if w < 4 * n + 1 => (w - 1) / 4,
            _ => n,
        };
        if k == 0 {
            return Err(OutOfScope);
        }
        if k < n {
            count("tables_with_removed_columns", 1);
        }
        count("tables", 1);
        let tbc = self.sk.borders.clone();
        let bsty = sty(&self.sk.table.cs);
        let par = sty(&self.sk.paragraph.cs);
        // the cells
        let mut los: Vec<Option<Vec<Lo>>> = Vec::new();
        let mut natural = vec![3usize; n];
        for l in lines {
            los.push(match l {
                Line::TableRow(r) => {
                    let mut v = Vec::new();
                    for (ic, c) in r.cells.iter().enumerate() {
                        let lo = self.lo(c)?;
                        if lo.units.iter().any(|u| u.ch == tbc.vertical) {
                            return Err(OutOfScope);
                        }
                        natural[ic] = natural[ic].max(lo.width());
                        v.push(lo);
                    }
                    Some(v)
                }
                _ => None,
            });
        }
        self.check_table_rows(lines, los, natural, n, k, tbc, bsty, par)
    }
    #[allow(clippy::too_many_arguments)]
    fn check_table_rows(
        &mut self,
        lines: &[Line],
        los: Vec<Option<Vec<Lo>>>,
        natural: Vec<usize>,
        n: usize,
        k: usize,
        tbc: TableBorderChars,
        bsty: Sty,
        par: Sty,
    ) -> Result<Verdict, OutOfScope> {
        let mut give_up = false;
        let v = self.check_table_rows_(lines, los, natural, n, k, tbc, bsty, par, &mut give_up);
        if give_up {
            Err(OutOfScope)
        } else {
            Ok(v)
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn check_table_rows_(
        &mut self,
        lines: &[Line],
        los: Vec<Option<Vec<Lo>>>,
        natural: Vec<usize>,
        n: usize,
        k: usize,
        tbc: TableBorderChars,
        bsty: Sty,
        par: Sty,
        give_up: &mut bool,
    ) -> Verdict {
        ensure!(self.y < self.rows, "missing-rows", "{}: not on screen", self.what);
        // where are the borders ?
        let y0 = self.y;
        let ext = self.extents[y0];
        let is_border = |c: char| match los[0] {
            Some(_) => c == tbc.vertical,
            None => {
                c == tbc.top_left_corner || c == tbc.top_junction || c == tbc.top_right_corner
            }
        };
        let borders: Vec<usize> = (0..ext)
            .filter(|x| {
                let c = self.vt.cell(*x, y0);
                !c.cont && is_border(c.ch)
            })
            .collect();
        ensure!(
            borders.len() == k + 1,
            "table-columns",
            "{}: {} borders instead of {} on the first row ({} columns in the source, width {:?}): {:?}",
            self.what,
            borders.len(),
            k + 1,
            n,
            self.width,
            self.row_text(y0)
        );
        let tw = ext - borders[0];
        ensure!(
            borders[k] + 1 == ext,
            "table-columns",
            "{}: something after the last border: {:?}",
            self.what,
            self.row_text(y0)
        );
        let lpo = self
            .outer
            .map_or(0, |w| left_completion(self.sk.table.align, tw, w));
        ensure!(
            borders[0] == lpo,
            "table-align",
            "{}: the table, {} wide, starts at column {} instead of {} (width {:?}, {:?})",
            self.what,
            tw,
            borders[0],
            lpo,
            self.outer,
            self.sk.table.align
        );
        let widths: Vec<usize> = (0..k).map(|c| borders[c + 1] - borders[c] - 1).collect();
        ensure!(
            widths.iter().all(|w| *w >= 3),
            "table-columns",
            "{}: too narrow columns: {:?}",
            self.what,
            widths
        );
        let natural_width = natural.iter().sum::<usize>() + n + 1;
        if k == n && self.width.map_or(true, |w| natural_width <= w) {
            ensure!(
                widths == natural,
                "table-columns",
                "{}: columns of width {:?} while {:?} would fit",
                self.what,
                widths,
                natural
            );
        } else {
            count("tables_with_reduced_columns", 1);
        }
        if let Some(w) = self.width {
            ensure!(tw <= w, "table-too-wide", "{}: {} columns, {} available", self.what, tw, w);
        }
        let mut aligns = vec![Alignment::Center; k];
        for (il, l) in lines.iter().enumerate() {
            match l {
                Line::TableRule(r) => {
                    ensure!(self.y < self.rows, "missing-rows", "{}: rule not on screen", self.what);
                    for (ic, al) in aligns.iter_mut().enumerate() {
                        *al = r.cells.get(ic).copied().unwrap_or(Alignment::Unspecified);
                    }
                    let (lc, j, rc) = if il == 0 {
                        (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner)
                    } else if il + 1 == lines.len() {
                        (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner)
                    } else {
                        (tbc.left_junction, tbc.cross, tbc.right_junction)
                    };
                    let mut exp = blanks(lpo, par);
                    for ic in 0..k {
                        exp.extend(glyph(if ic == 0 { lc } else { j }, bsty));
                        for _ in 0..widths[ic] {
                            exp.extend(glyph(tbc.horizontal, bsty));
                        }
                    }
                    exp.extend(glyph(rc, bsty));
                    let m = self.compare(&exp, self.y, 0, self.extents[self.y]);
                    ensure!(
                        m >= self.need,
                        if m == Match::No { "table-rule" } else { "style" },
                        "{}: line {} of the table isn't a rule over columns {:?}: {:?}",
                        self.what,
                        il + 1,
                        widths,
                        self.row_text(self.y)
                    );
                    self.y += 1;
                }
                _ => {
                    let cells = los[il].as_ref().unwrap();
                    let mut ats = vec![vec![At { pos: 0, row_w: 0 }]; k];
                    let mut ends = vec![false; k];
                    for ic in 0..k {
                        ends[ic] = match cells.get(ic) {
                            Some(lo) => lo.units.is_empty() && lo.prefix[0].is_empty(),
                            None => true,
                        };
                    }
                    let mut first = true;
                    loop {
                        let y = self.y;
                        ensure!(y < self.rows, "missing-rows", "{}: missing rows", self.what);
                        // borders
                        let mut exp = blanks(lpo, par);
                        exp.extend(glyph(tbc.vertical, bsty));
                        let m = if self.extents[y] == ext {
                            self.compare(&exp, y, 0, lpo + 1)
                        } else {
                            Match::No
                        };
                        ensure!(
                            m >= self.need,
                            if m == Match::No { "table-borders" } else { "style" },
                            "{}: row {} isn't aligned with the other rows of the table or not in its style: {:?}",
                            self.what,
                            y + 1,
                            self.row_text(y)
                        );
                        for ic in 0..k {
                            let (x0, x1) = (borders[ic] + 1, borders[ic + 1]);
                            let m = self.compare(&glyph(tbc.vertical, bsty), y, x1, x1 + 1);
                            ensure!(
                                m >= self.need,
                                if m == Match::No { "table-borders" } else { "style" },
                                "{}: row {} isn't aligned with the other rows of the table or not in its style: {:?}",
                                self.what,
                                y + 1,
                                self.row_text(y)
                            );
                            if ends[ic] {
                                let m = self.compare(&blanks(x1 - x0, par), y, x0, x1);
                                ensure!(
                                    m >= self.need,
                                    if m == Match::No { "table-cell" } else { "style" },
                                    "{}: cell {} of row {} should be blank: {:?}",
                                    self.what,
                                    ic + 1,
                                    y + 1,
                                    self.row_text(y)
                                );
                                continue;
                            }
                            let lo = &cells[ic];
                            let p = Place {
                                align: Alignment::Left,
                                margins: (0, 0),
                                outer: None,
                                spacing: Some((widths[ic], aligns[ic])),
                                avail: widths[ic],
                                paragraph: par,
                            };
                            if lo.prefix[0].len().max(lo.prefix[1].len()) + lo.widest() > widths[ic] {
                                count("tables_out_of_scope", 1);
                                *give_up = true;
                                return Ok(());
                            }
                            ats[ic] = self.read_row(lo, &p, first, &ats[ic], y, x0, x1)?;
                            ends[ic] = match lo.all_done(&ats[ic]) {
                                Ok(end) => end,
                                Err(OutOfScope) => {
                                    *give_up = true;
                                    return Ok(());
                                }
                            };
                            ensure!(
                                ends[ic] || lo.width() > widths[ic],
                                "useless-break",
                                "{}: cell {} of row {} would fit on a line",
                                self.what,
                                ic + 1,
                                y + 1
                            );
                        }
                        self.y += 1;
                        first = false;
                        if ends.iter().all(|e| *e) {
                            break;
                        }
                        count("table_rows_over_several_lines", 1);
                    }
                }
            }
        }
        Ok(())
    }
}

fn is_code(l: &Line) -> bool {
    matches!(
        l,
        Line::Normal(Composite {
            style: CompositeStyle::Code,
            ..
        })
    )
}

/// the narrowest width for which no line can have to be wider than what's available
pub fn min_width(lines: &[Line]) -> Option<usize> {
    let mut min = 3;
    for l in lines {
        match l {
            Line::Normal(c) => {
                let mut widest = 0;
                for co in &c.compounds {
                    if !usable(co.as_str()) {
                        return None;
                    }
                    widest = widest.max(co.as_str().chars().filter_map(|c| c.width()).max().unwrap_or(0));
                }
                let prefix = match c.style {
                    CompositeStyle::ListItem(d) => 2 + d as usize,
                    CompositeStyle::Quote => 2,
                    _ => 0,
                };
                min = min.max(prefix + widest.max(1));
            }
            Line::TableRow(r) => {
                min = min.max(5);
                for c in &r.cells {
                    let mut widest = 0;
                    for co in &c.compounds {
                        if !usable(co.as_str()) {
                            return None;
                        }
                        widest = widest.max(co.as_str().chars().filter_map(|c| c.width()).max().unwrap_or(0));
                    }
                    let prefix = match c.style {
                        CompositeStyle::ListItem(d) => 2 + d as usize,
                        CompositeStyle::Quote => 2,
                        _ => 0,
                    };
                    if prefix + widest > 3 {
                        return None;
                    }
                }
            }
            Line::TableRule(_) => min = min.max(5),
            _ => {}
        }
    }
    Some(min)
}

/// whether there's room for a char between the margins
pub fn room_for_margins(lines: &[Line], sk: &Sk, w: usize) -> bool {
    lines.iter().all(|l| match l {
        Line::Normal(c) => {
            let m = sk.kind_line(&c.style).margins;
            let prefix = match c.style {
                CompositeStyle::ListItem(d) => 2 + d as usize,
                CompositeStyle::Quote => 2,
                _ => 0,
            };
            w < m.0 + m.1 + 3 || w >= m.0 + m.1 + prefix + 2
        }
        _ => true,
    })
}

// ---------------------------------------------------------------- run

struct Printed {
    width: Option<usize>,
    /// width of the rendering, when it's not the one of the wrapping
    render: Option<usize>,
    out: Vec<u8>,
    /// announced height and width
    lines: Option<usize>,
    content_width: usize,
    err: Option<String>,
    template: bool,
    raw: bool,
}

#[derive(Default)]
struct Hist {
    prints: Vec<Printed>,
    panic: Option<String>,
}
fn hist() -> &'static mut Hist {
    driver::state::<Hist>()
}

pub const VIAS: u8 = 12;

fn run_body(sc: &DocSc) {
    let (skin, _) = make_skin(sc.base, &sc.skin);
    term().out_faults = sc.out_faults.iter().cloned().collect();
    let md = sc.lines.join(if sc.crlf { "\r\n" } else { "\n" });
    for p in &sc.prints {
        {
            let t = term();
            t.size = (p.width, 24);
            t.size_err = p.no_size;
        }
        let from = term().out.len();
        let mut width = Some(if p.no_size { 50 } else { p.width as usize });
        let mut render = None;
        let mut buf: Option<Vec<u8>> = None;
        sched::note("print", p.width as u64, p.via as u64);
        let r = driver::catch(|| -> Result<(), String> {
            match p.via % VIAS {
                0 | 1 => skin.print_text(&md),
                2 => skin.write_text(&md).map_err(|e| e.to_string())?,
                3 => {
                    let mut w = Vec::new();
                    skin.write_text_on(&mut w, &md).map_err(|e| e.to_string())?;
                    buf = Some(w);
                }
                4 => print!("{}", skin.term_text(&md)),
                5 => {
                    // the width isn't the one of the terminal
                    width = Some(p.width as usize);
                    print!("{}", skin.text(&md, width));
                }
                6 => {
                    width = None;
                    print!("{}", skin.text(&md, None));
                }
                10 | 11 => {
                    // not interpreted
                    width = (p.via % VIAS == 10).then_some(p.width as usize);
                    print!("{}", FmtText::raw_str(&skin, &md, width));
                }
                8 | 9 => {
                    // rendered in a width which isn't the one of the wrapping,
                    // usually the one of the content
                    width = (p.via % VIAS == 8).then_some(p.width as usize);
                    let mut text = skin.text(&md, width);
                    let cw = text.content_width();
                    let more = p.width as usize % 9;
                    let w = match more {
                        0..=3 => cw,
                        // wider than the wrapping allowed
                        4 | 5 => cw.max(p.width as usize) + more * (p.width as usize % 11),
                        _ => {
                            let w = cw + more;
                            width.map_or(w, |max| w.min(max))
                        }
                    };
                    text.set_rendering_width(w);
                    if text.content_width() != cw {
                        driver::live_violation(
                            "content-width",
                            format!("the content width went from {cw} to {} by changing the rendering width", text.content_width()),
                        );
                    }
                    render = Some(w);
                    print!("{}", text);
                }
                _ => {
                    let template = minimad::TextTemplate::from(md.as_str());
                    skin.print_expander(template.expander());
                }
            }
            std::io::stdout().flush().map_err(|e| e.to_string())?;
            Ok(())
        });
        let h = hist();
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(e) => {
                h.panic = Some(e.clone());
                Some(e)
            }
        };
        let out = buf.unwrap_or_else(|| term().out[from..].to_vec());
        let mut f = 0u64;
        for b in &out {
            f = (f ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        driver::fingerprint(f);
        let mut lines = None;
        let mut content_width = 0;
        if h.panic.is_none() {
            let text = if p.via % VIAS == 7 {
                let template = minimad::TextTemplate::from(md.as_str());
                FmtText::from_text(&skin, template.expander().expand(), width)
            } else if p.via % VIAS >= 10 {
                FmtText::raw_str(&skin, &md, width)
            } else {
                FmtText::from(&skin, &md, width)
            };
            lines = Some(text.lines.len());
            content_width = text.content_width();
        }
        if !out.is_empty() {
            driver::nontrivial();
        }
        h.prints.push(Printed {
            width,
            render,
            out,
            lines,
            content_width,
            err,
            template: p.via % VIAS == 7,
            raw: p.via % VIAS >= 10,
        });
        count("prints", 1);
        if h.panic.is_some() {
            return;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Fit,
    Layout,
    Style,
}

/// feed a terminal with cooked output
pub fn show(out: &[u8], w: usize) -> (Vt, usize) {
    let rows = out.iter().filter(|b| **b == b'\n').count();
    let mut vt = Vt::new(w as u16, (rows + 2) as u16);
    let mut cooked = Vec::with_capacity(out.len() + rows);
    for b in out {
        if *b == b'\n' {
            cooked.push(b'\r');
        }
        cooked.push(*b);
    }
    vt.feed(&cooked);
    (vt, rows)
}

/// the scrollbar of a text, drawn with the skin
fn check_scrollbar(skin: &MadSkin, sk: &Sk) -> Verdict {
    let area = termimad::Area::new(0, 0, 4, 4);
    let mut out = Vec::new();
    let text = FmtText::raw_str(skin, "a\nb\nc\nd\ne\nf\ng\nh", Some(3));
    if let Err(e) = termimad::TextView::from(&area, &text).write_on(&mut out) {
        return viol("error", format!("drawing of a text view: {e}"));
    }
    let mut vt = Vt::new(4, 4);
    vt.feed(&out);
    for (y, m, what) in [(0, &sk.bar[0], "thumb"), (3, &sk.bar[1], "track")] {
        let c = vt.cell(3, y);
        let got = Sty {
            attrs: c.attrs,
            fg: c.fg,
            bg: c.bg,
        };
        ensure!(
            c.ch == m.c && got == sty(&m.cs),
            "wrong-scrollbar-style",
            "the {what} of a scrollbar is {:?} with {got:?} instead of {:?} with {:?}",
            c.ch,
            m.c,
            sty(&m.cs)
        );
    }
    Ok(())
}

fn judge(sc: &DocSc, focus: Focus) -> Verdict {
    let h = hist();
    let md = sc.lines.join(if sc.crlf { "\r\n" } else { "\n" });
    let plain = minimad::parse_text(&md, minimad::Options::default());
    let template = minimad::TextTemplate::from(md.as_str());
    let templated = template.expander().expand();
    let raw = minimad::Text {
        lines: md.lines().map(Line::raw_str).collect(),
    };
    let (skin, sk) = make_skin(sc.base, &sc.skin);
    if focus == Focus::Style {
        check_scrollbar(&skin, &sk)?;
    }
    let tab = md.contains('\t');
    if let Some(p) = &h.panic {
        return viol("panic", p.clone());
    }
    for (i, p) in h.prints.iter().enumerate() {
        if let Some(e) = &p.err {
            return viol("error", format!("print {} failed: {e}", i + 1));
        }
        let text = if p.template {
            &templated
        } else if p.raw {
            &raw
        } else {
            &plain
        };
        let Some(min) = min_width(&text.lines) else {
            if tab && focus == Focus::Fit {
                if let Some(w) = p.width {
                    let (vt, _) = show(&p.out, w);
                    ensure!(
                        vt.wraps == 0,
                        "tab-overflow",
                        "print {}: a line with a tab is wider than the {} columns of the terminal",
                        i + 1,
                        w
                    );
                }
            }
            count("out_of_scope", 1);
            continue;
        };
        if p.width.map_or(false, |w| w < min || !room_for_margins(&text.lines, &sk, w)) {
            count("too_narrow", 1);
            continue;
        }
        let screen_width = p.width.unwrap_or(2000).max(p.render.unwrap_or(0)).max(1);
        let (vt, rows) = show(&p.out, screen_width);
        match focus {
            Focus::Fit => {
                ensure!(
                    p.out.is_empty() || p.out.ends_with(b"\n"),
                    "unfinished-line",
                    "print {}: the output doesn't end with a new line",
                    i + 1
                );
                ensure!(
                    vt.wraps == 0,
                    "overflow",
                    "print {}: a line is wider than the {} columns of the terminal:\n{}",
                    i + 1,
                    screen_width,
                    vt.dump()
                );
                ensure!(
                    vt.broken_utf8 == 0 && vt.unknown == 0,
                    "garbage",
                    "print {}: {} broken chars, {} unknown sequences",
                    i + 1,
                    vt.broken_utf8,
                    vt.unknown
                );
                ensure!(
                    p.lines == Some(rows),
                    "height",
                    "print {}: {} rows were printed while the text has {:?} lines",
                    i + 1,
                    rows,
                    p.lines
                );
                if let Some(w) = p.render {
                    let margins = text.lines.iter().map(|l| match l {
                        Line::Normal(c) => {
                            let m = sk.kind_line(&c.style).margins;
                            m.0 + m.1
                        }
                        _ => 0,
                    });
                    let margins = margins.max().unwrap_or(0);
                    for y in 0..rows {
                        let mut n = vt.w;
                        while n > 0 && vt.cell(n - 1, y).untouched() {
                            n -= 1;
                        }
                        ensure!(
                            n <= w + margins,
                            "content-width",
                            "print {}: a row is {n} columns wide while the announced width is {} and the rendering width is {w}:\n{}",
                            i + 1,
                            p.content_width,
                            if vt.w < 300 { vt.dump() } else { String::new() }
                        );
                    }
                }
                if let Some(w) = p.width {
                    ensure!(
                        p.content_width <= w,
                        "content-width",
                        "print {}: announced width {} in {} columns",
                        i + 1,
                        p.content_width,
                        w
                    );
                }
                // the colors don't leak
                let mut after = show(&[&p.out[..], b"x"].concat(), screen_width).0;
                after.feed(b"");
                let c = after.cell(0, rows);
                ensure!(
                    c.ch == 'x' && c.attrs == 0 && c.fg == 0 && c.bg == 0,
                    "style-leak",
                    "print {}: what's written after the text gets its style",
                    i + 1
                );
            }
            Focus::Layout | Focus::Style => {
                if vt.wraps > 0 || p.width.is_none() && vt.w < 2000 {
                    continue;
                }
                let mut j = Judge::new(
                    &sk,
                    &vt,
                    p.width,
                    rows,
                    if focus == Focus::Style { Match::Full } else { Match::Glyphs },
                );
                if p.render.is_some() {
                    j.outer = p.render;
                    count("rendering_widths", 1);
                }
                match j.check(&text.lines) {
                    Err(OutOfScope) => count("out_of_scope", 1),
                    // a matter of layout
                    Ok(Err(v)) if focus == Focus::Style && v.class != "style" => {
                        count("unrecognized_layouts", 1)
                    }
                    Ok(Err(mut v)) => {
                        v.msg = format!(
                            "print {} ({} columns): {}\n{}",
                            i + 1,
                            p.width.map_or("unlimited".to_string(), |w| w.to_string()),
                            v.msg,
                            if vt.w < 300 { vt.dump() } else { String::new() }
                        );
                        return Err(v);
                    }
                    Ok(Ok(())) => count("layouts_checked", 1),
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation

pub fn gen_skin(rng: &mut Rng) -> (u8, Vec<SkinOp>) {
    let base = rng.below(4) as u8;
    let mut ops = Vec::new();
    if rng.one_in(3) {
        return (base, ops);
    }
    let part = |rng: &mut Rng| match rng.below(10) {
        0 => Part::Paragraph,
        1 => Part::Bold,
        2 => Part::Italic,
        3 => Part::Strikeout,
        4 => Part::InlineCode,
        5 => Part::CodeBlock,
        6 => Part::Table,
        _ => Part::Header(rng.below(3) as u8),
    };
    for _ in 0..1 + rng.size(8) {
        let c = Col::gen(rng);
        ops.push(match rng.below(20) {
            0 => SkinOp::SetFg(c),
            1 => SkinOp::SetBg(c),
            2 => SkinOp::SetHeadersFg(c),
            3 => SkinOp::SetHeadersBg(c),
            4 => SkinOp::SetGlobalBg(c),
            5 | 6 => SkinOp::Blend(c, rng.below(101) as u8),
            7 => SkinOp::Ascii,
            8 => SkinOp::Rounded,
            9 => SkinOp::FirstLineOnly,
            10 | 11 => SkinOp::Align(part(rng), rng.below(3) as u8),
            12 | 13 => SkinOp::Margins(part(rng), rng.size(6) as u8, rng.size(6) as u8),
            14 => SkinOp::Fg(part(rng), c),
            15 => SkinOp::Bg(part(rng), c),
            16 => SkinOp::FgBg(part(rng), c, Col::gen(rng)),
            17 => SkinOp::Attr(part(rng), rng.below(5) as u8),
            18 => SkinOp::Mark(rng.below(3) as u8, *rng.pick(&['-', '▶', '+', '═', '>']), c),
            _ => SkinOp::Special(c),
        });
    }
    (base, ops)
}

fn gen_word(rng: &mut Rng, wide: bool) -> String {
    const CJK: &[char] = &['一', '曰', '道', '二', '天', '三', '地', '，', 'ア'];
    const ACC: &[char] = &['é', 'à', 'ç', 'ß', 'ø', 'λ', 'Ж'];
    let len = match rng.below(12) {
        0 => 10 + rng.usize(60),
        1..=5 => 1 + rng.usize(3),
        _ => 2 + rng.usize(9),
    };
    let style = rng.below(8);
    let mut s = String::new();
    for i in 0..len {
        match style {
            0 if wide => s.push(*rng.pick(CJK)),
            1 if wide && rng.one_in(2) => s.push(*rng.pick(CJK)),
            2 => s.push(*rng.pick(ACC)),
            3 => {
                s.push((b'a' + rng.below(26) as u8) as char);
                if rng.one_in(3) {
                    s.push('\u{0301}');
                }
            }
            4 => s.push((b'0' + rng.below(10) as u8) as char),
            _ => s.push((b'a' + rng.below(26) as u8) as char),
        }
        if i > 0 && i + 1 < len && rng.one_in(30) {
            s.push(*rng.pick(&['-', '.', '/', '_', ',', '\'', '#', '>', '=']));
        }
    }
    match rng.below(12) {
        0 => s.push('.'),
        1 => s.push(','),
        2 => s.push_str(" !"),
        _ => {}
    }
    s
}

fn toggles(from: u8, to: u8) -> String {
    let mut s = String::new();
    let d = from ^ to;
    if from & 8 != 0 && to & 8 == 0 {
        s.push('`');
    }
    if d & 4 != 0 {
        s.push_str("~~");
    }
    if d & 1 != 0 {
        s.push_str("**");
    }
    if d & 2 != 0 {
        s.push('*');
    }
    if from & 8 == 0 && to & 8 != 0 {
        s.push('`');
    }
    s
}

/// a styled line
pub fn gen_spans(rng: &mut Rng, max_words: u64, wide: bool, special: bool) -> String {
    let words = 1 + rng.size(max_words);
    let style_rate = *rng.pick(&[0u64, 3, 5, 12]);
    let mut s = String::new();
    let mut style = 0u8;
    let mut at_change = false;
    for i in 0..words {
        if i > 0 {
            let blanks = match rng.below(14) {
                0 => 2,
                1 => 2 + rng.usize(3),
                2 if style_rate > 0 && style & 8 == 0 => 0,
                _ => 1,
            };
            // blanks before or after the change of style
            if style_rate > 0 && rng.one_in(style_rate) {
                let mut new = match rng.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4 => 8,
                    _ => rng.below(16) as u8,
                };
                if new == style {
                    new = 0;
                }
                if new != style {
                    let before = rng.one_in(2);
                    if before {
                        s.push_str(&" ".repeat(blanks));
                    }
                    s.push_str(&toggles(style, new));
                    if !before && blanks > 0 {
                        s.push_str(&" ".repeat(blanks));
                    }
                    style = new;
                    at_change = true;
                } else {
                    s.push_str(&" ".repeat(blanks));
                }
            } else {
                s.push_str(&" ".repeat(blanks.max(1)));
            }
        }
        if special && rng.one_in(12) && style == 0 {
            s.push_str(&format!("**{SPECIAL}**"));
            at_change = true;
            continue;
        }
        let mut word = gen_word(rng, wide);
        if !at_change && style & 8 == 0 && rng.one_in(40) && word.len() > 3 && word.is_ascii() {
            // an escaped char
            word.insert_str(2, *rng.pick(&["\\*", "\\~", "\\`", "\\\\"]));
        }
        s.push_str(&word);
        at_change = false;
    }
    s.push_str(&toggles(style, 0));
    s
}

fn gen_code_line(rng: &mut Rng) -> String {
    let mut s = " ".repeat(rng.size(6) as usize);
    for i in 0..rng.size(7) {
        if i > 0 {
            s.push_str(&" ".repeat(1 + rng.size(3) as usize));
        }
        let word = match rng.below(8) {
            0 => "**not bold**".to_string(),
            1 => "| a |".to_string(),
            2 => "# no".to_string(),
            3 => "fn(`x`)".to_string(),
            _ => gen_word(rng, true),
        };
        s.push_str(&word);
    }
    s
}

pub fn gen_table(rng: &mut Rng, out: &mut Vec<String>) {
    let n = 1 + rng.size(6);
    let cell_words = *rng.pick(&[1u64, 2, 3, 8]);
    let rule = |rng: &mut Rng, n: u64| -> String {
        let mut s = "|".to_string();
        for _ in 0..n {
            s.push_str(*rng.pick(&["-|", ":-|", ":-:|", "-:|", "---|"]));
        }
        s
    };
    if rng.one_in(3) {
        out.push(rule(rng, n));
    }
    let rows = 1 + rng.size(6);
    for ir in 0..rows {
        let mut s = "|".to_string();
        let nc = if rng.one_in(6) { 1 + rng.below(n + 1) } else { n };
        for ic in 0..nc {
            if rng.one_in(8) && nc > 1 {
                if rng.one_in(2) {
                    s.push(' ');
                }
            } else {
                let kind = rng.below(16);
                match kind {
                    0 => s.push_str("* "),
                    1 => s.push_str("> "),
                    _ => {}
                }
                let wide = kind > 1 && rng.one_in(3);
                s.push_str(&gen_spans(rng, cell_words, wide, false));
            }
            if ic + 1 < nc || rng.one_in(2) {
                s.push('|');
            }
        }
        out.push(s);
        if (ir == 0 && rng.one_in(2)) || rng.one_in(8) {
            out.push(rule(rng, n));
        }
    }
    if rng.one_in(3) {
        out.push(rule(rng, n));
    }
}

pub fn gen_doc(rng: &mut Rng, blocks: u64, special: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let words = *rng.pick(&[3u64, 8, 25]);
    let mut last = 99;
    // some documents are only about some kinds of lines
    let mask: u64 = if rng.one_in(2) { 0xffff } else { rng.next() | 1 };
    for _ in 0..blocks {
        let mut kind = rng.below(14);
        if mask >> kind & 1 == 0 {
            kind = 0;
        }
        // the tables and code blocks would be merged
        if kind == last && (kind == 8 || kind == 9) || (kind >= 6 && kind <= 7 && last >= 6 && last <= 7) {
            out.push(String::new());
        }
        last = kind;
        match kind {
            0..=2 => {
                let mut s = gen_spans(rng, words, true, special);
                if rng.one_in(10) {
                    s.insert(0, ' ');
                }
                out.push(s);
            }
            3 => {
                let s = gen_spans(rng, words, true, special);
                out.push(format!("{} {s}", "#".repeat(1 + rng.size(7) as usize)));
            }
            4 | 10 => {
                for _ in 0..1 + rng.size(4) {
                    let s = gen_spans(rng, words, true, special);
                    out.push(format!("{}* {s}", " ".repeat(rng.size(3) as usize)));
                }
            }
            5 => {
                for _ in 0..1 + rng.size(3) {
                    out.push(if rng.one_in(8) {
                        ">".to_string()
                    } else {
                        format!("> {}", gen_spans(rng, words, true, special))
                    });
                }
            }
            6 => {
                out.push(if rng.one_in(2) { "```rust".into() } else { "```".to_string() });
                let n = if rng.one_in(30) { rng.size(130) } else { rng.size(5) };
                for _ in 0..n {
                    out.push(gen_code_line(rng));
                }
                out.push("```".to_string());
            }
            7 => {
                for _ in 0..1 + rng.size(3) {
                    let s = gen_code_line(rng);
                    if !s.is_empty() {
                        out.push(format!("    {s}"));
                    }
                }
            }
            8 | 9 => gen_table(rng, &mut out),
            11 => out.push("-".repeat(3 + rng.usize(5))),
            _ => out.push(String::new()),
        }
    }
    out
}

pub fn gen_out_faults(rng: &mut Rng) -> Vec<OutFault> {
    let mut v = Vec::new();
    if rng.one_in(2) {
        let rate = *rng.pick(&[1u64, 2, 5]);
        for _ in 0..rng.size(40) {
            v.push(if !rng.one_in(rate) {
                OutFault::Ok
            } else if rng.one_in(3) {
                OutFault::Eintr
            } else {
                OutFault::Short(1 + rng.size(40) as u32)
            });
        }
    }
    v
}

pub struct DocProp {
    pub id: &'static str,
    pub focus: Focus,
    pub rule: &'static str,
}

impl Prop for DocProp {
    type Sc = DocSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> DocSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 2_000_000;
        let (base, skin) = gen_skin(rng);
        let special = skin.iter().any(|o| matches!(o, SkinOp::Special(_)));
        let max = if tier == Tier::Thorough { 16 } else { 8 };
        let blocks = 1 + rng.size(max);
        let mut lines = gen_doc(rng, blocks, special);
        if self.focus == Focus::Fit && rng.one_in(40) {
            // tabulations
            if let Some(l) = lines.iter_mut().find(|l| l.contains(' ')) {
                *l = l.replace(' ', "\t");
            }
        }
        let mut prints = Vec::new();
        for _ in 0..1 + rng.size(4) {
            let width = match rng.below(8) {
                0 => rng.range(3, 9),
                1 => rng.range(60, 200),
                _ => rng.range(8, 70),
            } as u16;
            prints.push(Print {
                width,
                no_size: rng.one_in(12),
                via: rng.below(VIAS as u64) as u8,
            });
        }
        DocSc {
            sched,
            base,
            skin,
            lines,
            crlf: rng.one_in(10),
            prints,
            out_faults: gen_out_faults(rng),
        }
    }
    fn sched(&self, sc: &DocSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &DocSc) {
        run_body(sc)
    }
    fn judge(&self, sc: &DocSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => judge(sc, self.focus),
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad (all of it: skins, wrapping, tables, code blocks, rendering)",
            "minimad, coolor, crokey, unicode-width",
            "crossterm's styles and commands",
            "std's stdout (line buffering)",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "terminal (screen, size)",
            "write(2) on the standard output: short, interrupted",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "markdown is parsed by minimad, a dependency: its parsing is taken as the meaning of the document",
            "the terminal gives chars the width that unicode-width gives them; clusters with a width which isn't the sum of the ones of their chars are not generated",
        ]
    }
}
