//! A scrollable markdown text

use {
    super::*,
    termimad::{
        crossterm::event::{
            KeyCode,
            KeyEvent,
            KeyModifiers,
            MouseEventKind,
        },
        compute_scrollbar,
        FmtText,
        minimad::Alignment,
        ListItemsIndentationMode,
        MadSkin,
        MadView,
        TextView,
    },
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MadSc {
    pub lines: Vec<String>,
    /// the text is repeated that many times
    pub repeat: u32,
    pub skin: u8,
    /// a TextView instead of a MadView
    pub text_view: bool,
    pub no_scrollbar: bool,
    /// no markdown in the text view
    #[serde(default)]
    pub raw: bool,
}

/// narrower areas don't have enough room for the indentation of lists
const MIN_WIDTH: u16 = 10;

pub struct MadSession {
    md: String,
    skin: MadSkin,
    area: Area,
    /// None for a TextView
    view: Option<MadView>,
    /// what it should be
    scroll: usize,
    show_scrollbar: bool,
    raw: bool,
    /// height of the formatted content
    height: usize,
    /// the complete text, on a tall screen
    tall: Option<Vt>,
}

fn make_skin(n: u8) -> MadSkin {
    let mut skin = match n {
        0 => MadSkin::no_style(),
        1 => MadSkin::default_dark(),
        2 => MadSkin::default_light(),
        3 => {
            let mut s = MadSkin::default();
            s.limit_to_ascii();
            s
        }
        n => {
            // margins, alignments and indentations
            let mut s = MadSkin::default();
            let n = n as usize - 4;
            let aligns = [Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Unspecified];
            s.paragraph.left_margin = n % 3;
            s.paragraph.right_margin = n / 3 % 3;
            s.code_block.left_margin = n / 5 % 4;
            s.code_block.right_margin = n / 7 % 3;
            s.paragraph.align = aligns[n / 9 % 4];
            s.headers[1].align = aligns[n / 2 % 4];
            s.headers[2].right_margin = n % 2;
            s.table.align = aligns[n / 4 % 4];
            s.code_block.align = aligns[n / 8 % 4];
            if n % 2 == 0 {
                s.list_items_indentation_mode = ListItemsIndentationMode::Block;
            }
            s
        }
    };
    skin.scrollbar.thumb.set_char(THUMB);
    skin.scrollbar.track.set_char(TRACK);
    skin
}

impl MadSession {
    pub fn new(sc: &MadSc) -> Self {
        let mut md = String::new();
        for _ in 0..sc.repeat.max(1) {
            for l in &sc.lines {
                md.push_str(l);
                md.push('\n');
            }
        }
        let skin = make_skin(sc.skin);
        let area = Area::new(0, 0, 80, 24);
        let view = if sc.text_view {
            None
        } else {
            Some(MadView::from(md.clone(), area.clone(), skin.clone()))
        };
        MadSession {
            md,
            skin,
            area,
            view,
            scroll: 0,
            raw: sc.raw && sc.text_view,
            show_scrollbar: !(sc.text_view && sc.no_scrollbar),
            height: 0,
            tall: None,
        }
    }
    fn text(&self) -> FmtText<'_, '_> {
        if self.raw {
            let width = self.area.width.saturating_sub(1);
            FmtText::raw_str(&self.skin, &self.md, Some(width as usize))
        } else {
            self.skin.area_text(&self.md, &self.area)
        }
    }
    /// the margins of list items, and their indentation
    fn min_width(&self) -> u16 {
        let p = &self.skin.paragraph;
        MIN_WIDTH + (p.left_margin + p.right_margin) as u16
    }
    fn max(&self) -> usize {
        self.height.saturating_sub(self.area.height as usize)
    }
    fn actual(&self) -> usize {
        self.view.as_ref().map_or(self.scroll, |v| v.scroll)
    }
    fn measure(&mut self) {
        let (text_height, tall) = sched::quiet(|| {
            let mut text = self.text();
            let h = text.lines.len();
            let tall = if h < 700 {
                // the scrollbar takes a column
                let bar = self.show_scrollbar && h > self.area.height as usize;
                let width = self.area.width.saturating_sub(bar as u16).max(1);
                // the lines as they'd be printed, without any view
                text.set_rendering_width(width as usize);
                let printed = text.to_string();
                let mut vt = Vt::new(width + 1, h as u16 + 1);
                vt.feed(printed.replace('\n', "\r\n").as_bytes());
                Some(vt)
            } else {
                None
            };
            (h, tall)
        });
        self.height = text_height;
        self.tall = tall;
    }
    /// do something with the view, from a given scroll. Return the new scroll
    fn with<R>(&mut self, f: impl FnOnce(&mut dyn View) -> R) -> R {
        match self.view.as_mut() {
            Some(v) => f(v),
            None => {
                let text = self.text();
                let mut v = TextView::from(&self.area, &text);
                v.show_scrollbar = self.show_scrollbar;
                v.set_scroll(self.scroll);
                let r = f(&mut v);
                self.scroll = v.scroll;
                r
            }
        }
    }
    fn move_model(&self, from: usize, lines: i64) -> usize {
        let s = from as i64 + lines;
        s.clamp(0, self.max() as i64) as usize
    }
}

/// what's common to a MadView and a TextView
trait View {
    fn lines(&mut self, n: i32);
    fn pages(&mut self, n: i32);
    fn half_page(&mut self, n: i32) -> bool;
    fn set(&mut self, n: usize) -> Option<usize>;
    fn key(&mut self, k: KeyEvent, combination: bool) -> bool;
    fn step(&mut self, code: KeyCode) -> Option<bool>;
}
impl View for MadView {
    fn lines(&mut self, n: i32) {
        self.try_scroll_lines(n);
    }
    fn pages(&mut self, n: i32) {
        self.try_scroll_pages(n);
    }
    fn half_page(&mut self, _n: i32) -> bool {
        false
    }
    fn set(&mut self, _n: usize) -> Option<usize> {
        None
    }
    fn key(&mut self, k: KeyEvent, combination: bool) -> bool {
        if combination {
            self.apply_key_combination(k)
        } else {
            self.apply_key_event(k)
        }
    }
    fn step(&mut self, _code: KeyCode) -> Option<bool> {
        None
    }
}
impl View for TextView<'_, '_> {
    fn lines(&mut self, n: i32) {
        self.try_scroll_lines(n);
    }
    fn pages(&mut self, n: i32) {
        self.try_scroll_pages(n);
    }
    fn half_page(&mut self, n: i32) -> bool {
        self.try_scroll_pages(f64::from(n) * 0.5);
        true
    }
    fn set(&mut self, n: usize) -> Option<usize> {
        Some(self.set_scroll(n))
    }
    fn key(&mut self, k: KeyEvent, combination: bool) -> bool {
        if combination {
            self.apply_key_combination(k)
        } else {
            self.apply_key_event(k)
        }
    }
    fn step(&mut self, code: KeyCode) -> Option<bool> {
        Some(match code {
            KeyCode::Up => self.line_up(),
            KeyCode::Down => self.line_down(),
            KeyCode::PageUp => self.page_up(),
            _ => self.page_down(),
        })
    }
}

impl Session for MadSession {
    fn min_size(&self) -> (u16, u16) {
        (self.min_width(), 1)
    }
    fn resize(&mut self, cx: &Ctx, area: &Area) {
        let before = self.actual();
        let same_width = area.width == self.area.width;
        let first = self.height == 0;
        self.area = area.clone();
        if let Some(v) = self.view.as_mut() {
            v.resize(area);
        }
        self.measure();
        if self.view.is_none() {
            // that's for the application to do
            self.with(|_| ());
        }
        let after = self.actual();
        if after > self.max() {
            cx.report(
                Focus::Scroll,
                "scroll-too-big-after-resize",
                format!("after a resize to {}, the scroll is {after} for a content of {} lines", area_str(area), self.height),
            );
        }
        if same_width && !first && after != before.min(self.max()) {
            cx.report(
                Focus::Scroll,
                "scroll-lost-by-resize",
                format!("a resize with the same width changed the scroll from {before} to {after} (content: {} lines, height {})", self.height, area.height),
            );
        }
        self.scroll = after;
    }
    fn event(&mut self, cx: &Ctx, ev: &TimedEvent, _frame: &Vt) {
        let before = self.actual();
        let page = i64::from(self.area.height);
        // the expected scroll, and whether the event is said to be used
        let mut expected = before;
        let mut said: Option<bool> = None;
        match &ev.event {
            Event::Key(k) => {
                let k = *k;
                let lines = match k.code {
                    KeyCode::Up => Some(-1),
                    KeyCode::Down => Some(1),
                    KeyCode::PageUp => Some(-page),
                    KeyCode::PageDown => Some(page),
                    _ => None,
                };
                match (k.code, k.modifiers) {
                    (_, KeyModifiers::NONE) if lines.is_some() => {
                        expected = self.move_model(before, lines.unwrap());
                        match cx.api {
                            0 => said = Some(self.with(|v| v.key(k, false))),
                            1 => said = Some(self.with(|v| v.key(k, true))),
                            _ => {
                                if let Some(b) = self.with(|v| v.step(k.code)) {
                                    said = Some(b);
                                } else {
                                    match k.code {
                                        KeyCode::Up => self.with(|v| v.lines(-1)),
                                        KeyCode::Down => self.with(|v| v.lines(1)),
                                        KeyCode::PageUp => self.with(|v| v.pages(-1)),
                                        _ => self.with(|v| v.pages(1)),
                                    }
                                }
                            }
                        }
                    }
                    (KeyCode::Home, _) => {
                        self.with(|v| v.lines(-i32::MAX));
                        expected = 0;
                    }
                    (KeyCode::End, _) => {
                        self.with(|v| v.lines(i32::MAX));
                        expected = self.max();
                    }
                    (KeyCode::Char('g'), _) => {
                        self.with(|v| v.lines(i32::MIN));
                        expected = 0;
                    }
                    (KeyCode::Char('G'), _) => {
                        self.with(|v| v.pages(i32::MAX));
                        expected = self.max();
                    }
                    (KeyCode::Char('U'), _) => {
                        self.with(|v| v.pages(i32::MIN));
                        expected = 0;
                    }
                    (KeyCode::Char(c @ '0'..='9'), _) => {
                        let n = i64::from(c as u32) - 52;
                        self.with(|v| v.pages(n as i32));
                        expected = self.move_model(before, n * page);
                    }
                    (KeyCode::Char('h'), m) => {
                        let n = if m.is_empty() { 1 } else { -1 };
                        if self.with(|v| v.half_page(n)) {
                            let half = (page + 1) / 2;
                            expected = self.move_model(before, half * i64::from(n));
                        }
                    }
                    (KeyCode::F(n), _) => {
                        let n = usize::from(n) * 9;
                        if let Some(s) = self.with(|v| v.set(n)) {
                            expected = n.min(self.max());
                            if s != expected {
                                cx.report(
                                    Focus::Scroll,
                                    "wrong-scroll",
                                    format!("setting the scroll to {n} returned {s} instead of {expected}"),
                                );
                            }
                        }
                    }
                    _ => {
                        said = Some(self.with(|v| v.key(k, cx.api == 1)));
                    }
                }
            }
            Event::Mouse(m) => match m.kind {
                MouseEventKind::ScrollUp => {
                    self.with(|v| v.lines(-3));
                    expected = self.move_model(before, -3);
                }
                MouseEventKind::ScrollDown => {
                    self.with(|v| v.lines(3));
                    expected = self.move_model(before, 3);
                }
                _ => {}
            },
            _ => {}
        }
        let after = self.actual();
        sched::note("scroll", after as u64, 0);
        driver::fingerprint(after as u64);
        if after != expected {
            cx.report(
                Focus::Scroll,
                "wrong-scroll",
                format!(
                    "with {:?}, the scroll went from {before} to {after} instead of {expected} (content: {} lines, area: {})",
                    ev.event, self.height, area_str(&self.area)
                ),
            );
        }
        if let Some(said) = said {
            if said != (after != before) {
                cx.report(
                    Focus::Scroll,
                    "wrong-change-flag",
                    format!("with {:?}, the scroll went from {before} to {after} but the change was said {said}", ev.event),
                );
            }
        }
        if after > 0 && after == self.max() {
            count("bottom_reached", 1);
        }
        self.scroll = after;
    }
    fn background(&mut self, _cx: &Ctx, _bg: &Bg) {}
    fn write_on(&mut self, _cx: &Ctx, w: &mut dyn Write) -> Result<(), termimad::Error> {
        let mut w = w;
        match &self.view {
            Some(v) => v.write_on(&mut w),
            None => {
                let text = self.text();
                let mut v = TextView::from(&self.area, &text);
                v.show_scrollbar = self.show_scrollbar;
                v.set_scroll(self.scroll);
                v.write_on(&mut w)
            }
        }
    }
    fn write(&mut self) -> Result<(), termimad::Error> {
        match &self.view {
            Some(v) => v.write(),
            None => {
                let text = self.text();
                let mut v = TextView::from(&self.area, &text);
                v.show_scrollbar = self.show_scrollbar;
                v.set_scroll(self.scroll);
                v.write()
            }
        }
    }
    fn check_frame(&mut self, cx: &Ctx, vt: &Vt) {
        if cx.focus != Focus::Scroll || self.area.width < self.min_width() {
            return;
        }
        let (left, top) = (self.area.left as usize, self.area.top as usize);
        let (width, height) = (self.area.width as usize, self.area.height as usize);
        let scroll = self.actual();
        let has_bar = self.show_scrollbar && self.height > height;
        if let Some(tall) = &self.tall {
            for j in 0..height {
                let i = scroll + j;
                let cols = width - 1;
                let got = vt.text(top + j, left, left + cols);
                let exp = if i < self.height {
                    tall.text(i, 0, cols).replace(crate::vt::UNTOUCHED, " ")
                } else {
                    " ".repeat(cols)
                };
                for c in 0..cols {
                    if i >= self.height || got != exp {
                        break;
                    }
                    let (g, e) = (vt.cell(left + c, top + j), tall.cell(c, i));
                    if !e.untouched() && (g.attrs, g.fg, g.bg) != (e.attrs, e.fg, e.bg) {
                        cx.report(
                            Focus::Scroll,
                            "wrong-style",
                            format!("column {c} of line {j} of the view ({got:?}), for scroll {scroll}, hasn't the style it has in the text"),
                        );
                        return;
                    }
                }
                if got != exp {
                    cx.report(
                        Focus::Scroll,
                        "wrong-window",
                        format!(
                            "line {j} of the view, for scroll {scroll}, is {got:?} instead of {exp:?} (content: {} lines, area {})",
                            self.height,
                            area_str(&self.area)
                        ),
                    );
                    return;
                }
            }
        }
        // the scroll bar
        let col: String = (0..height)
            .map(|j| vt.cell(left + width - 1, top + j).ch)
            .collect();
        let total = if has_bar { self.height } else { 0 };
        let mut wrong = check_scrollbar(&col, height, total, scroll);
        if wrong.is_none() {
            // the thumb is where the public functions tell it is
            let drawn = if total > height {
                let rows: Vec<usize> = col
                    .chars()
                    .enumerate()
                    .filter(|(_, c)| *c == THUMB)
                    .map(|(j, _)| top + j)
                    .collect();
                rows.first().map(|a| (*a as u16, rows[rows.len() - 1] as u16))
            } else {
                None
            };
            if total <= height || drawn.is_some() {
                let told = self.area.scrollbar(scroll, total);
                if told != drawn {
                    wrong = Some("the thumb isn't where Area::scrollbar tells it is");
                }
                let told = compute_scrollbar(scroll, total, height as u16, top);
                if told != drawn.map(|(a, b)| (a as usize, b as usize))
                {
                    wrong = Some("the thumb isn't where compute_scrollbar tells it is");
                }
            }
        }
        if let Some(w) = wrong {
            cx.report(
                Focus::Scroll,
                "wrong-scrollbar",
                format!(
                    "{w}: {col:?} for scroll {scroll} and {} lines in {}",
                    self.height,
                    area_str(&self.area)
                ),
            );
        }
    }
}

const WORDS: &[&str] = &[
    "a", "termimad", "*it*", "**bold**", "`code`", "~~out~~", "日本語", "é", "of", "scrolling", "the", "wide 🍒", "long-word-not-easily-cut", "x",
];

fn gen_line(rng: &mut Rng) -> Vec<String> {
    let words = |n: u64, rng: &mut Rng| {
        (0..rng.range(1, n))
            .map(|_| *rng.pick(WORDS))
            .collect::<Vec<_>>()
            .join(" ")
    };
    match rng.below(12) {
        0 => vec![format!("# {}", words(4, rng))],
        1 => vec![format!("## {}", words(6, rng))],
        2 => vec![format!("* {}", words(12, rng))],
        3 => vec![format!(" * {}", words(5, rng)), format!("  * {}", words(8, rng))],
        4 => vec![format!("> {}", words(9, rng))],
        5 => vec![String::new()],
        6 => vec!["---".to_string()],
        7 => vec![
            "```".to_string(),
            format!("fn {}() {{", words(2, rng)),
            "    let x = 日;".to_string(),
            "}".to_string(),
            "```".to_string(),
        ],
        8 => {
            let n = rng.range(1, 3) as usize;
            let mut v = vec![
                "|a".repeat(n) + "|",
                "|:-:".repeat(n) + "|",
            ];
            for _ in 0..rng.range(1, 3) {
                v.push((0..n).map(|_| format!("|{}", words(5, rng))).collect::<String>() + "|");
            }
            v.push("|-".repeat(n) + "|");
            v
        }
        _ => vec![words(25, rng)],
    }
}

pub fn gen(rng: &mut Rng, len: usize) -> (MadSc, Vec<Ev>) {
    let mut lines = Vec::new();
    let n = rng.size(40);
    for _ in 0..n {
        lines.extend(gen_line(rng));
    }
    let mut repeat = 1;
    let mut len = len;
    if rng.one_in(12) {
        repeat = rng.range(2, 8) as u32;
    } else if rng.one_in(150) {
        // more lines than an u16 can count
        lines = vec!["x".to_string()];
        repeat = 65_530 + rng.below(40) as u32;
        len = len.min(3);
    }
    let sc = MadSc {
        lines,
        repeat,
        skin: if rng.one_in(3) { rng.range(4, 75) as u8 } else { rng.below(4) as u8 },
        text_view: rng.one_in(2),
        no_scrollbar: rng.one_in(4),
        raw: rng.one_in(4),
    };
    let mut evs = Vec::new();
    while evs.len() < len {
        evs.push(match rng.below(14) {
            0 | 1 => key(KeyName::Up, 0),
            2..=4 => key(KeyName::Down, 0),
            5 => key(KeyName::PageUp, 0),
            6 | 7 => key(KeyName::PageDown, 0),
            8 => key(if rng.one_in(2) { KeyName::Home } else { KeyName::End }, 0),
            9 => key(KeyName::Char((b'0' + rng.below(10) as u8) as char), 0),
            10 => mouse(
                if rng.one_in(2) { MouseName::ScrollUp } else { MouseName::ScrollDown },
                rng.below(20) as u16,
                rng.below(9) as u16,
            ),
            11 => key(KeyName::Char('h'), if rng.one_in(2) { 0 } else { 4 }),
            12 => key(KeyName::F(rng.range(1, 9) as u8), 0),
            _ => match rng.below(4) {
                0 => key(KeyName::Char(*rng.pick(&['g', 'G', 'U'])), 0),
                1 => key(KeyName::Enter, 0),
                2 => key(*rng.pick(&[KeyName::PageDown, KeyName::Up, KeyName::Down, KeyName::PageUp]), rng.range(1, 7) as u8),
                _ => Ev::Paste("x".into()),
            },
        });
    }
    (sc, evs)
}
