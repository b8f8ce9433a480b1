//! A list whose rows come from another thread

use {
    super::*,
    std::cmp::Ordering,
    termimad::{
        crossterm::{
            event::{
                KeyCode,
                MouseEventKind,
            },
            style::Color,
        },
        minimad::Alignment,
        CompoundStyle,
        ListView,
        ListViewCell,
        ListViewColumn,
        MadSkin,
    },
    unicode_width::UnicodeWidthChar,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ListSc {
    /// min and max widths of the columns after the one of the ids
    pub columns: Vec<(u8, u8)>,
    /// initial rows
    pub rows: Vec<u32>,
    pub sorted: bool,
    /// wide chars, combining chars and tabs in cells and titles
    #[serde(default)]
    pub wide: bool,
    /// for each column, its alignment
    #[serde(default)]
    pub aligns: Vec<u8>,
    /// for each column, its title
    #[serde(default)]
    pub titles: Vec<u8>,
}

impl ListSc {
    fn title(&self, col: usize) -> &'static str {
        if col == 0 {
            return "id";
        }
        match self.titles.get(col - 1).copied().unwrap_or(col as u8 / 3) % 5 {
            0 => "info",
            1 => "other",
            2 => "",
            3 if self.wide => "題名",
            3 => "a long title",
            _ => "x",
        }
    }
    /// -1: left, 0: center, 1: right
    fn align(&self, col: usize) -> i8 {
        if col == 0 {
            return -1;
        }
        match self.aligns.get(col - 1).copied().unwrap_or(col as u8) % 4 {
            0 => -1,
            1 => 1,
            2 => 0,
            _ => -1,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct R {
    id: u32,
    key: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Order {
    No,
    Asc,
    Desc,
}

/// a string as seen on a terminal: chars with what's combined, and their
/// number of columns
fn glyphs(s: &str) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = Vec::new();
    for c in s.replace('\t', "  ").chars() {
        match c.width().unwrap_or(0) {
            0 if !v.is_empty() => v.last_mut().unwrap().0.push(c),
            w => v.push((c.to_string(), w)),
        }
    }
    v
}
/// tell whether some text is what must be displayed in a given number of
/// columns
fn is_cell(got: &str, exp: &str, cols: usize, align: i8) -> bool {
    let exp = glyphs(exp);
    let total: usize = exp.iter().map(|g| g.1).sum();
    let text = |n: usize| exp[..n].iter().map(|g| g.0.as_str()).collect::<String>();
    if total <= cols {
        let free = cols - total;
        let lefts = match align {
            -1 => vec![0],
            1 => vec![free],
            _ => vec![free / 2, free - free / 2],
        };
        lefts
            .iter()
            .any(|l| got == format!("{}{}{}", " ".repeat(*l), text(exp.len()), " ".repeat(free - l)))
    } else {
        let mut n = 0;
        let mut w = 0;
        while n < exp.len() && w + exp[n].1 <= cols {
            w += exp[n].1;
            n += 1;
        }
        got == format!("{}{}", text(n), " ".repeat(cols - w))
            || got == format!("{}{}", " ".repeat(cols - w), text(n))
    }
}

pub struct ListSession {
    sc: ListSc,
    view: ListView<'static, R>,
    area: Area,
    cols: Vec<(u8, u8)>,
    // the model
    rows: Vec<R>,
    next_id: u32,
    /// rows whose key is a multiple of it are displayed
    filter: Option<u32>,
    order: Order,
    /// id of the selected row
    sel: Option<u32>,
    /// first displayed row seen in the last frame
    top: usize,
    /// whether the last frame was big enough to know it
    top_known: bool,
    /// what the next frame must show
    wish: Wish,
}

#[derive(Clone, Debug)]
struct Wish {
    why: String,
    /// allowed range of the index of the first displayed row
    top: Option<(usize, usize)>,
    selection_visible: bool,
    bottom_visible: bool,
}
fn no_wish() -> Wish {
    Wish {
        why: "nothing".to_string(),
        top: None,
        selection_visible: false,
        bottom_visible: false,
    }
}

const ID_MIN: u8 = 5;
const ID_MAX: u8 = 9;
const VBAR: char = '│';

fn id_str(id: u32) -> String {
    format!("#{id}")
}
const OWN_BG: u8 = 54;

/// whether the style of a cell has a background
fn own_bg(r: &R, col: usize) -> bool {
    col > 0 && (r.id as usize + col) % 5 == 0
}

fn col_str(r: &R, col: usize, wide: bool) -> String {
    if wide {
        match (col + r.key as usize) % 6 {
            0 => return format!("日本{}", r.key),
            1 => return format!("é🍒{}é", r.id % 7),
            2 => return format!("{}語{}", "本".repeat((r.key % 5) as usize), r.key),
            3 => return format!("t\t{}", r.key % 10),
            _ => {}
        }
    }
    match col {
        1 => format!("k{}", r.key),
        2 => format!("{}-{}", r.id, "z".repeat((r.key % 9) as usize)),
        _ => format!("<{}.{}>", r.key % 10, r.id % 10),
    }
}
fn cmp(order: Order) -> Box<dyn Fn(&R, &R) -> Ordering> {
    match order {
        Order::Desc => Box::new(|a: &R, b: &R| b.key.cmp(&a.key)),
        _ => Box::new(|a: &R, b: &R| a.key.cmp(&b.key)),
    }
}

impl ListSession {
    pub fn new(sc: &ListSc) -> Self {
        let mut skin = MadSkin::default();
        skin.scrollbar.thumb.set_char(THUMB);
        skin.scrollbar.track.set_char(TRACK);
        let skin: &'static MadSkin = Box::leak(Box::new(skin));
        let wide = sc.wide;
        let align = |col: usize| match sc.align(col) {
            -1 if sc.aligns.get(0) == Some(&3) => Alignment::Unspecified,
            -1 => Alignment::Left,
            1 => Alignment::Right,
            _ => Alignment::Center,
        };
        let area = Area::new(0, 0, 40, 10);
        let mut columns = vec![ListViewColumn::new(
            "id",
            ID_MIN as usize,
            ID_MAX as usize,
            Box::new(|r: &R| ListViewCell::new(id_str(r.id), &skin.paragraph.compound_style)),
        )
        .with_align(Alignment::Left)];
        for (i, (min, max)) in sc.columns.iter().enumerate() {
            let style: &'static CompoundStyle =
                Box::leak(Box::new(CompoundStyle::with_fg(Color::AnsiValue(30 + i as u8))));
            let on_bg: &'static CompoundStyle = Box::leak(Box::new(CompoundStyle::with_fgbg(
                Color::AnsiValue(30 + i as u8),
                Color::AnsiValue(OWN_BG),
            )));
            columns.push(
                ListViewColumn::new(
                    sc.title(i + 1),
                    *min as usize,
                    *max as usize,
                    Box::new(move |r: &R| {
                        ListViewCell::new(col_str(r, i + 1, wide), if own_bg(r, i + 1) { on_bg } else { style })
                    }),
                )
                .with_align(align(i + 1)),
            );
        }
        let mut s = ListSession {
            sc: sc.clone(),
            view: ListView::new(area.clone(), columns, skin),
            area,
            cols: sc.columns.clone(),
            rows: Vec::new(),
            next_id: 1,
            filter: None,
            order: Order::No,
            sel: None,
            top: 0,
            top_known: true,
            wish: no_wish(),
        };
        if sc.sorted {
            s.view.sort(cmp(Order::Asc));
            s.order = Order::Asc;
        }
        for k in &sc.rows {
            s.add(*k);
        }
        s.wish = no_wish();
        s
    }
    fn add(&mut self, key: u32) -> R {
        let r = R {
            id: self.next_id,
            key,
        };
        self.next_id += 1;
        self.view.add_row(r.clone());
        self.rows.push(r.clone());
        if self.order != Order::No {
            let c = cmp(self.order);
            self.rows.sort_by(|a, b| c(a, b));
        }
        r
    }
    fn is_displayed(&self, r: &R) -> bool {
        self.filter.map_or(true, |k| r.key % k == 0)
    }
    fn displayed(&self) -> Vec<&R> {
        self.rows.iter().filter(|r| self.is_displayed(r)).collect()
    }
    fn body(&self) -> usize {
        (self.area.height as usize).saturating_sub(2)
    }
    /// biggest index of the first row, without and with the blank line
    /// which is allowed at end
    fn max(&self) -> (usize, usize) {
        let n = self.displayed().len();
        if n > self.body() {
            (n - self.body(), n - self.body() + 1)
        } else {
            (0, 0)
        }
    }
    fn check_rows(&self, cx: &Ctx, op: &str) {
        let n = self.displayed().len();
        let counts = self.view.row_counts();
        if counts != (n, self.rows.len()) {
            cx.report(
                Focus::Rows,
                "wrong-counts",
                format!("after {op}: {counts:?} instead of ({n}, {})", self.rows.len()),
            );
        }
        let sel = self.view.get_selection().map(|r| r.id);
        if sel != self.sel || self.view.has_selection() != self.sel.is_some() {
            cx.report(
                Focus::Rows,
                "wrong-selection",
                format!(
                    "after {op}: the selected row is {sel:?} instead of {:?} (displayed: {:?})",
                    self.sel,
                    self.displayed().iter().map(|r| r.id).collect::<Vec<_>>()
                ),
            );
        }
        if self.area.height >= 3 && self.view.tbody_height() as usize != self.body() {
            cx.report(Focus::Rows, "wrong-counts", format!("the height of the body is {} for {}", self.view.tbody_height(), area_str(&self.area)));
        }
    }
    fn scrolled(&mut self, cx: &Ctx, by: i64, why: String) {
        let (lo, hi) = self.max();
        if self.sel.is_some() {
            let visible = self.sel_displayed();
            self.wish = Wish {
                why,
                selection_visible: visible,
                ..no_wish()
            };
        } else {
            let t = self.top as i64 + by;
            let a = t.clamp(0, lo as i64) as usize;
            let b = t.clamp(0, hi as i64) as usize;
            self.wish = Wish {
                why,
                top: self.top_known.then_some((a, b)),
                ..no_wish()
            };
        }
        let _ = cx;
    }
    fn sel_displayed(&self) -> bool {
        self.sel.map_or(false, |id| {
            self.rows.iter().any(|r| r.id == id && self.is_displayed(r))
        })
    }
    fn selected(&mut self, sel: Option<u32>, why: String) {
        self.sel = sel;
        self.wish = Wish {
            why,
            selection_visible: self.sel_displayed(),
            ..no_wish()
        };
    }
    fn next(&self, up: bool) -> Option<u32> {
        let d = self.displayed();
        if d.is_empty() {
            return self.sel;
        }
        if d.len() == 1 {
            return Some(d[0].id);
        }
        match self.sel {
            None if !self.top_known => self.view.get_selection().map(|r| r.id),
            None => d.get(self.top).or(d.first()).map(|r| r.id),
            Some(id) => {
                let i = self.rows.iter().position(|r| r.id == id)?;
                let n = self.rows.len();
                for k in 1..=n {
                    let j = if up { (i + n - k) % n } else { (i + k) % n };
                    if self.is_displayed(&self.rows[j]) {
                        return Some(self.rows[j].id);
                    }
                }
                None
            }
        }
    }
    fn background_row(&mut self, cx: &Ctx, key: u32) {
        let n = self.displayed().len();
        let bottom = self.top + self.body() >= n;
        let r = self.add(key);
        self.wish = no_wish();
        self.wish.why = format!("adding a row of key {key} ({} rows before, displayed from {})", n, self.top);
        if self.order == Order::No {
            if bottom && self.top_known {
                self.wish.bottom_visible = true;
            } else {
                self.wish.top = self.top_known.then_some((self.top, self.top));
            }
        }
        let _ = r;
        self.check_rows(cx, "adding a row");
    }
}

impl Session for ListSession {
    fn resize(&mut self, cx: &Ctx, area: &Area) {
        self.area = area.clone();
        self.view.area = area.clone();
        self.view.update_dimensions();
        // how an application asks for the scroll to be valid again
        self.view.try_scroll_lines(0);
        self.wish = Wish {
            why: format!("the resize to {}", area_str(area)),
            selection_visible: self.sel_displayed(),
            ..no_wish()
        };
        self.check_rows(cx, "a resize");
    }
    fn event(&mut self, cx: &Ctx, ev: &TimedEvent, _frame: &Vt) {
        let why = format!("{:?}", ev.event);
        self.wish = no_wish();
        self.wish.why = why.clone();
        let body = self.body() as i64;
        let v = &mut self.view;
        match &ev.event {
            Event::Key(k) => match k.code {
                KeyCode::Up => {
                    v.try_select_next(true);
                    let s = self.next(true);
                    self.selected(s, why);
                }
                KeyCode::Down => {
                    v.try_select_next(false);
                    let s = self.next(false);
                    self.selected(s, why);
                }
                KeyCode::Home => {
                    v.select_first_line();
                    let s = self.displayed().first().map(|r| r.id);
                    self.selected(s, why);
                }
                KeyCode::End => {
                    v.select_last_line();
                    let s = self.displayed().last().map(|r| r.id);
                    self.selected(s, why);
                }
                KeyCode::PageUp => {
                    v.try_scroll_pages(-1);
                    self.scrolled(cx, -body, why);
                }
                KeyCode::PageDown => {
                    v.try_scroll_pages(1);
                    self.scrolled(cx, body, why);
                }
                KeyCode::Char(c @ '0'..='9') => {
                    let n = i64::from(c as u32) - 52;
                    v.try_scroll_lines(n as i32);
                    self.scrolled(cx, n, why);
                }
                KeyCode::Char('m') => {
                    v.try_scroll_lines(i32::MIN);
                    self.scrolled(cx, i64::from(i32::MIN), why);
                }
                KeyCode::Char('M') => {
                    v.try_scroll_lines(i32::MAX);
                    self.scrolled(cx, i64::from(i32::MAX), why);
                }
                KeyCode::Char('p') => {
                    v.try_scroll_pages(i32::MIN);
                    self.scrolled(cx, i64::from(i32::MIN), why);
                }
                KeyCode::Char('P') => {
                    v.try_scroll_pages(i32::MAX);
                    self.scrolled(cx, i64::from(i32::MAX), why);
                }
                KeyCode::Char('b') => {
                    v.scroll_to_bottom();
                    let (lo, _) = self.max();
                    self.wish.top = Some((lo, lo));
                }
                KeyCode::Char('v') => {
                    v.make_selection_visible();
                    self.wish.selection_visible = self.sel_displayed();
                }
                KeyCode::Char('u') => {
                    v.unselect();
                    self.sel = None;
                    self.wish.top = self.top_known.then_some((self.top, self.top));
                }
                KeyCode::Char('a') => self.background_row(cx, self.next_id * 7 % 60),
                KeyCode::Char('x') => {
                    v.clear_rows();
                    self.rows.clear();
                    self.sel = None;
                }
                KeyCode::Char('s') => {
                    v.sort(cmp(Order::Asc));
                    self.order = Order::Asc;
                }
                KeyCode::Char('S') => {
                    v.sort(cmp(Order::Desc));
                    self.order = Order::Desc;
                }
                KeyCode::F(n) => {
                    let k = u32::from(n);
                    v.set_filter(Box::new(move |r: &R| r.key % k == 0));
                    self.filter = Some(k);
                    if self.view.get_selection().is_none() && !self.sel_displayed() {
                        // the selection may be removed when it's hidden
                        self.sel = None;
                    }
                }
                KeyCode::Char('r') => {
                    v.remove_filter();
                    self.filter = None;
                }
                _ => {}
            },
            Event::Mouse(m) => match m.kind {
                MouseEventKind::ScrollUp => {
                    v.try_scroll_lines(-2);
                    self.scrolled(cx, -2, why);
                }
                MouseEventKind::ScrollDown => {
                    v.try_scroll_lines(2);
                    self.scrolled(cx, 2, why);
                }
                _ => {}
            },
            _ => {}
        }
        self.check_rows(cx, &format!("{:?}", ev.event));
    }
    fn background(&mut self, cx: &Ctx, bg: &Bg) {
        match bg {
            Bg::Row(k) => {
                count("rows_added_by_thread", 1);
                self.background_row(cx, *k);
            }
            Bg::Clear => {
                self.view.clear_rows();
                self.rows.clear();
                self.sel = None;
                self.wish = no_wish();
                self.check_rows(cx, "the removal of all rows");
            }
            Bg::Redraw => {
                self.wish = no_wish();
                self.wish.top = self.top_known.then_some((self.top, self.top));
            }
        }
    }
    fn write_on(&mut self, _cx: &Ctx, w: &mut dyn Write) -> Result<(), termimad::Error> {
        let mut w = w;
        self.view.write_on(&mut w)
    }
    fn write(&mut self) -> Result<(), termimad::Error> {
        self.view.write()
    }
    fn min_size(&self) -> (u16, u16) {
        let w: u16 = self.cols.iter().map(|c| u16::from(c.0) + 1).sum();
        (w + u16::from(ID_MIN) + 1, 1)
    }
    fn covered(&self, area: &Area) -> Area {
        // what's at the right of the columns isn't drawn
        let w: u16 = self.cols.iter().map(|c| u16::from(c.0) + 1).sum();
        Area {
            width: area.width.min(w + u16::from(ID_MIN)),
            ..area.clone()
        }
    }
    fn check_frame(&mut self, cx: &Ctx, vt: &Vt) {
        let (mw, mh) = self.min_size();
        if self.area.width < mw || self.area.height < mh.max(3) {
            self.top_known = false;
            return;
        }
        let (left, top) = (self.area.left as usize, self.area.top as usize);
        let (w, h) = (self.area.width as usize, self.area.height as usize);
        let body = self.body();
        let d = self.displayed();
        let n = d.len();
        // the columns, from the separation line
        let cells = |y: usize, sep: &[char]| -> Vec<(String, usize)> {
            let mut v = vec![(String::new(), 0)];
            for x in left..left + w - 1 {
                let c = vt.cell(x, y);
                let last = v.last_mut().unwrap();
                if c.cont {
                    last.1 += 1;
                } else if sep.contains(&c.ch) {
                    v.push((String::new(), 0));
                } else {
                    last.0.push(if c.ch == UNTOUCHED { ' ' } else { c.ch });
                    last.0.push_str(&c.marks);
                    last.1 += 1;
                }
            }
            v
        };
        let nc = self.cols.len() + 1;
        let wrong = |class: &str, msg: String| cx.report(Focus::Rows, class, format!("{msg}\n{}", vt.dump()));
        let rule = cells(top + 1, &['┼', '┬']);
        let widths: Vec<usize> = rule.iter().map(|(t, _)| t.chars().filter(|c| *c == '─').count()).collect();
        let limits = |c: usize| if c == 0 { (ID_MIN, ID_MAX) } else { self.cols[c - 1] };
        let available = w - nc;
        let sum = |f: fn((u8, u8)) -> u8| (0..nc).map(|c| f(limits(c)) as usize).sum::<usize>();
        let total = available.min(sum(|l| l.1)).max(sum(|l| l.0));
        if widths.len() != nc
            || rule.iter().any(|(t, _)| !t.trim_end().chars().all(|c| c == '─'))
            || widths
                .iter()
                .enumerate()
                .any(|(c, w)| *w < limits(c).0 as usize || *w > limits(c).1 as usize)
            || widths.iter().sum::<usize>() != total
        {
            wrong("wrong-columns", format!("the widths of the columns are {widths:?} in {}", area_str(&self.area)));
            return;
        }
        // titles: merged when they're the same
        let mut titles: Vec<(&str, usize)> = Vec::new();
        let mut joints = String::new();
        for c in 0..nc {
            let t = self.sc.title(c);
            match titles.last_mut() {
                Some(last) if last.0 == t => {
                    last.1 += 1 + widths[c];
                    joints.push('┬');
                }
                _ => {
                    if c > 0 {
                        joints.push('┼');
                    }
                    titles.push((t, widths[c]));
                }
            }
        }
        let seen_joints: String = vt.text(top + 1, left, left + w - 1).chars().filter(|c| "┼┬".contains(*c)).collect();
        let got = cells(top, &[VBAR]);
        let mut good = got.len() == titles.len() && joints == seen_joints;
        for (i, (t, cols)) in titles.iter().enumerate().take(if good { nc } else { 0 }) {
            // (what's after the last title isn't in a cell)
            let mut g = got[i].0.clone();
            if i + 1 == titles.len() {
                let extra = got[i].1 - cols.min(&got[i].1);
                for _ in 0..extra {
                    if g.ends_with(' ') {
                        g.pop();
                    }
                }
            }
            good &= is_cell(&g, t, *cols, 0);
        }
        if !good {
            wrong(
                "wrong-titles",
                format!("titles are {got:?}, with separations {seen_joints:?} instead of {titles:?} with {joints:?}"),
            );
            return;
        }
        // the rows seen
        let mut seen: Vec<Option<usize>> = Vec::new();
        for j in 0..body {
            let y = top + 2 + j;
            let line = vt.text(y, left, left + w - 1).replace(UNTOUCHED, " ");
            if line.trim().is_empty() {
                seen.push(None);
                continue;
            }
            let cells = cells(y, &[VBAR]);
            let id = cells[0].0.trim();
            let Some(i) = d.iter().position(|r| id_str(r.id) == id) else {
                cx.report(
                    Focus::Rows,
                    "wrong-row",
                    format!("line {j} is {line:?}, which isn't one of the {n} rows to display\n{}", vt.dump()),
                );
                return;
            };
            if cells.len() != nc {
                wrong("wrong-row", format!("line {j} is {line:?}: wrong number of columns"));
                return;
            }
            let mut x = left;
            for (c, cell) in cells.iter().enumerate() {
                let exp = if c == 0 { id_str(d[i].id) } else { col_str(d[i], c, self.sc.wide) };
                let mut text = cell.0.clone();
                if c + 1 == nc {
                    // the last cell is followed by the end of the area
                    for _ in 0..cell.1.saturating_sub(widths[c]) {
                        if text.ends_with(' ') {
                            text.pop();
                        }
                    }
                }
                if !is_cell(&text, &exp, widths[c], self.sc.align(c)) {
                    wrong(
                        "wrong-row",
                        format!(
                            "line {j} is {line:?}: the cell {c} of the row {} is {:?} instead of {exp:?} over {} columns, alignment {}",
                            d[i].id, cell.0, widths[c], self.sc.align(c)
                        ),
                    );
                    return;
                }
                for k in x..x + widths[c] {
                    let cell = vt.cell(k, y);
                    if c > 0 && !cell.cont && cell.ch != ' ' && cell.fg != 1029 + c as u32 {
                        wrong("wrong-style", format!("line {j} is {line:?}: wrong color of the cell {c}"));
                        return;
                    }
                    let expected = if self.sel == Some(d[i].id) {
                        vt.cell(left, y).bg // the one of the selection
                    } else if own_bg(d[i], c) {
                        1000 + u32::from(OWN_BG)
                    } else {
                        0
                    };
                    if cell.bg != expected {
                        wrong(
                            "wrong-highlight",
                            format!("row {}: wrong background of the cell {c}, the selection is {:?}", d[i].id, self.sel),
                        );
                        return;
                    }
                }
                x += widths[c] + 1;
            }
            let highlighted = vt.cell(left, y).bg != 0;
            if highlighted != (self.sel == Some(d[i].id)) {
                cx.report(
                    Focus::Rows,
                    "wrong-highlight",
                    format!("row {}: highlighted: {highlighted}, but the selection is {:?}", d[i].id, self.sel),
                );
                return;
            }
            seen.push(Some(i));
        }
        let visible: Vec<usize> = seen.iter().flatten().copied().collect();
        let why = self.wish.why.clone();
        let ctx = |what: &str| {
            format!(
                "after {why}: {what} (rows to display: {:?}, selection {:?}, seen: {:?}, area {})",
                d.iter().map(|r| r.id).collect::<Vec<_>>(),
                self.sel,
                visible.iter().map(|i| d[*i].id).collect::<Vec<_>>(),
                area_str(&self.area)
            )
        };
        let contiguous = visible.windows(2).all(|p| p[1] == p[0] + 1)
            && seen[..visible.len()].iter().all(|s| s.is_some());
        if !contiguous {
            cx.report(Focus::Rows, "wrong-rows", ctx("what's seen isn't a part of the rows"));
            return;
        }
        if visible.is_empty() && n > 0 {
            cx.report(Focus::ListScroll, "nothing-visible", ctx("nothing is visible"));
            return;
        }
        let first = visible.first().copied().unwrap_or(0);
        if visible.len() < body && first + visible.len() < n {
            cx.report(Focus::Rows, "wrong-rows", ctx("rows are missing at the bottom"));
            return;
        }
        let (_, hi) = self.max();
        let mut err = None;
        if first > hi {
            err = Some(("scroll-out-of-bounds", ctx(&format!("the first row seen has index {first}, which is more than {hi}"))));
        } else if let Some((a, b)) = self.wish.top {
            if first < a || first > b {
                err = Some(("wrong-scroll", ctx(&format!("the first row seen has index {first} instead of {a} (was {})", self.top))));
            }
        }
        if self.wish.selection_visible && !visible.iter().any(|i| Some(d[*i].id) == self.sel) {
            err = Some(("selection-not-visible", ctx("the selection isn't visible")));
        }
        if self.wish.bottom_visible && n > 0 && visible.last() != Some(&(n - 1)) {
            err = Some(("bottom-lost", ctx("the last row was visible and isn't any more")));
        }
        let at_bottom = n == 0 || visible.last() == Some(&(n - 1));
        if err.is_none() && self.view.do_scroll_show_bottom() != at_bottom {
            err = Some(("wrong-bottom", ctx("wrong answer on whether the bottom is shown")));
        }
        if err.is_none() {
            let col: String = (0..body)
                .map(|j| vt.cell(left + w - 1, top + 2 + j).ch)
                .collect();
            if let Some(e) = check_scrollbar(&col, body, n, first) {
                err = Some(("wrong-scrollbar", ctx(&format!("{e}: {col:?}"))));
            }
            if n <= body && (0..body).any(|j| vt.cell(left + w - 1, top + 2 + j).untouched()) {
                err = Some(("stale-scrollbar", ctx("a previous scrollbar wouldn't be erased")));
            }
            if self.view.scrollbar().is_some() != (n > body) {
                err = Some(("wrong-scrollbar", ctx("wrong scrollbar existence")));
            }
        }
        if visible.len() < n {
            count("scrolled_frames", 1);
        }
        if let Some((class, msg)) = err {
            cx.report(Focus::ListScroll, class, format!("{msg}\n{}", vt.dump()));
        }
        let _ = h;
        driver::fingerprint(first as u64 * 64 + visible.len() as u64);
        self.top = first;
        self.top_known = true;
        // it's true until something else is asked for
        self.wish = Wish {
            why: "a new drawing".to_string(),
            top: Some((first, first)),
            ..no_wish()
        };
    }
}

pub fn gen(rng: &mut Rng, len: usize) -> (ListSc, Vec<Ev>, Vec<(u64, Bg)>) {
    let mut columns = Vec::new();
    for _ in 0..rng.range(0, 3) {
        let min = rng.range(2, 6) as u8;
        columns.push((min, min + rng.below(8) as u8));
    }
    let keys = *rng.pick(&[3, 20, 100]);
    let n = if rng.one_in(4) { 0 } else { rng.size(60) };
    let rows = (0..n).map(|_| rng.below(keys) as u32).collect();
    let mut bg = Vec::new();
    if rng.one_in(2) {
        let gap = *rng.pick(&[0, 100, 100_000]);
        for _ in 0..rng.size(30) {
            let d = if gap == 0 { 0 } else { rng.below(gap) };
            bg.push((
                d,
                match rng.below(40) {
                    0 => Bg::Clear,
                    1 | 2 => Bg::Redraw,
                    _ => Bg::Row(rng.below(keys) as u32),
                },
            ));
        }
    }
    let mut evs = Vec::new();
    let selects = rng.below(8);
    let scrolls = rng.below(8) + 1;
    let filters = rng.below(3);
    let sorts = rng.below(2);
    let adds = rng.below(4);
    let others = rng.below(3);
    let total = selects + scrolls + filters + sorts + adds + others;
    let ch = |c: char| key(KeyName::Char(c), 0);
    while evs.len() < len {
        let mut k = rng.below(total);
        if k < selects {
            let e = match rng.below(8) {
                0..=2 => KeyName::Up,
                3..=5 => KeyName::Down,
                6 => KeyName::Home,
                _ => KeyName::End,
            };
            for _ in 0..rng.size(6).max(1) {
                evs.push(key(e, 0));
            }
            continue;
        }
        k -= selects;
        if k < scrolls {
            evs.push(match rng.below(12) {
                0 | 1 => key(KeyName::PageUp, 0),
                2..=4 => key(KeyName::PageDown, 0),
                5 | 6 => ch((b'0' + rng.below(10) as u8) as char),
                7 => ch('b'),
                8 => ch('M'),
                9 => ch(*rng.pick(&['m', 'M', 'p', 'P'])),
                10 => mouse(MouseName::ScrollDown, 2, 2),
                _ => mouse(MouseName::ScrollUp, 2, 2),
            });
            continue;
        }
        k -= scrolls;
        if k < filters {
            evs.push(if rng.one_in(3) {
                ch('r')
            } else {
                key(KeyName::F(rng.range(2, 7) as u8), 0)
            });
            continue;
        }
        k -= filters;
        if k < sorts {
            evs.push(ch(*rng.pick(&['s', 'S'])));
            continue;
        }
        k -= sorts;
        if k < adds {
            evs.push(ch('a'));
            continue;
        }
        evs.push(match rng.below(6) {
            0 => ch('x'),
            1 | 2 => ch('u'),
            3 => ch('v'),
            4 => key(KeyName::Tab, 0),
            _ => Ev::Paste("x".to_string()),
        });
    }
    (
        ListSc {
            columns,
            rows,
            sorted: rng.one_in(5),
            wide: rng.one_in(3),
            aligns: (0..3).map(|_| rng.below(4) as u8).collect(),
            titles: (0..3).map(|_| rng.below(5) as u8).collect(),
        },
        evs,
        bg,
    )
}
