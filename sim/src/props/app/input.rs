//! An input field, or a text area

use {
    super::*,
    termimad::{
        crossterm::{
            event::{
                KeyCode,
                KeyModifiers,
                MouseButton,
                MouseEventKind,
            },
            style::Color,
        },
        CompoundStyle,
        InputField,
    },
    unicode_width::UnicodeWidthChar,
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InputSc {
    pub text: String,
    /// how many times the text is repeated
    pub repeat: u32,
    pub password: bool,
    /// 1: enter, 2: alt-enter (may be summed)
    pub new_line: u8,
    pub unfocused: bool,
    /// what's inserted by ctrl-p, set by ctrl-u
    pub strings: Vec<String>,
    /// foreground and background when focused, then when not focused (0: not
    /// set)
    #[serde(default)]
    pub styles: [u8; 4],
    /// operations done on a copy of the content
    #[serde(default)]
    pub aside: Vec<Direct>,
}

/// direct call of a function of an input field content
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Direct {
    Cursor(usize, usize),
    Tail(usize, usize),
    MakeSelection,
    Unselect,
    Insert(String),
    Char(char),
    NewLine,
    Push(char),
    Set(String),
    Clear,
    Left,
    Right,
    Up(usize),
    Down(usize),
    LineStart,
    LineEnd,
    Start,
    End,
    WordLeft,
    WordRight,
    Swap(usize, usize),
    LineUp,
    LineDown,
    DelLeft,
    DelBelow,
    DelSelection,
    DelWordLeft,
    DelWordRight,
    SelectWord,
    Read,
}

type P = (usize, usize); // y, x

/// what's seen of an input field
#[derive(Clone, Debug, PartialEq)]
struct St {
    lines: Vec<Vec<char>>,
    pos: P,
    /// the other end of the selection
    tail: Option<P>,
}

/// position in the flat text
fn flat_pos(lines: &[Vec<char>], p: P) -> usize {
    lines[..p.0].iter().map(|l| l.len() + 1).sum::<usize>() + p.1
}
fn unflat(lines: &[Vec<char>], mut i: usize) -> P {
    for (y, l) in lines.iter().enumerate() {
        if i <= l.len() {
            return (y, i);
        }
        i -= l.len() + 1;
    }
    let y = lines.len() - 1;
    (y, lines[y].len())
}
fn flat(lines: &[Vec<char>]) -> Vec<char> {
    let mut v = Vec::new();
    for (y, l) in lines.iter().enumerate() {
        if y > 0 {
            v.push('\n');
        }
        v.extend(l);
    }
    v
}
fn split(text: &[char]) -> Vec<Vec<char>> {
    text.split(|c| *c == '\n').map(|l| l.to_vec()).collect()
}
fn width(c: char) -> usize {
    if c == '\t' {
        2
    } else {
        c.width().unwrap_or(0)
    }
}
fn kept(c: char) -> bool {
    c != '\r' && c != '\x08'
}

impl St {
    fn wide(&self) -> bool {
        self.tail.map_or(false, |t| t != self.pos)
    }
    fn range(&self) -> (P, P) {
        let t = self.tail.unwrap_or(self.pos);
        (t.min(self.pos), t.max(self.pos))
    }
    fn is_selected(&self, p: P) -> bool {
        let (a, b) = self.range();
        a <= p && p <= b
    }
    /// the text of the selection, both ends included
    fn selected(&self) -> String {
        let text = flat(&self.lines);
        let (a, b) = self.range();
        let (a, b) = (flat_pos(&self.lines, a), flat_pos(&self.lines, b));
        text[a..(b + 1).min(text.len())].iter().collect()
    }
    /// text and cursor
    fn removed(&self, a: usize, b: usize, at: usize) -> (Vec<Vec<char>>, P) {
        let mut text = flat(&self.lines);
        text.drain(a..b);
        let lines = split(&text);
        let pos = unflat(&lines, at);
        (lines, pos)
    }
    /// what can be left by the removal of the selection. The line break
    /// following a selection may be removed or not, the one before too
    /// when whole lines are removed at the end of the text.
    fn without_selection(&self) -> Vec<(Vec<Vec<char>>, P)> {
        let (min, max) = self.range();
        let a = flat_pos(&self.lines, min);
        let b = flat_pos(&self.lines, max);
        let len = flat(&self.lines).len();
        let mut v = Vec::new();
        if max.1 < self.lines[max.0].len() {
            v.push(self.removed(a, b + 1, a));
        } else {
            v.push(self.removed(a, b, a));
            if b < len {
                v.push(self.removed(a, b + 1, a));
            } else if min.1 == 0 && a > 0 {
                v.push(self.removed(a - 1, b, a - 1));
            }
        }
        v
    }
    fn with_inserted(&self, s: &str) -> (Vec<Vec<char>>, P) {
        let mut text = flat(&self.lines);
        let at = flat_pos(&self.lines, self.pos);
        let s: Vec<char> = s.chars().filter(|c| kept(*c)).collect();
        text.splice(at..at, s.iter().cloned());
        let lines = split(&text);
        let pos = unflat(&lines, at + s.len());
        (lines, pos)
    }
    fn at(&self, lp: &(Vec<Vec<char>>, P)) -> St {
        St {
            lines: lp.0.clone(),
            pos: lp.1,
            tail: None,
        }
    }
    fn end(&self) -> P {
        let y = self.lines.len() - 1;
        (y, self.lines[y].len())
    }
    fn line(&self) -> &[char] {
        &self.lines[self.pos.0]
    }
}

#[derive(Clone, Debug)]
enum Op {
    /// a typed char
    Type(char),
    NewLine,
    Backspace,
    Delete,
    /// key code, whether shift is pressed
    Move(KeyCode, bool),
    OtherKey,
    Insert(String),
    Replace(String),
    Set(String),
    Clear,
    Cut,
    Copy,
    DelSelection,
    DelLeft,
    DelBelow,
    DelWordLeft,
    DelWordRight,
    ToStart,
    ToEnd,
    WordLeft,
    WordRight,
    LineUp,
    LineDown,
    SelectWord,
    Focus,
    Mouse,
    Nothing,
    /// move without change of the other end of the selection
    Go(KeyCode),
    GoLines(bool, usize),
    MonoLine,
    Style,
    Wheel(bool),
    // only on a content alone
    Push(char),
    CursorAt(P),
    TailAt(P),
    MakeSelection,
    Unselect,
    SwapLines(usize, usize),
}

pub struct InputSession {
    input: InputField,
    sc: InputSc,
    area: Area,
    clip: String,
    /// whether the cursor may be out of view
    free_scroll: bool,
    shown: Option<(u16, u16)>,
}

fn style(fg: u8, bg: u8) -> CompoundStyle {
    let mut s = CompoundStyle::default();
    if fg > 0 {
        s.set_fg(Color::AnsiValue(fg));
    }
    if bg > 0 {
        s.set_bg(Color::AnsiValue(bg));
    }
    s
}
/// (a macro because the type of the content can't be named)
macro_rules! state_of {
    ($c:expr) => {{
        let c = $c;
        let lines: Vec<Vec<char>> = c.lines().iter().map(|l| l.chars.clone()).collect();
        let pos = c.cursor_pos();
        let r = c.selection();
        let tail = if c.has_selection() {
            let t = if r.min == pos { r.max } else { r.min };
            Some((t.y, t.x))
        } else {
            None
        };
        St {
            lines,
            pos: (pos.y, pos.x),
            tail,
        }
    }};
}

/// tell whether the functions of a content agree with its lines
macro_rules! consistent {
    ($c:expr, $st:expr) => {{
        let c = $c;
        let st: &St = $st;
        let at = |x: usize, y: usize| {
            let mut p = c.end();
            p.x = x;
            p.y = y;
            p
        };
        let text: String = flat(&st.lines).iter().collect();
        let n = st.lines.len();
        let last = &st.lines[n - 1];
        let fp = flat_pos(&st.lines, st.pos);
        let (a, b) = st.range();
        let sel = c.selection();
        let (y, x) = st.pos;
        let line = c.current_line();
        let w: usize = st.lines[y].iter().map(|c| width(*c)).sum();
        let before: usize = st.lines[y][..x].iter().map(|c| width(*c)).sum();
        c.to_string() == text
            && c.is_str(&text)
            && !c.is_str(&format!("{text}\n"))
            && (text.is_empty() || !c.is_str(&text[..text.len() - text.chars().last().unwrap().len_utf8()]))
            && c.is_empty() == text.is_empty()
            && c.line_count() == n
            && c.into_iter().collect::<String>() == text
            && c.end() == at(last.len(), n - 1)
            && c.can_move_left() == (fp > 0)
            && c.can_move_right() == (fp < text.chars().count())
            && c.has_wide_selection() == st.wide()
            && (sel.min.y, sel.min.x, sel.max.y, sel.max.x) == (a.0, a.1, b.0, b.1)
            && sel.contains(x, y)
            && sel.contains_pos(sel.max)
            && !sel.contains(b.1 + 1, b.0)
            && (a == (0, 0) || !sel.contains_pos(if a.1 > 0 { at(a.1 - 1, a.0) } else { at(0, a.0 - 1) }))
            && c.line(n).is_none()
            && c.line(y).map_or(false, |l| l.chars == st.lines[y])
            && c.line_saturating(n + 3).chars == *last
            && c.line_saturating(y).chars == st.lines[y]
            && line.chars == st.lines[y]
            && line.to_string() == st.lines[y].iter().collect::<String>()
            && line.width() == w
            && line.char_idx_to_col(x) == before
            && c.make_valid_pos(at(x + 1_000_000, y)) == at(st.lines[y].len(), y)
            && c.make_valid_pos(at(0, n + 2)) == c.end()
    }};
}

impl InputSession {
    pub fn new(sc: &InputSc) -> Self {
        let area = Area::new(0, 0, 10, 1);
        let mut input = InputField::new(area.clone());
        input.password_mode = sc.password;
        if sc.new_line & 1 != 0 {
            input.new_line_on(InputField::ENTER);
        }
        if sc.new_line & 2 != 0 {
            input.new_line_on(InputField::ALT_ENTER);
        }
        let text = sc.text.repeat(sc.repeat.max(1) as usize);
        input.set_str(&text);
        if sc.unfocused {
            input.set_focus(false);
        }
        if sc.styles != [0; 4] {
            input.set_normal_style(style(sc.styles[0], sc.styles[1]));
            input.set_unfocused_style(style(sc.styles[2], sc.styles[3]));
        }
        InputSession {
            input,
            sc: sc.clone(),
            area,
            clip: "clip".to_string(),
            free_scroll: false,
            shown: None,
        }
    }
    fn st(&self) -> St {
        state_of!(self.input.content())
    }
    fn string(&self, n: usize) -> String {
        if self.sc.strings.is_empty() {
            "inserted".to_string()
        } else {
            self.sc.strings[n % self.sc.strings.len()].clone()
        }
    }
    /// what an event means
    fn op(&self, ev: &Event, api: u8) -> Op {
        let op = self.usual_op(ev);
        if api != 3 {
            return op;
        }
        // direct calls don't care about the focus
        match ev {
            Event::Key(k) if k.modifiers.is_empty() => match k.code {
                KeyCode::Char(c) => Op::Insert(c.to_string()),
                KeyCode::Backspace => Op::DelLeft,
                KeyCode::Delete => Op::DelBelow,
                KeyCode::PageUp | KeyCode::PageDown => {
                    Op::GoLines(k.code == KeyCode::PageDown, self.area.height as usize)
                }
                KeyCode::Up | KeyCode::Down => Op::GoLines(k.code == KeyCode::Down, 1),
                KeyCode::Left | KeyCode::Right | KeyCode::Home | KeyCode::End => Op::Go(k.code),
                KeyCode::Enter => op,
                _ => Op::OtherKey,
            },
            Event::Key(k) if k.modifiers == KeyModifiers::SHIFT => match k.code {
                KeyCode::Char(c) => Op::Type(c),
                KeyCode::Backspace => Op::Backspace,
                KeyCode::Delete => Op::Delete,
                KeyCode::Left
                | KeyCode::Right
                | KeyCode::Up
                | KeyCode::Down
                | KeyCode::Home
                | KeyCode::End
                | KeyCode::PageUp
                | KeyCode::PageDown => Op::Move(k.code, true),
                KeyCode::Enter => op,
                _ => Op::OtherKey,
            },
            Event::Mouse(m) => match m.kind {
                MouseEventKind::ScrollDown => Op::Wheel(true),
                MouseEventKind::ScrollUp => Op::Wheel(false),
                _ => op,
            },
            _ => op,
        }
    }
    fn usual_op(&self, ev: &Event) -> Op {
        match ev {
            Event::Key(k) => {
                let ctrl = k.modifiers == KeyModifiers::CONTROL;
                let alt = k.modifiers == KeyModifiers::ALT;
                let none = k.modifiers.is_empty();
                let shift = k.modifiers == KeyModifiers::SHIFT;
                let is_new_line = k.code == KeyCode::Enter
                    && (none && self.sc.new_line & 1 != 0 || alt && self.sc.new_line & 2 != 0);
                match k.code {
                    KeyCode::Char('x') if ctrl => Op::Cut,
                    KeyCode::Char('c') if ctrl => Op::Copy,
                    KeyCode::Char('v') if ctrl => Op::Replace(self.clip.clone()),
                    KeyCode::Char('a') if ctrl => Op::ToStart,
                    KeyCode::Char('e') if ctrl => Op::ToEnd,
                    KeyCode::Char('w') if ctrl => Op::DelWordLeft,
                    KeyCode::Char('d') if alt => Op::DelWordRight,
                    KeyCode::Char('k') if ctrl => Op::Clear,
                    KeyCode::Char('u') if ctrl => Op::Set(self.string(1)),
                    KeyCode::Char('p') if ctrl => Op::Insert(self.string(0)),
                    KeyCode::Char('d') if ctrl => Op::DelBelow,
                    KeyCode::Char('h') if ctrl => Op::DelLeft,
                    KeyCode::Char('n') if ctrl => Op::NewLine,
                    KeyCode::Char('y') if ctrl => Op::DelSelection,
                    KeyCode::Char('s') if ctrl => Op::SelectWord,
                    KeyCode::Char('f') if ctrl => Op::Focus,
                    KeyCode::Char('o') if ctrl => Op::MonoLine,
                    KeyCode::Char('t') if ctrl => Op::Style,
                    KeyCode::Left if ctrl => Op::WordLeft,
                    KeyCode::Right if ctrl => Op::WordRight,
                    KeyCode::Up if alt => Op::LineUp,
                    KeyCode::Down if alt => Op::LineDown,
                    _ if !self.input.focused() => Op::Nothing,
                    _ if is_new_line => Op::NewLine,
                    KeyCode::Char(c) if none || shift => Op::Type(c),
                    KeyCode::Backspace if none || shift => Op::Backspace,
                    KeyCode::Delete if none || shift => Op::Delete,
                    KeyCode::Left
                    | KeyCode::Right
                    | KeyCode::Up
                    | KeyCode::Down
                    | KeyCode::Home
                    | KeyCode::End
                    | KeyCode::PageUp
                    | KeyCode::PageDown
                        if none || shift =>
                    {
                        Op::Move(k.code, shift)
                    }
                    _ if none || shift => Op::OtherKey,
                    _ => Op::Nothing,
                }
            }
            Event::Paste(s) => Op::Replace(s.clone()),
            Event::Mouse(_) => Op::Mouse,
            _ => Op::Nothing,
        }
    }
    /// do it, return what's returned
    fn apply(&mut self, cx: &Ctx, ev: &TimedEvent, op: &Op) -> (Option<bool>, Option<String>) {
        let i = &mut self.input;
        let direct = matches!(&ev.event, Event::Key(k) if !k.modifiers.is_empty() && k.modifiers != KeyModifiers::SHIFT)
            || matches!(&ev.event, Event::Paste(_));
        if direct {
            let r = match op {
                Op::Cut => {
                    let s = i.cut_selection();
                    self.clip = s.clone();
                    return (None, Some(s));
                }
                Op::Copy => {
                    let s = i.copy_selection();
                    self.clip = s.clone();
                    return (None, Some(s));
                }
                Op::Replace(s) => {
                    i.replace_selection(s);
                    return (None, None);
                }
                Op::Set(s) => {
                    i.set_str(s);
                    return (None, None);
                }
                Op::Insert(s) => {
                    i.insert_str(s);
                    return (None, None);
                }
                Op::Clear => {
                    i.clear();
                    return (None, None);
                }
                Op::Focus => {
                    let b = !i.focused();
                    i.set_focus(b);
                    return (None, None);
                }
                Op::MonoLine => {
                    i.set_mono_line();
                    self.sc.new_line = 0;
                    return (None, None);
                }
                Op::Style => {
                    let s = &mut self.sc.styles;
                    s.rotate_left(1);
                    i.set_normal_style(style(s[0], s[1]));
                    i.set_unfocused_style(style(s[2], s[3]));
                    return (None, None);
                }
                Op::ToStart => i.move_to_start(),
                Op::ToEnd => i.move_to_end(),
                Op::WordLeft => i.move_word_left(),
                Op::WordRight => i.move_word_right(),
                Op::LineUp => i.move_current_line_up(),
                Op::LineDown => i.move_current_line_down(),
                Op::DelWordLeft => i.del_word_left(),
                Op::DelWordRight => i.del_word_right(),
                Op::DelLeft => i.del_char_left(),
                Op::DelBelow => i.del_char_below(),
                Op::DelSelection => i.del_selection(),
                Op::SelectWord => i.select_word_around(),
                Op::NewLine if !matches!(&ev.event, Event::Key(k) if k.code == KeyCode::Enter) => {
                    i.insert_new_line()
                }
                _ => return (Some(self.forward(cx, ev)), None),
            };
            return (Some(r), None);
        }
        (Some(self.forward(cx, ev)), None)
    }
    /// give the event to the view
    fn forward(&mut self, cx: &Ctx, ev: &TimedEvent) -> bool {
        let i = &mut self.input;
        match (cx.api, &ev.event) {
            (3, Event::Key(k)) if k.modifiers.is_empty() => match k.code {
                KeyCode::Char(c) => i.put_char(c),
                KeyCode::Backspace => i.del_char_left(),
                KeyCode::Delete => i.del_char_below(),
                KeyCode::PageUp => i.page_up(),
                KeyCode::PageDown => i.page_down(),
                KeyCode::Up => i.move_up(),
                KeyCode::Down => i.move_down(),
                KeyCode::Left => i.move_left(),
                KeyCode::Right => i.move_right(),
                KeyCode::Home => i.move_to_line_start(),
                KeyCode::End => i.move_to_line_end(),
                KeyCode::Enter => i.apply_key_combination(*k),
                code => i.apply_keycode_event(code, false),
            },
            (3, Event::Key(k)) if k.modifiers == KeyModifiers::SHIFT && k.code != KeyCode::Enter => {
                i.apply_keycode_event(k.code, true)
            }
            (3, Event::Mouse(m)) if m.kind == MouseEventKind::ScrollDown => i.scroll_down(),
            (3, Event::Mouse(m)) if m.kind == MouseEventKind::ScrollUp => i.scroll_up(),
            (1, Event::Key(k)) => i.apply_key_combination(*k),
            (1, Event::Mouse(m)) => i.apply_mouse_event(*m, ev.double_click),
            (2, Event::Key(k)) => i.apply_key_event(*k),
            (2, Event::Mouse(m)) => match m.kind {
                MouseEventKind::Up(MouseButton::Left) if !ev.double_click => {
                    i.apply_click_event(m.column, m.row)
                }
                _ => i.apply_event(&ev.event, ev.double_click),
            },
            _ => i.apply_timed_event(ev),
        }
    }
    /// the texts, cursors and selections allowed after an operation. The
    /// selection isn't checked when it's None in the second member
    fn allowed(&self, st: &St, op: &Op) -> Vec<(St, bool)> {
        let same = |tail: bool| vec![(st.clone(), tail)];
        let moved = |pos: P, tail: Option<P>| {
            vec![(
                St {
                    lines: st.lines.clone(),
                    pos,
                    tail,
                },
                true,
            )]
        };
        // what's allowed after an edition without selection
        let edited = |lp: (Vec<Vec<char>>, P)| vec![(st.at(&lp), !st.wide())];
        let len = flat(&st.lines).len();
        let fp = flat_pos(&st.lines, st.pos);
        match op {
            Op::Nothing | Op::Copy | Op::Focus | Op::MonoLine | Op::Style | Op::Wheel(_) => same(true),
            Op::OtherKey => same(false),
            Op::Type(_) | Op::Replace(_) | Op::Backspace | Op::Delete if st.wide() => {
                let s = match op {
                    Op::Type(c) => c.to_string(),
                    Op::Replace(s) => s.clone(),
                    _ => String::new(),
                };
                st.without_selection()
                    .iter()
                    .map(|lp| {
                        let st = st.at(lp);
                        (st.at(&st.with_inserted(&s)), true)
                    })
                    .collect()
            }
            Op::Type(c) => edited(st.with_inserted(&c.to_string())),
            Op::NewLine => edited(st.with_inserted("\n")),
            Op::Insert(s) | Op::Replace(s) => edited(st.with_inserted(s)),
            Op::Set(s) => {
                if flat(&st.lines).iter().collect::<String>() == *s {
                    same(true)
                } else {
                    let text: Vec<char> = s.chars().filter(|c| kept(*c)).collect();
                    let lines = split(&text);
                    let pos = unflat(&lines, text.len());
                    vec![(
                        St {
                            lines,
                            pos,
                            tail: None,
                        },
                        true,
                    )]
                }
            }
            Op::Clear => vec![(
                St {
                    lines: vec![vec![]],
                    pos: (0, 0),
                    tail: None,
                },
                true,
            )],
            Op::Backspace | Op::DelLeft => {
                if fp == 0 {
                    same(false)
                } else {
                    edited(st.removed(fp - 1, fp, fp - 1))
                }
            }
            Op::Delete | Op::DelBelow => {
                if fp == len {
                    same(false)
                } else {
                    edited(st.removed(fp, fp + 1, fp))
                }
            }
            Op::Cut | Op::DelSelection => {
                if st.wide() {
                    st.without_selection()
                        .iter()
                        .map(|lp| (st.at(lp), true))
                        .collect()
                } else if fp == len {
                    same(false)
                } else {
                    vec![(st.at(&st.removed(fp, fp + 1, fp)), true)]
                }
            }
            Op::DelWordLeft => {
                if st.pos.1 == 0 {
                    return same(false);
                }
                let n = word_left(st.line(), st.pos.1);
                edited(st.removed(fp - n, fp, fp - n))
            }
            Op::DelWordRight => {
                // what's removed is at the right of the cursor, starts with
                // the current word or with what isn't in a word, and the cursor
                // may step back to stay on a char
                let line = st.line();
                if st.pos.1 == line.len() {
                    if st.pos.1 == 0 {
                        return same(false);
                    }
                    return vec![(
                        St {
                            pos: (st.pos.0, st.pos.1 - 1),
                            ..st.clone()
                        },
                        false,
                    )];
                }
                let mut n = 0;
                while st.pos.1 + n < line.len() {
                    n += 1;
                    if !line[st.pos.1 + n - 1].is_alphanumeric() {
                        break;
                    }
                }
                let (lines, mut pos) = st.removed(fp, fp + n, fp);
                let last_removed = line[st.pos.1 + n - 1];
                if pos.1 == lines[pos.0].len() && pos.1 > 0 && last_removed.is_alphanumeric() {
                    pos.1 -= 1;
                }
                edited((lines, pos))
            }
            Op::ToStart => moved((0, 0), st.tail),
            Op::ToEnd => moved(st.end(), st.tail),
            Op::WordLeft => {
                if st.pos.1 == 0 {
                    return same(true);
                }
                let n = word_left(st.line(), st.pos.1);
                moved((st.pos.0, st.pos.1 - n), st.tail)
            }
            Op::WordRight => {
                let line = st.line();
                let mut x = st.pos.1;
                if x == line.len() {
                    return same(true);
                }
                loop {
                    x += 1;
                    if x + 1 >= line.len() || !line[x + 1].is_alphanumeric() {
                        break;
                    }
                }
                moved((st.pos.0, x), st.tail)
            }
            Op::LineUp | Op::LineDown => {
                let y = st.pos.0;
                let other = if matches!(op, Op::LineUp) {
                    y.checked_sub(1)
                } else {
                    Some(y + 1).filter(|y| *y < st.lines.len())
                };
                match other {
                    None => same(true),
                    Some(o) => {
                        let mut lines = st.lines.clone();
                        lines.swap(y, o);
                        vec![(
                            St {
                                lines,
                                pos: (o, st.pos.1),
                                tail: None,
                            },
                            !st.wide() && st.tail.is_none(),
                        )]
                    }
                }
            }
            Op::SelectWord => {
                let line = st.line();
                let is_word = |c: char| c.is_alphanumeric() || c == '_';
                let (y, x) = st.pos;
                if x >= line.len() || !is_word(line[x]) {
                    return same(true);
                }
                let mut a = x;
                while a > 0 && is_word(line[a - 1]) {
                    a -= 1;
                }
                let mut b = x;
                while b + 1 < line.len() && is_word(line[b + 1]) {
                    b += 1;
                }
                moved((y, b), Some((y, a)))
            }
            Op::GoLines(down, n) => {
                let tail = st.tail;
                let y = st.pos.0;
                vertical(
                    st,
                    if *down { (y + n).min(st.lines.len() - 1) } else { y.saturating_sub(*n) },
                    tail,
                )
            }
            Op::Go(code) => {
                let (y, _) = st.pos;
                match code {
                    KeyCode::Home => moved((y, 0), st.tail),
                    KeyCode::End => moved((y, st.lines[y].len()), st.tail),
                    KeyCode::Left => moved(unflat(&st.lines, fp.saturating_sub(1)), st.tail),
                    _ => moved(unflat(&st.lines, (fp + 1).min(len)), st.tail),
                }
            }
            Op::Push(c) => {
                let mut lines = st.lines.clone();
                match c {
                    '\n' => lines.push(Vec::new()),
                    c if kept(*c) => {
                        let n = lines.len();
                        lines[n - 1].push(*c);
                    }
                    _ => {}
                }
                vec![(St { lines, ..st.clone() }, true)]
            }
            Op::CursorAt(p) => moved(valid(&st.lines, *p), st.tail),
            Op::TailAt(p) => moved(st.pos, Some(valid(&st.lines, *p))),
            Op::MakeSelection => moved(st.pos, st.tail.or(Some(st.pos))),
            Op::Unselect => moved(st.pos, None),
            Op::SwapLines(a, b) => {
                let n = st.lines.len();
                if a == b || *a >= n || *b >= n {
                    return same(true);
                }
                let mut lines = st.lines.clone();
                lines.swap(*a, *b);
                // the cursor and the other end stay on their rows
                let pos = valid(&lines, st.pos);
                let tail = st.tail.map(|t| valid(&lines, t));
                vec![(St { lines, pos, tail }, true)]
            }
            Op::Move(code, shift) => {
                let tail = if *shift {
                    st.tail.or(Some(st.pos))
                } else {
                    None
                };
                let (y, _) = st.pos;
                let page = self.area.height as usize;
                let vertical = |to: usize| vertical(st, to, tail);
                match code {
                    KeyCode::Home => moved((y, 0), tail),
                    KeyCode::End => moved((y, st.lines[y].len()), tail),
                    KeyCode::Left => {
                        moved(unflat(&st.lines, fp.saturating_sub(1)), tail)
                    }
                    KeyCode::Right => moved(unflat(&st.lines, (fp + 1).min(len)), tail),
                    KeyCode::Up => vertical(y.saturating_sub(1)),
                    KeyCode::Down => vertical((y + 1).min(st.lines.len() - 1)),
                    KeyCode::PageUp => vertical(y.saturating_sub(page)),
                    _ => vertical((y + page).min(st.lines.len() - 1)),
                }
            }
            Op::Mouse => same(false),
        }
    }
    /// check an operation on the field
    fn check_edit(&self, cx: &Ctx, ev: &TimedEvent, op: &Op, before: &St, r: Option<bool>, s: Option<String>) {
        let i = &self.input;
        let after = self.st();
        let text: String = flat(&after.lines).iter().collect();
        let consistent = i.get_content() == text
            && i.is_content(&text)
            && !i.is_content(&format!("{text}x"))
            && i.is_empty() == text.is_empty()
            && i.can_move_left() == (flat_pos(&after.lines, after.pos) > 0)
            && i.can_move_right() == (flat_pos(&after.lines, after.pos) < text.chars().count());
        self.check_op(cx, &ev.event, op, before, after, consistent, r, s)
    }
    #[allow(clippy::too_many_arguments)]
    fn check_op(
        &self,
        cx: &Ctx,
        ev: &Event,
        op: &Op,
        before: &St,
        after: St,
        consistent: bool,
        r: Option<bool>,
        s: Option<String>,
    ) {
        let context = || {
            format!(
                "with {:?} on {:?} (cursor line {} char {}, selection {})",
                op,
                short(&before.lines),
                before.pos.0,
                before.pos.1,
                if before.wide() { format!("{:?}", before.range()) } else { "no".to_string() },
            )
        };
        // positions always exist
        let ok = |p: P| p.0 < after.lines.len() && p.1 <= after.lines[p.0].len();
        if after.lines.is_empty() || !ok(after.pos) || !after.tail.map_or(true, ok) {
            cx.report(
                Focus::Edit,
                "invalid-position",
                format!("{}: cursor {:?} or selection end {:?} out of {:?}", context(), after.pos, after.tail, short(&after.lines)),
            );
            return;
        }
        if !consistent {
            cx.report(
                Focus::Edit,
                "inconsistent-content",
                format!("{}: the functions describing the content don't agree with its lines", context()),
            );
            return;
        }
        if let Some(s) = s {
            let expected = before.selected();
            if s != expected {
                cx.report(
                    Focus::Edit,
                    "wrong-copy",
                    format!("{}: got {s:?} instead of the selected {expected:?}", context()),
                );
                return;
            }
        }
        if matches!(op, Op::Mouse) {
            if after.lines != before.lines {
                cx.report(Focus::Edit, "text-changed-by-mouse", format!("{}: {:?}", context(), ev));
            }
            return;
        }
        let allowed = self.allowed(before, op);
        // compare what must be compared
        let fits = |a: &(St, bool), cursor: bool, sel: bool| {
            a.0.lines == after.lines
                && (!cursor || a.0.pos == after.pos)
                && (!sel || !a.1 || {
                    // a selection of only the cursor is the same as none
                    if a.0.wide() || after.wide() {
                        a.0.wide() && after.wide() && a.0.tail == after.tail
                    } else {
                        true
                    }
                })
        };
        if allowed.iter().any(|a| fits(a, true, true)) {
            if let Some(r) = r {
                let changed = after.lines != before.lines || after.pos != before.pos;
                if !r && changed {
                    cx.report(
                        Focus::Edit,
                        "wrong-used-flag",
                        format!("{}: said to be unused but the text or the cursor changed", context()),
                    );
                }
                let all = matches!(
                    op,
                    Op::Backspace
                        | Op::Delete
                        | Op::Move(..)
                        | Op::Go(_)
                        | Op::GoLines(..)
                        | Op::SwapLines(..)
                        | Op::DelSelection
                        | Op::DelLeft
                        | Op::DelBelow
                        | Op::DelWordLeft
                        | Op::DelWordRight
                        | Op::ToStart
                        | Op::ToEnd
                        | Op::WordLeft
                        | Op::WordRight
                        | Op::LineUp
                        | Op::LineDown
                );
                if all && r && !changed {
                    cx.report(
                        Focus::Edit,
                        "wrong-used-flag",
                        format!("{}: said to be used but neither the text nor the cursor changed", context()),
                    );
                }
                if matches!(op, Op::Nothing) && r && !matches!(ev, Event::Mouse(_)) {
                    cx.report(
                        Focus::Edit,
                        "wrong-used-flag",
                        format!("{}: {:?} said to be used", context(), ev),
                    );
                }
            }
            return;
        }
        let class = if matches!(op, Op::Wheel(_)) {
            "text-changed-by-mouse"
        } else if !allowed.iter().any(|a| fits(a, false, false)) {
            "wrong-text"
        } else if !allowed.iter().any(|a| fits(a, true, false)) {
            "wrong-cursor"
        } else {
            "wrong-selection"
        };
        let (exp, _) = &allowed[0];
        cx.report(
            Focus::Edit,
            class,
            format!(
                "{}: got {:?} cursor {:?} selection {:?} instead of {:?} cursor {:?} selection {:?}",
                context(),
                short(&after.lines),
                after.pos,
                after.wide().then(|| after.range()),
                short(&exp.lines),
                exp.pos,
                exp.wide().then(|| exp.range()),
            ),
        );
    }
    /// do some operations on the content which isn't in a field
    fn act_aside(&mut self, cx: &Ctx) {
        let mut copy = self.input.content().clone();
        let c = &mut copy;
        for d in std::mem::take(&mut self.sc.aside) {
            let before = state_of!(&*c);
            let mut p = c.end();
            let mut r = None;
            let mut s = None;
            let op = match d {
                Direct::Cursor(y, x) => {
                    (p.x, p.y) = (x, y);
                    c.set_cursor_pos(p);
                    Op::CursorAt((y, x))
                }
                Direct::Tail(y, x) => {
                    (p.x, p.y) = (x, y);
                    c.set_selection_tail(p);
                    Op::TailAt((y, x))
                }
                Direct::MakeSelection => {
                    c.make_selection();
                    Op::MakeSelection
                }
                Direct::Unselect => {
                    c.unselect();
                    Op::Unselect
                }
                Direct::Insert(t) => {
                    c.insert_str(&t);
                    Op::Insert(t)
                }
                Direct::Char(ch) => {
                    c.insert_char(ch);
                    Op::Insert(ch.to_string())
                }
                Direct::NewLine => {
                    c.insert_new_line();
                    Op::NewLine
                }
                Direct::Push(ch) => {
                    c.push_char(ch);
                    Op::Push(ch)
                }
                Direct::Set(t) => {
                    c.set_str(&t);
                    Op::Set(t)
                }
                Direct::Clear => {
                    c.clear();
                    Op::Clear
                }
                Direct::Left => {
                    r = Some(c.move_left());
                    Op::Go(KeyCode::Left)
                }
                Direct::Right => {
                    r = Some(c.move_right());
                    Op::Go(KeyCode::Right)
                }
                Direct::Up(n) => {
                    r = Some(if n == 1 { c.move_up() } else { c.move_lines_up(n) });
                    Op::GoLines(false, n)
                }
                Direct::Down(n) => {
                    r = Some(if n == 1 { c.move_down() } else { c.move_lines_down(n) });
                    Op::GoLines(true, n)
                }
                Direct::LineStart => {
                    r = Some(c.move_to_line_start());
                    Op::Go(KeyCode::Home)
                }
                Direct::LineEnd => {
                    r = Some(c.move_to_line_end());
                    Op::Go(KeyCode::End)
                }
                Direct::Start => {
                    r = Some(c.move_to_start());
                    Op::ToStart
                }
                Direct::End => {
                    r = Some(c.move_to_end());
                    Op::ToEnd
                }
                Direct::WordLeft => {
                    r = Some(c.move_word_left());
                    Op::WordLeft
                }
                Direct::WordRight => {
                    r = Some(c.move_word_right());
                    Op::WordRight
                }
                Direct::Swap(a, b) => {
                    let done = c.swap_lines(a, b);
                    // equal lines may be swapped
                    let n = before.lines.len();
                    let expected = a != b && a < n && b < n;
                    if done != expected {
                        cx.report(
                            Focus::Edit,
                            "wrong-used-flag",
                            format!("swap of lines {a} and {b} over {n} returned {done}"),
                        );
                    }
                    Op::SwapLines(a, b)
                }
                Direct::LineUp => {
                    r = Some(c.move_current_line_up());
                    Op::LineUp
                }
                Direct::LineDown => {
                    r = Some(c.move_current_line_down());
                    Op::LineDown
                }
                Direct::DelLeft => {
                    r = Some(c.del_char_left());
                    Op::DelLeft
                }
                Direct::DelBelow => {
                    r = Some(c.del_char_below());
                    Op::DelBelow
                }
                Direct::DelSelection => {
                    r = Some(c.del_selection());
                    Op::DelSelection
                }
                Direct::DelWordLeft => {
                    r = Some(c.del_word_left());
                    Op::DelWordLeft
                }
                Direct::DelWordRight => {
                    r = Some(c.del_word_right());
                    Op::DelWordRight
                }
                Direct::SelectWord => {
                    r = Some(c.select_word_around());
                    Op::SelectWord
                }
                Direct::Read => {
                    s = Some(c.selection_string());
                    Op::Copy
                }
            };
            let after = state_of!(&*c);
            let ok = |p: P| p.0 < after.lines.len() && p.1 <= after.lines[p.0].len();
            let valid = ok(after.pos) && after.tail.map_or(true, ok);
            sched::quiet(|| {
                let consistent = valid && consistent!(&*c, &after);
                count("ops_on_a_content_alone", 1);
                self.check_op(cx, &Event::FocusGained, &op, &before, after, consistent, r, s);
            });
        }
    }
    fn check_mouse(&mut self, cx: &Ctx, ev: &TimedEvent, before: &St, was_focused: bool, scroll: (usize, usize), r: bool) {
        let Event::Mouse(m) = &ev.event else { return };
        let after = self.st();
        let a = &self.area;
        let inside = m.column >= a.left && m.column - a.left < a.width && m.row >= a.top && m.row - a.top < a.height;
        let moved = after.pos != before.pos;
        {
            let acting = inside && was_focused;
            let left = |k: MouseEventKind| acting && m.kind == k;
            let click = cx.api == 2 && !ev.double_click && left(MouseEventKind::Up(MouseButton::Left));
            let tails = if left(MouseEventKind::Down(MouseButton::Left)) {
                if m.modifiers == KeyModifiers::SHIFT {
                    vec![before.tail.or(Some(before.pos))]
                } else {
                    vec![None]
                }
            } else if left(MouseEventKind::Drag(MouseButton::Left)) {
                vec![before.tail.or(Some(before.pos))]
            } else if ev.double_click && left(MouseEventKind::Up(MouseButton::Left)) {
                let line = &after.lines[after.pos.0];
                let is_word = |i: usize| line.get(i).map_or(false, |c: &char| c.is_alphanumeric() || *c == '_');
                if is_word(after.pos.1) {
                    let mut a = after.pos.1;
                    while a > 0 && is_word(a - 1) {
                        a -= 1;
                    }
                    if is_word(after.pos.1 + 1) {
                        cx.report(
                            Focus::Edit,
                            "wrong-selection",
                            format!("a double click in {:?} selected only a part of the word", line.iter().collect::<String>()),
                        );
                    }
                    vec![Some((after.pos.0, a))]
                } else {
                    vec![before.tail, None]
                }
            } else if click {
                vec![before.tail, None]
            } else {
                vec![before.tail]
            };
            // no other end is the same as the cursor
            let same = |t: &Option<P>| t.unwrap_or(after.pos) == after.tail.unwrap_or(after.pos);
            if !tails.iter().any(same) {
                cx.report(
                    Focus::Edit,
                    "wrong-selection",
                    format!(
                        "{:?} at ({}, {}) (double click: {}) in {}, focused: {was_focused}: the selection went from {:?} to {:?} instead of having its other end at {:?}",
                        m.kind,
                        m.column,
                        m.row,
                        ev.double_click,
                        area_str(&self.area),
                        before.wide().then(|| before.range()),
                        after.wide().then(|| after.range()),
                        tails[0],
                    ),
                );
            }
        }
        let here = || format!("{:?} at ({}, {}) in {}", m.kind, m.column, m.row, area_str(&self.area));
        if r != inside {
            cx.report(Focus::Cursor, "wrong-used-flag", format!("{}: said used: {r}", here()));
            return;
        }
        if !inside || !was_focused {
            if moved {
                cx.report(
                    Focus::Cursor,
                    "wrong-click",
                    format!("{}: the cursor moved (focused: {was_focused})", here()),
                );
            }
            if inside && matches!(m.kind, MouseEventKind::Down(MouseButton::Left)) && !self.input.focused() {
                cx.report(Focus::Cursor, "wrong-click", format!("{}: no focus after a click", here()));
            }
            return;
        }
        let placing = match m.kind {
            MouseEventKind::Down(MouseButton::Left) | MouseEventKind::Drag(MouseButton::Left) => true,
            MouseEventKind::Up(MouseButton::Left) => cx.api == 2 || ev.double_click,
            _ => false,
        };
        if placing {
            // on the char which is seen there
            let y = ((m.row - self.area.top) as usize + scroll.1).min(before.lines.len() - 1);
            let line = &before.lines[y];
            let col = (m.column - self.area.left) as usize + scroll.0;
            let (mut lo, mut hi) = (line.len(), line.len());
            let mut c = 0;
            for (i, ch) in line.iter().enumerate() {
                let w = width(shown(*ch, self.sc.password));
                if col < c + w {
                    lo = i;
                    hi = if w > 1 { i + 1 } else { i };
                    break;
                }
                c += w;
            }
            // wide chars cut at left shift the display by one column
            if scroll.0 > 0 && line.iter().any(|c| width(shown(*c, self.sc.password)) > 1) {
                lo = lo.saturating_sub(1);
                hi = (hi + 1).min(line.len());
            }
            let (ay, mut ax) = after.pos;
            if ev.double_click && after.wide() && after.range().0 .0 == ay && after.range().0 .1 <= hi {
                // the clicked char is somewhere in the word
                ax = ax.min(hi);
            }
            if ay != y || ax < lo || ax > hi {
                cx.report(
                    Focus::Cursor,
                    "wrong-click",
                    format!(
                        "{}: the cursor went on line {ay} char {ax} instead of line {y} char {lo} (scroll {scroll:?}, content {:?})",
                        here(),
                        short(&before.lines)
                    ),
                );
            }
            count(if ev.double_click { "double_clicks" } else { "clicks" }, 1);
            self.free_scroll = true;
        } else if moved {
            cx.report(Focus::Cursor, "wrong-click", format!("{}: the cursor moved", here()));
        }
        if matches!(m.kind, MouseEventKind::ScrollDown | MouseEventKind::ScrollUp) {
            let n = before.lines.len();
            let h = self.area.height as usize;
            let max = n.saturating_sub(h);
            let expected = if m.kind == MouseEventKind::ScrollUp {
                scroll.1.saturating_sub(1)
            } else if scroll.1 < max {
                scroll.1 + 1
            } else {
                scroll.1
            };
            let s = self.input.scroll();
            if s.y != expected || s.x != scroll.0 {
                cx.report(
                    Focus::Cursor,
                    "wrong-wheel",
                    format!("{}: the scroll went from {scroll:?} to ({}, {}) with {n} lines", here(), s.x, s.y),
                );
            }
            self.free_scroll = true;
        }
    }
}

/// the vertical move to a line
fn vertical(st: &St, to: usize, tail: Option<P>) -> Vec<(St, bool)> {
    let (y, x) = st.pos;
    let moved = |pos: P| {
        vec![(
            St {
                lines: st.lines.clone(),
                pos,
                tail,
            },
            true,
        )]
    };
    if to == y {
        return moved((y, x));
    }
    // the display column is kept
    let col: usize = st.lines[y][..x].iter().map(|c| width(*c)).sum();
    let line = &st.lines[to];
    let mut v = Vec::new();
    let mut c = 0;
    for (i, ch) in line.iter().enumerate() {
        let w = width(*ch);
        if c == col {
            return moved((to, i));
        }
        if c < col && col < c + w {
            // inside a wide char
            v.extend(moved((to, i)));
            v.extend(moved((to, i + 1)));
            return v;
        }
        c += w;
    }
    moved((to, line.len()))
}

/// the position, or the nearest existing one
fn valid(lines: &[Vec<char>], p: P) -> P {
    if p.0 >= lines.len() {
        (lines.len() - 1, lines[lines.len() - 1].len())
    } else {
        (p.0, p.1.min(lines[p.0].len()))
    }
}

/// how many chars a "word left" goes through
fn word_left(line: &[char], x: usize) -> usize {
    let mut n = 1;
    while n < x && line[x - n - 1].is_alphanumeric() {
        n += 1;
    }
    n
}

fn short(lines: &[Vec<char>]) -> String {
    let s: String = flat(lines).into_iter().collect();
    if s.chars().count() > 300 {
        format!("{}... ({} lines)", s.chars().take(300).collect::<String>(), lines.len())
    } else {
        s
    }
}

impl Session for InputSession {
    fn resize(&mut self, _cx: &Ctx, area: &Area) {
        if area.height == self.area.height {
            self.input.change_area(area.left, area.top, area.width);
        } else {
            self.input.set_area(area.clone());
        }
        if *area != self.area {
            self.free_scroll = false;
        }
        self.area = area.clone();
    }
    fn event(&mut self, cx: &Ctx, ev: &TimedEvent, _frame: &Vt) {
        let op = self.op(&ev.event, cx.api);
        if cx.focus == Focus::Edit && ev.event == Event::FocusGained {
            self.act_aside(cx);
            return;
        }
        let before = self.st();
        let scroll = self.input.scroll();
        let was_focused = self.input.focused();
        let (r, s) = self.apply(cx, ev, &op);
        sched::quiet(|| {
            driver::fingerprint(before.pos.1 as u64 + 1000 * before.pos.0 as u64);
            if before.wide() {
                count("ops_with_selection", 1);
            }
            self.check_edit(cx, ev, &op, &before, r, s);
            match op {
                Op::Mouse => {
                    self.check_mouse(cx, ev, &before, was_focused, (scroll.x, scroll.y), r.unwrap_or(false));
                }
                Op::Nothing | Op::OtherKey | Op::Copy | Op::MonoLine | Op::Style => {}
                Op::Wheel(down) => {
                    let max = before.lines.len().saturating_sub(self.area.height as usize);
                    let y = if down { (scroll.y + 1).min(max.max(scroll.y)) } else { scroll.y.saturating_sub(1) };
                    let s = self.input.scroll();
                    if (s.x, s.y) != (scroll.x, y) || r != Some(y != scroll.y) {
                        cx.report(
                            Focus::Cursor,
                            "wrong-wheel",
                            format!(
                                "{} lines, height {}: a scroll (down: {down}) went from {scroll:?} to {s:?} and returned {r:?}",
                                before.lines.len(),
                                self.area.height
                            ),
                        );
                    }
                    self.free_scroll = true;
                }
                Op::Focus => {
                    if self.input.focused() {
                        self.free_scroll = false;
                    }
                }
                Op::Move(..) | Op::Go(_) | Op::GoLines(..) | Op::ToStart | Op::ToEnd | Op::WordLeft | Op::WordRight | Op::LineUp | Op::LineDown => {
                    // no scroll is asked for when there's no move
                    if self.st().pos != before.pos {
                        self.free_scroll = !self.input.focused();
                    }
                }
                _ => {
                    let after = self.st();
                    if after.lines != before.lines || after.pos != before.pos {
                        self.free_scroll = !self.input.focused();
                    }
                }
            }
        });
    }
    fn background(&mut self, _cx: &Ctx, _bg: &Bg) {}
    fn write_on(&mut self, _cx: &Ctx, w: &mut dyn Write) -> Result<(), termimad::Error> {
        let mut w = w;
        self.shown = self.input.display_on(&mut w)?;
        Ok(())
    }
    fn write(&mut self) -> Result<(), termimad::Error> {
        self.shown = self.input.display()?;
        Ok(())
    }
    fn check_frame(&mut self, cx: &Ctx, vt: &Vt) {
        if cx.focus != Focus::Cursor {
            return;
        }
        let st = self.st();
        let scroll = self.input.scroll();
        let focused = self.input.focused();
        let (left, top) = (self.area.left as usize, self.area.top as usize);
        let (w, h) = (self.area.width as usize, self.area.height as usize);
        let bar = st.lines.len() > h && w > 1;
        let w = if bar { w - 1 } else { w };
        let mut cursor_cell = None; // where the cursor should be
        let mut cursor_on_char = false;
        let mut err = None;
        if st.lines.len() <= h && scroll.y > 0 || st.lines.len() > h && scroll.y + h > st.lines.len() {
            err = Some(("wrong-scroll", format!("scroll is ({}, {}) for {} lines", scroll.x, scroll.y, st.lines.len())));
        }
        for j in 0..h {
            let y = scroll.y + j;
            let empty = Vec::new();
            let line = st.lines.get(y).unwrap_or(&empty);
            // the expected cells: chars and whether they're reversed
            let mut cells: Vec<(char, bool)> = Vec::new();
            let mut skip = scroll.x;
            let mut end_cursor = None;
            if y < st.lines.len() {
                if skip > 0 && w > 4 {
                    cells.push(('…', false));
                    skip += 1;
                }
                let mut skipped = 0;
                let mut i = 0;
                while i < line.len() && skipped < skip {
                    skipped += width(shown(line[i], self.sc.password));
                    i += 1;
                }
                while i < line.len() && cells.len() < w {
                    let c = shown(line[i], self.sc.password);
                    let cw = width(c);
                    let last = i + 1 == line.len();
                    let sel = focused && st.is_selected((y, i));
                    let room = w - cells.len();
                    let is_cursor = focused && (y, i) == st.pos;
                    if cw > room || (cw == room && !last) {
                        if is_cursor {
                            cursor_cell = Some((cells.len(), j));
                        }
                        cells.push(('…', sel));
                        i = line.len() + 1;
                        if focused && st.pos == (y, line.len()) {
                            // the cursor may be drawn just after
                            end_cursor = Some(cells.len());
                        }
                        break;
                    }
                    if is_cursor {
                        cursor_cell = Some((cells.len(), j));
                        cursor_on_char = true;
                    }
                    for k in 0..cw {
                        cells.push((if c == '\t' { ' ' } else if k == 0 { c } else { '\0' }, sel));
                    }
                    i += 1;
                }
                if i == line.len() && cells.len() < w && focused && st.pos == (y, i) {
                    cursor_cell = Some((cells.len(), j));
                    cursor_on_char = true;
                    cells.push((' ', true));
                }
            }
            while cells.len() < w {
                cells.push((' ', false));
            }
            for (x, (c, rev)) in cells.iter().enumerate().take(w) {
                let cell = vt.cell(left + x, top + j);
                let good = if *c == '\0' { cell.cont } else { cell.ch == *c && !cell.cont };
                if !good && err.is_none() {
                    err = Some((
                        "wrong-row",
                        format!(
                            "row {j}, showing line {y} ({:?}), is {:?} instead of {:?}",
                            line.iter().take(100).collect::<String>(),
                            vt.text(top + j, left, left + w),
                            cells.iter().map(|c| c.0).filter(|c| *c != '\0').collect::<String>()
                        ),
                    ));
                }
                if *c != '\0' && cell.reversed() != *rev && end_cursor != Some(x) && err.is_none() {
                    err = Some((
                        "wrong-highlight",
                        format!(
                            "row {j}, showing {:?}: the cell {x} {} be highlighted",
                            vt.text(top + j, left, left + w),
                            if *rev { "should" } else { "shouldn't" }
                        ),
                    ));
                }
            }
            let (fg, bg) = if focused {
                (self.sc.styles[0], self.sc.styles[1])
            } else {
                (self.sc.styles[2], self.sc.styles[3])
            };
            let enc = |c: u8| if c == 0 { 0 } else { 1000 + c as u32 };
            for x in 0..w {
                let cell = vt.cell(left + x, top + j);
                let blank = cell.ch == ' ' || cell.cont || cell.ch == UNTOUCHED;
                if err.is_none() && (cell.bg != enc(bg) || !blank && cell.fg != enc(fg)) {
                    err = Some((
                        "wrong-style",
                        format!(
                            "row {j}, showing {:?}: the cell {x} has colors ({}, {}) instead of ({}, {}) (focused: {focused})",
                            vt.text(top + j, left, left + w),
                            cell.fg,
                            cell.bg,
                            enc(fg),
                            enc(bg)
                        ),
                    ));
                }
            }
            if bar && w > 0 {
                let c = vt.cell(left + w, top + j).ch;
                if (c == ' ' || c == UNTOUCHED) && err.is_none() {
                    err = Some(("wrong-scrollbar", format!("no scrollbar on row {j} with {} lines for a height of {h}", st.lines.len())));
                }
            }
        }
        if bar && err.is_none() {
            // the default skin has the same char for both parts, with gray levels
            let col: String = (0..h)
                .map(|j| vt.cell(left + w, top + j))
                .map(|c| match (c.ch, c.fg) {
                    ('▐', 1253) => THUMB,
                    ('▐', 1237) => TRACK,
                    _ => ' ',
                })
                .collect();
            if let Some(msg) = check_scrollbar(&col, h, st.lines.len(), scroll.y) {
                err = Some(("wrong-scrollbar", format!("{msg}, with {} lines for a height of {h}", st.lines.len())));
            }
        }
        if focused && w >= 5 && err.is_none() {
            if !self.free_scroll {
                if cursor_cell.is_none() {
                    err = Some(("cursor-not-visible", "the cursor isn't visible".to_string()));
                } else if !cursor_on_char && !st.lines[st.pos.0].iter().any(|c| width(*c) > 1) {
                    err = Some(("cursor-not-visible", "the char below the cursor isn't visible".to_string()));
                }
            }
            let expected = cursor_cell.map(|(x, y)| ((left + x) as u16, (top + y) as u16));
            if err.is_none() && cursor_cell.is_some() && self.shown != expected {
                err = Some((
                    "wrong-cursor-position",
                    format!("the cursor is said to be at {:?} but is drawn at {expected:?}", self.shown),
                ));
            }
        }
        if !focused && self.shown.is_some() && err.is_none() {
            err = Some(("wrong-cursor-position", format!("there's no focus but the cursor is said to be at {:?}", self.shown)));
        }
        if let Some((class, msg)) = err {
            cx.report(
                Focus::Cursor,
                class,
                format!(
                    "{msg} (area {}, scroll ({}, {}), cursor line {} char {}, content {:?})\n{}",
                    area_str(&self.area),
                    scroll.x,
                    scroll.y,
                    st.pos.0,
                    st.pos.1,
                    short(&st.lines),
                    vt.dump()
                ),
            );
        }
    }
}

fn shown(c: char, password: bool) -> char {
    if password {
        '*'
    } else {
        c
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'Z', '0', '_', ' ', ' ', '-', '.', 'é', '日', '本', '🍒', '\t', 'x', 'y',
];

fn gen_text(rng: &mut Rng, ascii: bool, lines: u64, cols: u64) -> String {
    let mut s = String::new();
    for i in 0..rng.range(1, lines.max(1)) {
        if i > 0 {
            s.push('\n');
        }
        for _ in 0..rng.size(cols) {
            s.push(if ascii {
                *rng.pick(&CHARS[..9])
            } else {
                *rng.pick(CHARS)
            });
        }
    }
    if !ascii && rng.one_in(20) {
        s.push('\r');
    }
    s
}

fn gen_aside(rng: &mut Rng, ascii: bool, lines: u64, cols: u64) -> Vec<Direct> {
    let mut v = Vec::new();
    let n = rng.size(60);
    let ch = |rng: &mut Rng| match rng.below(12) {
        0 => '\n',
        1 => '\r',
        2 => '\x08',
        _ if ascii => *rng.pick(&CHARS[..9]),
        _ => *rng.pick(CHARS),
    };
    for _ in 0..n {
        let y = rng.below(lines + 2) as usize;
        let x = rng.below(cols + 3) as usize;
        v.push(match rng.below(40) {
            1 | 2 | 3 | 4 => Direct::Cursor(y, x),
            5 | 6 | 7 | 8 => Direct::Tail(y, x),
            9 => Direct::MakeSelection,
            10 => Direct::Unselect,
            11 => Direct::Insert(gen_text(rng, ascii, 3, 8)),
            12 | 13 => Direct::Char(ch(rng)),
            14 => Direct::NewLine,
            15 => Direct::Push(ch(rng)),
            16 if rng.one_in(4) => Direct::Set(gen_text(rng, ascii, lines, cols)),
            17 if rng.one_in(4) => Direct::Clear,
            18 => Direct::Left,
            19 => Direct::Right,
            20 => Direct::Up(rng.size(4) as usize + 1),
            21 => Direct::Down(rng.size(4) as usize + 1),
            22 => Direct::LineStart,
            23 => Direct::LineEnd,
            24 => Direct::Start,
            25 => Direct::End,
            26 => Direct::WordLeft,
            27 => Direct::WordRight,
            28 => Direct::Swap(y, rng.below(lines + 2) as usize),
            29 => Direct::LineUp,
            30 => Direct::LineDown,
            31 => Direct::DelLeft,
            32 => Direct::DelBelow,
            33 | 34 => Direct::DelSelection,
            35 => Direct::DelWordLeft,
            36 => Direct::DelWordRight,
            37 => Direct::SelectWord,
            _ => Direct::Read,
        });
    }
    v
}

pub fn gen(rng: &mut Rng, len: usize, size: (u16, u16), edit: bool) -> (InputSc, Vec<Ev>) {
    let ascii = rng.one_in(2);
    let multi = !rng.one_in(4);
    let max_lines = if multi { *rng.pick(&[3, 12, 40]) } else { 1 };
    let cols = *rng.pick(&[6, 20, 90]);
    let mut len = len.max(2);
    let mut repeat = 1;
    let mut text = if rng.one_in(4) {
        String::new()
    } else {
        gen_text(rng, ascii, max_lines, cols)
    };
    if !edit && rng.one_in(200) {
        text = "x\n".to_string();
        repeat = 65_530 + rng.below(20) as u32;
        len = len.min(3);
    }
    let new_line = if multi { rng.range(1, 3) as u8 } else { rng.below(2) as u8 * 2 };
    let strings = vec![
        gen_text(rng, ascii, if multi { 3 } else { 1 }, 8),
        gen_text(rng, ascii, max_lines, cols),
    ];
    let sc = InputSc {
        text,
        repeat,
        password: rng.one_in(8),
        new_line,
        unfocused: rng.one_in(10),
        strings,
        styles: if rng.one_in(3) {
            let mut c = || if rng.one_in(3) { 0 } else { rng.range(1, 200) as u8 };
            [c(), c(), c(), c()]
        } else {
            [0; 4]
        },
        aside: if edit && rng.one_in(3) { gen_aside(rng, ascii, max_lines, cols) } else { Vec::new() },
    };
    let mut evs = Vec::new();
    // the profile of the user
    let typing = rng.range(1, 8);
    let moving = rng.range(1, 8);
    let selecting = rng.range(0, 6);
    let deleting = rng.range(1, 5);
    let commands = rng.range(0, 6);
    let clicking = rng.range(0, 5);
    let total = typing + moving + selecting + deleting + commands + clicking;
    let arrows = [
        KeyName::Left,
        KeyName::Right,
        KeyName::Up,
        KeyName::Down,
        KeyName::Home,
        KeyName::End,
        KeyName::PageUp,
        KeyName::PageDown,
        KeyName::Left,
        KeyName::Right,
        KeyName::Left,
        KeyName::Right,
        KeyName::Up,
        KeyName::Down,
    ];
    while evs.len() < len {
        let mut n = rng.below(total);
        if n < typing {
            let c = if ascii { *rng.pick(&CHARS[..9]) } else { *rng.pick(CHARS) };
            evs.push(match rng.below(12) {
                0 | 1 if multi => key(KeyName::Enter, if rng.one_in(2) { 0 } else { 4 }),
                2 => key(KeyName::Enter, 0),
                3 if rng.one_in(4) => key(KeyName::Char(*rng.pick(&['é', '\x08', 'A'])), 0),
                _ => key(KeyName::Char(c), if c.is_uppercase() { 1 } else { 0 }),
            });
            continue;
        }
        n -= typing;
        if n < moving {
            let a = *rng.pick(&arrows);
            for _ in 0..rng.size(4).max(1) {
                evs.push(key(a, 0));
            }
            continue;
        }
        n -= moving;
        if n < selecting {
            let a = *rng.pick(&arrows);
            for _ in 0..rng.size(4).max(1) {
                evs.push(key(a, 1));
            }
            continue;
        }
        n -= selecting;
        if n < deleting {
            evs.push(match rng.below(8) {
                0..=2 => key(KeyName::Backspace, 0),
                3..=5 => key(KeyName::Delete, 0),
                6 => key(KeyName::Backspace, 1),
                _ => key(KeyName::Delete, 1),
            });
            continue;
        }
        n -= deleting;
        if n < commands {
            evs.push(match rng.below(26) {
                0 => ctrl('x'),
                1 => ctrl('c'),
                2 => ctrl('v'),
                3 => ctrl('a'),
                4 => ctrl('e'),
                5 => key(KeyName::Left, 2),
                6 => key(KeyName::Right, 2),
                7 => ctrl('w'),
                8 => key(KeyName::Char('d'), 4),
                9 => key(KeyName::Up, 4),
                10 => key(KeyName::Down, 4),
                11 if rng.one_in(3) => ctrl('k'),
                12 if rng.one_in(2) => ctrl('u'),
                13 => ctrl('d'),
                14 => ctrl('h'),
                15 => ctrl('n'),
                16 => ctrl('y'),
                17 => ctrl('s'),
                18 if rng.one_in(2) => ctrl('f'),
                19 => ctrl('p'),
                20 => Ev::Paste(gen_text(rng, ascii, if multi { 4 } else { 1 }, 10)),
                21 => key(*rng.pick(&[KeyName::Esc, KeyName::Tab, KeyName::F(3)]), 0),
                23 => ctrl('t'),
                24 if rng.one_in(8) => ctrl('o'),
                22 => key(KeyName::Char('z'), *rng.pick(&[2, 4, 6])),
                _ => key(*rng.pick(&arrows), *rng.pick(&[4, 6, 3])),
            });
            continue;
        }
        let x = rng.below(size.0 as u64 + 2) as u16;
        let y = rng.below(size.1 as u64 + 1) as u16;
        match rng.below(8) {
            0 => evs.push(mouse(MouseName::ScrollDown, x, y)),
            1 => evs.push(mouse(MouseName::ScrollUp, x, y)),
            2 => {
                for k in [MouseName::LeftDown, MouseName::LeftUp, MouseName::LeftDown, MouseName::LeftUp] {
                    evs.push(mouse(k, x, y));
                }
            }
            3 => {
                let x2 = rng.below(size.0 as u64) as u16;
                evs.push(mouse(MouseName::LeftDown, x, y));
                evs.push(mouse(MouseName::LeftDrag, x2, y));
                evs.push(mouse(MouseName::LeftUp, x2, y));
            }
            4 => {
                let m = *rng.pick(&[1, 1, 1, 2, 4, 3]);
                evs.push(Ev::Mouse(MouseName::LeftDown, x, y, m));
                if rng.one_in(4) {
                    evs.push(Ev::Mouse(MouseName::LeftDrag, x, y + 1, m));
                }
            }
            5 => {
                let other = [
                    MouseName::RightDown,
                    MouseName::RightDrag,
                    MouseName::RightUp,
                    MouseName::MiddleDown,
                    MouseName::MiddleDrag,
                    MouseName::MiddleUp,
                    MouseName::Moved,
                ];
                for _ in 0..rng.range(1, 3) {
                    evs.push(Ev::Mouse(*rng.pick(&other), x, y, *rng.pick(&[0, 0, 0, 1])));
                }
            }
            _ => {
                evs.push(mouse(MouseName::LeftDown, x, y));
                evs.push(mouse(MouseName::LeftUp, x, y));
            }
        }
    }
    if !sc.aside.is_empty() {
        let i = rng.below(evs.len() as u64 + 1) as usize;
        evs.insert(i, Ev::FocusGained);
    }
    (sc, evs)
}
