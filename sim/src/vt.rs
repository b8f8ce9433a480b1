//! A terminal screen: interprets what's written on it.

use {
    std::fmt::Write as _,
    unicode_width::UnicodeWidthChar,
};

/// The char of cells on which nothing was drawn since the last reset
pub const UNTOUCHED: char = '\u{E000}';

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cell {
    pub ch: char,
    /// chars of null width printed after the main one
    pub marks: String,
    /// second column of a wide char
    pub cont: bool,
    /// style, as SGR parameters (attributes, foreground, background)
    pub attrs: u16,
    pub fg: u32,
    pub bg: u32,
}

const ATTR_REVERSE: u16 = 1 << 7;

#[derive(Clone, Copy, PartialEq, Default)]
struct Pen {
    attrs: u16,
    fg: u32,
    bg: u32,
}

#[derive(Clone, PartialEq)]
enum State {
    Ground,
    Esc,
    Csi(Vec<u8>),
    Osc,
}

#[derive(Clone)]
pub struct Vt {
    pub w: usize,
    pub h: usize,
    cells: Vec<Cell>,
    pub x: usize,
    pub y: usize,
    /// the last column was written: the next char goes on the next line
    pending_wrap: bool,
    pen: Pen,
    state: State,
    utf8: Vec<u8>,
    pub cursor_visible: bool,
    pub scrolled_lines: u64,
    pub wraps: u64,
    pub unknown: u64,
    pub broken_utf8: u64,
    /// chars printed in reverse video since the reset
    pub bytes: u64,
}

fn blank(ch: char) -> Cell {
    Cell {
        ch,
        marks: String::new(),
        cont: false,
        attrs: 0,
        fg: 0,
        bg: 0,
    }
}

impl Cell {
    pub fn reversed(&self) -> bool {
        self.attrs & ATTR_REVERSE != 0
    }
    pub fn untouched(&self) -> bool {
        self.ch == UNTOUCHED
    }
}

impl Vt {
    pub fn new(w: u16, h: u16) -> Self {
        let mut v = Vt {
            w: 0,
            h: 0,
            cells: Vec::new(),
            x: 0,
            y: 0,
            pending_wrap: false,
            pen: Pen::default(),
            state: State::Ground,
            utf8: Vec::new(),
            cursor_visible: true,
            scrolled_lines: 0,
            wraps: 0,
            unknown: 0,
            broken_utf8: 0,
            bytes: 0,
        };
        v.resize(w, h);
        v
    }
    /// change the size, forgetting the content
    pub fn resize(&mut self, w: u16, h: u16) {
        self.w = (w as usize).max(1);
        self.h = (h as usize).max(1);
        self.cells = vec![blank(UNTOUCHED); self.w * self.h];
        self.x = self.x.min(self.w - 1);
        self.y = self.y.min(self.h - 1);
        self.pending_wrap = false;
    }
    pub fn cell(&self, x: usize, y: usize) -> &Cell {
        &self.cells[y * self.w + x]
    }
    /// the text of a part of a line
    pub fn text(&self, y: usize, x0: usize, x1: usize) -> String {
        let mut s = String::new();
        for x in x0..x1.min(self.w) {
            let c = self.cell(x, y);
            if !c.cont {
                s.push(c.ch);
                s.push_str(&c.marks);
            }
        }
        s
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for y in 0..self.h {
            let _ = writeln!(s, "{:3}|{}|", y, self.text(y, 0, self.w).replace(UNTOUCHED, "·"));
        }
        s
    }
    fn set(&mut self, x: usize, y: usize, c: Cell) {
        // overwriting a half of a wide char removes the other half
        let i = y * self.w + x;
        if self.cells[i].cont && x > 0 && !c.cont {
            self.cells[i - 1].ch = ' ';
            self.cells[i - 1].marks.clear();
        }
        if x + 1 < self.w && self.cells[i + 1].cont {
            self.cells[i + 1] = blank(' ');
        }
        self.cells[i] = c;
    }
    fn line_feed(&mut self) {
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            self.cells.drain(0..self.w);
            let filler = vec![blank(' '); self.w];
            self.cells.extend(filler);
            self.scrolled_lines += 1;
        }
    }
    fn print(&mut self, c: char) {
        let width = match UnicodeWidthChar::width(c) {
            Some(w) => w,
            None => return,
        };
        if width == 0 {
            let x = if self.pending_wrap {
                self.x
            } else if self.x > 0 {
                self.x - 1
            } else {
                return;
            };
            let mut i = self.y * self.w + x;
            if self.cells[i].cont && x > 0 {
                i -= 1;
            }
            if self.cells[i].marks.len() < 40 {
                self.cells[i].marks.push(c);
            }
            return;
        }
        if self.pending_wrap || self.x + width > self.w {
            if width > self.w {
                return;
            }
            self.pending_wrap = false;
            self.wraps += 1;
            self.x = 0;
            self.line_feed();
        }
        let cell = Cell {
            ch: c,
            marks: String::new(),
            cont: false,
            attrs: self.pen.attrs,
            fg: self.pen.fg,
            bg: self.pen.bg,
        };
        let (x, y) = (self.x, self.y);
        self.set(x, y, cell.clone());
        if width == 2 {
            self.set(
                x + 1,
                y,
                Cell {
                    ch: ' ',
                    cont: true,
                    ..cell
                },
            );
        }
        if self.x + width >= self.w {
            self.x = self.w - 1;
            self.pending_wrap = true;
        } else {
            self.x += width;
        }
    }
    fn erase(&mut self, from: usize, to: usize) {
        let bg = self.pen.bg;
        for i in from..to.min(self.cells.len()) {
            self.cells[i] = Cell {
                bg,
                ..blank(' ')
            };
        }
    }
    fn csi(&mut self, params: &[u8], fin: u8) {
        let private = params.first().map_or(false, |b| (b'<'..=b'?').contains(b));
        if private {
            match (params, fin) {
                (b"?25", b'l') => self.cursor_visible = false,
                (b"?25", b'h') => self.cursor_visible = true,
                _ => {}
            }
            return;
        }
        let txt = String::from_utf8_lossy(params).into_owned();
        let nums: Vec<u32> = txt
            .split(|c| c == ';' || c == ':')
            .map(|s| s.parse().unwrap_or(0))
            .collect();
        let n = |i: usize, d: u32| -> usize {
            match nums.get(i) {
                Some(0) | None => d as usize,
                Some(v) => *v as usize,
            }
        };
        match fin {
            b'H' | b'f' => {
                self.y = (n(0, 1) - 1).min(self.h - 1);
                self.x = (n(1, 1) - 1).min(self.w - 1);
                self.pending_wrap = false;
            }
            b'A' => {
                self.y = self.y.saturating_sub(n(0, 1));
                self.pending_wrap = false;
            }
            b'B' => {
                self.y = (self.y + n(0, 1)).min(self.h - 1);
                self.pending_wrap = false;
            }
            b'C' => {
                self.x = (self.x + n(0, 1)).min(self.w - 1);
                self.pending_wrap = false;
            }
            b'D' => {
                self.x = self.x.saturating_sub(n(0, 1));
                self.pending_wrap = false;
            }
            b'G' => {
                self.x = (n(0, 1) - 1).min(self.w - 1);
                self.pending_wrap = false;
            }
            b'J' => {
                let p = self.y * self.w + self.x;
                match nums.first().copied().unwrap_or(0) {
                    0 => self.erase(p, self.w * self.h),
                    1 => self.erase(0, p + 1),
                    _ => self.erase(0, self.w * self.h),
                }
            }
            b'K' => {
                let (x, l) = (self.x, self.y * self.w);
                match nums.first().copied().unwrap_or(0) {
                    0 => self.erase(l + x, l + self.w),
                    1 => self.erase(l, l + x + 1),
                    _ => self.erase(l, l + self.w),
                }
            }
            b'm' => self.sgr(&nums),
            _ => self.unknown += 1,
        }
    }
    fn sgr(&mut self, nums: &[u32]) {
        let mut i = 0;
        while i < nums.len() {
            let p = nums[i];
            match p {
                0 => self.pen = Pen::default(),
                1..=9 => self.pen.attrs |= 1 << p,
                51..=53 => self.pen.attrs |= 1 << (p - 41),
                54 => self.pen.attrs &= !(1 << 10 | 1 << 11),
                55 => self.pen.attrs &= !(1 << 12),
                21 => self.pen.attrs |= 1 << 4,
                22 => self.pen.attrs &= !(1 << 1 | 1 << 2),
                23..=29 => self.pen.attrs &= !(1 << (p - 20)),
                30..=37 | 90..=97 => self.pen.fg = p,
                40..=47 | 100..=107 => self.pen.bg = p,
                39 => self.pen.fg = 0,
                49 => self.pen.bg = 0,
                59 => {}
                38 | 48 | 58 => {
                    let (v, skip) = match nums.get(i + 1) {
                        Some(5) => (1000 + nums.get(i + 2).copied().unwrap_or(0), 2),
                        Some(2) => (
                            1 << 24
                                | (nums.get(i + 2).copied().unwrap_or(0) & 255) << 16
                                | (nums.get(i + 3).copied().unwrap_or(0) & 255) << 8
                                | (nums.get(i + 4).copied().unwrap_or(0) & 255),
                            4,
                        ),
                        _ => (0, 0),
                    };
                    match p {
                        38 => self.pen.fg = v,
                        48 => self.pen.bg = v,
                        _ => {}
                    }
                    i += skip;
                }
                _ => self.unknown += 1,
            }
            i += 1;
        }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.byte(b);
        }
    }
    fn byte(&mut self, b: u8) {
        self.bytes += 1;
        if !self.utf8.is_empty() && (b & 0xc0) != 0x80 {
            // truncated char
            self.utf8.clear();
            self.broken_utf8 += 1;
            self.print('\u{fffd}');
        }
        match std::mem::replace(&mut self.state, State::Ground) {
            State::Ground => match b {
                0x1b => self.state = State::Esc,
                b'\n' => {
                    // in raw mode: no carriage return
                    self.pending_wrap = false;
                    self.line_feed();
                }
                b'\r' => {
                    self.x = 0;
                    self.pending_wrap = false;
                }
                0x08 => {
                    self.x = self.x.saturating_sub(1);
                    self.pending_wrap = false;
                }
                b'\t' => {
                    self.x = ((self.x / 8 + 1) * 8).min(self.w - 1);
                }
                0..=0x1f | 0x7f => {}
                0x20..=0x7e => self.print(b as char),
                _ => {
                    if self.utf8.is_empty() && (b & 0xc0) == 0x80 {
                        self.broken_utf8 += 1;
                        self.print('\u{fffd}');
                        return;
                    }
                    self.utf8.push(b);
                    match std::str::from_utf8(&self.utf8) {
                        Ok(s) => {
                            let c = s.chars().next().unwrap_or(' ');
                            self.utf8.clear();
                            self.print(c);
                        }
                        Err(e) => {
                            if e.error_len().is_some() {
                                self.utf8.clear();
                                self.broken_utf8 += 1;
                                self.print('\u{fffd}');
                            }
                        }
                    }
                }
            },
            State::Esc => match b {
                b'[' => self.state = State::Csi(Vec::new()),
                b']' => self.state = State::Osc,
                0x1b => self.state = State::Esc,
                _ => {}
            },
            State::Csi(mut p) => match b {
                0x1b => self.state = State::Esc,
                0x40..=0x7e => self.csi(&p, b),
                0x20..=0x3f => {
                    if p.len() < 100 {
                        p.push(b);
                    }
                    self.state = State::Csi(p);
                }
                _ => self.state = State::Csi(p),
            },
            State::Osc => match b {
                0x07 => {}
                0x1b => self.state = State::Esc,
                _ => self.state = State::Osc,
            },
        }
    }
}
