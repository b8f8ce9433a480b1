//! The simulated terminal: input, modes, size, and what's behind fds 0 and 1.

use {
    crate::{
        driver,
        sched,
        vt::Vt,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        collections::VecDeque,
        io,
        time::Duration,
    },
    termimad::crossterm::event::*,
};

/// A terminal event, in scenarios
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Ev {
    /// code, modifiers (1 shift, 2 ctrl, 4 alt), kind (0 press, 1 repeat, 2 release)
    Key(KeyName, u8, u8),
    /// kind, column, row, modifiers
    Mouse(MouseName, u16, u16, u8),
    Resize(u16, u16),
    Paste(String),
    FocusGained,
    FocusLost,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum KeyName {
    Char(char),
    Enter,
    Esc,
    Backspace,
    Delete,
    Left,
    Right,
    Up,
    Down,
    Home,
    End,
    PageUp,
    PageDown,
    Tab,
    F(u8),
    LeftShift,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum MouseName {
    LeftDown,
    LeftUp,
    LeftDrag,
    RightDown,
    RightUp,
    MiddleDown,
    MiddleUp,
    Moved,
    ScrollUp,
    ScrollDown,
    RightDrag,
    MiddleDrag,
}

pub fn mods(m: u8) -> KeyModifiers {
    let mut r = KeyModifiers::NONE;
    if m & 1 != 0 {
        r |= KeyModifiers::SHIFT;
    }
    if m & 2 != 0 {
        r |= KeyModifiers::CONTROL;
    }
    if m & 4 != 0 {
        r |= KeyModifiers::ALT;
    }
    if m & 8 != 0 {
        r |= KeyModifiers::SUPER;
    }
    r
}

impl KeyName {
    pub fn code(self) -> KeyCode {
        match self {
            KeyName::Char(c) => KeyCode::Char(c),
            KeyName::Enter => KeyCode::Enter,
            KeyName::Esc => KeyCode::Esc,
            KeyName::Backspace => KeyCode::Backspace,
            KeyName::Delete => KeyCode::Delete,
            KeyName::Left => KeyCode::Left,
            KeyName::Right => KeyCode::Right,
            KeyName::Up => KeyCode::Up,
            KeyName::Down => KeyCode::Down,
            KeyName::Home => KeyCode::Home,
            KeyName::End => KeyCode::End,
            KeyName::PageUp => KeyCode::PageUp,
            KeyName::PageDown => KeyCode::PageDown,
            KeyName::Tab => KeyCode::Tab,
            KeyName::F(n) => KeyCode::F(n),
            KeyName::LeftShift => KeyCode::Modifier(ModifierKeyCode::LeftShift),
        }
    }
}

impl Ev {
    pub fn ct(&self) -> Event {
        match self {
            Ev::Key(k, m, kind) => {
                let mut key = KeyEvent::new(k.code(), mods(*m));
                key.kind = match kind {
                    0 => KeyEventKind::Press,
                    1 => KeyEventKind::Repeat,
                    _ => KeyEventKind::Release,
                };
                Event::Key(key)
            }
            Ev::Mouse(k, x, y, m) => Event::Mouse(MouseEvent {
                kind: match k {
                    MouseName::LeftDown => MouseEventKind::Down(MouseButton::Left),
                    MouseName::LeftUp => MouseEventKind::Up(MouseButton::Left),
                    MouseName::LeftDrag => MouseEventKind::Drag(MouseButton::Left),
                    MouseName::RightDown => MouseEventKind::Down(MouseButton::Right),
                    MouseName::RightUp => MouseEventKind::Up(MouseButton::Right),
                    MouseName::MiddleDown => MouseEventKind::Down(MouseButton::Middle),
                    MouseName::MiddleUp => MouseEventKind::Up(MouseButton::Middle),
                    MouseName::Moved => MouseEventKind::Moved,
                    MouseName::ScrollUp => MouseEventKind::ScrollUp,
                    MouseName::ScrollDown => MouseEventKind::ScrollDown,
                    MouseName::RightDrag => MouseEventKind::Drag(MouseButton::Right),
                    MouseName::MiddleDrag => MouseEventKind::Drag(MouseButton::Middle),
                },
                column: *x,
                row: *y,
                modifiers: mods(*m),
            }),
            Ev::Resize(w, h) => Event::Resize(*w, *h),
            Ev::Paste(s) => Event::Paste(s.clone()),
            Ev::FocusGained => Event::FocusGained,
            Ev::FocusLost => Event::FocusLost,
        }
    }
}

/// What the terminal's event reader has to say
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum In {
    Ev(Ev),
    /// a failing read (index in ERR_KINDS)
    Err(u8),
    /// all reads fail, for ever
    Broken(u8),
}

pub const ERR_KINDS: [io::ErrorKind; 5] = [
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
];

/// What arrives on the standard input
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum StdinItem {
    Data(String),
    Bytes(Vec<u8>),
    Eintr,
    Errno(i32),
    Eof,
}

/// How a write on the standard output behaves
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum OutFault {
    Ok,
    Short(u32),
    Eintr,
    Errno(i32),
}

#[derive(Clone, Debug)]
pub struct ReadRec {
    pub step: u64,
    pub time: u64,
    pub tid: u32,
    /// index of the event in the input, or None for an error
    pub ev: Option<Event>,
}

#[derive(Default)]
pub struct Term {
    pub input: VecDeque<(u64, In)>,
    pub reads: Vec<ReadRec>,
    /// calls to read (including the one in progress)
    pub read_calls: u64,
    /// steps at which the reads were started
    pub read_starts: Vec<(u64, u32)>,
    pub reading: bool,
    pub on_read: Option<fn()>,
    pub raw: bool,
    pub raw_ops: Vec<(u64, bool, bool)>, // step, enable, success
    pub fail_enable_raw: bool,
    pub fail_disable_raw: bool,
    pub kitty: bool,
    pub kitty_query_err: bool,
    pub size: (u16, u16),
    pub size_err: bool,
    pub out: Vec<u8>,
    pub out_calls: u64,
    /// writes which failed (interruptions put aside)
    pub out_errors: u64,
    pub out_faults: VecDeque<OutFault>,
    pub out_fault_mode: bool,
    pub stdin: VecDeque<(u64, StdinItem)>,
    pub stdin_pending: Vec<u8>,
    pub stdin_delivered: Vec<u8>,
    pub stdin_reads: u64,
    pub max_chunk: usize,
    /// what the user sees
    pub screen: Option<Vt>,
}

static mut TERM: *mut Term = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn term() -> &'static mut Term {
    unsafe { &mut *TERM }
}

pub fn reset() {
    let t = Box::new(Term {
        size: (80, 24),
        max_chunk: usize::MAX,
        ..Default::default()
    });
    unsafe {
        TERM = Box::into_raw(t);
    }
}

pub fn export_stats() {}

/// schedule input, with delays in µs between events
pub fn feed_input(items: &[(u64, In)]) {
    let mut t = sched::now();
    for (d, i) in items {
        t += d * 1000;
        term().input.push_back((t, i.clone()));
    }
    sched::wake_world("input");
}

pub fn feed_stdin(items: &[(u64, StdinItem)]) {
    let mut t = sched::now();
    for (d, i) in items {
        t += d * 1000;
        term().stdin.push_back((t, i.clone()));
    }
}

fn hash_ev(e: &Event) -> u64 {
    let mut h: u64 = 17;
    for b in format!("{e:?}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// wait for input to be available; false if the timeout is reached
fn wait_input(deadline: Option<u64>) -> bool {
    loop {
        let next = term().input.front().map(|i| i.0);
        let now = sched::now();
        if let Some(t) = next {
            if t <= now {
                return true;
            }
        }
        if let Some(d) = deadline {
            if d <= now {
                return false;
            }
        }
        let d = match (next, deadline) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        sched::wait_world("input", d);
    }
}

#[no_mangle]
fn __termsim_read() -> io::Result<Event> {
    let t = term();
    t.read_calls += 1;
    t.reading = true;
    if t.read_starts.len() < 1_000_000 {
        t.read_starts.push((sched::step(), sched::cur_tid()));
    }
    sched::note("read", t.read_calls, 0);
    if let Some(f) = t.on_read {
        f();
    }
    sched::point();
    wait_input(None);
    let broken = matches!(t.input.front(), Some((_, In::Broken(_))));
    let item = if broken {
        t.input.front().unwrap().1.clone()
    } else {
        t.input.pop_front().unwrap().1
    };
    t.reading = false;
    let rec = ReadRec {
        step: sched::step(),
        time: sched::now(),
        tid: sched::cur_tid(),
        ev: match &item {
            In::Ev(e) => Some(e.ct()),
            _ => None,
        },
    };
    let r = match &item {
        In::Ev(e) => {
            if let Ev::Resize(w, h) = e {
                t.size = (*w, *h);
                if let Some(screen) = t.screen.as_mut() {
                    screen.resize(*w, *h);
                }
            }
            let e = e.ct();
            sched::note("read_ok", hash_ev(&e), 0);
            driver::fingerprint(hash_ev(&e));
            Ok(e)
        }
        In::Err(k) => {
            driver::count("fault.input_read_error", 1);
            sched::note("read_err", *k as u64, 0);
            Err(io::Error::from(ERR_KINDS[*k as usize % ERR_KINDS.len()]))
        }
        In::Broken(k) => {
            driver::count("fault.input_permanently_broken_read", 1);
            // a failing read takes some time
            sched::spend(1_000_000);
            sched::note("read_err", *k as u64, 1);
            Err(io::Error::from(ERR_KINDS[*k as usize % ERR_KINDS.len()]))
        }
    };
    if t.reads.len() < 1_000_000 {
        t.reads.push(rec);
    }
    sched::point();
    r
}

#[no_mangle]
fn __termsim_poll(timeout: Duration) -> io::Result<bool> {
    sched::note("poll", timeout.as_nanos() as u64, 0);
    sched::point();
    let d = sched::now().saturating_add(timeout.as_nanos().min(u64::MAX as u128 / 2) as u64);
    Ok(wait_input(Some(d)))
}

#[no_mangle]
fn __termsim_enable_raw_mode() -> io::Result<()> {
    let t = term();
    sched::point();
    let ok = !t.fail_enable_raw;
    t.raw_ops.push((sched::step(), true, ok));
    sched::note("enable_raw", ok as u64, 0);
    if ok {
        t.raw = true;
        Ok(())
    } else {
        driver::count("fault.enable_raw_mode_error", 1);
        Err(io::Error::from_raw_os_error(libc::ENOTTY))
    }
}
#[no_mangle]
fn __termsim_disable_raw_mode() -> io::Result<()> {
    let t = term();
    sched::point();
    let ok = !t.fail_disable_raw;
    t.raw_ops.push((sched::step(), false, ok));
    sched::note("disable_raw", ok as u64, 0);
    if ok {
        t.raw = false;
        Ok(())
    } else {
        driver::count("fault.disable_raw_mode_error", 1);
        Err(io::Error::from_raw_os_error(libc::EIO))
    }
}
#[no_mangle]
fn __termsim_is_raw_mode_enabled() -> io::Result<bool> {
    Ok(term().raw)
}
#[no_mangle]
fn __termsim_size() -> io::Result<(u16, u16)> {
    if !sched::active() {
        return Ok((80, 24));
    }
    sched::point();
    let t = term();
    if t.size_err {
        driver::count("fault.terminal_size_error", 1);
        return Err(io::Error::from_raw_os_error(libc::ENOTTY));
    }
    Ok(t.size)
}
#[no_mangle]
fn __termsim_supports_keyboard_enhancement() -> io::Result<bool> {
    let t = term();
    sched::point();
    if t.kitty_query_err {
        driver::count("fault.keyboard_query_error", 1);
        return Err(io::Error::new(
            io::ErrorKind::Other,
            "The keyboard enhancement status could not be read within a normal duration",
        ));
    }
    Ok(t.kitty)
}

/// keyboard enhancement flags stack depth, and lowest depth ever
pub fn kitty_depth() -> (i64, i64) {
    let out = &term().out;
    let mut depth = 0i64;
    let mut low = 0i64;
    let mut i = 0;
    while i + 2 < out.len() {
        if out[i] == 0x1b && out[i + 1] == b'[' && (out[i + 2] == b'>' || out[i + 2] == b'<') {
            let mut j = i + 3;
            while j < out.len() && (out[j].is_ascii_digit() || out[j] == b';') {
                j += 1;
            }
            if j < out.len() && out[j] == b'u' {
                if out[i + 2] == b'>' {
                    depth += 1;
                } else {
                    let n: i64 = std::str::from_utf8(&out[i + 3..j])
                        .ok()
                        .and_then(|s| s.parse().ok())
                        .unwrap_or(1);
                    depth -= n;
                    low = low.min(depth);
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
    (depth, low)
}

pub fn stdout_write(b: &[u8]) -> Result<usize, i32> {
    let t = term();
    sched::point();
    t.out_calls += 1;
    let f = t.out_faults.pop_front().unwrap_or(OutFault::Ok);
    let mut n = b.len();
    match f {
        OutFault::Ok => {}
        OutFault::Short(k) => {
            let k = (k as usize).max(1);
            if k < n {
                n = k;
                driver::count("fault.stdout_short_write", 1);
            }
        }
        OutFault::Eintr => {
            driver::count("fault.stdout_eintr", 1);
            sched::note("stdout_eintr", 0, 0);
            return Err(libc::EINTR);
        }
        OutFault::Errno(e) => {
            driver::count("fault.stdout_error", 1);
            t.out_errors += 1;
            sched::note("stdout_error", e as u64, 0);
            return Err(e);
        }
    }
    let mut h = 0u64;
    for x in &b[..n] {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    sched::note("stdout", n as u64, h);
    if let Some(screen) = t.screen.as_mut() {
        screen.feed(&b[..n]);
    }
    if t.out.len() < 4 << 20 {
        t.out.extend_from_slice(&b[..n]);
    }
    Ok(n)
}

pub fn stdin_read(b: &mut [u8]) -> Result<usize, i32> {
    let t = term();
    t.stdin_reads += 1;
    sched::note("stdin_read", t.stdin_reads, 0);
    sched::point();
    if b.is_empty() {
        return Ok(0);
    }
    loop {
        if !t.stdin_pending.is_empty() {
            let n = t.stdin_pending.len().min(b.len()).min(t.max_chunk.max(1));
            b[..n].copy_from_slice(&t.stdin_pending[..n]);
            t.stdin_pending.drain(..n);
            t.stdin_delivered.extend_from_slice(&b[..n]);
            sched::note("stdin_data", n as u64, 0);
            return Ok(n);
        }
        match t.stdin.front() {
            None => {
                // nobody types anything any more
                sched::wait_world("typing", None);
            }
            Some((at, _)) if *at > sched::now() => {
                let at = *at;
                sched::wait_world("typing", Some(at));
            }
            Some((_, StdinItem::Eof)) => {
                driver::count("fault.stdin_eof", 1);
                sched::note("stdin_eof", 0, 0);
                return Ok(0);
            }
            Some(_) => match t.stdin.pop_front().unwrap().1 {
                StdinItem::Data(s) => t.stdin_pending.extend_from_slice(s.as_bytes()),
                StdinItem::Bytes(v) => t.stdin_pending.extend_from_slice(&v),
                StdinItem::Eintr => {
                    driver::count("fault.stdin_eintr", 1);
                    return Err(libc::EINTR);
                }
                StdinItem::Errno(e) => {
                    driver::count("fault.stdin_error", 1);
                    return Err(e);
                }
                StdinItem::Eof => unreachable!(),
            },
        }
    }
}
