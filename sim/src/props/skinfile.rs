//! Simulation of an application keeping its skin in a file: skins are changed,
//! saved (short, interrupted, failing writes, full disk, crash while saving),
//! edited by hand, damaged, and loaded (short, interrupted, failing reads).

use {
    super::writers::{
        gen_plan,
        FaultyWriter,
        WFault,
    },
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    serde_json::Value,
    std::io::{
        self,
        Read,
    },
    termimad::{
        crossterm::style::{
            Attribute,
            Color,
        },
        Alignment,
        CompoundStyle,
        LineStyle,
        ListItemsIndentationMode,
        MadSkin,
        ScrollBarStyle,
        StyledChar,
        ASCII_TABLE_BORDER_CHARS,
        ROUNDED_TABLE_BORDER_CHARS,
        STANDARD_TABLE_BORDER_CHARS,
    },
};

// ---------------------------------------------------------------- scenarios

/// a color, as an application sets it
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum C {
    Named(u8),
    Ansi(u8),
    Rgb(u8, u8, u8),
}
const NAMED: [(&str, Color); 17] = [
    ("black", Color::Black),
    ("darkgrey", Color::DarkGrey),
    ("red", Color::Red),
    ("darkred", Color::DarkRed),
    ("green", Color::Green),
    ("darkgreen", Color::DarkGreen),
    ("yellow", Color::Yellow),
    ("darkyellow", Color::DarkYellow),
    ("blue", Color::Blue),
    ("darkblue", Color::DarkBlue),
    ("magenta", Color::Magenta),
    ("darkmagenta", Color::DarkMagenta),
    ("cyan", Color::Cyan),
    ("darkcyan", Color::DarkCyan),
    ("white", Color::White),
    ("grey", Color::Grey),
    ("reset", Color::Reset),
];
impl C {
    fn ct(self) -> Color {
        match self {
            C::Named(n) => NAMED[n as usize % NAMED.len()].1,
            C::Ansi(n) => Color::AnsiValue(n),
            C::Rgb(r, g, b) => Color::Rgb { r, g, b },
        }
    }
    fn gen(rng: &mut Rng) -> Self {
        match rng.below(3) {
            0 => C::Named(rng.below(NAMED.len() as u64) as u8),
            1 => C::Ansi(rng.below(256) as u8),
            _ => C::Rgb(rng.below(256) as u8, rng.below(256) as u8, rng.below(256) as u8),
        }
    }
}

const ATTRS: [(&[&str], Attribute); 10] = [
    (&["bold"], Attribute::Bold),
    (&["dim"], Attribute::Dim),
    (&["italic"], Attribute::Italic),
    (&["underlined", "under_lined", "under-lined"], Attribute::Underlined),
    (&["reverse"], Attribute::Reverse),
    (&["crossedout", "crossed-out", "crossed_out", "strikeout"], Attribute::CrossedOut),
    (&["encircled"], Attribute::Encircled),
    (&["overlined", "over-lined"], Attribute::OverLined),
    (&["slowblink", "slow_blink"], Attribute::SlowBlink),
    (&["rapidblink", "rapid-blink"], Attribute::RapidBlink),
];

/// how something looks
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Look {
    pub fg: Option<C>,
    pub bg: Option<C>,
    pub attrs: u16,
    /// left, center, right, unspecified
    pub align: u8,
    pub margins: (u32, u32),
    pub ch: char,
}

/// a word of a style, as written by somebody
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Tok {
    /// color, form
    Color(C, u8),
    Gray(u8, u8),
    Hex3(u8, u8, u8),
    None,
    Attr(u8, u8),
    Align(u8),
    Dim(u16),
    Char(char),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum What {
    Bold,
    Italic,
    Strikeout,
    InlineCode,
    Ellipsis,
    Bullet,
    Quote,
    Rule,
    Paragraph,
    CodeBlock,
    Table,
    Header(u8),
    Track,
    Thumb,
}

/// an entry of the file, written by hand
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Entry {
    /// what, which one of the possible keys, the words, case and spaces
    Style(What, u8, Vec<Tok>, u8),
    AllHeaders(Vec<Tok>, u8),
    Headers(Vec<Vec<Tok>>, u8),
    Scrollbar(Vec<Tok>, u8),
    RichScrollbar(Vec<Tok>, Vec<Tok>, u8),
    Borders(u8),
    Removed(What),
    Unknown,
    /// what, the word
    Wrong(What, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum SkOp {
    /// a new skin
    Base(u8),
    Set(What, Look),
    Borders(u8),
    Save {
        pretty: bool,
        /// written in place, or in a new file replacing the old one when complete
        in_place: bool,
        plan: Vec<WFault>,
    },
    Edit(Entry),
    /// the file loses its end (proportion)
    Truncate(u16),
    /// a byte is changed
    Damage(u16, u8),
    /// via, faults
    Load(u8, Vec<WFault>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SkinFileSc {
    pub sched: SchedCfg,
    pub ops: Vec<SkOp>,
}

#[derive(Default)]
struct Hist {
    end: bool,
}

// ---------------------------------------------------------------- model

fn align(n: u8) -> Alignment {
    match n % 4 {
        0 => Alignment::Left,
        1 => Alignment::Center,
        2 => Alignment::Right,
        _ => Alignment::Unspecified,
    }
}
fn attrs(cs: &mut CompoundStyle, mask: u16) {
    for (i, (_, a)) in ATTRS.iter().enumerate() {
        if mask & 1 << i != 0 {
            cs.object_style.attributes.set(*a);
        }
    }
}
fn look_cs(l: &Look) -> CompoundStyle {
    let mut cs = CompoundStyle::default();
    cs.object_style.foreground_color = l.fg.map(|c| c.ct());
    cs.object_style.background_color = l.bg.map(|c| c.ct());
    attrs(&mut cs, l.attrs);
    cs
}
fn look_ls(l: &Look) -> LineStyle {
    let mut ls: LineStyle = look_cs(l).into();
    ls.align = align(l.align);
    ls.left_margin = l.margins.0 as usize;
    ls.right_margin = l.margins.1 as usize;
    ls
}
fn toks_cs(toks: &[Tok]) -> CompoundStyle {
    let mut cs = CompoundStyle::default();
    let mut colors = 0;
    for t in toks {
        let color = match t {
            Tok::Color(c, _) => Some(c.ct()),
            Tok::Gray(level, _) => Some(Color::AnsiValue(232 + level % 24)),
            Tok::Hex3(r, g, b) => Some(Color::Rgb {
                r: (r % 16) * 17,
                g: (g % 16) * 17,
                b: (b % 16) * 17,
            }),
            Tok::None => {
                colors += 1;
                if colors > 1 {
                    // no effect
                }
                continue;
            }
            Tok::Attr(n, _) => {
                cs.object_style.attributes.set(ATTRS[*n as usize % ATTRS.len()].1);
                None
            }
            _ => None,
        };
        if let Some(c) = color {
            if colors == 0 {
                cs.object_style.foreground_color = Some(c);
            } else {
                cs.object_style.background_color = Some(c);
            }
            colors += 1;
        }
    }
    cs
}
fn toks_ls(toks: &[Tok]) -> LineStyle {
    let mut ls: LineStyle = toks_cs(toks).into();
    ls.align = Alignment::Unspecified;
    let mut dims = Vec::new();
    for t in toks {
        match t {
            Tok::Align(a) => ls.align = align(a % 3),
            Tok::Dim(n) => dims.push(*n as usize),
            _ => {}
        }
    }
    ls.left_margin = dims.first().copied().unwrap_or(0);
    ls.right_margin = if dims.len() > 1 { dims[dims.len() - 1] } else { 0 };
    ls
}
fn toks_char(toks: &[Tok]) -> StyledChar {
    let c = toks.iter().find_map(|t| match t {
        Tok::Char(c) => Some(*c),
        _ => None,
    });
    StyledChar::new(toks_cs(toks), c.unwrap_or('*'))
}
fn toks_scrollbar(toks: &[Tok]) -> ScrollBarStyle {
    let sc = toks_char(toks);
    ScrollBarStyle {
        track: StyledChar::from_fg_char(sc.get_bg().unwrap_or(Color::AnsiValue(237)), sc.nude_char()),
        thumb: StyledChar::from_fg_char(sc.get_fg().unwrap_or(Color::AnsiValue(253)), sc.nude_char()),
    }
}

fn set(skin: &mut MadSkin, what: What, cs: CompoundStyle, ls: LineStyle, ch: char) {
    match what {
        What::Bold => skin.bold = cs,
        What::Italic => skin.italic = cs,
        What::Strikeout => skin.strikeout = cs,
        What::InlineCode => skin.inline_code = cs,
        What::Ellipsis => skin.ellipsis = cs,
        What::Bullet => skin.bullet = StyledChar::new(cs, ch),
        What::Quote => skin.quote_mark = StyledChar::new(cs, ch),
        What::Rule => skin.horizontal_rule = StyledChar::new(cs, ch),
        What::Paragraph => skin.paragraph = ls,
        What::CodeBlock => skin.code_block = ls,
        What::Table => skin.table = ls,
        What::Header(n) => {
            let n = n as usize % skin.headers.len();
            skin.headers[n] = ls
        }
        What::Track => skin.scrollbar.track = StyledChar::new(cs, ch),
        What::Thumb => skin.scrollbar.thumb = StyledChar::new(cs, ch),
    }
}
fn copy(from: &MadSkin, to: &mut MadSkin, what: What) {
    match what {
        What::Bold => to.bold = from.bold.clone(),
        What::Italic => to.italic = from.italic.clone(),
        What::Strikeout => to.strikeout = from.strikeout.clone(),
        What::InlineCode => to.inline_code = from.inline_code.clone(),
        What::Ellipsis => to.ellipsis = from.ellipsis.clone(),
        What::Bullet => to.bullet = from.bullet.clone(),
        What::Quote => to.quote_mark = from.quote_mark.clone(),
        What::Rule => to.horizontal_rule = from.horizontal_rule.clone(),
        What::Paragraph => to.paragraph = from.paragraph.clone(),
        What::CodeBlock => to.code_block = from.code_block.clone(),
        What::Table => to.table = from.table.clone(),
        What::Header(_) => to.headers = from.headers.clone(),
        What::Track | What::Thumb => to.scrollbar = from.scrollbar.clone(),
    }
}

/// all the possible keys, starting with the one used on saving
fn keys(what: What) -> &'static [&'static str] {
    match what {
        What::Bold => &["bold"],
        What::Italic => &["italic"],
        What::Strikeout => &["strikeout"],
        What::InlineCode => &["inline_code", "inline-code"],
        What::Ellipsis => &["ellipsis"],
        What::Bullet => &["bullet"],
        What::Quote => &["quote", "quote_mark", "quote-mark"],
        What::Rule => &["horizontal_rule", "horizontal-rule", "rule"],
        What::Paragraph => &["paragraph"],
        What::CodeBlock => &["code_block", "code-block"],
        What::Table => &["table"],
        What::Header(_) => &["headers"],
        What::Track | What::Thumb => &["scrollbar"],
    }
}

/// words which aren't for a style
const WRONG: &[&str] = &[
    "pissenlit",
    "redd",
    "infrared",
    "darkish",
    "bluegreen",
    "grey(24)",
    "gray(99)",
    "gray(300)",
    "rgb(256,0,0)",
    "rgb(1,2)",
    "ansi(256)",
    "ansi(-1)",
    "#12",
    "#gg0000",
    "70000",
    "xyz",
];

// ---------------------------------------------------------------- text

fn toks_text(toks: &[Tok], form: u8) -> String {
    let mut s = String::new();
    if form & 1 != 0 {
        s.push_str("  ");
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(if form & 2 != 0 { "   " } else { " " });
        }
        let sep = if form & 4 != 0 { "," } else { ", " };
        let mut w = match t {
            Tok::Color(C::Named(n), _) => NAMED[*n as usize % NAMED.len()].0.to_string(),
            Tok::Color(C::Ansi(n), _) => format!("ansi({n})"),
            Tok::Color(C::Rgb(r, g, b), f) if f % 2 == 0 => format!("rgb({r}{sep}{g}{sep}{b})"),
            Tok::Color(C::Rgb(r, g, b), _) => format!("#{r:02x}{g:02x}{b:02x}"),
            Tok::Gray(level, f) => {
                let level = level % 24;
                match f % 4 {
                    0 => format!("gray({level})"),
                    1 => format!("grey({level})"),
                    2 => format!("grayscale({level})"),
                    _ => format!("greyscale({level})"),
                }
            }
            Tok::Hex3(r, g, b) => format!("#{:x}{:x}{:x}", r % 16, g % 16, b % 16),
            Tok::None => "none".to_string(),
            Tok::Attr(n, f) => {
                let names = ATTRS[*n as usize % ATTRS.len()].0;
                names[*f as usize % names.len()].to_string()
            }
            Tok::Align(a) => ["left", "center", "right"][*a as usize % 3].to_string(),
            Tok::Dim(n) => n.to_string(),
            Tok::Char(c) => c.to_string(),
        };
        if !matches!(t, Tok::Char(_)) {
            match (form >> 3) % 3 {
                1 => w = w.to_uppercase(),
                2 => {
                    let (a, b) = w.split_at(1);
                    w = format!("{}{b}", a.to_uppercase());
                }
                _ => {}
            }
        }
        s.push_str(&w);
    }
    if form & 64 != 0 {
        s.push(' ');
    }
    s
}

// ---------------------------------------------------------------- judging

/// black and white are known to be read as values which don't depend on the
/// theme of the terminal
fn same_color(c: &mut Option<Color>) {
    match c {
        Some(Color::Black) => *c = Some(Color::AnsiValue(16)),
        Some(Color::White) => *c = Some(Color::AnsiValue(231)),
        _ => {}
    }
}
fn norm_cs(cs: &mut CompoundStyle) {
    same_color(&mut cs.object_style.foreground_color);
    same_color(&mut cs.object_style.background_color);
}
fn norm_sc(sc: &mut StyledChar) {
    let mut cs = sc.compound_style().clone();
    norm_cs(&mut cs);
    *sc = StyledChar::new(cs, sc.nude_char());
}
fn norm(skin: &MadSkin) -> MadSkin {
    let mut s = skin.clone();
    for cs in [&mut s.bold, &mut s.italic, &mut s.strikeout, &mut s.inline_code, &mut s.ellipsis] {
        norm_cs(cs);
    }
    for sc in [
        &mut s.bullet,
        &mut s.quote_mark,
        &mut s.horizontal_rule,
        &mut s.scrollbar.track,
        &mut s.scrollbar.thumb,
    ] {
        norm_sc(sc);
    }
    for ls in [&mut s.paragraph, &mut s.code_block, &mut s.table].into_iter().chain(s.headers.iter_mut()) {
        norm_cs(&mut ls.compound_style);
        ls.left_margin = ls.left_margin.min(65535);
        ls.right_margin = ls.right_margin.min(65535);
    }
    // this isn't part of the file
    s.list_items_indentation_mode = ListItemsIndentationMode::default();
    s
}

fn differing(a: &MadSkin, b: &MadSkin) -> Option<(&'static str, String)> {
    macro_rules! field {
        ($($f:ident)+) => {
            $(
                if a.$f != b.$f {
                    return Some((stringify!($f), format!("{:?} instead of {:?}", a.$f, b.$f)));
                }
            )+
        };
    }
    field!(bold italic strikeout inline_code ellipsis paragraph code_block headers table scrollbar);
    field!(table_border_chars list_items_indentation_mode);
    if a.bullet != b.bullet {
        return Some(("bullet", format!("{:?} instead of {:?}", a.bullet, b.bullet)));
    }
    if a.quote_mark != b.quote_mark {
        return Some(("quote_mark", format!("{:?} instead of {:?}", a.quote_mark, b.quote_mark)));
    }
    if a.horizontal_rule != b.horizontal_rule {
        return Some((
            "horizontal_rule",
            format!("{:?} instead of {:?}", a.horizontal_rule, b.horizontal_rule),
        ));
    }
    if a != b {
        return Some(("other", "something differs".to_string()));
    }
    None
}

/// marks which the file can't tell from something else
fn has_unwritable_mark(s: &MadSkin) -> bool {
    [&s.bullet, &s.quote_mark, &s.horizontal_rule, &s.scrollbar.track, &s.scrollbar.thumb]
        .iter()
        .any(|c| unwritable(c.nude_char()))
}
fn unwritable(c: char) -> bool {
    c.is_whitespace() || c.is_ascii_digit() || c == '(' || c == ')'
}

struct FaultyReader<'p> {
    data: &'p [u8],
    plan: &'p [WFault],
    calls: usize,
    hard: usize,
}
impl Read for FaultyReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::point();
        if buf.is_empty() {
            return Ok(0);
        }
        let f = self.plan.get(self.calls).copied().unwrap_or(WFault::Ok);
        self.calls += 1;
        let max = match f {
            WFault::Ok => buf.len(),
            WFault::Short(n) => {
                count("fault.short_read", 1);
                n.max(1) as usize
            }
            WFault::Eintr => {
                count("fault.read_eintr", 1);
                return Err(io::ErrorKind::Interrupted.into());
            }
            WFault::Zero | WFault::Fail(_) => {
                count("fault.read_error", 1);
                self.hard += 1;
                return Err(io::ErrorKind::Other.into());
            }
        };
        let n = max.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

const SAMPLE: &str = "# Title\n## Sub\nsome **bold**, *italic*, ~~gone~~ and `code`\n\n* item\n> quote\n\n    code\n---\n|a|b|\n|-|-|\n|1|**2**|\n";

/// what the file holds
#[derive(Clone)]
enum Content {
    Nothing,
    /// what should be loaded
    Skin(Box<MadSkin>),
    /// it has to be refused
    Bad(&'static str),
    /// it's not known
    Unknown,
}

fn run_ops(ops: &[SkOp]) -> Verdict {
    let mut skin = MadSkin::default();
    let mut file: Vec<u8> = Vec::new();
    let mut content = Content::Nothing;
    let mut hand_written = false;
    for (i, op) in ops.iter().enumerate() {
        let mut what = format!("operation {} ", i + 1);
        sched::note("op", i as u64, file.len() as u64);
        match op {
            SkOp::Base(n) => {
                skin = match n % 4 {
                    0 => MadSkin::default(),
                    1 => MadSkin::no_style(),
                    2 => MadSkin::default_dark(),
                    _ => MadSkin::default_light(),
                };
            }
            SkOp::Set(w, look) => {
                set(&mut skin, *w, look_cs(look), look_ls(look), look.ch);
            }
            SkOp::Borders(n) => {
                skin.table_border_chars = [
                    STANDARD_TABLE_BORDER_CHARS,
                    ASCII_TABLE_BORDER_CHARS,
                    ROUNDED_TABLE_BORDER_CHARS,
                ][*n as usize % 3]
            }
            SkOp::Save { pretty, in_place, plan } => {
                what.push_str("(save)");
                let mut w = FaultyWriter::new(plan);
                let r = driver::catch(|| {
                    if *pretty {
                        serde_json::to_writer_pretty(&mut w, &skin)
                    } else {
                        serde_json::to_writer(&mut w, &skin)
                    }
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return viol("panic", format!("{what}: {p}")),
                };
                driver::fingerprint(w.accepted.len() as u64);
                match r {
                    Ok(()) => {
                        ensure!(w.hard == 0, "swallowed-error", "{what}: success while a write failed");
                        count("skins.saved", 1);
                        file = w.accepted;
                        content = Content::Skin(Box::new(skin.clone()));
                        hand_written = false;
                    }
                    Err(e) => {
                        ensure!(w.hard > 0, "error", "{what}: {e} while no write failed");
                        count("saves.failed", 1);
                        if *in_place {
                            file = w.accepted;
                            content = Content::Bad("the save was interrupted");
                        }
                    }
                }
            }
            SkOp::Edit(entry) => {
                let Content::Skin(held) = &mut content else {
                    continue;
                };
                let Ok(Value::Object(mut map)) = serde_json::from_slice::<Value>(&file) else {
                    return viol("json", format!("{what}: the saved file isn't JSON: {}", String::from_utf8_lossy(&file)));
                };
                hand_written = true;
                let default = MadSkin::default();
                let mut bad = None;
                match entry {
                    Entry::Style(w, key, toks, form) => {
                        if matches!(w, What::Header(_) | What::Track | What::Thumb) {
                            continue;
                        }
                        for k in keys(*w) {
                            map.remove(*k);
                        }
                        let key = keys(*w)[*key as usize % keys(*w).len()];
                        map.insert(key.to_string(), toks_text(toks, *form).into());
                        let ch = toks_char(toks).nude_char();
                        set(held, *w, toks_cs(toks), toks_ls(toks), ch);
                    }
                    Entry::AllHeaders(toks, form) => {
                        map.insert("headers".to_string(), toks_text(toks, *form).into());
                        held.headers = default.headers.clone();
                        let ls = toks_ls(toks);
                        for h in &mut held.headers {
                            let o = &mut h.compound_style.object_style;
                            if ls.compound_style.get_fg().is_some() {
                                o.foreground_color = ls.compound_style.get_fg();
                            }
                            if ls.compound_style.get_bg().is_some() {
                                o.background_color = ls.compound_style.get_bg();
                            }
                            for a in Attribute::iterator() {
                                if ls.compound_style.object_style.attributes.has(a) {
                                    o.attributes.set(a);
                                }
                            }
                            if ls.align != Alignment::Unspecified {
                                h.align = ls.align;
                            }
                        }
                    }
                    Entry::Headers(levels, form) => {
                        let v: Vec<Value> = levels.iter().map(|t| toks_text(t, *form).into()).collect();
                        map.insert("headers".to_string(), v.into());
                        held.headers = default.headers.clone();
                        for (i, toks) in levels.iter().enumerate() {
                            if i < held.headers.len() {
                                held.headers[i] = toks_ls(toks);
                            }
                        }
                    }
                    Entry::Scrollbar(toks, form) => {
                        map.insert("scrollbar".to_string(), toks_text(toks, *form).into());
                        held.scrollbar = toks_scrollbar(toks);
                    }
                    Entry::RichScrollbar(track, thumb, form) => {
                        map.insert(
                            "scrollbar".to_string(),
                            serde_json::json!({
                                "track": toks_text(track, *form),
                                "thumb": toks_text(thumb, *form),
                            }),
                        );
                        held.scrollbar.track = toks_char(track);
                        held.scrollbar.thumb = toks_char(thumb);
                    }
                    Entry::Borders(n) => {
                        for k in ["table_border_chars", "table-border-chars"] {
                            map.remove(k);
                        }
                        let k = if *n >= 3 { "table_border_chars" } else { "table-border-chars" };
                        let n = *n as usize % 3;
                        map.insert(k.to_string(), ["standard", "ascii", "rounded"][n].into());
                        held.table_border_chars = [
                            STANDARD_TABLE_BORDER_CHARS,
                            ASCII_TABLE_BORDER_CHARS,
                            ROUNDED_TABLE_BORDER_CHARS,
                        ][n];
                    }
                    Entry::Removed(w) => {
                        for k in keys(*w) {
                            map.remove(*k);
                        }
                        copy(&default, held, *w);
                    }
                    Entry::Unknown => {
                        map.insert("favorite_dish".to_string(), "red beans".into());
                    }
                    Entry::Wrong(w, n) => {
                        let word = WRONG[*n as usize % WRONG.len()];
                        for k in keys(*w) {
                            map.remove(*k);
                        }
                        map.insert(keys(*w)[0].to_string(), format!("bold {word} center").into());
                        bad = Some(word);
                    }
                }
                file = serde_json::to_vec(&Value::Object(map)).unwrap_or_default();
                driver::fingerprint(file.len() as u64);
                count("edits", 1);
                if let Some(word) = bad {
                    content = Content::Bad(word);
                }
            }
            SkOp::Truncate(p) => {
                if file.is_empty() || !matches!(content, Content::Skin(_) | Content::Bad(_)) {
                    continue;
                }
                count("fault.truncated_file", 1);
                let n = file.len() * *p as usize / 65536;
                file.truncate(n);
                content = Content::Bad("the file is truncated");
            }
            SkOp::Damage(at, xor) => {
                if file.is_empty() {
                    continue;
                }
                count("fault.damaged_file", 1);
                let n = file.len();
                file[*at as usize % n] ^= (*xor).max(1);
                content = Content::Unknown;
            }
            SkOp::Load(via, plan) => {
                what.push_str("(load)");
                let mut hard = 0;
                let r = driver::catch(|| -> Result<MadSkin, String> {
                    match via % 4 {
                        0 => serde_json::from_slice(&file).map_err(|e| e.to_string()),
                        1 => match std::str::from_utf8(&file) {
                            Ok(s) => serde_json::from_str(s).map_err(|e| e.to_string()),
                            Err(e) => Err(e.to_string()),
                        },
                        2 => {
                            let v: Value = serde_json::from_slice(&file).map_err(|e| e.to_string())?;
                            serde_json::from_value(v).map_err(|e| e.to_string())
                        }
                        _ => {
                            let mut r = FaultyReader {
                                data: &file,
                                plan,
                                calls: 0,
                                hard: 0,
                            };
                            let res = serde_json::from_reader(io::BufReader::with_capacity(64, &mut r));
                            hard = r.hard;
                            res.map_err(|e| e.to_string())
                        }
                    }
                });
                let r = match r {
                    Ok(r) => r,
                    Err(p) => return viol("panic", format!("{what}: {p}; file: {}", String::from_utf8_lossy(&file))),
                };
                driver::nontrivial();
                driver::fingerprint(via.wrapping_mul(2) as u64 + r.is_ok() as u64);
                if hard > 0 {
                    // (unless there was nothing else to read)
                    match r {
                        Err(_) => count("loads.failed", 1),
                        Ok(_) => return viol("swallowed-error", format!("{what}: success while a read failed")),
                    }
                    continue;
                }
                match (&content, r) {
                    (Content::Nothing, Ok(_)) => return viol("loaded-nothing", format!("{what}: a skin is loaded from an empty file")),
                    (Content::Nothing, Err(_)) => {}
                    (Content::Unknown, _) => {}
                    (Content::Bad(why), Ok(_)) => {
                        return viol(
                            "bad-accepted",
                            format!("{what}: the file is accepted while it's wrong ({why}): {}", String::from_utf8_lossy(&file)),
                        )
                    }
                    (Content::Bad(_), Err(_)) => count("loads.refused", 1),
                    (Content::Skin(_), Err(e)) => {
                        return viol(
                            if hand_written { "refused-edited" } else { "refused" },
                            format!("{what}: {e}; file: {}", String::from_utf8_lossy(&file)),
                        )
                    }
                    (Content::Skin(expected), Ok(loaded)) => {
                        count("skins.loaded", 1);
                        let e = norm(expected);
                        let l = norm(&loaded);
                        if let Some((field, diff)) = differing(&l, &e) {
                            let mark_only = has_unwritable_mark(&e) && {
                                let mut e = e.clone();
                                for (e, l) in [
                                    (&mut e.bullet, &l.bullet),
                                    (&mut e.quote_mark, &l.quote_mark),
                                    (&mut e.horizontal_rule, &l.horizontal_rule),
                                    (&mut e.scrollbar.track, &l.scrollbar.track),
                                    (&mut e.scrollbar.thumb, &l.scrollbar.thumb),
                                ] {
                                    if unwritable(e.nude_char()) {
                                        e.set_char(l.nude_char());
                                    }
                                }
                                differing(&l, &e).is_none()
                            };
                            return viol(
                                if mark_only {
                                    "mark-lost"
                                } else if hand_written {
                                    "not-as-written"
                                } else {
                                    "not-as-saved"
                                },
                                format!("{what}: the loaded {field} isn't the right one: {diff}; file: {}", String::from_utf8_lossy(&file)),
                            );
                        }
                        if loaded == **expected && expected.paragraph.left_margin + expected.paragraph.right_margin < 40 {
                            // they draw the same
                            let a = driver::catch(|| expected.text(SAMPLE, Some(60)).to_string());
                            let b = driver::catch(|| loaded.text(SAMPLE, Some(60)).to_string());
                            match (a, b) {
                                (Ok(a), Ok(b)) => ensure!(a == b, "drawing", "{what}: the drawing is {b:?} instead of {a:?}"),
                                (_, Err(p)) | (Err(p), _) => return viol("panic", format!("{what}: {p}")),
                            }
                        }
                        skin = loaded;
                    }
                }
            }
        }
    }
    Ok(())
}

fn run_body(sc: &SkinFileSc) {
    if let Err(v) = run_ops(&sc.ops) {
        driver::live_violation(&v.class, v.msg);
    }
    driver::state::<Hist>().end = true;
}

// ---------------------------------------------------------------- generation

fn gen_what(rng: &mut Rng) -> What {
    match rng.below(16) {
        0 => What::Bold,
        1 => What::Italic,
        2 => What::Strikeout,
        3 => What::InlineCode,
        4 => What::Ellipsis,
        5 => What::Bullet,
        6 => What::Quote,
        7 => What::Rule,
        8 => What::Paragraph,
        9 => What::CodeBlock,
        10 => What::Table,
        11 => What::Track,
        12 => What::Thumb,
        _ => What::Header(rng.below(8) as u8),
    }
}
fn gen_char(rng: &mut Rng) -> char {
    *rng.pick(&['*', '•', '-', '▶', '|', '#', '道', '~', '"', '\\', '>', 'r', '⟡', '🦀', ',', '_', 'É'])
}
fn gen_look(rng: &mut Rng) -> Look {
    let col = |rng: &mut Rng| if rng.one_in(3) { None } else { Some(C::gen(rng)) };
    let margin = |rng: &mut Rng| match rng.below(40) {
        0 => 65535,
        1 => 65536 + rng.below(1000) as u32,
        2..=20 => rng.size(12) as u32,
        _ => 0,
    };
    Look {
        fg: col(rng),
        bg: col(rng),
        attrs: if rng.one_in(2) { 0 } else { rng.below(1024) as u16 },
        align: rng.below(4) as u8,
        margins: (margin(rng), margin(rng)),
        ch: if rng.one_in(150) {
            *rng.pick(&[' ', '1', '('])
        } else {
            gen_char(rng)
        },
    }
}
fn gen_toks(rng: &mut Rng) -> Vec<Tok> {
    let mut v = Vec::new();
    for _ in 0..rng.size(6) {
        v.push(match rng.below(14) {
            0..=3 => Tok::Color(C::gen(rng), rng.below(4) as u8),
            4 => Tok::Gray(rng.below(24) as u8, rng.below(4) as u8),
            5 => Tok::Hex3(rng.below(16) as u8, rng.below(16) as u8, rng.below(16) as u8),
            6 => Tok::None,
            7..=9 => Tok::Attr(rng.below(10) as u8, rng.below(4) as u8),
            10 => Tok::Align(rng.below(3) as u8),
            11 => Tok::Dim(rng.size(20) as u16),
            _ => Tok::Char(gen_char(rng)),
        });
    }
    v
}
fn gen_form(rng: &mut Rng) -> u8 {
    rng.below(128) as u8
}
fn gen_entry(rng: &mut Rng) -> Entry {
    match rng.below(16) {
        0..=6 => {
            let mut w = gen_what(rng);
            if matches!(w, What::Header(_) | What::Track | What::Thumb) {
                w = What::Table;
            }
            Entry::Style(w, rng.below(3) as u8, gen_toks(rng), gen_form(rng))
        }
        7 => Entry::AllHeaders(gen_toks(rng), gen_form(rng)),
        8 => {
            let mut v = Vec::new();
            for _ in 0..rng.size(10) {
                v.push(gen_toks(rng));
            }
            Entry::Headers(v, gen_form(rng))
        }
        9 => Entry::Scrollbar(gen_toks(rng), gen_form(rng)),
        10 => Entry::RichScrollbar(gen_toks(rng), gen_toks(rng), gen_form(rng)),
        11 => Entry::Borders(rng.below(6) as u8),
        12 => Entry::Removed(gen_what(rng)),
        13 => Entry::Unknown,
        _ => {
            let w = match gen_what(rng) {
                What::Header(_) | What::Track | What::Thumb => What::Paragraph,
                w => w,
            };
            Entry::Wrong(w, rng.below(WRONG.len() as u64) as u8)
        }
    }
}

pub struct SkinFileProp {
    pub rule: &'static str,
}

impl Prop for SkinFileProp {
    type Sc = SkinFileSc;
    fn id(&self) -> &'static str {
        "S02"
    }
    fn quick_runs(&self) -> u64 {
        20000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> SkinFileSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 4_000_000;
        let mut ops = Vec::new();
        let save = |rng: &mut Rng| SkOp::Save {
            pretty: rng.one_in(2),
            in_place: rng.one_in(2),
            plan: if rng.one_in(3) { gen_plan(rng) } else { Vec::new() },
        };
        let load = |rng: &mut Rng| SkOp::Load(rng.below(4) as u8, if rng.one_in(2) { gen_plan(rng) } else { Vec::new() });
        let n = 3 + rng.size(if tier == Tier::Thorough { 40 } else { 20 });
        if rng.one_in(2) {
            ops.push(SkOp::Base(rng.below(4) as u8));
        }
        for _ in 0..n {
            match rng.below(24) {
                0 => ops.push(SkOp::Base(rng.below(4) as u8)),
                1..=8 => ops.push(SkOp::Set(gen_what(rng), gen_look(rng))),
                9 => ops.push(SkOp::Borders(rng.below(3) as u8)),
                10..=12 => ops.push(save(rng)),
                13..=18 => {
                    if rng.one_in(3) {
                        ops.push(save(rng));
                    }
                    ops.push(SkOp::Edit(gen_entry(rng)));
                    if rng.one_in(3) {
                        ops.push(load(rng));
                    }
                }
                19 => ops.push(SkOp::Truncate(rng.below(65536) as u16)),
                20 => ops.push(SkOp::Damage(rng.below(4000) as u16, rng.below(256) as u8)),
                _ => ops.push(load(rng)),
            }
        }
        ops.push(save(rng));
        ops.push(load(rng));
        SkinFileSc { sched, ops }
    }
    fn sched(&self, sc: &SkinFileSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &SkinFileSc) {
        run_body(sc)
    }
    fn judge(&self, _sc: &SkinFileSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => {
                ensure!(
                    driver::state::<Hist>().end || driver::has_live_violation(),
                    "unfinished",
                    "the run isn't finished"
                );
                Ok(())
            }
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad (skins, their serialization and deserialization, parsing of styles, drawing)",
            "serde, serde_json",
            "std::io::BufReader",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &["the file: bytes in memory, with short, interrupted, failing writes and reads, truncation and damages"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "what isn't in the file format (indentation of list items, special chars, custom table borders) isn't kept",
            "black and white are read as the theme independent black and white",
        ]
    }
}
