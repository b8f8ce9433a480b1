//! Simulation of programs drawing in a limited number of columns: histories of
//! drawings through a cropping writer (over a writer failing at seeded points),
//! texts fitted to the successive widths of an area, and column widths.

use {
    super::{
        doc::{
            self,
            blanks,
            gen_skin,
            gen_spans,
            glyph,
            inline_units,
            make_skin,
            matches,
            sty,
            Exp,
            Match,
            Part,
            SkinOp,
            Sty,
            Unit,
        },
        writers::{
            gen_plan,
            FaultyWriter,
            WFault,
        },
    },
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
            Viol,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        vt::Vt,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::io::Write as _,
    termimad::{
        crossterm::{
            style::{
                Attribute,
                ResetColor,
                SetAttribute,
            },
            QueueableCommand,
        },
        minimad::Composite,
        Alignment,
        CompoundStyle,
        CropWriter,
        Filling,
        Fitter,
        CompositeKind,
        FmtComposite,
        FmtInline,
        MadSkin,
        StrFit,
        TblFit,
    },
    unicode_width::UnicodeWidthChar,
};

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum CropOp {
    /// styled, text
    Str(bool, String),
    Char(bool, char),
    Gentle(bool, String),
    Fill(bool, u8),
    FillSpace,
    /// styled, filling, length
    Repeat(bool, u8, u16),
    /// colors are set, then an unstyled string is queued
    Colors(bool, bool, String),
    /// only look at what would be cropped
    Cropped(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Case {
    Crop {
        limit: u16,
        style: u8,
        ops: Vec<CropOp>,
        plan: Vec<WFault>,
    },
    Strs(Vec<(String, u16)>),
    /// a text in successive widths
    Fit {
        span: String,
        /// width, alignment, via
        steps: Vec<(u16, u8, u8)>,
        /// list item, its next lines, quote
        #[serde(default)]
        kind: u8,
    },
    /// widths of the columns of a table, at successive total widths
    Cols {
        rows: Vec<Vec<u16>>,
        widths: Vec<u16>,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FitSc {
    pub sched: SchedCfg,
    pub base: u8,
    pub skin: Vec<SkinOp>,
    pub cases: Vec<Case>,
}

#[derive(Default)]
struct Hist {
    end: bool,
}

// ---------------------------------------------------------------- croppers

const TAB_WIDTH: usize = 2;

fn char_width(c: char) -> usize {
    c.width().unwrap_or(0)
}

/// the longest prefix fitting the columns, and its width
pub(super) fn longest_prefix(s: &str, cols: usize) -> (String, usize, usize) {
    let mut shown = String::new();
    let mut width = 0;
    let mut bytes = 0;
    for c in s.chars() {
        let w = if c == '\t' { TAB_WIDTH } else { char_width(c) };
        if width + w > cols {
            break;
        }
        width += w;
        bytes += c.len_utf8();
        if c == '\t' {
            shown.push_str("  ");
        } else {
            shown.push(c);
        }
    }
    (shown, width, bytes)
}

pub(super) fn exps(s: &str, sty: Sty) -> Vec<Exp> {
    let mut v: Vec<Exp> = Vec::new();
    for c in s.chars() {
        if char_width(c) == 0 {
            let mut i = v.len();
            while i > 0 {
                i -= 1;
                if !v[i].cont {
                    v[i].marks.push(c);
                    break;
                }
            }
        } else {
            v.extend(glyph(c, sty));
        }
    }
    v
}

fn filling(n: u8) -> (&'static Filling, char) {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<Filling>> = OnceLock::new();
    const C: [char; 4] = [' ', '=', '─', '█'];
    let n = n as usize % 4;
    let all = F.get_or_init(|| C.iter().map(|c| Filling::from_char(*c)).collect());
    (&all[n], C[n])
}

fn pick_style(skin: &MadSkin, n: u8) -> CompoundStyle {
    match n % 7 {
        0 => skin.paragraph.compound_style.clone(),
        1 => skin.bold.clone(),
        2 => skin.italic.clone(),
        3 => skin.inline_code.clone(),
        4 => skin.headers[0].compound_style.clone(),
        5 => skin.code_block.compound_style.clone(),
        _ => {
            let mut cs = skin.headers[1].compound_style.clone();
            cs.overwrite_with(&skin.inline_code);
            cs
        }
    }
}

/// compare the start of the line with the possible expectations
fn check_row(vt: &Vt, exp: &[Exp], what: &str, limit: usize) -> Verdict {
    for y in 0..vt.h {
        for x in 0..vt.w {
            let c = vt.cell(x, y);
            if y == 0 && x < exp.len() {
                continue;
            }
            if !c.untouched() {
                if y > 0 || x >= limit {
                    return viol(
                        "beyond-limit",
                        format!("{what}: something is drawn at column {x}, line {y}, while the limit is {limit}:\n{}", vt.dump()),
                    );
                }
                return viol(
                    "unexpected",
                    format!("{what}: {:?} is drawn at column {x} while nothing should be there:\n{}", c.ch, vt.dump()),
                );
            }
        }
    }
    for (x, e) in exp.iter().enumerate() {
        match matches(e, vt.cell(x, 0)) {
            Match::Full => {}
            Match::Glyphs => {
                return viol(
                    "style",
                    format!("{what}: at column {x} the style of {:?} is {:?} instead of {:?}", e.ch, vt.cell(x, 0), e.sty),
                )
            }
            Match::No => {
                return viol(
                    "content",
                    format!("{what}: at column {x} there's {:?} instead of {:?}:\n{}", vt.cell(x, 0), e, vt.dump()),
                )
            }
        }
    }
    Ok(())
}

fn run_crop(skin: &MadSkin, limit: usize, style: u8, ops: &[CropOp], plan: &[WFault]) -> Verdict {
    let cs = pick_style(skin, style);
    let styled_sty = sty(&cs);
    let plain = Sty::default();
    let the_sty = |styled: bool| if styled { styled_sty } else { plain };
    let mut vt = Vt::new(limit as u16 + 8, 3);
    let mut exp: Vec<Exp> = Vec::new();
    let mut allowed = limit;
    let mut fed = 0;
    let mut w = FaultyWriter::new(plan);
    let mut cw = CropWriter::new(&mut w, limit);
    for (i, op) in ops.iter().enumerate() {
        let what = format!("operation {} of a crop writer of {limit} columns ({op:?})", i + 1);
        ensure!(
            cw.is_full() == (cw.allowed == 0),
            "full",
            "{what}: is_full is {} with {} columns allowed",
            cw.is_full(),
            cw.allowed
        );
        let hard = cw.w.hard;
        let before = allowed;
        // the possible drawings, and what's allowed after
        let mut alts: Vec<(Vec<Exp>, usize)> = Vec::new();
        let r = driver::catch(|| match op {
            CropOp::Str(true, s) => cw.queue_str(&cs, s),
            CropOp::Str(false, s) => cw.queue_unstyled_str(s),
            CropOp::Char(true, c) => cw.queue_char(&cs, *c),
            CropOp::Char(false, c) => cw.queue_unstyled_char(*c),
            CropOp::Gentle(true, s) => cw.queue_g_string(&cs, s.clone()),
            CropOp::Gentle(false, s) => cw.queue_unstyled_g_string(s.clone()),
            CropOp::Fill(true, f) => cw.fill(&cs, filling(*f).0),
            CropOp::Fill(false, f) => cw.fill_unstyled(filling(*f).0),
            CropOp::FillSpace => cw.fill_with_space(&cs),
            CropOp::Repeat(true, f, n) => cw.repeat(&cs, filling(*f).0, *n as usize),
            CropOp::Repeat(false, f, n) => cw.repeat_unstyled(filling(*f).0, *n as usize),
            CropOp::Colors(fg, bg, s) => (|| {
                if *fg {
                    cw.queue_fg(&cs)?;
                }
                if *bg {
                    cw.queue_bg(&cs)?;
                }
                cw.queue_unstyled_str(s)?;
                cw.w.queue(ResetColor)?;
                cw.w.queue(SetAttribute(Attribute::Reset))?;
                Ok(())
            })(),
            CropOp::Cropped(s) => {
                let (shown, width) = cw.cropped_str(s);
                let (shown, m, width) = (shown.to_string(), longest_prefix(s, cw.allowed), width);
                if shown != m.0 || width != m.1 {
                    driver::live_violation(
                        "content",
                        format!("{what}: {shown:?} and {width} instead of {:?} and {}", m.0, m.1),
                    );
                }
                Ok(())
            }
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => return viol("panic", format!("{what}: {p}")),
        };
        match op {
            CropOp::Str(styled, s) => {
                let (shown, width, _) = longest_prefix(s, allowed);
                alts.push((exps(&shown, the_sty(*styled)), width));
            }
            CropOp::Char(styled, c) => {
                let s = c.to_string();
                let (shown, width, _) = longest_prefix(&s, allowed);
                if width == 0 || width >= allowed {
                    // a char may be kept out of the last column
                    alts.push((Vec::new(), 0));
                }
                if *c == '\t' {
                    // the replacement may be cut
                    let (shown, width, _) = longest_prefix("  ", allowed);
                    alts.push((exps(&shown, the_sty(*styled)), width));
                }
                alts.push((exps(&shown, the_sty(*styled)), width));
            }
            CropOp::Gentle(styled, s) => {
                let shown: String = s.chars().take(allowed).collect();
                let n = shown.chars().count();
                alts.push((exps(&shown, the_sty(*styled)), n));
            }
            CropOp::Fill(styled, f) => {
                let v = exps(&filling(*f).1.to_string().repeat(allowed), the_sty(*styled));
                alts.push((v, allowed));
            }
            CropOp::FillSpace => alts.push((blanks(allowed, styled_sty), allowed)),
            CropOp::Repeat(styled, f, n) => {
                let n = allowed.min(*n as usize);
                alts.push((exps(&filling(*f).1.to_string().repeat(n), the_sty(*styled)), n));
            }
            CropOp::Colors(fg, bg, s) => {
                let (shown, width, _) = longest_prefix(s, allowed);
                let mut sty = plain;
                if *fg {
                    sty.fg = styled_sty.fg;
                }
                if *bg {
                    sty.bg = styled_sty.bg;
                }
                alts.push((exps(&shown, sty), width));
            }
            CropOp::Cropped(_) => alts.push((Vec::new(), 0)),
        }
        let failed = cw.w.hard > hard;
        ensure!(
            cw.allowed <= before,
            "allowed-grew",
            "{what}: {} columns are allowed while {before} were before",
            cw.allowed
        );
        let now = cw.w.accepted.len();
        vt.feed(&cw.w.accepted[fed..now]);
        let nothing = fed == now;
        fed = now;
        if failed {
            count("crops.failed", 1);
            if r.is_ok() {
                return viol("swallowed-error", format!("{what}: success while a write failed"));
            }
            if !nothing {
                // what's drawn must still be in the limit
                for y in 0..vt.h {
                    for x in 0..vt.w {
                        ensure!(
                            vt.cell(x, y).untouched() || y == 0 && x < limit,
                            "beyond-limit",
                            "{what}: after a failed write something is drawn at {x},{y}, while the limit is {limit}"
                        );
                    }
                }
                return Ok(());
            }
            check_row(&vt, &exp, &what, limit)?;
            allowed = cw.allowed;
            continue;
        }
        if let Err(e) = r {
            return viol("error", format!("{what}: {e} while no write failed"));
        }
        let mut err = None;
        let n = alts.len();
        for (more, width) in alts {
            let mut e = exp.clone();
            e.extend(more);
            let checked = check_row(&vt, &e, &what, limit).and_then(|_| {
                ensure!(
                    cw.allowed == before - width,
                    "allowed",
                    "{what}: {} columns are left instead of {}",
                    cw.allowed,
                    before - width
                );
                Ok(())
            });
            match checked {
                Ok(()) => {
                    exp = e;
                    allowed = before - width;
                    err = None;
                    break;
                }
                Err(v) => err = Some(v),
            }
        }
        if let Some(Viol { class, msg }) = err {
            return viol(&class, format!("{msg} (possible drawings: {n})"));
        }
        if cw.is_full() {
            count("crops.full", 1);
        }
    }
    let f = exp.len() as u64 * 31 + fed as u64;
    driver::fingerprint(f);
    driver::nontrivial();
    Ok(())
}

fn run_strs(strs: &[(String, u16)]) -> Verdict {
    for (s, cols) in strs {
        let what = format!("{s:?} in {cols} columns");
        let cols = *cols as usize;
        let (shown, width, bytes) = longest_prefix(s, cols);
        let r = driver::catch(|| {
            let (a, aw) = StrFit::make_string(s, cols);
            let (b, bw) = StrFit::make_cow(s, cols);
            (a, aw, b.to_string(), bw, StrFit::count_fitting(s, cols))
        });
        let (a, aw, b, bw, (cb, cc)) = match r {
            Ok(r) => r,
            Err(p) => return viol("panic", format!("{what}: {p}")),
        };
        ensure!(
            a == shown && aw == width && b == shown && bw == width,
            "content",
            "{what}: {a:?} ({aw}) and {b:?} ({bw}) instead of {shown:?} ({width})"
        );
        ensure!(
            (cb, cc) == (bytes, width),
            "content",
            "{what}: counted {cb} bytes and {cc} columns instead of {bytes} and {width}"
        );
        driver::fingerprint((width * 1000 + bytes) as u64);
        driver::nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- fitted texts

const ELLIPSIS: char = '…';

fn alignment(n: u8) -> Alignment {
    match n % 4 {
        0 => Alignment::Left,
        1 => Alignment::Right,
        2 => Alignment::Center,
        _ => Alignment::Unspecified,
    }
}

fn is_ellipsis(c: &crate::vt::Cell, ell: Sty, full: bool) -> bool {
    let mut e = glyph(ELLIPSIS, ell);
    // marks of the removed chars may stay
    e[0].marks = c.marks.clone();
    match matches(&e[0], c) {
        Match::Full => true,
        Match::Glyphs => !full,
        _ => false,
    }
}

/// whether the cells may be the shortened units. `full` is for the style
fn is_shortened(vt: &Vt, from: usize, to: usize, units: &[Unit], ell: Sty, align: Alignment, again: bool, full: bool) -> bool {
    let n = to - from;
    let m = units.len();
    // ok[i][j]: the first i cells are for the first j units
    let mut ok = vec![vec![false; m + 1]; n + 1];
    ok[0][0] = true;
    for i in 0..n {
        let c = vt.cell(from + i, 0);
        let mut lowest = None;
        for j in 0..=m {
            if !ok[i][j] {
                continue;
            }
            if lowest.is_none() {
                lowest = Some(j);
            }
            if j < m {
                let u = &units[j];
                if i + u.w <= n {
                    let mut g = glyph(u.ch, u.sty);
                    g[0].marks = u.marks.clone();
                    // marks may be lost near what's removed
                    let near = i + u.w < n && vt.cell(from + i + u.w, 0).ch == ELLIPSIS;
                    if near && u.marks.starts_with(&c.marks) {
                        g[0].marks = c.marks.clone();
                    }
                    let good = g.iter().enumerate().all(|(k, e)| {
                        let c = vt.cell(from + i + k, 0);
                        let m = matches(e, c);
                        m == Match::Full || m == Match::Glyphs && !full
                    });
                    if good {
                        ok[i + u.w][j + 1] = true;
                    }
                }
            }
        }
        if is_ellipsis(c, ell, full) {
            let allowed = again
                || match align {
                    Alignment::Left => i + 1 == n,
                    Alignment::Right => i == 0,
                    Alignment::Center => i == 0 || i + 1 == n,
                    Alignment::Unspecified => true,
                };
            if let (true, Some(l)) = (allowed, lowest) {
                for j in l + 1..=m {
                    ok[i + 1][j] = true;
                }
            }
        }
    }
    ok[n][m]
}

fn run_fit(skin: &'static MadSkin, sk: &doc::Sk, span: &'static str, steps: &[(u16, u8, u8)], kind: u8) -> Verdict {
    let comp = Composite::from_inline(span);
    let Some((units, line_sty)) = inline_units(sk, &comp) else {
        count("out_of_scope", 1);
        return Ok(());
    };
    if units.iter().any(|u| u.ch == ELLIPSIS) {
        return Ok(());
    }
    // what's before the text, depending on its kind
    let depth = kind % 3;
    let (prefix, kind) = match kind {
        0 => (Vec::new(), None),
        1..=3 => (doc::list_prefix(sk, depth), Some(CompositeKind::ListItem(depth))),
        4..=6 => {
            let n = if sk.block_mode { 2 + depth as usize } else { 0 };
            (blanks(n, line_sty), Some(CompositeKind::ListItemFollowUp(depth)))
        }
        _ => (doc::quote_prefix(sk), Some(CompositeKind::Quote)),
    };
    let plen = prefix.len();
    let natural: usize = plen + units.iter().map(|u| u.w).sum::<usize>();
    let build = std::cell::Cell::new(0);
    let fresh = || {
        let comp = Composite::from_inline(span);
        if let Some(kind) = kind {
            let mut fc = FmtComposite::from(comp, skin);
            fc.kind = kind;
            fc.recompute_width(skin);
            return fc;
        }
        let mut it = comp.compounds.clone().into_iter();
        match (build.get(), it.next()) {
            (1, first) => {
                let mut fc = FmtComposite::new();
                for c in first.into_iter().chain(it) {
                    fc.add_compound(c);
                }
                fc
            }
            (2, Some(first)) => {
                let mut fc = FmtComposite::from_compound(first);
                for c in it {
                    fc.add_compound(c);
                }
                fc
            }
            (3, first) => {
                let mut fc = FmtComposite::default();
                fc.compounds.extend(first.into_iter().chain(it));
                fc.recompute_width(skin);
                fc
            }
            _ => FmtComposite::from(comp, skin),
        }
    };
    let mut kept = fresh();
    // width of the kept text, whether it's been shortened
    let mut kept_w = natural;
    let mut kept_again = false;
    let mut fill_align = Alignment::Left;
    let ell = sty(&sk.ellipsis);
    for (i, (width, al, via)) in steps.iter().enumerate() {
        let width = *width as usize;
        let align = alignment(*al);
        build.set(*via as usize / 7 % 4);
        let mut via = *via % 7;
        if kind.is_some() {
            if width < plen + 2 {
                continue; // no room for anything else
            }
            if via == 0 {
                via = 1;
            }
        }
        let what = format!(
            "step {}: {span:?} (built by way {}) in {width} columns, align {align:?}, {}",
            i + 1,
            build.get(),
            ["write_composite_fill", "fill_width", "fit_width", "Fitter", "fit_width on the same text", "fill_width on the same text", "extend_width"][via as usize]
        );
        // fit
        let filled = matches!(via, 0 | 1 | 5);
        let same = via == 4 || via == 5;
        // only extended
        let room = if via == 6 { width.max(natural) } else { width };
        type Drawn = (Vec<u8>, Option<usize>, Option<(usize, usize)>);
        let r = driver::catch(|| -> Result<Drawn, String> {
            let mut out = Vec::new();
            let fc = match via {
                0 => {
                    skin.write_composite_fill(&mut out, Composite::from_inline(span), width, align)
                        .map_err(|e| e.to_string())?;
                    return Ok((out, None, None));
                }
                1 => {
                    let mut fc = fresh();
                    fc.fill_width(width, align, skin);
                    fc
                }
                2 => {
                    let mut fc = fresh();
                    fc.fit_width(width, align, skin);
                    fc
                }
                3 => {
                    let mut fc = fresh();
                    if align == Alignment::Unspecified {
                        Fitter::default().fit(&mut fc, width, skin);
                    } else {
                        Fitter::for_align(align).fit(&mut fc, width, skin);
                    }
                    fc
                }
                6 => {
                    let mut fc = fresh();
                    fc.extend_width(width, align);
                    fc
                }
                4 => {
                    kept.fit_width(width, align, skin);
                    kept.clone()
                }
                _ => {
                    kept.fill_width(width, align, skin);
                    kept.clone()
                }
            };
            let len = fc.visible_length;
            let completions = fc.completions();
            write!(&mut out, "{}", FmtInline { skin, composite: fc }).map_err(|e| e.to_string())?;
            Ok((out, Some(len), Some(completions)))
        });
        let (out, len, completions) = match r {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return viol("error", format!("{what}: {e}")),
            Err(p) => return viol("panic", format!("{what}: {p}")),
        };
        driver::fingerprint(out.len() as u64 * 131 + width as u64);
        driver::nontrivial();
        let before = if same { kept_w } else { natural };
        let mut again = same && kept_again;
        let mut vt = Vt::new((natural.max(width) + 200) as u16, 2);
        vt.feed(&out);
        let mut total = vt.w;
        while total > 0 && vt.cell(total - 1, 0).untouched() {
            total -= 1;
        }
        let dump = || vt.text(0, 0, total);
        ensure!(
            vt.y == 0 && vt.scrolled_lines == 0,
            "line",
            "{what}: what's drawn isn't on a line"
        );
        if before <= room {
            // nothing removed
        } else {
            count("texts.shortened", 1);
        }
        if filled || via == 6 {
            ensure!(
                total == room,
                "width",
                "{what}: {total} columns are drawn: {:?}",
                dump()
            );
        } else {
            // an earlier filling may still be there
            ensure!(
                total <= width || (via == 4 && kept.spacing.is_some()),
                "width",
                "{what}: {total} columns are drawn: {:?}",
                dump()
            );
        }
        // what's the text ?
        let candidates: Vec<usize> = match len {
            Some(len) => vec![len],
            None if before <= room => vec![before],
            None => (width.saturating_sub(3)..=width).rev().collect(),
        };
        let mut err: Option<(&str, String)> = None;
        let mut found = None;
        if via == 5 {
            fill_align = align;
        }
        let pad_align = if via == 4 { fill_align } else { align };
        for len in candidates {
            if len > total {
                err = Some(("length", format!("{what}: the length is {len} and {total} columns are drawn: {:?}", dump())));
                continue;
            }
            let left = match pad_align {
                Alignment::Left | Alignment::Unspecified => 0,
                Alignment::Right => total - len,
                Alignment::Center => (total - len) / 2,
            };
            if let Some((l, r)) = completions {
                if (l, r) != (left, total - len - left) {
                    err = Some(("completions", format!("{what}: ({l}, {r}) announced around {len} columns: {:?}", dump())));
                    continue;
                }
            }
            let pad = |full: bool| {
                (0..left).chain(left + len..total).all(|x| {
                    let m = matches(&blanks(1, line_sty)[0], vt.cell(x, 0));
                    m == Match::Full || m == Match::Glyphs && !full
                })
            };
            if !pad(false) {
                err = Some(("padding", format!("{what}: the text isn't {len} columns surrounded with spaces: {:?}", dump())));
                continue;
            }
            let start = left + plen;
            let good = |full: bool| {
                let same_prefix = prefix.iter().enumerate().all(|(i, e)| {
                    let m = matches(e, vt.cell(left + i, 0));
                    m == Match::Full || m == Match::Glyphs && !full
                });
                if !same_prefix || len < plen {
                    false
                } else if before <= room && !again {
                    // the whole text
                    len == natural && is_shortened(&vt, start, left + len, &units, ell, Alignment::Left, false, full) && {
                        let mut x = start;
                        units.iter().all(|u| {
                            let same = vt.cell(x, 0).ch == u.ch;
                            x += u.w;
                            same
                        })
                    }
                } else if room == 0 || before == 0 {
                    len == 0
                } else if room == 1 {
                    len == 1 && is_ellipsis(vt.cell(left, 0), ell, full)
                } else {
                    is_shortened(&vt, start, left + len, &units, ell, align, again, full)
                }
            };
            if !good(false) {
                err = Some(("content", format!("{what}: the text is {:?}", vt.text(0, left, left + len))));
                continue;
            }
            if !good(true) || !pad(true) {
                err = Some(("style", format!("{what}: the styles in {:?} aren't the ones of the text", vt.text(0, left, left + len))));
                continue;
            }
            found = Some(len);
            break;
        }
        let Some(len) = found else {
            let (class, msg) = err.unwrap_or(("content", what.clone()));
            return viol(class, msg);
        };
        if before > room {
            let missing = width - len;
            let max = match align {
                Alignment::Left | Alignment::Right => 1,
                _ => 2,
            };
            ensure!(
                missing <= max,
                "too-short",
                "{what}: only {len} columns are used: {:?}",
                dump()
            );
            again = true;
        }
        if same {
            kept_w = len;
            kept_again = again;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- columns

fn run_cols(rows: &[Vec<u16>], widths: &[u16]) -> Verdict {
    let n = rows.iter().map(|r| r.len()).max().unwrap_or(0);
    let mut natural = vec![3; n];
    for r in rows {
        for (i, w) in r.iter().enumerate() {
            natural[i] = natural[i].max(*w as usize);
        }
    }
    let sum: usize = natural.iter().sum();
    for avail in widths {
        let avail = *avail as usize;
        let what = format!("columns {natural:?} in {avail}, from {rows:?}");
        let r = driver::catch(|| {
            TblFit::new(n, avail).map(|mut fit| {
                for r in rows {
                    for (i, w) in r.iter().enumerate() {
                        fit.see_cell(i, *w as usize);
                    }
                }
                fit.fit()
            })
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => return viol("panic", format!("{what}: {p}")),
        };
        let res = match r {
            Err(_) => {
                ensure!(
                    avail < 4 * n + 1,
                    "refused",
                    "{what}: refused while there's enough room for 3 chars per column"
                );
                continue;
            }
            Ok(r) => r,
        };
        driver::nontrivial();
        let said_reduced = res.reduced;
        let got = res.col_widths;
        driver::fingerprint(got.iter().fold(avail as u64, |a, w| a.wrapping_mul(1009) + *w as u64));
        ensure!(avail >= 4 * n + 1, "accepted", "{what}: accepted while there isn't room for 3 chars per column");
        ensure!(got.len() == n, "columns", "{what}: {} columns instead of {n}", got.len());
        let total = got.iter().sum::<usize>() + n + 1;
        ensure!(total <= avail, "too-wide", "{what}: {got:?} takes {total} columns");
        for i in 0..n {
            ensure!(got[i] >= 3, "too-narrow", "{what}: column {i} is {} wide in {got:?}", got[i]);
            ensure!(
                got[i] <= natural[i],
                "wider",
                "{what}: column {i} is wider than its content in {got:?}"
            );
        }
        ensure!(
            said_reduced == (got != natural),
            "reduced-flag",
            "{what}: reduced to {got:?}, which is said to be {said_reduced}"
        );
        if sum + n + 1 <= avail {
            ensure!(got == natural, "reduced", "{what}: {got:?} while there's room for everything");
        } else {
            count("tables.reduced", 1);
            // what's available is used
            ensure!(
                n == 0 || avail - total == 0,
                "wasted",
                "{what}: {got:?} uses only {total} columns"
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- runs

fn run_body(sc: &FitSc) {
    let made = driver::catch(|| make_skin(sc.base, &sc.skin));
    let (skin, sk) = match made {
        Ok(s) => s,
        Err(p) => {
            driver::live_violation("panic", p);
            return;
        }
    };
    let skin: &'static MadSkin = Box::leak(Box::new(skin));
    for (i, case) in sc.cases.iter().enumerate() {
        sched::note("case", i as u64, 0);
        let r = match case {
            Case::Crop { limit, style, ops, plan } => run_crop(skin, *limit as usize, *style, ops, plan),
            Case::Strs(v) => run_strs(v),
            Case::Fit { span, steps, kind } => {
                let span: &'static str = Box::leak(span.clone().into_boxed_str());
                run_fit(skin, &sk, span, steps, *kind)
            }
            Case::Cols { rows, widths } => run_cols(rows, widths),
        };
        if let Err(v) = r {
            driver::live_violation(&v.class, v.msg);
            break;
        }
    }
    driver::state::<Hist>().end = true;
}

fn gen_text(rng: &mut Rng, tabs: bool) -> String {
    let mut s = String::new();
    for i in 0..rng.size(24) {
        match rng.below(14) {
            0 if tabs => s.push('\t'),
            1 | 2 => s.push(*rng.pick(&['道', 'ア', '，', '🦀'])),
            3 if i > 0 && s.ends_with(|c: char| c.is_alphabetic()) => s.push('\u{301}'),
            4 => s.push('é'),
            5 | 6 => s.push(' '),
            _ => s.push((b'a' + rng.below(26) as u8) as char),
        }
    }
    s
}

pub struct FitProp {
    pub id: &'static str,
    pub rule: &'static str,
}

impl FitProp {
    fn crop(&self) -> bool {
        self.id == "C01"
    }
}

impl Prop for FitProp {
    type Sc = FitSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> FitSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 4_000_000;
        let (base, mut skin) = gen_skin(rng);
        skin.retain(|op| {
            !matches!(op, SkinOp::Special(_) | SkinOp::Margins(Part::Paragraph, ..))
        });
        let mut cases = Vec::new();
        for _ in 0..1 + rng.size(if tier == Tier::Thorough { 7 } else { 4 }) {
            cases.push(if self.crop() {
                if rng.one_in(4) {
                    let mut v = Vec::new();
                    for _ in 0..1 + rng.size(5) {
                        v.push((gen_text(rng, true), rng.size(26) as u16));
                    }
                    Case::Strs(v)
                } else {
                    let limit = match rng.below(12) {
                        0 => rng.below(3) as u16,
                        1 => rng.range(900, 2500) as u16,
                        _ => rng.size(60) as u16,
                    };
                    let mut ops = Vec::new();
                    for _ in 0..1 + rng.size(10) {
                        let st = rng.one_in(2);
                        ops.push(match rng.below(20) {
                            0..=5 => CropOp::Str(st, gen_text(rng, true)),
                            6..=9 => CropOp::Char(
                                st,
                                *rng.pick(&['a', 'é', '道', '\t', ' ', '─', '🦀']),
                            ),
                            10..=12 => CropOp::Gentle(st, gen_gentle(rng)),
                            13 => {
                                if rng.one_in(3) {
                                    CropOp::Fill(st, rng.below(4) as u8)
                                } else {
                                    CropOp::Cropped(gen_text(rng, true))
                                }
                            }
                            14 if rng.one_in(3) => CropOp::FillSpace,
                            15 | 16 => {
                                let mut n = rng.size(12);
                                if limit > 500 {
                                    n *= 100;
                                }
                                CropOp::Repeat(st, rng.below(4) as u8, n as u16)
                            }
                            17 => CropOp::Colors(rng.one_in(2), rng.one_in(2), gen_text(rng, true)),
                            _ => CropOp::Char(st, (b'a' + rng.below(26) as u8) as char),
                        });
                    }
                    Case::Crop {
                        limit,
                        style: rng.below(7) as u8,
                        ops,
                        plan: if rng.one_in(3) { gen_plan(rng) } else { Vec::new() },
                    }
                }
            } else if rng.one_in(4) {
                let n = 1 + rng.size(7);
                let mut rows = Vec::new();
                let big = *rng.pick(&[6u64, 20, 80, 400]);
                for _ in 0..1 + rng.size(8) {
                    let mut row = Vec::new();
                    for _ in 0..if rng.one_in(6) { rng.below(n + 1) } else { n } {
                        row.push(if rng.one_in(4) { rng.size(big) } else { rng.size(10) } as u16);
                    }
                    rows.push(row);
                }
                let mut widths = Vec::new();
                for _ in 0..1 + rng.size(6) {
                    widths.push((n * 4 + rng.size(n * big.min(30) + 10)).saturating_sub(rng.below(3)) as u16);
                }
                Case::Cols { rows, widths }
            } else {
                let words = *rng.pick(&[1u64, 2, 4, 12]);
                let span = gen_spans(rng, words, true, false);
                let len = span.chars().count() as u64;
                let mut steps = Vec::new();
                for _ in 0..1 + rng.size(5) {
                    let w = match rng.below(6) {
                        0 => rng.below(6),
                        1 => len + rng.below(10),
                        _ => rng.below(len + 3),
                    };
                    steps.push((w as u16, rng.below(4) as u8, rng.below(28) as u8));
                }
                Case::Fit { span, steps, kind: if rng.one_in(3) { rng.range(1, 9) as u8 } else { 0 } }
            });
        }
        FitSc {
            sched,
            base,
            skin,
            cases,
        }
    }
    fn sched(&self, sc: &FitSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &FitSc) {
        run_body(sc)
    }
    fn judge(&self, _sc: &FitSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => {
                ensure!(
                    driver::state::<Hist>().end || driver::has_live_violation(),
                    "unfinished",
                    "the run isn't finished"
                );
                Ok(())
            }
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        if self.crop() {
            &["CropWriter, StrFit, Filling, compound styles", "crossterm's styles and commands", "unicode-width"]
        } else {
            &["Fitter, FmtComposite, TblFit, MadSkin", "minimad", "crossterm's styles", "unicode-width"]
        }
    }
    fn stub_components(&self) -> &'static [&'static str] {
        if self.crop() {
            &["the writer: short, interrupted and failing writes", "the terminal: a screen model reads what's written"]
        } else {
            &["the terminal: a screen model reads what's written"]
        }
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "the width of a char is the one given by unicode-width",
            "texts without backspace, new line or other control char than tab",
        ]
    }
}

fn gen_gentle(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.size(16) {
        s.push(*rng.pick(&['a', 'z', '0', ' ', 'é', '─', '│', '»']));
    }
    s
}
