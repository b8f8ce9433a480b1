//! Simulation of several threads printing at the same time, on a terminal
//! whose size changes (or isn't always known), through a standard output
//! which takes what it wants of each write.

use {
    super::doc::{
        gen_doc,
        gen_out_faults,
        gen_skin,
        gen_spans,
        make_skin,
        SkinOp,
    },
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            term,
            OutFault,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        collections::HashSet,
        io::Write,
        sync::Arc,
        time::Duration,
    },
    termimad::{
        minimad::{
            Composite,
            InlineTemplate,
            OwningTemplateExpander,
            TextTemplate,
        },
        FmtText,
        MadSkin,
    },
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct POp {
    /// wait before (µs)
    pub wait: u64,
    pub via: u8,
    /// with the skin of the scenario or with the default one
    pub skin: bool,
    pub text: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrintSc {
    pub sched: SchedCfg,
    pub base: u8,
    pub skin: Vec<SkinOp>,
    /// texts of several lines
    pub texts: Vec<Vec<String>>,
    /// texts of one line
    pub spans: Vec<String>,
    pub threads: Vec<Vec<POp>>,
    /// delay (µs), new width, or size unknown
    pub sizes: Vec<(u64, Option<u16>)>,
    pub out_faults: Vec<OutFault>,
}

struct OpRec {
    /// steps
    start: u64,
    end: u64,
    /// for what's not printed
    string: Option<String>,
    /// what the terminal had got at the end
    out_len: usize,
    err: Option<String>,
}
#[derive(Default)]
struct Hist {
    ops: Vec<Vec<OpRec>>,
    /// step, width
    widths: Vec<(u64, usize)>,
    default_skins: HashSet<usize>,
    end: bool,
}
fn hist() -> &'static mut Hist {
    driver::state::<Hist>()
}

const VIAS: u8 = 14;
const INLINE: &str = "**$0** and `$1`: *$0$2*, ~~end~~";
const TEMPLATE: &str = "# ${title}\n* **${a}**\n${lines\n> ${name}: *${value}*\n}\n----\nend of ${title}";

fn token(t: usize, o: usize) -> String {
    format!("t{t}o{o}")
}
fn text_of(sc: &PrintSc, op: &POp, tok: &str) -> String {
    let lines = match sc.texts.len() {
        0 => &[][..],
        n => &sc.texts[op.text as usize % n][..],
    };
    format!("{tok} text\n{}\n\n{tok} end", lines.join("\n"))
}
fn span_of(sc: &PrintSc, op: &POp, tok: &str) -> String {
    let span = match sc.spans.len() {
        0 => "",
        n => &sc.spans[op.text as usize % n][..],
    };
    format!("**{tok}** {span} *{tok}* ")
}
fn vals(op: &POp, tok: &str) -> [String; 3] {
    [tok.to_string(), format!("value {}", op.text), "x".repeat(op.text as usize % 7)]
}
fn owning(op: &POp, tok: &str) -> OwningTemplateExpander<'static> {
    let mut e = OwningTemplateExpander::new();
    e.set("title", format!("title {tok}"));
    e.set("a", "aa ".repeat(op.text as usize % 9));
    for i in 0..op.text % 4 {
        let sub = e.sub("lines");
        sub.set("name", format!("name {i}"));
        sub.set("value", tok);
    }
    e
}

/// execute the operation, return a string when nothing's printed
fn exec(sc: &PrintSc, skin: &MadSkin, op: &POp, tok: &str) -> Result<Option<String>, String> {
    let default = termimad::get_default_skin();
    let s = if op.skin { skin } else { default };
    let text = text_of(sc, op, tok);
    let span = span_of(sc, op, tok);
    match op.via % VIAS {
        0 => {
            if op.skin {
                s.print_text(&text)
            } else {
                termimad::print_text(&text)
            }
        }
        1 => {
            if op.skin {
                s.print_inline(&span)
            } else {
                termimad::print_inline(&span)
            }
        }
        2 => s.print_composite(Composite::from_inline(&span)),
        3 => {
            let [a, b, c] = vals(op, tok);
            termimad::mad_print_inline!(s, "**$0** and `$1`: *$0$2*, ~~end~~", a, b, c);
        }
        4 => {
            let template = TextTemplate::from(text.as_str());
            s.print_expander(template.expander());
        }
        5 => s.print_owning_expander(&owning(op, tok), &TextTemplate::from(TEMPLATE)),
        6 => s.print_owning_expander_md(&owning(op, tok), TEMPLATE),
        7 => {
            if op.skin {
                print!("{}", s.term_text(&text))
            } else {
                print!("{}", termimad::term_text(&text))
            }
        }
        8 => {
            if op.skin {
                print!("{}", s.inline(&span))
            } else {
                print!("{}", termimad::inline(&span))
            }
        }
        9 => {
            if op.skin {
                print!("{}", s.text(&text, None))
            } else {
                print!("{}", termimad::text(&text))
            }
        }
        // printed in a locked stdout
        10 => {
            let mut w = std::io::stdout().lock();
            s.write_text_on(&mut w, &text).map_err(|e| e.to_string())?;
        }
        11 => {
            let [a, b, c] = vals(op, tok);
            let mut w = std::io::stdout().lock();
            termimad::mad_write_inline!(&mut w, s, "**$0** and `$1`: *$0$2*, ~~end~~", a, b, c)
                .map_err(|e| e.to_string())?;
        }
        // nothing's printed
        12 => return Ok(Some(s.term_text(&text).to_string())),
        _ => {
            // flushed
            if sc.threads.len() > 1 {
                return Ok(Some(s.inline(&span).to_string()));
            }
            if op.text % 2 == 0 {
                s.write_text(&text).map_err(|e| e.to_string())?;
            } else {
                s.write_inline(&span).map_err(|e| e.to_string())?;
            }
        }
    }
    Ok(None)
}

/// what the operation should print for this width
fn expected(sc: &PrintSc, skin: &MadSkin, op: &POp, tok: &str, width: usize) -> String {
    let nude = MadSkin::default();
    let s = if op.skin { skin } else { &nude };
    let text = text_of(sc, op, tok);
    let span = span_of(sc, op, tok);
    match op.via % VIAS {
        0 | 7 | 10 | 12 => s.text(&text, Some(width)).to_string(),
        1 | 2 | 8 => s.inline(&span).to_string(),
        3 | 11 => {
            let template = InlineTemplate::from(INLINE);
            let vals = vals(op, tok);
            let mut composite = template.raw_composite();
            for (i, v) in vals.iter().enumerate() {
                template.apply(&mut composite, i, v);
            }
            let mut w = Vec::new();
            let _ = s.write_composite(&mut w, composite);
            String::from_utf8_lossy(&w).to_string()
        }
        4 => {
            let template = TextTemplate::from(text.as_str());
            FmtText::from_text(s, template.expander().expand(), Some(width)).to_string()
        }
        5 | 6 => {
            let template = TextTemplate::from(TEMPLATE);
            let e = owning(op, tok);
            FmtText::from_text(s, e.expand(&template), Some(width)).to_string()
        }
        9 => s.text(&text, None).to_string(),
        _ => {
            if sc.threads.len() > 1 || op.text % 2 == 1 {
                s.inline(&span).to_string()
            } else {
                s.text(&text, Some(width)).to_string()
            }
        }
    }
}

fn set_size(w: Option<u16>) {
    let t = term();
    t.size = (w.unwrap_or(77), 24);
    t.size_err = w.is_none();
    hist().widths.push((sched::step(), w.map_or(50, |w| w as usize)));
    sched::note("size", w.unwrap_or(0) as u64, 0);
}

fn run_body(sc: &PrintSc) {
    let (skin, _) = make_skin(sc.base, &sc.skin);
    let skin = Arc::new(skin);
    term().out_faults = sc.out_faults.iter().cloned().collect();
    let mut sizes = sc.sizes.clone();
    if sizes.is_empty() {
        sizes.push((0, Some(80)));
    }
    set_size(sizes.remove(0).1);
    hist().ops = sc.threads.iter().map(|_| Vec::new()).collect();
    let mut handles = Vec::new();
    if !sizes.is_empty() {
        handles.push(std::thread::spawn(move || {
            for (us, w) in sizes {
                std::thread::sleep(Duration::from_micros(us));
                set_size(w);
                count("fault.resizes", 1);
            }
        }));
    }
    let sc2 = Arc::new(sc.clone());
    for (t, ops) in sc.threads.iter().enumerate() {
        let ops = ops.clone();
        let scenario = sc2.clone();
        let skin = skin.clone();
        let run = move || {
            for (o, op) in ops.iter().enumerate() {
                if op.wait > 0 {
                    std::thread::sleep(Duration::from_micros(op.wait));
                }
                let tok = token(t, o);
                let start = sched::step();
                sched::note("op", t as u64, op.via as u64);
                hist().default_skins.insert(termimad::get_default_skin() as *const MadSkin as usize);
                let r = driver::catch(|| exec(&scenario, &skin, op, &tok));
                let (string, err) = match r {
                    Ok(Ok(s)) => (s, None),
                    Ok(Err(e)) => (None, Some(e)),
                    Err(p) => (None, Some(format!("panic: {p}"))),
                };
                let stop = err.is_some();
                hist().ops[t].push(OpRec {
                    start,
                    end: sched::step(),
                    string,
                    out_len: term().out.len(),
                    err,
                });
                count("prints", 1);
                if stop {
                    return;
                }
            }
        };
        if sc.threads.len() == 1 {
            run();
        } else {
            handles.push(std::thread::spawn(run));
        }
    }
    for h in handles {
        let _ = h.join();
    }
    if let Err(e) = std::io::stdout().flush() {
        driver::live_violation("flush", format!("the final flush failed: {e}"));
    }
    hist().end = true;
}

/// widths the terminal had during this operation
fn widths(h: &Hist, rec: &OpRec) -> Vec<usize> {
    let mut v = Vec::new();
    for (i, (at, w)) in h.widths.iter().enumerate() {
        let until = h.widths.get(i + 1).map_or(u64::MAX, |n| n.0);
        if *at <= rec.end && until >= rec.start && !v.contains(w) {
            v.push(*w);
        }
    }
    v
}

fn judge(sc: &PrintSc) -> Verdict {
    let h = hist();
    let (skin, _) = make_skin(sc.base, &sc.skin);
    ensure!(h.end, "unfinished", "the run isn't finished");
    ensure!(
        h.default_skins.len() <= 1,
        "default-skin",
        "there are several default skins"
    );
    // what each operation may have printed
    let mut exp: Vec<Vec<Vec<String>>> = Vec::new();
    for (t, ops) in sc.threads.iter().enumerate() {
        let mut v = Vec::new();
        ensure!(
            h.ops[t].len() == ops.len() || h.ops[t].last().map_or(false, |r| r.err.is_some()),
            "lost-operation",
            "thread {t} did {} operations instead of {}",
            h.ops[t].len(),
            ops.len()
        );
        for (o, (op, rec)) in ops.iter().zip(&h.ops[t]).enumerate() {
            if let Some(e) = &rec.err {
                return viol(
                    if e.starts_with("panic") { "panic" } else { "error" },
                    format!("operation {} of thread {t} failed: {e}", o + 1),
                );
            }
            let tok = token(t, o);
            let widths = widths(h, rec);
            if widths.len() > 1 {
                count("prints_during_a_resize", 1);
            }
            let mut alts: Vec<String> = Vec::new();
            for w in widths {
                let s = expected(sc, &skin, op, &tok, w);
                if !alts.contains(&s) {
                    alts.push(s);
                }
            }
            match &rec.string {
                Some(s) => ensure!(
                    alts.contains(s),
                    "wrong-string",
                    "operation {} of thread {t} rendered {:?} instead of {:?}",
                    o + 1,
                    s,
                    alts
                ),
                None => {
                    if op.via % VIAS == 13 {
                        // flushed
                        let out = &term().out[..rec.out_len];
                        ensure!(
                            alts.iter().any(|a| out.ends_with(a.as_bytes())),
                            "not-flushed",
                            "the terminal hadn't got all of operation {} when its end was announced",
                            o + 1
                        );
                    }
                    v.push(alts);
                }
            }
        }
        exp.push(v);
    }
    let out = &term().out;
    let mut best = (0, Vec::new());
    let mut seen = HashSet::new();
    let mut order = Vec::new();
    if !interleaved(&exp, &mut vec![0; exp.len()], out, 0, &mut seen, &mut best, &mut order) {
        return viol(
            "mixed-output",
            format!(
                "the output isn't made of whole renderings, from byte {} ({:?} prints recognized): {:?}",
                best.0,
                best.1,
                String::from_utf8_lossy(&out[best.0..(best.0 + 300).min(out.len())])
            ),
        );
    }
    let mut f = 0u64;
    for t in &order {
        f = (f ^ (*t as u64 + 1)).wrapping_mul(0x100_0000_01b3);
    }
    let mut o = 0u64;
    for b in out {
        o = (o ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    driver::fingerprint(f);
    driver::fingerprint(o);
    if !out.is_empty() {
        driver::nontrivial();
    }
    Ok(())
}

/// whether the output is an interleaving of whole prints
fn interleaved(
    exp: &[Vec<Vec<String>>],
    idx: &mut Vec<usize>,
    out: &[u8],
    at: usize,
    seen: &mut HashSet<(Vec<usize>, usize)>,
    best: &mut (usize, Vec<usize>),
    order: &mut Vec<usize>,
) -> bool {
    if at >= best.0 {
        *best = (at, idx.clone());
    }
    if idx.iter().zip(exp).all(|(i, e)| *i == e.len()) {
        return at == out.len();
    }
    if !seen.insert((idx.clone(), at)) {
        return false;
    }
    for t in 0..exp.len() {
        if idx[t] == exp[t].len() {
            continue;
        }
        for alt in &exp[t][idx[t]] {
            if out[at..].starts_with(alt.as_bytes()) {
                idx[t] += 1;
                order.push(t);
                if interleaved(exp, idx, out, at + alt.len(), seen, best, order) {
                    return true;
                }
                order.pop();
                idx[t] -= 1;
            }
        }
    }
    false
}

pub struct PrintProp {
    pub rule: &'static str,
}

impl Prop for PrintProp {
    type Sc = PrintSc;
    fn id(&self) -> &'static str {
        "W01"
    }
    fn quick_runs(&self) -> u64 {
        24000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> PrintSc {
        let mut sched = SchedCfg::swarm(rng);
        sched.step_limit = 3_000_000;
        let (base, skin) = gen_skin(rng);
        let thorough = tier == Tier::Thorough;
        let mut texts = Vec::new();
        for _ in 0..1 + rng.size(2) {
            let blocks = 1 + rng.below(3);
            texts.push(gen_doc(rng, blocks, false));
        }
        let mut spans = Vec::new();
        for _ in 0..1 + rng.size(3) {
            spans.push(gen_spans(rng, 8, true, false));
        }
        let n = if rng.one_in(6) { 1 } else { 2 + rng.size(if thorough { 4 } else { 2 }) as usize };
        let mut threads = Vec::new();
        let waits = rng.one_in(2);
        for _ in 0..n {
            let mut ops = Vec::new();
            for _ in 0..1 + rng.size(if thorough { 8 } else { 4 }) {
                ops.push(POp {
                    wait: if waits { rng.size(2000) } else { 0 },
                    via: rng.below(VIAS as u64) as u8,
                    skin: rng.one_in(2),
                    text: rng.below(30) as u8,
                });
            }
            threads.push(ops);
        }
        let mut sizes = Vec::new();
        for _ in 0..1 + rng.size(6) {
            sizes.push((
                rng.size(2000),
                if rng.one_in(6) {
                    None
                } else {
                    Some(rng.range(20, 120) as u16)
                },
            ));
        }
        PrintSc {
            sched,
            base,
            skin,
            texts,
            spans,
            threads,
            sizes,
            out_faults: gen_out_faults(rng),
        }
    }
    fn sched(&self, sc: &PrintSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &PrintSc) {
        run_body(sc)
    }
    fn judge(&self, sc: &PrintSc, outcome: &Outcome) -> Verdict {
        match outcome {
            Outcome::Done => judge(sc),
            Outcome::Panicked(p) => viol("panic", p.clone()),
            o => viol("stuck", format!("{o:?}")),
        }
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad (all of it: skins, wrapping, rendering, print functions and macros, default skin)",
            "minimad, coolor, unicode-width, once_cell",
            "crossterm's styles and commands",
            "std's threads, sleep, stdout with its lock and line buffering",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "futex, clock, sleep, thread creation (seeded scheduler)",
            "terminal size",
            "write(2) on the standard output: short, interrupted",
        ]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the rendering of a text alone for a width is the right one (properties W03, W04 and S01)"]
    }
}
