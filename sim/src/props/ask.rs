//! Simulation of a console dialog: questions on one side, a user (or a pipe)
//! typing at its own pace on the other one.

use {
    crate::{
        driver::{
            self,
            count,
            viol,
            Prop,
            Tier,
            Verdict,
        },
        ensure,
        rng::Rng,
        sched::{
            self,
            Outcome,
            SchedCfg,
        },
        term::{
            self,
            term,
            OutFault,
            StdinItem,
        },
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::io,
    termimad::{
        MadSkin,
        Question,
    },
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Q {
    pub md: Option<String>,
    pub keys: Vec<String>,
    pub default: Option<String>,
    /// what the application does of its own with stdout between questions
    pub think_us: u64,
    /// asked through the macro (two fixed forms)
    pub with_macro: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AskSc {
    pub sched: SchedCfg,
    pub questions: Vec<Q>,
    pub stdin: Vec<(u64, StdinItem)>,
    /// max bytes given by a read
    pub chunk: u64,
    pub out_faults: Vec<OutFault>,
    /// size of the terminal, or an error
    pub size: Option<(u16, u16)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Key(String),
    Err(io::ErrorKind),
    Panic(String),
}

#[derive(Default)]
struct Hist {
    results: Vec<Res>,
    /// bytes printed when the question ended
    out_len: Vec<usize>,
    reads: Vec<u64>,
    delivered: Vec<usize>,
}
fn hist() -> &'static mut Hist {
    driver::state::<Hist>()
}

fn run_body(sc: &AskSc) {
    {
        let t = term();
        t.max_chunk = (sc.chunk as usize).max(1);
        match sc.size {
            Some(s) => t.size = s,
            None => t.size_err = true,
        }
        t.out_faults = sc.out_faults.iter().cloned().collect();
    }
    term::feed_stdin(&sc.stdin);
    let skin = MadSkin::no_style();
    for q in &sc.questions {
        if q.think_us > 0 {
            std::thread::sleep(std::time::Duration::from_micros(q.think_us));
        }
        let r = driver::catch(|| match q.with_macro {
            1 => Ok(termimad::ask!(&skin, "Do you want *it* ?", ('n') {
                ('y', "**Y**es") => { "y".to_string() }
                ('n', "**N**o") => { "n".to_string() }
            })),
            2 => Ok(termimad::ask!(&skin, "Which one ?", {
                ("oj", "**o**range **j**uice") => { "oj".to_string() }
                ('w', "wine") => { "w".to_string() }
                (2, "two") => { "2".to_string() }
            })),
            _ => {
                let mut question = Question::new(q.md.clone().unwrap_or_default());
                if q.md.is_none() {
                    question.md = None;
                }
                for k in &q.keys {
                    question.add_answer(k, format!("answer *{k}*"));
                }
                if let Some(d) = &q.default {
                    question.set_default(d);
                }
                question.ask(&skin)
            }
        });
        let h = hist();
        h.out_len.push(term().out.len());
        h.reads.push(term().stdin_reads);
        h.delivered.push(term().stdin_delivered.len());
        let stop = match r {
            Ok(Ok(k)) => {
                driver::nontrivial();
                count("answers", 1);
                for b in k.bytes() {
                    driver::fingerprint(b as u64);
                }
                driver::fingerprint(k.len() as u64);
                driver::fingerprint(term().stdin_reads);
                sched::note_str("answer", &k);
                h.results.push(Res::Key(k));
                false
            }
            Ok(Err(e)) => {
                driver::nontrivial();
                count("errors", 1);
                sched::note_str("error", &format!("{:?}", e.kind()));
                driver::fingerprint(e.kind() as u64 + 1000);
                h.results.push(Res::Err(e.kind()));
                true
            }
            Err(p) => {
                sched::note_str("panicked", &p);
                driver::fingerprint(99);
                h.results.push(Res::Panic(p));
                true
            }
        };
        if stop {
            break;
        }
    }
}

/// what should happen, question after question, according to the typed bytes
#[derive(Debug, PartialEq)]
enum Exp {
    Key { key: String, lines: usize },
    /// no more input but not closed
    Waiting,
    /// an error, a panic for macros
    Error,
    /// end of file: the default is returned if there's one
    Eof,
}

struct Script {
    bytes: Vec<u8>,
    /// what's after the bytes
    end: End,
}
#[derive(PartialEq)]
enum End {
    Nothing,
    Eof,
    Errno,
}

fn script(sc: &AskSc) -> Script {
    let mut bytes = Vec::new();
    for (_, i) in &sc.stdin {
        match i {
            StdinItem::Data(s) => bytes.extend_from_slice(s.as_bytes()),
            StdinItem::Bytes(b) => bytes.extend_from_slice(b),
            StdinItem::Eintr => {}
            StdinItem::Errno(_) => {
                return Script {
                    bytes,
                    end: End::Errno,
                }
            }
            StdinItem::Eof => {
                return Script {
                    bytes,
                    end: End::Eof,
                }
            }
        }
    }
    Script {
        bytes,
        end: End::Nothing,
    }
}

fn spec_of(q: &Q) -> (Vec<String>, Option<String>) {
    let v = |l: &[&str]| l.iter().map(|s| s.to_string()).collect();
    match q.with_macro {
        1 => (v(&["y", "n"]), Some("n".to_string())),
        2 => (v(&["oj", "w", "2"]), None),
        _ => (q.keys.clone(), q.default.clone()),
    }
}

/// the reference model. The position is the number of consumed bytes
fn model(s: &Script, pos: &mut usize, keys: &[String], default: Option<&String>) -> Exp {
    let mut lines = 0;
    loop {
        let rest = &s.bytes[*pos..];
        let (line, complete) = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => (&rest[..=i], true),
            None => (rest, false),
        };
        if !complete {
            match s.end {
                End::Nothing => return Exp::Waiting,
                End::Errno => return Exp::Error,
                End::Eof => {
                    if line.is_empty() {
                        return Exp::Eof;
                    }
                }
            }
        }
        *pos += line.len();
        lines += 1;
        let Ok(line) = std::str::from_utf8(line) else {
            return Exp::Error;
        };
        let typed = line.trim_end();
        if typed.is_empty() {
            if let Some(d) = default {
                return Exp::Key {
                    key: d.clone(),
                    lines,
                };
            }
        }
        if keys.iter().any(|k| k == typed) {
            return Exp::Key {
                key: typed.to_string(),
                lines,
            };
        }
    }
}

fn judge_answers(sc: &AskSc, o: &Outcome, ends: bool) -> Verdict {
    let h = hist();
    let s = script(sc);
    let mut pos = 0;
    let mut out_from = 0;
    for (i, q) in sc.questions.iter().enumerate() {
        let (keys, default) = spec_of(q);
        let exp = model(&s, &mut pos, &keys, default.as_ref());
        let got = h.results.get(i);
        match (&exp, got) {
            (Exp::Key { key, lines }, Some(Res::Key(k))) => {
                ensure!(
                    key == k,
                    "wrong-answer",
                    "question {} returned {:?} instead of {:?} (keys {:?}, default {:?})",
                    i + 1,
                    k,
                    key,
                    keys,
                    default
                );
                ensure!(
                    keys.contains(k) || default.as_ref() == Some(k),
                    "undeclared-answer",
                    "question {} returned {:?}, which is neither an answer nor the default one",
                    i + 1,
                    k
                );
                if *lines > 1 {
                    count("asked_again", 1);
                }
                if default.as_ref() == Some(k) {
                    count("defaults", 1);
                }
                // each refused line was answered to
                let txt = String::from_utf8_lossy(&term().out[out_from..h.out_len[i]]).into_owned();
                let refused = txt.matches("not understood").count();
                ensure!(
                    refused == lines - 1,
                    "silent-retry",
                    "question {}: {} lines were refused, the user was told {} times",
                    i + 1,
                    lines - 1,
                    refused
                );
                // everything was printed before the waiting for the answer
                for k in &keys {
                    ensure!(
                        txt.contains(k.as_str()),
                        "answer-not-shown",
                        "question {}: the possible answer {:?} wasn't shown",
                        i + 1,
                        k
                    );
                }
            }
            (Exp::Waiting, None) => {
                return match o {
                    Outcome::Stuck(_) => {
                        count("left_waiting", 1);
                        Ok(())
                    }
                    o => viol(
                        "not-waiting",
                        format!("the user has not answered but the outcome is {o:?}"),
                    ),
                };
            }
            (Exp::Error, Some(Res::Err(_))) => {
                count("io_errors_returned", 1);
                return Ok(());
            }
            (Exp::Error, Some(Res::Panic(_))) if q.with_macro != 0 => {
                count("macro_panics_on_error", 1);
                return Ok(());
            }
            (Exp::Eof, Some(Res::Key(k))) if default.as_ref() == Some(k) => {
                count("default_at_end_of_input", 1);
            }
            (Exp::Eof, Some(Res::Err(_))) if default.is_none() => {
                count("end_of_input_errors", 1);
                return Ok(());
            }
            (Exp::Eof, Some(Res::Panic(_))) if q.with_macro != 0 && default.is_none() => {
                count("macro_panics_on_error", 1);
                return Ok(());
            }
            (Exp::Eof, None) => {
                return match o {
                    Outcome::StepLimit(_) | Outcome::Stuck(_) if ends => viol(
                        "asks-for-ever",
                        format!(
                            "question {} never ends while the input is closed ({} reads)",
                            i + 1,
                            term().stdin_reads
                        ),
                    ),
                    _ => Ok(()),
                };
            }
            (exp, Some(Res::Panic(p))) => {
                return viol("panic", format!("question {} panicked: {p} (expected {exp:?})", i + 1));
            }
            (exp, got) => {
                return viol(
                    "wrong-answer",
                    format!(
                        "question {}: {:?} instead of {:?} (keys {:?}, default {:?}), outcome {:?}",
                        i + 1,
                        got,
                        exp,
                        keys,
                        default,
                        o
                    ),
                );
            }
        }
        out_from = h.out_len[i];
    }
    match o {
        Outcome::Done => Ok(()),
        Outcome::Panicked(p) => viol("panic", p.clone()),
        o => viol("stuck", format!("{o:?}")),
    }
}

fn gen_key(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 => format!("{}", rng.below(100)),
        1 => "yes".into(),
        2 => "é".into(),
        3 => "日本".into(),
        4 => format!("two words{}", rng.below(3)),
        5 => "Y".into(),
        _ => ((b'a' + rng.below(26) as u8) as char).to_string(),
    }
}

fn gen_line(rng: &mut Rng, q: &Q) -> String {
    let (keys, default) = spec_of(q);
    let mut s = match rng.below(10) {
        0 => String::new(),
        1 => "   ".into(),
        2 => gen_key(rng),
        3 => " ".to_string() + &keys.first().cloned().unwrap_or_default(),
        4 => keys.first().map(|k| k.to_uppercase()).unwrap_or_default(),
        5 => keys.iter().map(|k| k.as_str()).collect::<Vec<_>>().join(""),
        6 => default.unwrap_or_default(),
        _ => {
            if keys.is_empty() {
                "?".into()
            } else {
                keys[rng.usize(keys.len())].clone()
            }
        }
    };
    match rng.below(6) {
        0 => s.push_str("  "),
        1 => s.push('\t'),
        2 => s.push('\r'),
        _ => {}
    }
    s.push('\n');
    s
}

pub struct AskProp {
    pub id: &'static str,
    /// with ends of files, errors, etc.
    pub faults: bool,
    pub rule: &'static str,
}

impl Prop for AskProp {
    type Sc = AskSc;
    fn id(&self) -> &'static str {
        self.id
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn gen(&self, rng: &mut Rng, _idx: u64, tier: Tier) -> AskSc {
        let mut sched = SchedCfg::calm(rng.next());
        sched.step_limit = 150_000;
        let n = rng.range(1, if tier == Tier::Thorough { 8 } else { 4 });
        let mut questions = Vec::new();
        for _ in 0..n {
            let with_macro = if rng.one_in(5) { rng.range(1, 2) as u8 } else { 0 };
            let keys: Vec<String> = (0..rng.range(1, 4)).map(|_| gen_key(rng)).collect();
            let default = match rng.below(4) {
                0 => None,
                1 => Some("exotic".to_string()),
                2 => Some(gen_key(rng)),
                _ => Some(keys[rng.usize(keys.len())].clone()),
            };
            questions.push(Q {
                md: if rng.one_in(5) {
                    None
                } else {
                    Some("Do you *really* want **this** ?".to_string())
                },
                keys,
                default,
                think_us: if rng.one_in(2) { 0 } else { rng.below(1_000_000) },
                with_macro,
            });
        }
        // the typed text
        let mut text: Vec<u8> = Vec::new();
        let stubborn = if rng.one_in(60) { rng.usize(questions.len()) } else { usize::MAX };
        for (i, q) in questions.iter().enumerate() {
            if i == stubborn {
                // a user (or a pipe) giving wrong lines again and again
                let n = if rng.one_in(10) { rng.range(200, 1100) } else { rng.range(5, 140) };
                for _ in 0..n {
                    text.extend_from_slice(rng.pick(&["#\n", "##\n", "# \n", "#y\n"]).as_bytes());
                }
                sched.step_limit += n * 20_000;
            }
            for _ in 0..rng.size(4) {
                text.extend_from_slice(gen_line(rng, q).as_bytes());
            }
        }
        if rng.one_in(4) {
            // no final new line
            text.pop();
        }
        if self.faults && rng.one_in(4) && !text.is_empty() {
            let i = rng.usize(text.len());
            text.insert(i, *rng.pick(&[0xff, 0xc3, 0x80, 0]));
        }
        // cut anywhere: in the middle of a line, of a char...
        let mut stdin = Vec::new();
        let mut i = 0;
        let typical = *rng.pick(&[1, 3, 10, 1000]);
        while i < text.len() {
            let len = (1 + rng.usize(typical)).min(text.len() - i);
            let part = &text[i..i + len];
            let delay = if rng.one_in(2) { 0 } else { rng.below(500_000) };
            stdin.push((
                delay,
                match std::str::from_utf8(part) {
                    Ok(s) => StdinItem::Data(s.to_string()),
                    Err(_) => StdinItem::Bytes(part.to_vec()),
                },
            ));
            if rng.one_in(6) {
                stdin.push((rng.below(1000), StdinItem::Eintr));
            }
            i += len;
        }
        if self.faults {
            match rng.below(4) {
                0 => {}
                1 => {
                    let at = rng.usize(stdin.len() + 1);
                    stdin.truncate(at);
                    stdin.push((
                        rng.below(1000),
                        StdinItem::Errno(*rng.pick(&[libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ENXIO])),
                    ));
                }
                2 => {
                    let at = rng.usize(stdin.len() + 1);
                    stdin.truncate(at);
                    stdin.push((rng.below(1000), StdinItem::Eof));
                }
                _ => stdin.push((rng.below(1000), StdinItem::Eof)),
            }
        }
        let mut out_faults = Vec::new();
        if rng.one_in(3) {
            for _ in 0..rng.range(1, 30) {
                out_faults.push(match rng.below(3) {
                    0 => OutFault::Ok,
                    1 => OutFault::Short(rng.range(1, 9) as u32),
                    _ => OutFault::Eintr,
                });
            }
        }
        AskSc {
            sched,
            questions,
            stdin,
            chunk: *rng.pick(&[1, 2, 7, 4096, 100_000]),
            out_faults,
            size: if rng.one_in(10) {
                None
            } else {
                Some((rng.range(30, 200) as u16, rng.range(3, 60) as u16))
            },
        }
    }
    fn sched(&self, sc: &AskSc) -> SchedCfg {
        sc.sched.clone()
    }
    fn body(&self, sc: &AskSc) {
        run_body(sc);
    }
    fn judge(&self, sc: &AskSc, o: &Outcome) -> Verdict {
        judge_answers(sc, o, self.faults)
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn real_components(&self) -> &'static [&'static str] {
        &[
            "termimad::Question::ask, the ask! macro and the text printing they use",
            "std's Stdin, BufReader, Stdout and LineWriter",
        ]
    }
    fn stub_components(&self) -> &'static [&'static str] {
        &[
            "read on fd 0 (simulated typing, with splits, delays, EINTR, errors, end of file)",
            "write on fd 1 (recorded, with short writes and EINTR)",
            "terminal size",
            "clock and sleep",
        ]
    }
}
