pub mod app;
pub mod ask;
pub mod doc;
pub mod events;
pub mod fit;
pub mod print;
pub mod skinfile;
pub mod styles;
pub mod ticker;
pub mod writers;

use {
    crate::driver::Check,
    events::*,
};

const EV_RULE: &str = "scenarios (terminal inputs with delays, consumers, quit, faults) and schedules are drawn from the seed; a run counts when at least one event or escape sequence was received, or a construction failed as injected; two runs are distinct when the interleaved sequence of terminal inputs read, events received (with the event count then) and acknowledgments differ";
const TK_RULE: &str = "scenarios (starts, stops, drops of beams by several threads) and schedules are drawn from the seed; a run counts when at least one tick was received; two runs are distinct when the sequence of the beams of the received ticks differ";
const AK_RULE: &str = "dialogs (questions, typed bytes, cuts, faults) are drawn from the seed; a run counts when at least one question ended with an answer or an error; two runs are distinct when the results or the number of reads they took differ";

const APP_RULE: &str = "applications (view and content, terminal sizes, user events with delays, resizes, background messages, failing writes) and schedules are drawn from the seed; a run counts when at least one event was handled; two runs are distinct when the interleaved sequence of inputs, messages and resulting view states differ";

const DOC_RULE: &str = "documents, skins, terminal sizes between the prints and output faults are drawn from the seed; a run counts when something was printed; two runs are distinct when the printed bytes differ";

const PR_RULE: &str = "threads and what they print, skins, changes of the size of the terminal, output faults and schedules are drawn from the seed; a run counts when something was printed; two runs are distinct when the order of the prints of the threads or the printed bytes differ";

const WR_RULE: &str = "what is drawn, by which functions, on which skin and with which faults of the writer is drawn from the seed; a run counts when at least one drawing was done; two runs are distinct when the functions, or the number of bytes accepted by the writers, differ";

const FIT_RULE: &str = "texts, skins, limits, drawings and faults of the writer are drawn from the seed; a run counts when at least one drawing, fit or table was checked; two runs are distinct when the sizes of the successive results differ";

const SF_RULE: &str = "skins, saves, hand edits, damages, loads and their faults are drawn from the seed; a run counts when at least one load was done; two runs are distinct when the sizes of the saved and edited files, or the results of the loads, differ";

const ST_RULE: &str = "styles, their changes, what is drawn with them and the faults of the writer are drawn from the seed; a run counts when at least one drawing was done; two runs are distinct when the sequence of drawings, or the number of bytes accepted by the writers, differ";

pub fn all() -> Vec<&'static dyn Check> {
    use app::AppProp;
    let app = |id, focus| -> Box<dyn Check> { Box::new(AppProp { id, focus, rule: APP_RULE }) };
    let v: Vec<Box<dyn Check>> = vec![
        Box::new(EventProp { id: "E01", focus: Focus::Delivery, rule: EV_RULE }),
        Box::new(EventProp { id: "E02", focus: Focus::Lockstep, rule: EV_RULE }),
        Box::new(EventProp { id: "E03", focus: Focus::Quit, rule: EV_RULE }),
        Box::new(EventProp { id: "E04", focus: Focus::Count, rule: EV_RULE }),
        Box::new(EventProp { id: "E05", focus: Focus::Clicks, rule: EV_RULE }),
        Box::new(EventProp { id: "E06", focus: Focus::Modes, rule: EV_RULE }),
        Box::new(EventProp { id: "E07", focus: Focus::Seqs, rule: EV_RULE }),
        Box::new(ticker::TickProp { id: "T01", focus: ticker::Focus::Counts, rule: TK_RULE }),
        Box::new(ticker::TickProp { id: "T02", focus: ticker::Focus::Stops, rule: TK_RULE }),
        Box::new(ticker::TickProp { id: "T03", focus: ticker::Focus::End, rule: TK_RULE }),
        Box::new(ask::AskProp { id: "A01", faults: false, rule: AK_RULE }),
        Box::new(ask::AskProp { id: "A02", faults: true, rule: AK_RULE }),
        app("V01", app::Focus::Frames),
        app("V02", app::Focus::Scroll),
        app("V03", app::Focus::Edit),
        app("V04", app::Focus::Cursor),
        app("L01", app::Focus::Rows),
        app("L02", app::Focus::ListScroll),
        Box::new(print::PrintProp { rule: PR_RULE }),
        Box::new(writers::WriterProp { rule: WR_RULE }),
        Box::new(doc::DocProp { id: "W03", focus: doc::Focus::Fit, rule: DOC_RULE }),
        Box::new(doc::DocProp { id: "W04", focus: doc::Focus::Layout, rule: DOC_RULE }),
        Box::new(doc::DocProp { id: "S01", focus: doc::Focus::Style, rule: DOC_RULE }),
        Box::new(fit::FitProp { id: "C01", rule: FIT_RULE }),
        Box::new(fit::FitProp { id: "C02", rule: FIT_RULE }),
        Box::new(styles::StyleProp { rule: ST_RULE }),
        Box::new(skinfile::SkinFileProp { rule: SF_RULE }),
    ];
    v.into_iter().map(|c| &*Box::leak(c)).collect()
}
