#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step from this single source)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "deterministic simulation with fault injection: seeded schedules of the real threads, simulated clock and terminal, checked against a reference model"
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, tech=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, tech=tech, observe=observe, state=state))

EV = "src/events/event_source.rs"
prop("E01", "Terminal events are delivered exactly once, in order, correctly decorated",
 "Every terminal event which isn't filtered out by the options of the event source and isn't part of a complete escape sequence is delivered to the application exactly once, in the order it came from the terminal, with the key combination the key combiner computes for it, as long as the application acknowledges what it receives. Read errors of the terminal lose nothing, and the event channel stays open while the application uses it.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "any history of keys, mouse, resize, paste and focus events, with any timing and transient read errors; any option set; any number of consumer threads, reaction times and interleavings",
 "There is no test of the event source at all: it needs a terminal, a thread and time. A test would sample one interleaving and one history.",
 [EV, "src/events/timed_event.rs"],
 [{"name": "reading loop, filters, escape sequence replay, send_and_wait", "where": EV}],
 observe=["EventSource::receiver", "TimedEvent"])
prop("E02", "No terminal event is read or emitted before the previous one is acknowledged",
 "After emitting an event, the event source neither reads the terminal nor emits anything before the application tells it to go on; and once told, it always goes on. So another program launched by the application while it handles an event gets all of what is typed.",
 ["schedules", "histories", "fault_sequences"],
 "any interleaving of the source's thread with consumer threads which may acknowledge late, from another thread, or once too often; any event history including replayed escape sequence keys",
 "It's a property of all interleavings between a reading thread and the application; existing tests never run the event source.",
 [EV], [{"name": "send_and_wait and unblock", "where": EV}], observe=["crossterm::event::read", "EventSource::unblock"])
prop("E03", "Quitting or dropping the event source ends its thread and its terminal use",
 "When the application quits while handling an event, whether by telling it to the source, by dropping it, or by panicking, the source reads nothing more from the terminal, emits nothing more, its thread ends and its channels are closed. When it quits while the source waits for input, at most one more event is taken from the terminal and then the same holds, even if the terminal can't be read any more.",
 ["schedules", "crash_points", "fault_sequences"],
 "any moment of the quit in any event history, any way of quitting, permanent or transient read errors before and after, any interleaving",
 "The end of a detached thread is invisible to unit tests and depends on where the thread is when the quit comes.",
 [EV], [{"name": "rx_quit handling in send_and_wait and after read errors", "where": EV}], observe=["thread ends", "crossterm::event::read", "receiver disconnection"])
prop("E04", "The shared event count tells other threads of an event at its emission",
 "The shared event count never decreases, is at least the number of events received so far when any event is received, is never more than the number of emitted events, and equals the number of received events once the application has handled all of them.",
 ["schedules", "histories"],
 "any interleaving of the source's thread, consumers and observers reading the count at any time; any history",
 "It relates what several threads see at the same time, for all interleavings; no test covers it.",
 [EV], [{"name": "event count increment in send_and_wait", "where": EV}], observe=["EventSource::shared_event_count"])
prop("E05", "Events are dated at arrival, and double clicks are the fast repeated ones",
 "The dates of events are between their arrival from the terminal and their reception, and never go backwards. A left mouse button event is marked as a double click if and only if it's less than 700 ms after the last left button release and on the same cell as it.",
 ["schedules", "histories", "inputs"],
 "any history of mouse and other events with any delays, including near the limit, stalls of any thread, slow consumers",
 "It depends on the real clock: a test can't choose delays around the limit nor stall threads.",
 [EV, "src/events/timed_event.rs"], [{"name": "last_up and DOUBLE_CLICK_MAX_DURATION", "where": EV}], observe=["TimedEvent::double_click", "TimedEvent::time"])
prop("E06", "The terminal gets its modes back however the event source ends",
 "The terminal is in raw mode while an event source lives and isn't any more after it is dropped, be it dropped normally or by a panic of the application, and when its construction fails. The keyboard enhancement flags are pushed only when combining is asked for and supported, and there are never more pops than pushes, nor more than one level left.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "successive event sources in a process, any option set, failures of raw mode, of the keyboard query and of writes to the terminal, panics while handling an event, any interleaving",
 "It needs a terminal failing at chosen points, and threads ending at chosen times.",
 [EV], [{"name": "enable_raw_mode in construction, Drop", "where": EV}, {"name": "crokey::Combiner", "where": EV}], observe=["raw mode", "keyboard flags written to stdout"])
prop("E07", "Escape sequences are delivered complete, or their keys replayed as ordinary ones",
 "A sequence of keys from alt-_ to alt-\\ with no key holding alt or control and no other event in between is delivered as one escape sequence with all its keys in order, whose text is the typed one, and none of its keys is delivered as an event; it's lost only when ten of them are already waiting. The keys of a sequence which is interrupted are all delivered as events, in order, just before what interrupts it.",
 ["histories", "schedules", "fault_sequences"],
 "any history mixing complete, broken, nested and unterminated sequences with other events and read errors, slow or absent readers of the sequences, any interleaving",
 "No test covers escape sequences; the buffering, replay and bounded channel interact with timing and with the acknowledgments.",
 [EV, "src/events/escape_sequence.rs"], [{"name": "current_escape_sequence and the bounded sequence channel", "where": EV}], observe=["EventSource::escape_sequence_receiver", "EventSource::receiver"])
TB = "src/events/tick_beam.rs"
prop("T01", "Beams of a ticker give the right number of ticks, neither early nor late",
 "A beam asked for n ticks sends exactly n ticks with its payload if nobody stops it, and an infinite beam never stops by itself; the k-th tick never comes before k periods after the start and isn't delayed by anything else than the load of the machine.",
 ["schedules", "histories"],
 "any set of concurrent beams (once, several times, infinite) with periods from 0 to hours, started and stopped at any time, from one or several threads, with stalls of any thread",
 "It depends on real time and thread scheduling; there's no test of the ticker.",
 [TB], [{"name": "beam thread loop", "where": TB}], observe=["Ticker::tick_receiver"])
prop("T02", "Stopping a beam stops that beam only, and at once",
 "After a beam is stopped, alone or with all others, it sends at most the one tick it was sending; other beams are unaffected. Beam ids are never reused, and stopping an unknown, finished or already stopped id changes nothing and doesn't block or panic.",
 ["schedules", "histories"],
 "any history of starts and stops of existing, finished, stopped and unknown beams, by one or several threads, any interleaving with the beams' threads",
 "It's about races between the stop and the beam's own thread, and about histories of ids.",
 [TB], [{"name": "stop_beam, stop_all_beams, beam handles and ids", "where": TB}], observe=["Ticker::tick_receiver", "returned ids"])
prop("T03", "Finished, stopped and dropped beams end their thread at once",
 "The thread of a beam ends as soon as the beam has sent its last tick, is stopped, or its ticker is dropped, without waiting for the end of the current period. After the drop of the ticker, receivers get disconnected, so that a consumer's loop ends.",
 ["schedules", "histories", "crash_points"],
 "any set of beams in any state when the ticker is dropped or the beam is stopped, periods up to hours, any interleaving",
 "Thread ends and disconnections aren't visible to unit tests, and depend on when the drop comes.",
 [TB], [{"name": "interrupt channel and Drop", "where": TB}], observe=["thread ends", "receiver disconnection"])
AK = "src/ask.rs"
prop("A01", "A question returns a declared answer, or the default one, from its own lines",
 "A question returns the first typed line which is one of its answers (trailing white space put aside), or its default value if an empty line comes first and there's a default; any other line is refused, which is told to the user, and the question goes on. Successive questions share the input without losing or repeating anything, however it's cut into reads.",
 ["inputs", "histories", "fault_sequences"],
 "any typed bytes, cut anywhere, at any pace, with interrupted reads, interrupted and short writes; any chain of questions, through the API or the macro",
 "The tests don't run it because it reads the process's input; splits and interruptions of reads can't be chosen there.",
 [AK], [{"name": "Question::ask and the ask! macro", "where": AK}], observe=["Question::ask result", "stdout"])
prop("A02", "A question ends with an error when the input fails or is closed",
 "When the input is closed, fails, or isn't text, a question returns an error, or, at the end of the input, its default value when it has one; it never loops for ever, never invents an answer, and takes into account the answers typed before.",
 ["fault_sequences", "crash_points", "inputs"],
 "end of input, I/O errors and invalid bytes at any byte position of any dialog",
 "The failures of the input at chosen positions can't be produced by unit tests.",
 [AK], [{"name": "Question::ask", "where": AK}], observe=["Question::ask result"])

exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": p["mech"]}
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = p["state"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
NOTE = "Seeded random search over schedules, inputs and faults: a violation is reported with an exactly replayable trace, absence of violation isn't a proof. Trusts the simulator (patched crossterm seam, libc interposition) and the reference model; sequentially consistent memory."
m = {"version": 1, "setup_cmd": "./build.sh",
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
   "technique": p["tech"] or TECH, "level": "exploration", "level_note": p["note"] or NOTE} for p in P if not p["na"]],
 "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
 "notes": "See DESIGN.md. No hook in /repo: the seams are crossterm (patched copy under sim/crossterm), crossbeam's spin loop (sim/crossbeam-utils) and libc."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
