ATECH = "deterministic simulation with fault injection: a whole application (real event source, threads and views) on a simulated terminal with an emulated screen, seeded histories of events, resizes, messages and write faults, frames compared with a reference model"
VW = "src/views/"
prop("V01", "Views draw all of their area and nothing else, whatever the faults",
 "On a terminal of any size, after any history of events, resizes and data changes, drawing a view or a rectangle covers its area, touches no other cell, and neither wraps nor scrolls the screen; areas derived from the terminal's size are the right parts of it. When writes to the terminal fail the drawing returns an error, when they don't it returns none, and once a drawing succeeds the terminal has got all of it, flushed when the drawing function is the one writing on the standard output. No history makes a view panic.",
 ["histories", "fault_sequences", "configurations", "schedules"],
 "any markdown or plain text, list rows or input content; any terminal sizes, margins and resizes, down to areas without room; any events and background updates in any order; short, interrupted and failing writes at any point; any kind of writer",
 "There's no test of the views: it takes a terminal emulator, and the problems come from the combination of a history, a size and the writes.",
 [VW + "mad_view.rs", VW + "text_view.rs", VW + "list_view.rs", VW + "input_field.rs", "src/rect.rs", "src/skin.rs", "src/fit/wrap.rs"],
 [{"name": "write_on of the views", "where": VW}, {"name": "Rect::draw", "where": "src/rect.rs"}], tech=ATECH, observe=["bytes written to the terminal", "returned errors"])
prop("V02", "Scrolling a text shows the right lines and the right scrollbar",
 "A scrollable view always shows, in their style, consecutive lines of its text wrapped for its current width, starting at the scroll reached by applying the scroll commands, each one limited to the bounds of the text; the scroll functions say whether they changed the scroll. Whatever the resizes, the scroll stays in bounds. A scrollbar is drawn if and only if the text is higher than the view and it's not disabled, with its thumb where the text is scrolled, of the size of the shown part, at top or bottom exactly when the text is (unless there's no room for it: 3 lines or less).",
 ["histories", "inputs", "configurations"],
 "any text (markdown or raw, from empty to more than 65535 lines), any history of scroll commands by lines, pages, keys, mouse, and resizes, including extreme amounts",
 "It's about histories of scrolls and resizes, with sizes relative to the text; no test scrolls a view.",
 [VW + "mad_view.rs", VW + "text_view.rs", "src/area.rs"],
 [{"name": "try_scroll_lines, apply_key_event, scrollbar", "where": VW + "text_view.rs"}, {"name": "resize, apply functions", "where": VW + "mad_view.rs"}, {"name": "compute_scrollbar", "where": "src/area.rs"}],
 tech=ATECH, observe=["screen", "return values"])
prop("V03", "Editing in an input field does to the text exactly what was asked for",
 "After any history of typed keys, moves, selections, pastes, mouse events and edition commands, the text, the cursor and the selection of an input field are those of a simple model of a text with a cursor: insertions add what's typed at the cursor, removals remove the adjacent char, word or the selection and nothing else, moves change no text, and functions say whether they changed something. New line keys make new lines only when they're declared, whichever function handles the event, nothing is edited by keys without focus, and the cursor is always in the text.",
 ["histories", "inputs", "configurations"],
 "any content with any chars (wide, tabs, accents), any history of events through any of the event handling functions, on mono and multi line fields, with password mode and focus changes",
 "Existing tests check a dozen sequences on the content of one line; bugs lie in sequences mixing lines, selections and commands.",
 [VW + "input_field.rs", VW + "input_field_content.rs"],
 [{"name": "apply_event, apply_key_combination, edition functions", "where": VW + "input_field.rs"}, {"name": "text, cursor and selection", "where": VW + "input_field_content.rs"}],
 tech=ATECH, observe=["content", "cursor position", "selection", "return values"])
prop("V04", "An input field shows its text around a cursor which is always visible",
 "What's drawn by an input field is the part of its text selected by its scroll, with hidden parts replaced by ellipsis and passwords by stars, the selection or cursor being highlighted only when it has the focus. The cursor is visible after any edition or move (when the field isn't tiny), the cursor position given to the application is where it's drawn, and a click puts the cursor on the char which is seen there. The vertical scroll stays in bounds and a scrollbar is drawn when lines are hidden.",
 ["histories", "inputs", "configurations"],
 "any content and history of edition, moves, clicks, wheel events, focus changes and resizes, on fields of any size",
 "It relates the display to the history of the scroll, for all sizes and contents; there's no test of the display of input fields.",
 [VW + "input_field.rs", VW + "input_field_content.rs"],
 [{"name": "fix_scroll, display_on, apply_mouse_event", "where": VW + "input_field.rs"}],
 tech=ATECH, observe=["screen", "returned cursor position"])
prop("L01", "A list view shows the right rows, in order, with the right selection",
 "After any history of additions, removals, filters, sorts and selection moves, with rows coming from another thread, a list view shows consecutive rows among the ones accepted by the filter, in insertion order or as sorted, each with its cells in the right columns, aligned, as wide as their column whatever their chars, cut only when they don't fit, in their style, under the titles of their columns. The selected row stays the same one when others are added, it's the only highlighted one, and the counts of rows are right.",
 ["histories", "schedules", "configurations"],
 "any history of operations, any rows and columns, any interleaving of the background thread adding rows and the user",
 "No test covers the list view; the problems come from the combination of filters, sorting, selection and scroll.",
 [VW + "list_view.rs"], [{"name": "add_row, set_filter, selection functions, write_on", "where": VW + "list_view.rs"}],
 tech=ATECH, observe=["screen", "get_selection", "row_counts"])
prop("L02", "Scrolling a list view stays in bounds and keeps the selection visible",
 "The scroll of a list view always leaves rows visible, moves by the asked number of displayed rows within bounds, and makes the selected row visible after a selection, scroll or resize. When the last row is visible in a list which isn't sorted, it's still so after another row is added. The scrollbar is drawn if and only if some rows don't fit, with its thumb where the scroll is.",
 ["histories", "schedules", "configurations"],
 "any history of scrolls (including extreme amounts), selections, additions from another thread, filters, removals and resizes",
 "It's about histories mixing scroll, filter, selection and size; no test covers it.",
 [VW + "list_view.rs", "src/area.rs"], [{"name": "try_scroll_lines, make_selection_visible, scroll_to_bottom", "where": VW + "list_view.rs"}],
 tech=ATECH, observe=["screen"])
DTECH = "deterministic simulation with fault injection: a program printing seeded documents with seeded skins, histories of terminal sizes and interrupted or short writes, what the terminal shows being read back and compared with the document by a reference model accepting all legitimate layouts"
SK = ["src/skin.rs", "src/text.rs", "src/line.rs", "src/composite.rs", "src/fit/wrap.rs", "src/tbl.rs", "src/fit/tbl_fit.rs", "src/code.rs", "src/spacing.rs"]
prop("W03", "Printed markdown never overflows the terminal nor leaks its style",
 "When the terminal is wide enough for the indentations and a char, no printed line of a markdown text is wider than the terminal as it is at the time of printing (or than 50 columns when the size isn't known), whatever its content. The printed rows are as many as the announced lines and not wider than announced, the last one is ended, and what's printed afterwards doesn't take the style of the text. Writes taken by pieces or interrupted change nothing to it, and no text makes the printing fail.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "any markdown text (nested styles, wide chars, tables, code, lists, quotes), any skin with margins and alignments, any width, unknown size or resizes between prints, by any of the printing functions, with any short or interrupted writes",
 "Tests wrap a few texts at a few widths and measure nothing on a terminal; overflows come from rare combinations of widths, cells, margins and styles.",
 SK + ["src/fit/composite_fit.rs"], [{"name": "hard_wrap_composite, hard_wrap_lines", "where": "src/fit/wrap.rs"}, {"name": "Table::fix_columns", "where": "src/tbl.rs"}, {"name": "write_fmt_line, write_fmt_composite", "where": "src/skin.rs"}],
 tech=DTECH, observe=["bytes written on the standard output"])
prop("W04", "Printed markdown shows all of the document, and breaks lines only where needed",
 "The rows printed for a markdown text show all its chars in order, none being lost, duplicated or moved but the blanks at which a line is broken, with their indentation, bullets and quote marks, aligned and with the margins given by the skin. A line is broken only if it's wider than what's available, and never inside a word which would fit; no row is broken while the next word would fit. Tables have aligned borders of the right kind, as many columns as there's room for, each cell on its row and in its column with the right alignment, and columns aren't narrower than their content when there's room; rules take the width, and code blocks are rectangular.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "any markdown text (nested styles, wide chars, tables, code, lists, quotes), any skin with margins, alignments and indentation modes, any width or unknown size, by any of the printing functions, with any short or interrupted writes",
 "Tests check a few wraps on composites without styles; the losses and misalignments depend on where the width falls relatively to the styles, blanks, wide chars and cells.",
 SK, [{"name": "hard_wrap_composite, hard_wrap_lines", "where": "src/fit/wrap.rs"}, {"name": "Table::fix_columns, TblFit", "where": "src/tbl.rs"}, {"name": "justify_blocks", "where": "src/code.rs"}, {"name": "completions", "where": "src/spacing.rs"}],
 tech=DTECH, observe=["bytes written on the standard output"])
prop("S01", "Every char is printed with the style its markdown and the skin give it",
 "Each char of a printed text has exactly the colors and attributes obtained by overlaying on the style of its line the ones of its italic, strikeout, bold and code parts, as set by the history of customizations of the skin: global and per part colors, attributes, blends, presets and replaced marks. Margins, paddings, bullets, quote marks, rules and table borders have the chars and styles the skin declares for them. No part is changed by a customization which isn't about it.",
 ["configurations", "inputs", "histories"],
 "any history of skin customizations, on any base skin, for any markdown text at any width",
 "Tests cover no rendered style at all; a wrong order of overlay or a forgotten part of the skin only shows for some combinations of skins and nested styles.",
 ["src/skin.rs", "src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/scrollbar_style.rs", "src/spacing.rs"],
 [{"name": "compound_style, write_fmt_composite, set_* and blend_with", "where": "src/skin.rs"}, {"name": "overwrite_with, blend_with, apply_to", "where": "src/compound_style.rs"}, {"name": "blend_with", "where": "src/styled_char.rs"}],
 tech=DTECH, observe=["bytes written on the standard output"])
prop("W01", "Prints done at the same time by several threads come out whole",
 "What's printed by several threads at the same time, with whatever skins and printing functions or macros, is a sequence of whole renderings: each print comes out exactly once, in the order of the prints of its thread, without anything in the middle, laid out for the width the terminal has at that time (50 columns when it isn't known). The first uses of the default skin and of inline templates may be simultaneous, and the functions announced as writing, when they return, have given all of it to the terminal.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "any interleaving of the threads, any texts and skins, any resizes of the terminal or failures to get its size at any point, any short or interrupted writes",
 "Tests print nothing, and from one thread: simultaneous first uses, resizes in the middle of a print and interleaved pieces can't be obtained without control of the scheduling.",
 ["src/skin.rs", "src/lib.rs", "src/macros.rs", "src/inline.rs", "src/text.rs", "src/area.rs"],
 [{"name": "print functions", "where": "src/skin.rs"}, {"name": "get_default_skin", "where": "src/lib.rs"}, {"name": "mad_print_inline", "where": "src/macros.rs"}, {"name": "terminal_size", "where": "src/area.rs"}],
 tech="deterministic simulation with fault injection: real threads run one at a time by a seeded scheduler preempting at every edge of the code, printing through a simulated terminal with seeded resizes, size errors and partial writes; the output is checked to be an interleaving of whole renderings", observe=["bytes written on the standard output"])
prop("W02", "Drawing on a failing writer stops with an error, and only then",
 "Every function drawing on a writer succeeds if and only if the writer has accepted the whole drawing, never panics, and what was accepted is otherwise a prefix of this drawing, nothing being written after the failure. Short and interrupted writes are invisible, and a failed drawing has no effect on the following ones. Functions drawing on the standard output have flushed it when they succeed.",
 ["fault_sequences", "inputs", "configurations", "histories"],
 "any function (texts, composites, views, lists, inputs, rectangles, fillings, croppers, styles), any content and skin, any sequence of partial, interrupted, refused and failing writes at any point, followed or not by a recovery",
 "Tests never write on something failing; an ignored result or a partial write shows only when the fault falls on that very call.",
 ["src/skin.rs", "src/rect.rs", "src/compound_style.rs", "src/styled_char.rs", "src/spacing.rs", "src/fit/filling.rs", "src/fit/crop_writer.rs", "src/views/text_view.rs", "src/views/list_view.rs", "src/views/mad_view.rs", "src/views/input_field.rs", "src/parse/mod.rs"],
 [{"name": "write_*_on, write_composite", "where": "src/skin.rs"}, {"name": "queue functions", "where": "src/compound_style.rs"}, {"name": "write_on, display_on", "where": "src/views/"}, {"name": "draw", "where": "src/rect.rs"}],
 tech="deterministic simulation with fault injection: all the drawing functions run on simulated writers and on a simulated standard output with seeded sequences of short, interrupted, refused and failing writes, and recoveries; accepted bytes are compared with the drawing without fault", observe=["bytes accepted by the writer", "returned errors"])
prop("C01", "Cropped drawing never passes its limit and cuts nothing which fits",
 "Whatever the history of strings, chars, fillings, repetitions and colors queued through a cropping writer, what's drawn never covers more columns than its limit, and each piece is drawn with its style up to the longest prefix fitting the columns which are left, tabulations being replaced. The columns left are always the limit minus the ones covered, and a fill leaves none. When the underlying writer fails, the failure is reported and the limit still holds for the following pieces.",
 ["histories", "inputs", "fault_sequences"],
 "any sequence of pieces (wide chars, combining marks, tabulations, fillings longer than the internal buffers), any limit, any style, any short, interrupted, refused and failing writes",
 "Tests count the chars fitting in a few strings; the limit depends on the widths of all the pieces queued before, and never on a failing writer.",
 ["src/fit/crop_writer.rs", "src/fit/str_fit.rs", "src/fit/filling.rs"],
 [{"name": "queue_*, fill*, repeat*", "where": "src/fit/crop_writer.rs"}, {"name": "StrFit", "where": "src/fit/str_fit.rs"}, {"name": "queue_styled", "where": "src/fit/filling.rs"}],
 tech="deterministic simulation with fault injection: seeded histories of pieces are queued on a cropping writer over a simulated failing writer, the accepted bytes being read back by a screen model after each piece and compared with a reference model of what fits", observe=["bytes accepted by the writer", "columns left"])
prop("C02", "Fitted texts and tables take the width they're given and mark what they lose",
 "A styled line of text fitted to a width takes at most this width (exactly this width when it's filled, with the padding of its alignment), through any sequence of widths; it's left unchanged when it fits, and what's removed otherwise is replaced with ellipsis at the places the alignment allows, everything else being kept in order with its style, and not much more than needed being removed. The announced length is the displayed one. Table columns fitted to a width take at most this width, all of it when some must be reduced, are never wider than their content nor narrower than 3 columns, and are refused only when there's no room for that.",
 ["histories", "inputs", "configurations"],
 "any inline text (styles, wide chars, combining marks), any alignment, any sequence of widths, any skin, any table content",
 "Tests only check that four texts aren't too wide; wrong cuts depend on where wide chars, style changes and previous cuts are relatively to the width.",
 ["src/fit/composite_fit.rs", "src/composite.rs", "src/fit/tbl_fit.rs", "src/skin.rs", "src/spacing.rs"],
 [{"name": "Fitter::fit, Zone::cut", "where": "src/fit/composite_fit.rs"}, {"name": "fit_width, extend_width, fill_width", "where": "src/composite.rs"}, {"name": "TblFit::fit", "where": "src/fit/tbl_fit.rs"}],
 tech="deterministic simulation: seeded histories of widths (a view resized again and again) on seeded texts, skins, alignments and tables, what's drawn being read back by a screen model and compared with the text by a reference model accepting all legitimate cuts; no fault applies", observe=["bytes written", "announced widths"])
prop("S02", "A skin kept in a file is loaded as it was saved or written, or refused",
 "A saved skin is loaded back identical, however the writes and reads are split, interrupted and whatever the previous content; a failed save or load is reported, and a truncated file is refused. Words written by hand (colors in all their forms, attributes, alignments, margins, chars, in any order and case, with any alias of the keys) have their documented meaning and only that, missing entries being the default ones, and unknown words are refused. No content makes the loading panic.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "any history of customizations, saves, hand edits, damages and loads, with any short, interrupted, refused and failing writes and reads, any truncation and any changed byte",
 "Tests reload five skins without any fault; the losses depend on rare colors, attributes and combinations, and no test has a torn file.",
 ["src/serde/serde_skin.rs", "src/serde/serde_scrollbar_style.rs", "src/serde/serde_styled_char.rs", "src/serde/serde_line_style.rs", "src/serde/serde_compound_style.rs", "src/parse/mod.rs", "src/parse/parse_color.rs", "src/parse/parse_attribute.rs", "src/parse/parse_align.rs", "src/parse/parse_line_style.rs", "src/parse/parse_styled_char.rs", "src/parse/parse_compound_style.rs"],
 [{"name": "Serialize and Deserialize of MadSkin", "where": "src/serde/serde_skin.rs"}, {"name": "parse_style_tokens, push_style_tokens", "where": "src/parse/mod.rs"}, {"name": "parse_color, write_color", "where": "src/parse/parse_color.rs"}],
 tech="deterministic simulation with fault injection: an application saves, edits and loads its skin in a simulated file with seeded short, interrupted, failing writes and reads, crashes while saving, truncations and damages, a reference model holding what each load must give", observe=["loaded skins", "returned errors"])
prop("S03", "Drawing with a style shows exactly what's asked, in this style, there only",
 "After any history of changes, copies, overlays and blends of styles, styled chars and scrollbar styles, each one has exactly the colors, attributes and char it was given, and no other is changed. What's drawn with them (texts, repeated chars, fillings of any length, spaced or aligned texts, progress bars, clearings) covers exactly its columns of the terminal, in the style, and changes neither other cells nor the style of what's written next. When a write fails the drawing returns an error, when none does it's complete.",
 ["histories", "inputs", "fault_sequences"],
 "any history of changes on several styles, any strings with wide and combining chars or tabs, any lengths, alignments and kinds of clearing, with short, interrupted or failing writes",
 "No test draws anything with those building blocks; wrong results come from redundant data not updated by one of the setters, or lengths over the size of internal buffers.",
 ["src/compound_style.rs", "src/styled_char.rs", "src/line_style.rs", "src/scrollbar_style.rs", "src/spacing.rs", "src/color.rs", "src/fit/filling.rs", "src/fit/mod.rs", "src/views/progress.rs"],
 [{"name": "overwrite_with, blend_with, queue, clear", "where": "src/compound_style.rs"}, {"name": "set_*, repeated, queue_repeat", "where": "src/styled_char.rs"}, {"name": "write_counted_str", "where": "src/spacing.rs"}, {"name": "queue_styled, queue_unstyled", "where": "src/fit/filling.rs"}],
 tech="deterministic simulation with fault injection: a program drawing with styles it changes, on an emulated terminal behind a writer which is short, interrupted or failing at seeded points, compared cell by cell with a reference model",
 observe=["bytes accepted by the writer", "getters", "returned errors"])
