#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

US, UT, B = "src/unix/screen.rs", "src/unix/terminal.rs", "src/buffer.rs"
NOIO = "The existing tests never open a terminal device, so nothing that reaches the device is tested at all; "

prop("C01", "After refresh the terminal shows exactly what was drawn",
 "After any history of drawing, clearing, cursor and attribute calls on a Screen (directly or through write guards) followed by a refresh or the drop of a write guard, a terminal that executes the emitted output shows in every cell exactly the text, colors and styles last drawn there (blank and unattributed where nothing was), regardless of what earlier refreshes had put on the display. "
 "The terminal's cursor is then at the screen's cursor position (at the last cell when that position lies outside the screen), and no output other than what is needed for this appears as text.",
 ["histories", "inputs", "configurations"],
 "all finite sequences of Screen calls with arbitrary text (narrow, double-width, combining, control characters) and attributes, with refreshes at arbitrary points, all valid screen sizes, terminal types with cursor addressing",
 NOIO + "incremental redraw depends on the whole history of earlier refreshes.",
 [US, B, UT, "src/screen.rs"],
 [("ScreenWriteGuard::refresh / move_cursor / apply_attrs", US), ("ScreenBuffer::next_cell (back buffer diff)", B), ("TerminalWriteGuard::set_attrs", UT)],
 [("back_buffer", "what the terminal is believed to show", B), ("real_cursor", "believed position of the terminal cursor", US)],
 ["bytes written to the terminal device, interpreted by a reference terminal"])

prop("C02", "Text written to a Screen is laid out in cells by the documented rules",
 "Text written to a Screen fills cells from the cursor onward, wrapping at the right edge: '\\t' writes blanks to the next 8-column stop or the line end, '\\r' and '\\n' go to the first column of the same or next line, a double-width character takes two adjacent cells of one line (leaving the rest of a line too short for it blank), a combining mark joins the character before the cursor, and other non-printable characters are ignored. "
 "Overwriting either half of a double-width character blanks its other half, every other cell keeps its content, and the cursor ends just behind the last character written. "
 "Writing that would leave the screen stops there: it never panics and never changes a cell it does not address, a write call at a position outside the screen has no effect, and write_styled leaves no attributes set.",
 ["inputs", "histories"],
 "all strings over Unicode, all cursor positions inside and outside the screen, all screen sizes of at least one line and column, any previous content",
 "Four unit tests try a handful of strings on three sizes; wrapping, wide/combining overlap and bounds interact for every content and position.",
 [B, "src/priv_util.rs", "src/util.rs"],
 [("ScreenBuffer::write_char/write_str/write_at/write_styled*", B), ("is_visible, char_width, is_combining_mark", "src/priv_util.rs, src/util.rs")],
 [("buffer/cursor", "cells and drawing position", B)],
 ["Screen::cursor(), display after refresh"])

prop("C03", "Resizing a Screen keeps it consistent with the new size",
 "When a window size change is read as an event from a Screen (by read_event or read_raw), the event carries the new size, the Screen reports that size afterwards, and the next refresh makes the terminal, whatever it shows after the change, display the drawn content: everything within the area common to the old and new size is kept at its position (a double-width character cut by the new edge becomes blank) and all other cells are blank. "
 "Drawing afterwards obeys the new bounds, for any sequence of growing and shrinking sizes.",
 ["histories", "configurations"],
 "all sequences of resizes to valid sizes interleaved with drawing, refreshes and cursor movement, with arbitrary display content after each resize",
 NOIO + "no test calls resize.",
 [US, B, UT], [("Writer::update_size", US), ("ScreenBuffer::resize, resize_buffer, new_buffer", B), ("handle_signal (Resize)", UT)],
 [("clear_screen", "terminal must be cleared before the next redraw", US)],
 ["Event::Resize, Screen::size(), display after refresh"])

prop("C04", "Terminal text appears with exactly the attributes in effect",
 "Every character written through a Terminal or its write guard appears with exactly the foreground color, background color and style set that the preceding calls (set_fg, set_bg, add_style, remove_style, set_style, set_theme, clear_attributes, write_styled, bold/italic/underline/reverse) put in effect, on any terminal type that can display them and has a sequence to reset them (colors and styles a type lacks are ignored). "
 "Removing one attribute never removes or adds another, and write_styled applies exactly its own attributes to its text and leaves none in effect, even if the device refuses the text.",
 ["histories", "inputs", "configurations"],
 "all sequences of attribute and text calls, all colors and style subsets, terminal types with color and/or style capabilities",
 NOIO + "attribute output depends on the previously tracked state, so it must hold for every history.",
 [UT, "src/terminal.rs"], [("set_attrs/set_style/remove_style/add_style/clear_fg/clear_bg/clear_attributes", UT)],
 [("fg/bg/cur_style", "attributes the terminal is believed to have", UT)], ["device output interpreted by a reference terminal"])

prop("C05", "Terminal cursor movement and clearing act exactly as called",
 "move_up/down/left/right(n) move the terminal cursor by exactly n cells in that direction, stopping at the edge, for every n (0 does nothing), and move_to_first_column moves it to the start of the line. "
 "clear_to_line_end, clear_to_screen_end and clear_screen erase exactly the cells from the cursor to the end of the line, to the end of the screen, or everything with the cursor placed at the first cell; set_cursor_mode shows or hides the cursor.",
 ["inputs", "histories", "configurations"],
 "all sequences of these calls interleaved with text, all n up to usize::MAX, terminal types having the capabilities",
 NOIO + "no test calls these methods.",
 [UT, "src/terminal.rs"], [("move_*/clear_*/set_cursor_mode, to_u32", UT)], None, ["device output interpreted by a reference terminal"])

prop("C06", "Output reaches the device in order, exactly once, despite write faults",
 "Whatever the sizes of the pieces written, and however the device accepts them (partial writes, interrupted writes, temporary errors), the device receives the bytes of successful write calls in call order, each exactly once; a call that returned an error contributes at most a leading part of its bytes. "
 "Data accepted but not yet delivered when an error occurs is delivered by a later flush or by dropping a later write guard; flush returning success means everything accepted so far has been delivered. A call on a write guard whose output the device refuses returns the error.",
 ["fault_sequences", "inputs", "histories"],
 "all sequences of writes of any size around and above the internal buffer size, flushes and guard drops, with any pattern of partial/EINTR/error results of the device's write",
 NOIO + "faults of the device cannot occur in them.",
 [UT], [("write_bytes, flush, write_data, Drop for TerminalWriteGuard", UT)], [("out_buffer", "accepted, undelivered output", UT)], ["bytes accepted by the device's write calls"])

prop("C07", "A Screen recovers from failed refreshes",
 "If refreshes of a Screen fail or are cut short because the device temporarily refuses output, a later refresh that succeeds leaves the terminal showing exactly the drawn content, text and attributes, with the cursor in place, as if no failure had happened.",
 ["fault_sequences", "histories"],
 "all drawing histories on screens small and large, with any pattern of partial/EINTR/error results of the device's write during refreshes",
 NOIO + "faults of the device cannot occur in them.",
 [US, B, UT], [("ScreenWriteGuard::refresh error path", US), ("ScreenBuffer::next_cell", B), ("write_bytes/flush", UT)], None, ["display after the first successful refresh"])

prop("C08", "term_write!/term_writeln! equal their documented method calls",
 "For every sequence of attribute, format and literal elements and every receiver (Terminal, TerminalWriteGuard, Screen, ScreenWriteGuard), term_write! and term_writeln! have exactly the effect of the equivalent method calls listed in their documentation, in order, each argument evaluated exactly once. "
 "On a Terminal the whole statement happens under one write lock and stops at the first error, which it returns.",
 ["programs", "inputs"],
 "all element sequences the macro grammar accepts with arbitrary expression values",
 "Only doc examples are compiled and none is run; the macro expands differently for every element sequence.",
 ["src/macros.rs"], [("term_write! rules, Chain", "src/macros.rs"), ("borrow_term_write_guard", "src/terminal.rs, src/screen.rs")], None, ["device output of generated programs"])

prop("C09", "Read and write locks exclude, stay independent and survive panics",
 "At most one read guard and one write guard of a Terminal or Screen exist at a time, holding one never blocks the other, and try_lock_read/try_lock_write return WouldBlock exactly while the corresponding guard is held. "
 "Output of a single write call, of a whole write guard session or of one term_write! statement is never interleaved with that of other threads, calls of each thread keep their order, and threads that follow the documented order (read lock before write lock) never deadlock. "
 "After a panic with a guard held, the corresponding lock calls report poisoning but still hand out a working guard, and the other lock is unaffected.",
 ["schedules", "histories"],
 "all histories of acquiring/releasing guards and panicking with them, all interleavings of threads writing, refreshing and reading events",
 "The only related test checks that the types are Send + Sync.",
 ["src/priv_util.rs", UT, US, "src/terminal.rs", "src/screen.rs"],
 [("lock_*/try_lock_*", UT + ", " + US), ("map_lock_result .. map2_try_lock_result", "src/priv_util.rs")], None, ["results of lock calls, device output of concurrent runs"])

prop("C10", "Keyboard input is decoded to the right key events",
 "Input available from the device is reported as the sequence of key events obtained by repeatedly taking the longest leading input that is a key sequence of the terminal description (arrow, navigation, editing and F1-F12 keys), or else a single character: Escape, Backspace (0x7f), Enter (CR or LF), Tab, lowercase Ctrl keys for the other control characters, and the character itself otherwise. "
 "The result does not depend on how the input is divided into reads internally.",
 ["inputs", "configurations"],
 "all byte strings of valid UTF-8 text mixed with key sequences, of any length, for any terminal description (including one sequence being a prefix of another)",
 NOIO + "decoding is a function of arbitrary input and of arbitrary terminal descriptions.",
 [UT, "src/terminal.rs", "src/sequence.rs", "src/util.rs"],
 [("sequences(), peek_event, try_read, read_into_buffer", UT), ("SequenceMap::find", "src/sequence.rs"), ("From<char> for Key", "src/terminal.rs")],
 [("in_buffer", "bytes read but not yet reported", UT)], ["read_event results"])

prop("C11", "Mouse reports are decoded to the right mouse events",
 "On xterm-like terminals each complete SGR mouse report in the input yields exactly one mouse event with the reported zero-based position, the Shift/Alt/Ctrl modifiers, and the right action: press or release of the left/middle/right/other button, wheel up or down, or motion. "
 "Malformed, overflowing or zero-coordinate reports never panic and are passed on as ordinary key input without losing bytes; on other terminal types no mouse events are produced.",
 ["inputs", "configurations"],
 "all SGR mouse reports (buttons 0-3, wheel, motion, all modifier and coordinate values) and all malformed variants, mixed with other input",
 NOIO + "no test touches mouse parsing.",
 [UT], [("parse_mouse_data, parse_integer, mouse_button_event", UT)], None, ["read_event results"])

prop("C12", "No input byte is lost, duplicated or reordered",
 "However input arrives in pieces and however read_event, wait_event and read_raw (with any buffer size) are mixed, every input byte is accounted for exactly once and in order, either in a reported event or in raw data; a character whose UTF-8 encoding arrives in several pieces is reported as that one character. "
 "Invalid UTF-8 never panics: everything before it is reported first, then an error, and the offending bytes remain readable as raw data.",
 ["inputs", "schedules", "histories"],
 "all byte streams, all divisions into arriving pieces, all mixes of reading calls and raw buffer sizes",
 NOIO + "the buffering across calls depends on arrival pattern and call history.",
 [UT], [("read_event, read_raw, read_into_buffer, try_read, utf8_prefix", UT)], [("in_buffer", "bytes read but not yet reported", UT)], ["read_event/read_raw results against bytes sent"])

prop("C13", "Waiting and timeouts are honest",
 "wait_event returns true exactly when an event is available or new input arrives before the timeout, without consuming anything, and false only when the whole timeout has passed without either (the beginning of a character that read_event has already taken in is not an event); read_event and read_raw return none on a silent device only after the whole timeout. "
 "Interruptions by unrelated signals neither end nor extend the wait, already buffered events are available immediately, and every timeout value up to Duration::MAX is accepted without panic.",
 ["schedules", "inputs", "histories"],
 "all timeouts, all arrival times of input and of unrelated signals, any buffered state",
 NOIO + "timing relative to arrivals cannot be sampled without a controlled clock.",
 [UT], [("wait_event, read_input, to_timeval", UT)], None, ["wait_event/read_event results on a virtual clock"])

prop("C14", "Signals are reported exactly as configured, whenever they arrive",
 "While a terminal is prepared, each kind of requested signal that arrives is reported by read_event as a signal event no matter when it arrives (before, during or between waiting and reading) and no matter which other signals or input are pending; signals not requested are never reported. "
 "A resize signal is reported as a resize event with the current window size, a continue signal re-establishes the prepared terminal modes, and no input is lost because of signals.",
 ["schedules", "histories", "configurations"],
 "all sets of requested signals, all arrival points and combinations of signals relative to reading calls and input",
 NOIO + "signal arrival points cannot be sampled by ordinary tests.",
 [UT, US], [("handle_signal (handler and method), take_signal, get_signal, resume, prepare_with_lock", UT)], [("LAST_SIGNAL", "signals caught, not yet reported", UT)], ["read_event results, terminal modes"])

prop("C15", "restore undoes the matching prepare completely",
 "For any properly nested sequence of prepare and restore calls, each restore returns the terminal line settings, the keypad and mouse modes, the signal handlers and the set of reported signals to what they were just before the matching prepare, whatever was read, written or signalled in between. "
 "After the outermost restore the line settings and signal handlers are exactly the original ones. "
 "A prepare that fails because the device refuses output leaves everything as it was, and a restore that fails for this reason gives settings and handlers back nevertheless. A restore whose line settings the device does not take fails, but gives the rest back.",
 ["histories", "configurations"],
 "all nestings of prepare/restore with arbitrary configurations, initial line settings and handlers, with input, output and continue signals in between",
 NOIO + "no test calls prepare or restore.",
 [UT, "src/terminal.rs"], [("prepare_with_lock, restore_with_lock, PrepareState, resume", UT)], None, ["tcgetattr, sigaction, mode sequences on the device"])

prop("C16", "prepare configures the terminal as its configuration says",
 "While prepared, typed input is available at once (no line editing), is not echoed, and CR and LF are delivered unchanged; with block_signals the signal characters are delivered as keys and otherwise they generate signals; with enable_control_flow false Ctrl-S and Ctrl-Q are delivered as keys, and otherwise they control flow. "
 "Keypad and mouse modes (with motion tracking if asked) are turned on exactly when configured and supported by the terminal type, and only requested signals (besides continue and resize) have their handlers replaced. Settings that the program leaves alone have the documented defaults.",
 ["configurations", "inputs"],
 "all PrepareConfig values, initial line settings and terminal types, all typed bytes",
 NOIO + "no test calls prepare.",
 [UT], [("prepare_with_lock, enable_mouse, enable_keypad, is_xterm", UT)], None, ["a real pty line discipline, mode sequences on the device, sigaction"])

prop("C17", "Ending a Screen always gives the terminal back",
 "However a Screen ends (dropped, dropped during a panic with or without guards held, after another thread panicked with a guard, or failing to open because the terminal lacks a needed capability), the line settings and signal handlers are those from before, mouse and keypad modes are off, the cursor is visible, attributes are cleared and the alternate screen is left, and the process does not abort. "
 "A device that refuses output or settings meanwhile does not prevent restoring the rest, and causes no panic. "
 "Dropping a Terminal likewise makes the cursor visible, delivers pending output and closes exactly the device it opened.",
 ["crash_points", "histories", "configurations"],
 "all drawing/reading histories and configurations, panics at any point with any set of guards held, on any terminal type",
 NOIO + "destructors and panics with a terminal open are never exercised.",
 [US, UT], [("Drop for Screen, Drop for ScreenWriteGuard, Screen::new error path", US), ("Drop for Terminal, exit_screen, restore_with_lock", UT)], None, ["tcgetattr, sigaction, device output, open descriptors, exit status"])

prop("C18", "Only the terminal description decides what is sent",
 "For any terminal description, with any capabilities missing, every call either has its documented effect in terms of that description's own sequences or, when a capability needed for cursor movement, clearing or opening a Screen is missing, fails with an error and leaves the display as it was; unsupported colors, styles, cursor modes, keypad or mouse modes are silently skipped. "
 "No call panics or sends control sequences or padding markers that a terminal of that type would show as garbage; opening with an unknown terminal type or path fails with an error; `name()` is the content of the TERM variable by which the description was found, whichever of its names that is.",
 ["configurations", "inputs"],
 "all terminal descriptions (capability subsets, parameter formats, padding), all output calls",
 NOIO + "no test loads a terminal description.",
 [UT], [("expand_opt!/expand_req!, expand, enter_screen/exit_screen, not_supported", UT)], None, ["device output interpreted according to the generated description"])

prop("C19", "All forms of the same operation behave the same",
 "Calling an operation on a Terminal has the same effect on the device as calling it on its write guard, and calling it on a Screen shows the same as on its write guard; shorthand calls equal their documented long forms (bold/italic/underline/reverse as add_style, set_theme as setting its three parts, write_char and write! as write_str, None or absent style as the empty style, Theme builder methods as Theme::new). "
 "The alternate constructions and conversions of the same value agree.",
 ["histories", "inputs"],
 "all operation histories executed through any mixture of equivalent call forms",
 "The tests call none of the facade methods; equality must hold for every history of mixed forms.",
 ["src/terminal.rs", "src/screen.rs", B], [("Terminal/TerminalWriteGuard/Screen/ScreenWriteGuard methods, Theme", "src/terminal.rs, src/screen.rs"), ("forward_screen_buffer_methods!", B)], None, ["device output / display of paired runs"])

prop("C20", "SequenceMap is a sorted map with exact prefix search",
 "SequenceMap behaves as a map from strings to values kept sorted by key with unique keys under every sequence of insert, remove, entry, get_mut, From and FromIterator operations (From keeps the first of equal keys, FromIterator the last). "
 "find(k) returns Found, Undecided, Incomplete or NotFound exactly according to whether k is a key and whether some longer key starts with k, with the value of k when it is a key.",
 ["histories", "inputs"],
 "all operation sequences over arbitrary string keys, including empty and non-ASCII keys and keys that are prefixes of others",
 "Unit tests fix a few small maps; the map order and prefix relation must hold for every key set and history.",
 ["src/sequence.rs"], [("search, find, insert, remove, entry, From, FromIterator", "src/sequence.rs")], None, ["public API results"])

prop("C21", "SignalSet is an exact set of the six signals",
 "Every SignalSet operation (construction, insert, remove, set, contains, contains_all, intersects, is_empty, union, intersection, difference, symmetric_difference, inverse, all operators and their assigning forms, From, Extend, FromIterator, Debug) agrees with ordinary finite-set semantics over the six signals, for all pairs of sets.",
 ["inputs", "histories"],
 "all 64 sets, all pairs of sets, all operation sequences",
 "Tests walk one sequence through a few sets.",
 ["src/signal.rs"], [("SignalSet, Signal::as_bit, impl_op!", "src/signal.rs")], None, ["public API results"])

prop("C22", "Cursor and Size arithmetic is consistent",
 "For every valid size, Cursor::next and Cursor::previous step through all cells in reading order and are inverse to each other, next is none exactly at the last cell and previous exactly at the first, next never yields a position outside the size, first() and last() are the ends, is_out_of_bounds is true exactly for positions outside the size. "
 "area and checked_area give lines times columns, reporting overflow by panic and by none respectively.",
 ["inputs"],
 "all sizes and positions, including 1xN, Nx1 and very large sizes",
 "No test covers these types.",
 ["src/terminal.rs"], [("Cursor::next/previous/first/last/is_out_of_bounds, Size::area/checked_area", "src/terminal.rs")], None, ["public API results"])

prop("C23", "Character and key utilities obey their definitions",
 "ctrl, is_ctrl, unctrl_upper and unctrl_lower are consistent for all characters they are defined for (is_ctrl exactly for U+0000-U+001F, unctrl results uppercase/lowercase and inverse to ctrl), prefixes(s) yields exactly the non-empty character-boundary prefixes of s from shortest to longest, and char_width and is_combining_mark give the Unicode values. "
 "Key::from(char) yields the special keys for ESC, DEL, CR, LF and TAB, a lowercase Ctrl key for other control characters and Char(c) otherwise.",
 ["inputs"],
 "all characters and all strings",
 "Tests use two strings and ASCII codes; the functions are defined for every character and string.",
 ["src/util.rs", "src/terminal.rs"], [("ctrl/unctrl/prefixes/char_width", "src/util.rs"), ("From<char> for Key", "src/terminal.rs")], None, ["public API results"])

prop("C24", "Terminals and Screens in use at once do not affect one another",
 "What is done with one Terminal or Screen (opening and closing it, output, attributes, cursor modes, locks held, line settings, input typed and not yet read, reading) changes neither the results of calls on another Terminal or Screen on another device, nor what that device is sent or how it is set, in whatever order the calls are made and from whatever threads, also at the same time; each behaves exactly as if it were the only one. "
 "Signals and their handlers, which belong to the whole process, are not part of this.",
 ["histories", "schedules", "configurations"],
 "all interleavings of call histories on several instances of any terminal types, sizes and ways of opening, in one thread or many",
 "Tests never open a terminal, let alone two; shared state (statics, thread locals, reused descriptors) shows only when several instances with different state are used in certain orders.",
 [UT, US, "src/terminal.rs", "src/screen.rs"], [("Terminal, Reader, Writer (all state is per instance)", UT), ("Screen", US), ("Drop for Terminal / Screen (descriptor ownership)", UT + ", " + US)],
 [("Reader, Writer", "unread input, output buffer, attributes, modes of one instance", UT)], ["results of calls, bytes sent and line settings, compared with the same history played alone"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P: assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
