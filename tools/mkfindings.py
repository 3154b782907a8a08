"""Writes /verif/known_findings.json."""
import json, os
F = [
 ("C09", {"Known": 0}, "Terminal::read_event waits forever when the calling thread holds its own read and write guards and SIGCONT is pending (case {\"Known\":0})"),
 ("C09", {"Known": 1}, "Screen's read guard waits forever in read_event when the calling thread also holds the write guard and a window-size change is pending (case {\"Known\":1})"),
 ("C14", {"arrivals": [[10, {"Sig": [4, False]}], [10, {"Data": 1}]], "at_calls": [], "cfg": {"block": True, "flow": False, "keypad": False, "motion": False, "mouse": False, "sigs": 0}, "guard": False, "ops": [{"Event": 15}], "screen": False, "term": 0, "threads": 4},
  "a signal that the system delivers to another thread than the one waiting in wait_event or read_event does not end the wait; it is reported after the next input, signal or call (case with \"threads\":4)"),
]
FIXED = """
C01 cdc4063 after drawing a double-width character Screen::refresh lost track of the terminal's cursor and drew following cells one column off
C01 17f8c8c the cell skipped by wrapping a double-width character kept its old content
C02 763ebf6 a combining mark written after a double-width character was attached to the wrong cell
C01 91a45c5 cells uncovered by overwriting half of a double-width character were not drawn
C01 4b79429 characters wider than two columns broke the layout of a Screen
C03 dc656c2 half of a double-width character cut by a resize was drawn
C01 e5afb35 writing a character wider than the Screen panicked
C01 e45f3d0 spacing combining marks, which take a cell, were merged with the preceding cell
C02 7e01a1f Screen::write_styled left the attributes set when the text ran past the end
C02 2dc70d2 next_line at the largest line overflowed
C07 1cdaed0 the cell being drawn when output failed was not drawn again by the next refresh
C06 f7ca06e a partial write sent the already written bytes again
C05 3926c0e movements by more than 2^31-1 were sent as negative numbers
C05 ce8d709 move_up from the first line scrolled on terminals without a parameterised movement
C13 f0eeebd wait_event and read_event gave up early after an unreported signal or partial input
C11 c0bc101 a mouse report with a zero coordinate panicked
C13 eafbf29 timeouts were cut to whole milliseconds or refused
C10 9406bb9 a sequence at the end of an internal read was split
C11 96e65ac a key sequence that begins like a mouse report but is not one was not found
C14 3ef3374 a signal was lost when another one arrived before it was reported
C14 6c6d623 a signal arriving just before waiting was missed until the next input
C15 27954e0 the set of reported signals was not restored
C15 7e48307 keypad and mouse modes of an outer preparation were not restored
C09 4d6e2ee Terminal::read_event waited for the write lock to report a resize, forever if the calling thread held it
C04 fae1ee5 padding markers of the terminal description were sent as text
C04 1cdec43 styles without a removing sequence were not removed
C17 99682e0 a Terminal or Screen dropped after a panic with a guard held did not restore the terminal
C16 524e149 Enter was not delivered when the terminal ignored carriage return before prepare
C17 a2ac6ca attributes left by a failed refresh remained after the end of a Screen
C04 070c0c2 a write_styled that failed left the attributes set
C15 f3163f5 restore left line settings and signal handlers changed when the device refused output
C17 b034673 a Screen dropped while the device refused output did not leave the alternate screen
C15 29ff2c2 a prepare that failed because the device refused output left line settings and modes changed
C17 c7a8631 a drop panicked, or aborted the process while unwinding, when standard error was the same device and refused output, too
C13 d2e6b2e waiting or reading with a timeout panicked when the device's descriptor was 1024 or more
C18 d7ccb80 name() was the first name of the description, not the content of TERM
C15 ce938a7 restore left signal handlers changed when line settings could not be set
"""
fixed = ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED.strip().split("\n")]
out = {"findings": [{"property": p, "case": c, "what": w} for p, c, w in F], "fixed": fixed}
path = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
open(path, "w").write(json.dumps(out, indent=1) + "\n")
