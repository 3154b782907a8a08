//! C01 refresh fidelity, C02 text layout, C03 resizing, C07 recovery from failed refreshes.

use std::collections::VecDeque;
use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Key, Screen, Size};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::dev::{pty, Session};
use crate::engine::*;
use crate::gen::*;
use crate::model::Model;
use crate::screen_ops::*;
use crate::sim::{self, Sim, WriteFault};
use crate::ti::{self, TermType};
use crate::vt::Vt;

/// Screen, model and reference terminal running side by side.
struct Rig {
    screen: Option<Screen>,
    model: Model,
    vt: Vt,
    ty: &'static TermType,
    visible: bool,
    refreshes: u32,
    /// Content of the model at the last refresh
    redraws: u32,
}

impl Rig {
    fn new(s: &Session, ty: &'static TermType, lines: usize, cols: usize) -> Result<Rig, String> {
        let screen = s.screen(Default::default()).map_err(|e| format!("opening the screen failed: {}", e))?;
        let mut rig = Rig {
            screen: Some(screen),
            model: Model::new(lines, cols),
            vt: Vt::new(lines, cols, ty.bce, true),
            ty, visible: true, refreshes: 0, redraws: 0,
        };
        // Whatever was on the terminal before
        for c in rig.vt.grid.iter_mut() {
            c.text = "#".into();
        }
        rig.feed();
        Ok(rig)
    }

    fn scr(&self) -> &Screen {
        self.screen.as_ref().unwrap()
    }

    fn feed(&mut self) {
        self.vt.feed(&sim::take_out());
    }

    fn refreshed(&mut self, what: &str) -> Result<(), String> {
        self.feed();
        self.refreshes += 1;
        self.model.compare(&self.vt, &self.ty.mask).map_err(|e| format!("{}: {}", what, e))?;
        if self.ty.civis && self.vt.visible != self.visible {
            return Err(format!("{}: cursor visible: {}", what, self.vt.visible));
        }
        if self.vt.attr != Default::default() {
            return Err(format!("{}: terminal is left with attributes {:?}", what, self.vt.attr));
        }
        Ok(())
    }

    fn check_cursor(&self, op: &SOp) -> Result<(), String> {
        let c = self.scr().cursor();
        let m = self.model.cur;
        if (c.line, c.column) != m {
            return Err(format!("after {:?} the cursor is {:?}, should be {:?}", op, c, m));
        }
        Ok(())
    }

    fn op(&mut self, op: &SOp, check_cursor: bool) -> Result<(), String> {
        match op {
            SOp::Refresh => {
                self.scr().refresh().map_err(|e| format!("refresh failed: {}", e))?;
                self.refreshed("refresh")?;
            }
            SOp::CursorMode(m) => {
                self.scr().set_cursor_mode(mode(*m)).map_err(|e| format!("set_cursor_mode failed: {}", e))?;
                self.visible = *m % 3 != 1;
                // Delivered at once
                self.feed();
                if self.ty.civis && self.vt.visible != self.visible {
                    return Err(format!("set_cursor_mode: cursor visible: {}", self.vt.visible));
                }
            }
            SOp::Guard(ops) => {
                let screen = self.screen.take().unwrap();
                let r = (|| {
                    let mut g = screen.lock_write().map_err(|_| "poisoned".to_owned())?;
                    for op in ops {
                        match op {
                            SOp::Refresh => {
                                g.refresh().map_err(|e| format!("refresh failed: {}", e))?;
                                self.refreshed("guard refresh")?;
                            }
                            SOp::CursorMode(m) => {
                                g.set_cursor_mode(mode(*m)).map_err(|e| format!("set_cursor_mode failed: {}", e))?;
                                self.visible = *m % 3 != 1;
                            }
                            SOp::Guard(_) => (),
                            op => {
                                draw_guard(&mut g, op);
                                draw_model(&mut self.model, op);
                                if check_cursor {
                                    let c = g.cursor();
                                    if (c.line, c.column) != self.model.cur {
                                        return Err(format!("after {:?} the cursor is {:?}, should be {:?}",
                                            op, c, self.model.cur));
                                    }
                                }
                            }
                        }
                    }
                    drop(g);
                    self.refreshed("write guard drop")
                })();
                self.screen = Some(screen);
                r?;
            }
            op => {
                draw_screen(self.scr(), op);
                draw_model(&mut self.model, op);
                if check_cursor {
                    self.check_cursor(op)?;
                }
            }
        }
        Ok(())
    }

    fn classes(&self, info: &mut Info) {
        let m = &self.model;
        info.class_if(m.wraps > 0, "line wrap");
        info.class_if(m.fills > 0, "wide char not fitting on the line");
        info.class_if(m.joins > 0, "combining mark joined");
        info.class_if(m.splits > 0, "wide char half overwritten");
        info.class_if(m.stops > 0, "write leaving the screen");
        info.class_if(m.wides > 0, "wide char");
        info.class_if(self.refreshes > 2, "3 or more refreshes");
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hist {
    term: u8,
    lines: usize,
    cols: usize,
    ops: Vec<SOp>,
}

fn arb_hist(size: BoxedStrategy<(usize, usize)>, max: usize, text: usize, refresh: u32) -> BoxedStrategy<Hist> {
    (0u8..11, size, arb_history(max, text, refresh))
        .prop_map(|(term, (lines, cols), ops)| Hist { term, lines, cols, ops }).boxed()
}

/// Sizes that no ordinary window has
fn arb_large() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![3 => (100usize..=400, 1usize..=30), 3 => (1usize..=30, 100usize..=700),
        2 => (100usize..=280, 100usize..=280), 1 => (1000usize..=3000, 1usize..=4), 1 => (1usize..=4, 1000usize..=3000)].boxed()
}

fn count_writes(ops: &[SOp]) -> usize {
    ops.iter().map(|o| match o {
        SOp::Guard(v) => count_writes(v),
        o => o.writes() as usize,
    }).sum()
}

// ---------------------------------------------------------------------------

pub struct C01;

impl Prop for C01 {
    type Case = Hist;
    const ID: &'static str = "C01";
    const TIMES: u32 = 12;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a terminal type, a screen size and a history of Screen calls with refreshes; \
        it is non-trivial if it has at least two refreshes with a write call before each of the last two, i.e. an \
        incremental redraw; lanes: small screens, wide/combining text in few cells, ordinary and long screens, rewriting of the same cells";
    fn assumptions() -> Vec<&'static str> {
        vec!["terminals with automatic margins that delay the wrap at the last column (xenl)",
            "character widths are those of unicode-width 0.1.14, as used by the crate",
            "the device accepts all output (faults: C06, C07)"]
    }
    fn lanes() -> Vec<Lane<Hist>> {
        let tiny = prop_oneof![(1usize..=2, 2usize..=5), (1usize..=3, 3usize..=4)].boxed();
        let big = prop_oneof![Just((24usize, 80usize)), Just((50, 132)), Just((1, 300)), Just((60, 1)),
            (1usize..30, 1usize..100)].boxed();
        // The same few cells are drawn again and again
        let flip = (0u8..11, (1usize..=2, 3usize..=6), vec((arb_rel_in(), arb_rel_in(), 0u8..4, arb_ocolor(), 0u8..9, any::<bool>()), 1..20))
            .prop_map(|(term, (lines, cols), v)| {
                let mut ops = Vec::new();
                for (l, c, k, f, st, r) in v {
                    let text = match k { 0 => "a", 1 => "b", 2 => "漢", _ => " " };
                    ops.push(SOp::WriteStyledAt(Rel(l.inside(lines) as u16), Rel(c.inside(cols) as u16), f.map(|c| c % 2), None, if st < 4 { 0 } else { st - 1 }, text.into()));
                    if r {
                        ops.push(SOp::Refresh);
                    }
                }
                Hist { term, lines, cols, ops }
            }).boxed();
        // Cells with many combining marks, replaced by others of similar length
        let marks = (0u8..11, (1usize..=2, 2usize..=5), vec((arb_rel_in(), arb_rel_in(), 0u8..3, 0u8..8, 0u8..3, any::<bool>()), 1..24))
            .prop_map(|(term, (lines, cols), v)| {
                let mut ops = Vec::new();
                for (l, c, base, n, which, r) in v {
                    let mut text = ["a", "b", "漢"][base as usize % 3].to_owned();
                    for i in 0..n {
                        text.push(if which == 2 && i + 1 == n { '\u{302}' } else if which == 1 && i == 0 { '\u{303}' } else { '\u{301}' });
                    }
                    ops.push(SOp::WriteAt(Rel(l.inside(lines) as u16), Rel(c.inside(cols) as u16), text));
                    if r {
                        ops.push(SOp::Refresh);
                    }
                }
                Hist { term, lines, cols, ops }
            }).boxed();
        // Very many refreshes
        let marathon = (0u8..11, (1usize..=2, 3usize..=6), vec((arb_rel(), arb_rel(), arb_ocolor(), arb_style(), arb_text(3), 0u8..4), 100..700))
            .prop_map(|(term, (lines, cols), v)| {
                let mut ops = Vec::new();
                for (l, c, f, st, t, k) in v {
                    let op = if k == 0 { SOp::WriteStr(t) } else { SOp::WriteStyledAt(l, c, f, None, st, t) };
                    if k == 3 {
                        ops.push(SOp::Guard(vec![op]));
                    } else {
                        ops.push(op);
                        ops.push(SOp::Refresh);
                    }
                }
                Hist { term, lines, cols, ops }
            }).boxed();
        vec![
            lane("marks", 6000, 150_000, marks),
            lane("many refreshes", 240, 6_000, marathon),
            lane("large", 240, 6_000, arb_hist(arb_large(), 12, 100, 6)),
            lane("small", 12000, 300_000, arb_hist(arb_size(), 24, 14, 8)),
            lane("tiny", 16000, 400_000, arb_hist(tiny, 16, 6, 8)),
            lane("flip", 16000, 300_000, flip),
            lane("big", 400, 10_000, arb_hist(big, 20, 200, 6)),
        ]
    }
    fn run(case: &Hist) -> CaseResult {
        let ty = ti::real(case.term);
        let s = Session::new(ty.name, case.lines, case.cols, Sim::default());
        let mut rig = Rig::new(&s, ty, case.lines, case.cols)?;
        let mut incremental = 0;
        let mut wrote = false;
        for op in &case.ops {
            rig.op(op, false)?;
            match op {
                SOp::Refresh => {
                    if wrote {
                        incremental += 1;
                    }
                    wrote = false;
                }
                SOp::Guard(v) => {
                    if wrote || count_writes(v) > 0 {
                        incremental += 1;
                    }
                    wrote = false;
                }
                op => wrote |= op.writes(),
            }
        }
        rig.op(&SOp::Refresh, false)?;
        // A second refresh has nothing to do
        rig.op(&SOp::Refresh, false)?;
        let mut info = Info::new(incremental >= 2);
        info.class_if(ty.bce, "back color erase");
        rig.classes(&mut info);
        drop(rig.screen.take());
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

pub struct C02;

impl Prop for C02 {
    type Case = Hist;
    const ID: &'static str = "C02";
    const TIMES: u32 = 12;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a screen size and a history of Screen calls, with a refresh and a comparison of \
        all cells and of the cursor after every call; non-trivial if wide, combining, wrapping, half-overwriting or leaving the screen occurred";
    fn assumptions() -> Vec<&'static str> {
        vec!["attributes of a blank left where half of a wide character was, and of the blank filling of a line, are unspecified"]
    }
    fn lanes() -> Vec<Lane<Hist>> {
        let one = (Just(0u8), arb_size(), arb_rel(), arb_rel(), arb_text(30))
            .prop_map(|(term, (lines, cols), l, c, t)| Hist {
                term, lines, cols, ops: vec![SOp::SetCursor(l, c), SOp::WriteStr(t)],
            }).boxed();
        let chars = (Just(0u8), prop_oneof![4 => (1usize..=3, 1usize..=6), 1 => (1usize..=2, 7usize..=20)],
            vec(arb_char(), 1..24), any::<bool>())
            .prop_map(|(term, (lines, cols), v, fill)| {
                let mut ops = Vec::new();
                if fill {
                    ops.push(SOp::Fill('漢', None, 0));
                    ops.push(SOp::SetCursor(Rel(0), Rel(0)));
                }
                ops.extend(v.into_iter().map(SOp::WriteChar));
                Hist { term, lines, cols, ops }
            }).boxed();
        // Any position over any content
        let over = (Just(0u8), (1usize..=2, 1usize..=7), vec((arb_rel(), arb_rel(), prop_oneof![
            3 => arb_text(4), 2 => Just("漢".to_owned()), 1 => Just("\u{17d8}".to_owned()), 1 => Just("\u{301}".to_owned()), 1 => Just("x".to_owned())]), 1..10))
            .prop_map(|(term, (lines, cols), v)| Hist {
                term, lines, cols, ops: v.into_iter().map(|(a, b, t)| SOp::WriteAt(a, b, t)).collect(),
            }).boxed();
        vec![
            lane("large", 160, 4_000, arb_hist(arb_large(), 8, 1200, 0 + 1)),
            lane("single write", 12000, 300_000, one),
            lane("characters", 8000, 200_000, chars),
            lane("overwriting", 10000, 300_000, over),
            lane("history", 6000, 150_000, arb_hist(arb_size(), 14, 20, 0 + 1)),
        ]
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (Hist, String)> {
        let chars = notable_chars();
        let case = |v: &[char]| Hist { term: 0, lines: 3, cols: 4, ops: v.iter().flat_map(|&c| [
            SOp::WriteAt(Rel(0), Rel(0), format!("x{}y", c)), SOp::WriteAt(Rel(1), Rel(3), c.to_string()), SOp::WriteChar('z')]).collect() };
        for v in chars.chunks(16) {
            if Self::run(&case(v)).is_err() {
                for c in v.chunks(1).chain([v]) {
                    Self::run(&case(c)).map_err(|e| (case(c), e))?;
                }
            }
        }
        Ok(Some((chars.len() as u64, "every character that combines, has no column or more than one (ideographs: one in 64), or is below U+3400, \
            between two others and at the end of a line".into())))
    }
    fn run(case: &Hist) -> CaseResult {
        let ty = ti::real(case.term);
        let s = Session::new(ty.name, case.lines, case.cols, Sim::default());
        let mut rig = Rig::new(&s, ty, case.lines, case.cols)?;
        for op in &case.ops {
            rig.op(op, true)?;
            rig.op(&SOp::Refresh, true).map_err(|e| format!("after {:?}: {}", op, e))?;
        }
        let m = &rig.model;
        let mut info = Info::new(m.wides + m.joins + m.wraps + m.fills + m.splits + m.stops > 0);
        rig.classes(&mut info);
        drop(rig.screen.take());
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ROp {
    Draw(SOp),
    /// New size; how it is read (0 read_event, 1 read guard, 2 read_raw, 3 wait + read_event);
    /// what the terminal shows afterwards
    Resize {
        lines: usize, cols: usize, how: u8, junk: char, junk_style: u8, cur: (u8, u8), polls: u8,
        /// Length of the buffer for read_raw
        #[serde(default)]
        buf: u8,
        /// Characters typed before
        #[serde(default)]
        typed: u8,
        /// A change just before that was not read
        #[serde(default)]
        before: Option<(usize, usize)>,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ResizeCase {
    term: u8,
    lines: usize,
    cols: usize,
    sigs: u8,
    ops: Vec<ROp>,
}

pub struct C03;

impl Prop for C03 {
    type Case = ResizeCase;
    const ID: &'static str = "C03";
    const TIMES: u32 = 12;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a history of Screen calls interleaved with window size changes (ioctl + SIGWINCH), \
        after each of which the reference terminal shows arbitrary content; non-trivial if it has a size change with drawn content and a refresh after it";
    fn assumptions() -> Vec<&'static str> {
        vec!["new sizes have at least one line and one column",
            "after a size change the terminal's scroll region is the whole window"]
    }
    fn lanes() -> Vec<Lane<ResizeCase>> {
        fn case(size: BoxedStrategy<(usize, usize)>, text: usize, max: usize) -> BoxedStrategy<ResizeCase> {
            let rs = (size.clone(), 0u8..4, prop_oneof![Just('#'), Just(' ')], 0u8..16, any::<(u8, u8)>(), 0u8..3,
                prop_oneof![Just(16u8), 0u8..6, Just(64)], prop_oneof![4 => Just(0u8), 1 => 1u8..5, 1 => Just(140)], prop::option::weighted(0.2, size.clone()))
                .prop_map(|((lines, cols), how, junk, junk_style, cur, polls, buf, typed, before)|
                    ROp::Resize { lines, cols, how, junk, junk_style, cur, polls, buf, typed, before });
            (0u8..11, size, 0u8..64, vec(prop_oneof![
                10 => arb_draw(text).prop_map(ROp::Draw),
                3 => Just(ROp::Draw(SOp::Refresh)),
                1 => vec(arb_draw(text), 0..4).prop_map(|v| ROp::Draw(SOp::Guard(v))),
                5 => rs,
            ], 1..=max)).prop_map(|(term, (lines, cols), sigs, ops)| ResizeCase { term, lines, cols, sigs, ops }).boxed()
        }
        vec![
            lane("small", 14000, 300_000, case(arb_size(), 14, 20)),
            lane("tiny", 14000, 300_000, case((1usize..=3, 1usize..=6).boxed(), 8, 14)),
            lane("big", 300, 6000, case(prop_oneof![Just((24usize, 80usize)), Just((25, 80)), Just((24, 81)), (1usize..60, 1usize..140)].boxed(), 100, 12)),
            lane("large", 160, 4_000, case(arb_large(), 300, 8)),
            lane("wide", 600, 12000, case(prop_oneof![(1usize..4, 100usize..700), (100usize..400, 1usize..4)].boxed(), 200, 10)),
        ]
    }
    fn run(case: &ResizeCase) -> CaseResult {
        let ty = ti::real(case.term);
        let s = Session::new(ty.name, case.lines, case.cols, Sim::default());
        s.drain_signals();
        let screen = s.screen(Cfg { keypad: true, sigs: case.sigs, ..Cfg::default() }.get())
            .map_err(|e| format!("opening the screen failed: {}", e))?;
        let mut rig = Rig {
            screen: Some(screen),
            model: Model::new(case.lines, case.cols),
            vt: Vt::new(case.lines, case.cols, ty.bce, true),
            ty, visible: true, refreshes: 0, redraws: 0,
        };
        rig.feed();
        let mut drawn = false;
        let mut resized_drawn = false;
        let mut nontrivial = false;
        let mut info = Info::default();
        for op in &case.ops {
            match op {
                ROp::Draw(op) => {
                    rig.op(op, true)?;
                    drawn |= op.writes() || matches!(op, SOp::Guard(v) if count_writes(v) > 0);
                    if resized_drawn && matches!(op, SOp::Refresh | SOp::Guard(_)) {
                        nontrivial = true;
                    }
                }
                ROp::Resize { lines, cols, how, junk, junk_style, cur, polls, buf: size_of_buf, typed, before: other } => {
                    let (lines, cols) = (*lines, *cols);
                    // Some of it is buffered by a first read
                    sim::with(|s| {
                        s.avail.extend(std::iter::repeat(b'k').take(*typed as usize));
                        s.delivered += *typed as u64;
                    });
                    let mut keys = *typed as usize;
                    if keys > 2 {
                        match rig.scr().read_event(Some(Duration::from_secs(0))) {
                            Ok(Some(Event::Key(Key::Char('k')))) => keys -= 1,
                            r => return Err(format!("reading a typed character gives {:?}", r)),
                        }
                    }
                    if let Some((l, c)) = other {
                        pty().set_size(*l, *c);
                        unsafe { libc::raise(libc::SIGWINCH); }
                    }
                    pty().set_size(lines, cols);
                    rig.feed();
                    rig.vt.resize(lines, cols, *junk, attr(Some(1), Some(2), *junk_style), (cur.0 as usize, cur.1 as usize));
                    unsafe { libc::raise(libc::SIGWINCH); }
                    let zero = Some(Duration::from_secs(0));
                    let mut got = Vec::new();
                    let (mut i, mut n) = (0, 1 + *polls as usize);
                    while i < n {
                        let mut room = [0u8; 64];
                        let buf = &mut room[..*size_of_buf as usize];
                        let r = match how % 4 {
                            0 => rig.scr().read_event(zero),
                            1 => rig.scr().lock_read().map_err(|_| "poisoned")?.read_event(zero),
                            2 => rig.screen.as_mut().unwrap().read_raw(buf, zero),
                            _ => {
                                if i == 0 && !rig.scr().wait_event(zero).map_err(|e| e.to_string())? {
                                    return Err("wait_event is false after a window size change".into());
                                }
                                let scr = rig.scr();
                                let mut g = scr.lock_read().map_err(|_| "poisoned")?;
                                g.read_raw(buf, zero)
                            }
                        };
                        i += 1;
                        match r.map_err(|e| format!("reading failed: {}", e))? {
                            Some(Event::Key(Key::Char('k'))) if keys > 0 => {
                                keys -= 1;
                                n += 1;
                            }
                            Some(Event::Raw(k)) if k <= keys && buf[..k].iter().all(|&b| b == b'k') => {
                                keys -= k;
                                // Nothing more comes through an empty buffer
                                if k == 0 {
                                    match rig.scr().read_event(zero) {
                                        Ok(Some(Event::Key(Key::Char('k')))) => keys -= 1,
                                        Ok(Some(e)) => got.push(e),
                                        Ok(None) => (),
                                        Err(e) => return Err(format!("reading failed: {}", e)),
                                    }
                                }
                                n += 1;
                            }
                            Some(e) => got.push(e),
                            None => (),
                        }
                    }
                    // Typed characters that are left
                    while keys > 0 {
                        match rig.scr().read_event(zero) {
                            Ok(Some(Event::Key(Key::Char('k')))) => keys -= 1,
                            Ok(Some(e)) if got.is_empty() => got.push(e),
                            r => return Err(format!("{} typed characters remain, reading gives {:?}", keys, r)),
                        }
                    }
                    info.class_if(*typed > 0, "typed before the change");
                    info.class_if(other.is_some(), "two changes at once");
                    if got != [Event::Resize(Size { lines, columns: cols })] {
                        return Err(format!("window became {}x{}, events read: {:?}", lines, cols, got));
                    }
                    let before = (rig.model.lines, rig.model.cols);
                    rig.model.resize(lines, cols);
                    let sz = rig.scr().size();
                    if (sz.lines, sz.columns) != (lines, cols) {
                        return Err(format!("size() is {:?} after resizing to {}x{}", sz, lines, cols));
                    }
                    rig.check_cursor(&SOp::Refresh)?;
                    resized_drawn |= drawn;
                    info.class_if(lines < before.0 || cols < before.1, "shrinking");
                    info.class_if(lines > before.0 || cols > before.1, "growing");
                    info.class_if((lines, cols) == before, "same size");
                    info.class_if(!Cursor { line: rig.model.cur.0, column: rig.model.cur.1 }
                        .is_out_of_bounds(Size { lines: before.0, columns: before.1 })
                        && Cursor { line: rig.model.cur.0, column: rig.model.cur.1 }
                        .is_out_of_bounds(Size { lines, columns: cols }), "cursor cut off");
                }
            }
        }
        rig.op(&SOp::Refresh, true)?;
        info.nontrivial = nontrivial || resized_drawn;
        rig.classes(&mut info);
        drop(rig.screen.take());
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

/// Line settings cannot be set
pub const STUCK: Flt = Flt(65535);

/// A write fault: 0 none, 1 EINTR, 2 EAGAIN, 3 EIO, 4 zero, 5 ENOSPC; other: partial write
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Flt(pub u16);

impl Flt {
    pub fn get(self) -> WriteFault {
        match self.0 {
            0 => WriteFault::Full,
            1 => WriteFault::Eintr,
            2 => WriteFault::Err(libc::EAGAIN),
            3 => WriteFault::Err(libc::EIO),
            4 => WriteFault::Zero,
            5 => WriteFault::Err(libc::ENOSPC),
            n => WriteFault::Partial(n as usize - 5),
        }
    }
}

/// Makes the device behave like this.
pub fn disturb(f: &[Flt]) {
    sim::with(|s| {
        s.faults = f.iter().filter(|f| **f != STUCK).map(|f| f.get()).collect();
        s.faults_hit = 0;
        s.stuck = f.iter().filter(|f| **f == STUCK).count() as u32;
        s.stuck_hit = 0;
    });
}

/// Including settings that cannot be set
pub fn arb_flt_set() -> BoxedStrategy<Flt> {
    prop_oneof![4 => arb_flt(), 1 => Just(STUCK)].boxed()
}

pub fn arb_flt() -> BoxedStrategy<Flt> {
    prop_oneof![
        2 => Just(Flt(0)),
        2 => Just(Flt(1)),
        3 => (2u16..=5).prop_map(Flt),
        3 => (6u16..40).prop_map(Flt),
        2 => (40u16..9000).prop_map(Flt),
    ].boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FOp {
    Op(SOp),
    /// The next device writes behave like this
    Faults(Vec<Flt>),
    /// Styled noise over the whole screen, with attribute changes in every cell
    Noise(u16),
    Resize(usize, usize),
    /// The same with the refresh after it disturbed
    ResizeFaults(usize, usize, Vec<Flt>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultCase {
    term: u8,
    lines: usize,
    cols: usize,
    ops: Vec<FOp>,
}

pub struct C07;

fn noise(m: usize, seed: u16) -> Vec<SOp> {
    let mut x = seed as u32 | 1;
    let mut out = vec![SOp::SetCursor(Rel(0), Rel(0))];
    for _ in 0..m {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        let ch = match x >> 28 { 0 => "漢", 1 => "e\u{301}", n => ["a", "b", "c"][n as usize % 3] };
        out.push(SOp::WriteStyled(Some((x >> 8) as u8 % 8), Some((x >> 16) as u8 % 8), (x >> 20) as u8 % 16, ch.into()));
    }
    out
}

impl Prop for C07 {
    type Case = FaultCase;
    const ID: &'static str = "C07";
    const TIMES: u32 = 12;
    const STREAMS: u8 = 3;
    const RULE: &'static str = "a case is a history of Screen calls during whose refreshes the device returns partial writes, EINTR, EAGAIN, EIO, \
        ENOSPC or 0; then the faults stop and one refresh is made; non-trivial if at least one refresh failed and drawing differs from a blank screen";
    fn lanes() -> Vec<Lane<FaultCase>> {
        // Rounds of drawing, then faults, then a refresh (or the end of a write guard)
        fn case(size: BoxedStrategy<(usize, usize)>, max: usize, noise: u32, text: usize, draws: usize) -> BoxedStrategy<FaultCase> {
            let draw = move || prop_oneof![
                12 => arb_draw(text).prop_map(FOp::Op),
                noise => any::<u16>().prop_map(FOp::Noise),
            ];
            let faults = move || prop_oneof![
                1 => vec(arb_flt(), 1..6),
                // Some output is accepted, then an error
                4 => (vec(prop_oneof![Just(Flt(1)), (6u16..30).prop_map(Flt), (30u16..4000).prop_map(Flt), Just(Flt(0))], 0..4),
                    vec((2u16..=5).prop_map(Flt), 1..4)).prop_map(|(mut a, b)| { a.extend(b); a }),
            ];
            let (faults, faults2) = (faults(), faults());
            let round = (vec(draw(), 0..draws), faults, prop_oneof![
                4 => Just(FOp::Op(SOp::Refresh)),
                2 => vec(arb_draw(text), 0..4).prop_map(|v| FOp::Op(SOp::Guard(v))),
                1 => size.clone().prop_map(|(a, b)| FOp::Resize(a, b)),
                1 => (size.clone(), faults2).prop_map(|((a, b), f)| FOp::ResizeFaults(a, b, f)),
            ], any::<bool>()).prop_map(|(mut v, f, e, stop)| {
                v.push(FOp::Faults(f));
                v.push(e);
                if stop {
                    v.push(FOp::Faults(Vec::new()));
                }
                v
            });
            (0u8..11, size.clone(), vec(round, 1..=max)).prop_map(|(term, (lines, cols), ops)|
                FaultCase { term, lines, cols, ops: ops.into_iter().flatten().collect() }).boxed()
        }
        vec![
            lane("small", 10000, 200_000, case(arb_size(), 5, 1, 14, 5)),
            lane("large", 1600, 30_000, case(prop_oneof![Just((24usize, 80usize)), (10usize..30, 30usize..90)].boxed(), 4, 6, 60, 3)),
        ]
    }
    fn run(case: &FaultCase) -> CaseResult {
        let ty = ti::real(case.term);
        let s = Session::new(ty.name, case.lines, case.cols, Sim::default());
        s.drain_signals();
        let mut rig = Rig::new(&s, ty, case.lines, case.cols)?;
        let mut failures = 0;
        let mut info = Info::default();
        // Output for an old size may be pending
        let mut stale = false;
        fn settle(rig: &mut Rig, stale: &mut bool) {
            if std::mem::take(stale) {
                rig.feed();
                rig.vt.scrolls = 0;
                rig.vt.errors.retain(|e| !e.contains("wider than") && !e.contains("beginning of a line"));
            }
        }
        for op in &case.ops {
            match op {
                FOp::Faults(f) => sim::with(|s| s.faults = f.iter().map(|f| f.get()).collect()),
                FOp::Op(SOp::Refresh) => match rig.scr().refresh() {
                    Ok(()) => {
                        settle(&mut rig, &mut stale);
                        rig.refreshed("successful refresh")?;
                    }
                    Err(_) => failures += 1,
                },
                FOp::Op(SOp::Guard(v)) => {
                    let screen = rig.screen.take().unwrap();
                    {
                        let mut g = screen.lock_write().map_err(|_| "poisoned")?;
                        for op in v {
                            draw_guard(&mut g, op);
                            draw_model(&mut rig.model, op);
                        }
                    }
                    rig.screen = Some(screen);
                }
                FOp::Op(op) => {
                    draw_screen(rig.scr(), op);
                    draw_model(&mut rig.model, op);
                }
                FOp::Noise(x) => {
                    for op in noise(rig.model.lines * rig.model.cols, *x) {
                        draw_screen(rig.scr(), &op);
                        draw_model(&mut rig.model, &op);
                    }
                }
                FOp::ResizeFaults(l, c, f) => {
                    // The same, but the refresh after the change is disturbed, too
                    rig.feed();
                    sim::with(|s| s.faults = VecDeque::new());
                    if rig.vt.mid() {
                        continue;
                    }
                    pty().set_size(*l, *c);
                    rig.vt.resize(*l, *c, '#', attr(Some(1), Some(2), 4), (0, 0));
                    unsafe { libc::raise(libc::SIGWINCH); }
                    match rig.scr().read_event(Some(Duration::from_secs(0))) {
                        Ok(Some(Event::Resize(_))) => (),
                        r => return Err(format!("resize not reported: {:?}", r)),
                    }
                    rig.model.resize(*l, *c);
                    sim::with(|s| s.faults = f.iter().map(|f| f.get()).collect());
                    info.class("resize before a disturbed refresh");
                    stale = true;
                    match rig.scr().refresh() {
                        Ok(()) => {
                            settle(&mut rig, &mut stale);
                            rig.refreshed("refresh after a resize")?;
                        }
                        Err(_) => failures += 1,
                    }
                }
                FOp::Resize(l, c) => {
                    // The device works while the window changes
                    rig.feed();
                    sim::with(|s| s.faults = VecDeque::new());
                    pty().set_size(*l, *c);
                    // Undelivered output stays undelivered; the screen will be cleared
                    let mid = rig.vt.mid();
                    if mid {
                        continue;
                    }
                    rig.vt.resize(*l, *c, '#', attr(Some(1), Some(2), 4), (0, 0));
                    unsafe { libc::raise(libc::SIGWINCH); }
                    match rig.scr().read_event(Some(Duration::from_secs(0))) {
                        Ok(Some(Event::Resize(_))) => (),
                        r => return Err(format!("resize not reported: {:?}", r)),
                    }
                    rig.model.resize(*l, *c);
                    info.class("resize");
                    // Output for the old size may be pending; only cells matter from here on
                    rig.scr().refresh().map_err(|e| format!("refresh failed without a fault: {}", e))?;
                    stale = true;
                    settle(&mut rig, &mut stale);
                    rig.refreshed("refresh after resize")?;
                }
            }
        }
        let hit = sim::with(|s| {
            s.faults = VecDeque::new();
            s.faults_hit
        });
        rig.scr().refresh().map_err(|e| format!("refresh failed without a fault: {}", e))?;
        settle(&mut rig, &mut stale);
        rig.refreshed("refresh after the faults stopped")?;
        let blank = Model::new(rig.model.lines, rig.model.cols);
        info.nontrivial = failures > 0 && rig.model.cells != blank.cells;
        info.class_if(hit > 0, "fault hit");
        info.class_if(failures > 0, "refresh failed");
        info.class_if(failures > 2, "3 or more failed refreshes");
        rig.classes(&mut info);
        drop(rig.screen.take());
        Ok(info)
    }
}
