//! C19: different forms of the same operation.

use std::time::Duration;

use libc::c_int;
use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Screen, ScreenWriteGuard, Style, Terminal, TerminalWriteGuard, Theme};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::sigs::set_world;
use crate::dev::{get_handler, input_elsewhere, pty, pty_in, Stdio, tio_eq, tio_str, Session, SIGNALS};
use crate::engine::*;
use crate::gen::*;
use crate::screen_ops::*;
use crate::sim::{self, Item, Sim, What};
use crate::term_ops::*;
use crate::ti;
use crate::vt::{Attr, VCell, Vt};

/// A call in its documented long form
macro_rules! long_form_term {
    ($r:expr, $op:expr) => {
        match $op {
            TOp::SetFg(Some(c)) => $r.set_fg(color(*c)),
            TOp::SetBg(Some(c)) => $r.set_bg(color(*c)),
            TOp::SetStyle(None) => $r.set_style(Style::empty()),
            TOp::SetStyle(Some(0)) => $r.set_style(None),
            TOp::SetStyle(Some(s)) => $r.set_style(Some(style(*s))),
            TOp::SetTheme(f, b, s) => $r.set_fg(ocolor(*f)).and_then(|_| $r.set_bg(ocolor(*b))).and_then(|_| $r.set_style(style(*s))),
            TOp::ClearAttrs => $r.set_theme(Theme::default()),
            TOp::Bold => $r.add_style(Style::BOLD),
            TOp::Italic => $r.add_style(Style::ITALIC),
            TOp::Underline => $r.add_style(Style::UNDERLINE),
            TOp::Reverse => $r.add_style(Style::REVERSE),
            TOp::AddStyle(s) => (|| {
                if s & 1 != 0 { $r.bold()?; }
                if s & 2 != 0 { $r.italic()?; }
                if s & 4 != 0 { $r.reverse()?; }
                if s & 8 != 0 { $r.underline()?; }
                Ok(())
            })(),
            TOp::WriteStr(s) => write!($r, "{}", s),
            TOp::WriteChar(c) => $r.write_str(&c.to_string()),
            TOp::WriteFmt(s, n) => $r.write_str(&format!("{}{:>3}", s, n)),
            TOp::WriteStyled(f, b, s, t) if *s == 0 => $r.write_styled(ocolor(*f), ocolor(*b), None, t),
            TOp::WriteStyled(f, b, s, t) => $r.set_theme(Theme::new(ocolor(*f), ocolor(*b), style(*s)))
                .and_then(|_| $r.write_str(t)).and_then(|_| $r.clear_attributes()),
            op => return Some(op.clone()),
        }
    };
}

fn long_term(r: &Terminal, op: &TOp) -> Option<TOp> {
    let res: std::io::Result<()> = long_form_term!(r, op);
    res.expect("call");
    None
}

fn long_guard(r: &mut TerminalWriteGuard, op: &TOp) -> Option<TOp> {
    let res: std::io::Result<()> = long_form_term!(r, op);
    res.expect("call");
    None
}

macro_rules! long_form_screen {
    ($r:expr, $op:expr) => {{
        let size = $r.size();
        let pos = |l: &Rel, c: &Rel| Cursor { line: l.get(size.lines), column: c.get(size.columns) };
        match $op {
            SOp::SetFg(Some(c)) => $r.set_fg(color(*c)),
            SOp::SetBg(Some(c)) => $r.set_bg(color(*c)),
            SOp::SetStyle(None) => $r.set_style(Style::empty()),
            SOp::SetStyle(Some(0)) => $r.set_style(None),
            SOp::SetStyle(Some(s)) => $r.set_style(Some(style(*s))),
            SOp::SetTheme(f, b, s) => {
                $r.set_fg(ocolor(*f));
                $r.set_bg(ocolor(*b));
                $r.set_style(style(*s))
            }
            SOp::ClearAttrs => $r.set_theme(Theme::default()),
            SOp::Bold => $r.add_style(Style::BOLD),
            SOp::Italic => $r.add_style(Style::ITALIC),
            SOp::Underline => $r.add_style(Style::UNDERLINE),
            SOp::Reverse => $r.add_style(Style::REVERSE),
            SOp::AddStyle(s) => {
                if s & 1 != 0 { $r.bold(); }
                if s & 2 != 0 { $r.italic(); }
                if s & 4 != 0 { $r.reverse(); }
                if s & 8 != 0 { $r.underline(); }
            }
            SOp::WriteStr(s) => write!($r, "{}", s),
            SOp::WriteChar(c) => $r.write_str(&c.to_string()),
            SOp::WriteFmt(s, n) => $r.write_str(&format!("{}{:>3}", s, n)),
            SOp::SetCursor(l, c) => $r.set_cursor(pos(l, c)),
            SOp::NextLine(c) => {
                let cur = $r.cursor();
                if cur.line < usize::MAX / 4 {
                    $r.set_cursor((cur.line + 1, c.get(size.columns)))
                } else {
                    return false;
                }
            }
            SOp::WriteAt(l, c, s) => {
                let p = pos(l, c);
                if !p.is_out_of_bounds(size) {
                    $r.set_cursor(p);
                    $r.write_str(s);
                }
            }
            SOp::WriteStyled(f, b, st, s) if *st == 0 => $r.write_styled(ocolor(*f), ocolor(*b), None, s),
            SOp::WriteStyled(f, b, st, s) => {
                $r.set_theme(Theme::new(ocolor(*f), ocolor(*b), style(*st)));
                $r.write_str(s);
                $r.clear_attributes();
            }
            SOp::WriteStyledAt(l, c, f, b, st, s) => {
                let p = pos(l, c);
                if !p.is_out_of_bounds(size) {
                    $r.set_cursor(p);
                    $r.write_styled(ocolor(*f), ocolor(*b), style(*st), s);
                }
            }
            _ => return false,
        }
        true
    }};
}

fn long_screen(r: &Screen, op: &SOp) -> bool {
    long_form_screen!(r, op)
}

fn long_screen_guard(r: &mut ScreenWriteGuard, op: &SOp) -> bool {
    long_form_screen!(r, op)
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RCall {
    Wait(u16),
    Event(u16),
    Raw(u8, u16),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FormCase {
    Term { term: u8, lines: usize, cols: usize, ops: Vec<TOp> },
    Screen { term: u8, lines: usize, cols: usize, ops: Vec<SOp> },
    /// Arrivals: delay and data, or a signal
    Read { term: u8, cfg: Cfg, input: Vec<(u16, Result<Vec<u8>, u8>)>, calls: Vec<RCall> },
    Prepare { term: u8, cfgs: Vec<Cfg> },
    Theme { a: (Option<u8>, Option<u8>, u8), b: (Option<u8>, Option<u8>, u8), order: u8 },
}

#[derive(Clone, PartialEq, Debug)]
pub(super) struct Seen {
    grid: Vec<VCell>,
    printed: Vec<(char, Attr)>,
    state: ((usize, usize), bool, Attr, bool),
    modes: (bool, bool, bool, bool, bool),
}

pub(super) fn seen(vt: &Vt) -> Seen {
    Seen {
        grid: vt.grid.clone(),
        printed: vt.printed.clone(),
        state: (vt.cur, vt.pending, vt.attr, vt.visible),
        modes: (vt.keypad, vt.mouse, vt.mouse_motion, vt.mouse_sgr, vt.alt),
    }
}

fn diff(what: &str, a: &Seen, b: &Seen) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    if a.state != b.state {
        return Err(format!("{}: (cursor, wrap, attributes, visible) {:?} differs from {:?}", what, b.state, a.state));
    }
    if a.modes != b.modes {
        return Err(format!("{}: modes {:?} differ from {:?}", what, b.modes, a.modes));
    }
    if a.printed != b.printed {
        let i = (0..).find(|i| a.printed.get(*i) != b.printed.get(*i)).unwrap();
        return Err(format!("{}: character {} is {:?}, differs from {:?}", what, i, b.printed.get(i), a.printed.get(i)));
    }
    let i = (0..a.grid.len()).find(|i| a.grid[*i] != b.grid[*i]).unwrap_or(0);
    Err(format!("{}: cell {} shows {:?}, differs from {:?}", what, i, b.grid.get(i), a.grid.get(i)))
}

const SPLIT: &str = "standard output, input from another device";

fn term_forms(term: u8, lines: usize, cols: usize, ops: &[TOp]) -> CaseResult {
    let ty = ti::real(term);
    let mut first: Option<Seen> = None;
    let forms = ["direct calls", "write guard", "long forms", "long forms in a write guard", "standard output", "standard error", SPLIT];
    for (i, name) in forms.iter().enumerate() {
        let _io = if i >= 4 { Some(Stdio::of(i == 6)) } else { None };
        let s = Session::new(ty.name, lines, cols, Sim::default());
        if i == 6 {
            input_elsewhere(lines, cols);
        }
        let t = match i {
            4 | 6 => Terminal::new(),
            5 => Terminal::stderr(),
            _ => s.terminal(),
        }.map_err(|e| format!("{}: {}", name, e))?;
        let err = |e: std::io::Error| format!("{}: {}", name, e);
        let mut vt = Vt::new(lines, cols, ty.bce, true);
        vt.record = true;
        match i {
            1 | 3 => {
                let mut g = t.lock_write().map_err(|_| "poisoned")?;
                for op in ops {
                    if i == 1 {
                        on_guard(&mut g, op).map_err(err)?;
                    } else if let Some(op) = long_guard(&mut g, op) {
                        on_guard(&mut g, &op).map_err(err)?;
                    }
                }
            }
            _ => for op in ops {
                if i != 2 {
                    on_term(&t, op).map_err(err)?;
                } else if let Some(op) = long_term(&t, op) {
                    on_term(&t, &op).map_err(err)?;
                }
            },
        }
        vt.feed(&sim::take_out());
        if !vt.errors.is_empty() {
            return Err(format!("{}: {:?}", name, vt.errors));
        }
        let sz = t.size().map_err(|e| e.to_string())?;
        if (sz.lines, sz.columns) != (lines, cols) || t.lock_write().map_err(|_| "poisoned")?.size().ok() != Some(sz) {
            return Err(format!("{}: size {:?}", name, sz));
        }
        if t.name() != ty.name {
            return Err(format!("{}: name {:?}", name, t.name()));
        }
        let now = seen(&vt);
        match &first {
            None => first = Some(now),
            Some(f) => diff(&format!("{} ({})", name, ty.name), f, &now)?,
        }
    }
    let f = first.unwrap();
    let mut i = Info::new(f.printed.len() > 1 && f.printed.iter().any(|p| p.1 != Attr::default()) && ops.len() > 2);
    i.class("terminal");
    Ok(i)
}

fn screen_forms(term: u8, lines: usize, cols: usize, ops: &[SOp]) -> CaseResult {
    let ty = ti::real(term);
    let mut first: Option<(Seen, Cursor)> = None;
    let forms = ["direct calls", "write guard", "long forms", "long forms in a write guard", "standard output", "standard error", SPLIT];
    for (i, name) in forms.iter().enumerate() {
        let _io = if i >= 4 { Some(Stdio::of(i == 6)) } else { None };
        let s = Session::new(ty.name, lines, cols, Sim::default());
        if i == 6 {
            input_elsewhere(lines, cols);
        }
        let scr = match i {
            4 | 6 => Screen::new(Default::default()),
            5 => Screen::stderr(Default::default()),
            _ => s.screen(Default::default()),
        }.map_err(|e| format!("{}: {}", name, e))?;
        let err = |e: std::io::Error| format!("{}: {}", name, e);
        let mut vt = Vt::new(lines, cols, ty.bce, true);
        let long = i == 2 || i == 3;
        match i {
            1 | 3 => {
                let mut g = scr.lock_write().map_err(|_| "poisoned")?;
                for op in ops {
                    match op {
                        SOp::Refresh => g.refresh().map_err(err)?,
                        SOp::CursorMode(m) => g.set_cursor_mode(mode(*m)).map_err(err)?,
                        SOp::Guard(_) => (),
                        op if long && long_screen_guard(&mut g, op) => (),
                        op => draw_guard(&mut g, op),
                    }
                }
            }
            _ => for op in ops {
                match op {
                    SOp::Refresh => scr.refresh().map_err(err)?,
                    SOp::CursorMode(m) => scr.set_cursor_mode(mode(*m)).map_err(err)?,
                    SOp::Guard(_) => (),
                    op if long && long_screen(&scr, op) => (),
                    op => draw_screen(&scr, op),
                }
            },
        }
        if i != 1 && i != 3 {
            scr.refresh().map_err(err)?;
        }
        vt.feed(&sim::take_out());
        if !vt.errors.is_empty() {
            return Err(format!("{}: {:?}", name, vt.errors));
        }
        let g = scr.lock_write().map_err(|_| "poisoned")?;
        let (gs, gc) = (g.size(), g.cursor());
        drop(g);
        if gs != scr.size() || gc != scr.cursor() || gs != (mortal::Size { lines, columns: cols }) {
            return Err(format!("{}: size {:?} and cursor {:?} of the guard, {:?} and {:?} of the Screen", name, gs, gc,
                scr.size(), scr.cursor()));
        }
        if scr.name() != ty.name {
            return Err(format!("{}: name {:?}", name, scr.name()));
        }
        let now = (seen(&vt), gc);
        match &first {
            None => first = Some(now),
            Some(f) => {
                diff(&format!("{} ({})", name, ty.name), &f.0, &now.0)?;
                if f.1 != now.1 {
                    return Err(format!("{}: cursor {:?} differs from {:?}", name, now.1, f.1));
                }
            }
        }
    }
    let f = first.unwrap().0;
    let mut i = Info::new(f.grid.iter().any(|c| c.text != " ") && ops.len() > 2);
    i.class("screen");
    Ok(i)
}

fn read_forms(term: u8, cfg: &Cfg, input: &[(u16, Result<Vec<u8>, u8>)], calls: &[RCall]) -> CaseResult {
    let ty = ti::real(term);
    let mut first: Option<Vec<String>> = None;
    let forms = ["Terminal", "Terminal read guard", "Screen", "Screen read guard", "read guards and direct calls", "standard output", SPLIT,
        "Screen on standard output, input from another device"];
    let mut events = 0;
    let mut info = Info::default();
    for (i, name) in forms.iter().enumerate() {
        let _io = if i >= 5 { Some(Stdio::of(i > 5)) } else { None };
        let s = Session::new(ty.name, 7, 30, Sim::default());
        s.drain_signals();
        if i > 5 {
            input_elsewhere(7, 30);
        }
        let mut at = 0;
        let arrivals = input.iter().map(|(d, w)| {
            at += *d as u64 * 1000;
            Item {
                at,
                what: match w {
                    Ok(b) => What::Data(b.clone()),
                    Err(n) => What::Signal([libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGWINCH][*n as usize % 4], n & 4 != 0),
                },
            }
        }).collect();
        // Only signals that have a handler
        let cfg = Cfg { sigs: cfg.sigs | 0b110100, ..cfg.clone() };
        let mut results: Vec<String> = Vec::new();
        let ms = |t: &u16| Some(Duration::from_millis(*t as u64));
        let resized = std::cell::Cell::new(None);
        let note = |r: &std::io::Result<Option<Event>>| if let Ok(Some(Event::Resize(size))) = r {
            resized.set(Some(*size));
        };
        macro_rules! one {
            ($r:expr, $c:expr) => {{
                let t0 = sim::now();
                let r = match $c {
                    RCall::Wait(t) => format!("{:?}", $r.wait_event(ms(t)).map_err(|e| e.kind())),
                    RCall::Event(t) => {
                        let r = $r.read_event(ms(t));
                        if let Ok(Some(Event::Key(_))) | Ok(Some(Event::Mouse(_))) | Ok(Some(Event::Signal(_))) = r {
                            events += 1;
                        }
                        note(&r);
                        format!("{:?}", r.map_err(|e| e.kind()))
                    }
                    RCall::Raw(n, t) => {
                        let mut buf = vec![0u8; *n as usize];
                        let r = $r.read_raw(&mut buf, ms(t));
                        note(&r);
                        let r = r.map_err(|e| e.kind());
                        format!("{:?} {:?}", r, buf)
                    }
                };
                results.push(format!("{:?} -> {} after {} us", $c, r, sim::now() - t0));
            }};
        }
        // Each window change gives another size
        set_world(Some(pty().get_tio()));
        if i == 2 || i == 3 || i == 7 {
            let mut scr = if i == 7 { Screen::new(cfg.get()) } else { s.screen(cfg.get()) }.map_err(|e| format!("{}: {}", name, e))?;
            sim::with(|s| s.arrivals = arrivals);
            macro_rules! size {
                ($scr:expr) => {
                    if let Some(size) = resized.take() {
                        info.class("resize event");
                        if $scr.size() != size {
                            return Err(format!("{}: size is {:?} after {}", name, $scr.size(), results.last().unwrap()));
                        }
                    }
                };
            }
            if i != 3 {
                for c in calls {
                    one!(scr, c);
                    size!(scr);
                }
            } else {
                let mut g = scr.lock_read().map_err(|_| "poisoned")?;
                for c in calls {
                    one!(g, c);
                    size!(scr);
                }
            }
            sim::with(|s| s.arrivals.clear());
            drop(scr);
        } else {
            let mut t = if i >= 5 { Terminal::new() } else { s.terminal() }.map_err(|e| format!("{}: {}", name, e))?;
            let st = t.prepare(cfg.get()).map_err(|e| format!("{}: {}", name, e))?;
            sim::with(|s| s.arrivals = arrivals);
            if i == 1 {
                let mut g = t.lock_read().map_err(|_| "poisoned")?;
                for c in calls {
                    one!(g, c);
                }
            } else {
                for (k, c) in calls.iter().enumerate() {
                    if i == 4 && k % 2 == 1 {
                        let mut g = t.lock_read().map_err(|_| "poisoned")?;
                        one!(g, c);
                    } else {
                        one!(t, c);
                    }
                }
            }
            sim::with(|s| s.arrivals.clear());
            t.restore(st).map_err(|e| format!("{}: {}", name, e))?;
        }
        set_world(None);
        match &first {
            None => first = Some(results),
            Some(f) => if let Some(k) = (0..f.len()).find(|k| f[*k] != results[*k]) {
                return Err(format!("call {} on {}: {}, but on {}: {}", k, name, results[k], forms[0], f[k]));
            },
        }
    }
    info.nontrivial = events > 0;
    info.class("reading");
    Ok(info)
}

fn prepare_forms(term: u8, cfgs: &[Cfg]) -> CaseResult {
    let ty = ti::real(term);
    let mut first: Option<Vec<(Seen, String, Vec<(usize, c_int, u64)>)>> = None;
    for (i, name) in ["Terminal", "read guard", "both guards", "standard output", SPLIT].iter().enumerate() {
        let _io = if i >= 3 { Some(Stdio::of(i == 4)) } else { None };
        let s = Session::new(ty.name, 7, 30, Sim::default());
        if i == 4 {
            input_elsewhere(7, 30);
        }
        let input = if i == 4 { pty_in() } else { pty() };
        let t = if i >= 3 { Terminal::new() } else { s.terminal() }.map_err(|e| format!("{}: {}", name, e))?;
        let err = |e: std::io::Error| format!("{}: {}", name, e);
        let mut vt = Vt::new(7, 30, ty.bce, true);
        let mut log = Vec::new();
        let mut states = Vec::new();
        let mut note = |vt: &mut Vt| {
            vt.feed(&sim::take_out());
            log.push((seen(vt), tio_str(&input.get_tio()), SIGNALS.iter().map(|s| get_handler(*s)).collect()));
        };
        for c in cfgs {
            let st = match i {
                0 | 3 | 4 => t.prepare(c.get()),
                1 => t.lock_read().map_err(|_| "poisoned")?.prepare(c.get()),
                _ => {
                    let mut r = t.lock_read().map_err(|_| "poisoned")?;
                    let mut w = t.lock_write().map_err(|_| "poisoned")?;
                    r.prepare_with_lock(&mut w, c.get())
                }
            }.map_err(err)?;
            states.push(st);
            note(&mut vt);
        }
        while let Some(st) = states.pop() {
            match i {
                0 | 3 | 4 => t.restore(st),
                1 => t.lock_read().map_err(|_| "poisoned")?.restore(st),
                _ => {
                    let mut r = t.lock_read().map_err(|_| "poisoned")?;
                    let mut w = t.lock_write().map_err(|_| "poisoned")?;
                    r.restore_with_lock(&mut w, st)
                }
            }.map_err(err)?;
            note(&mut vt);
        }
        if i == 4 && !tio_eq(&pty().get_tio(), &pty().tio) {
            return Err(format!("{}: settings of the output device are left as {}", name, tio_str(&pty().get_tio())));
        }
        match &first {
            None => first = Some(log),
            Some(f) => for (k, (a, b)) in f.iter().zip(&log).enumerate() {
                diff(&format!("step {} through {}", k, name), &a.0, &b.0)?;
                if a.1 != b.1 || a.2 != b.2 {
                    return Err(format!("step {} through {}: settings {} handlers {:?} differ from {} {:?}", k, name, b.1, b.2, a.1, a.2));
                }
            },
        }
    }
    let mut i = Info::new(cfgs.len() > 1);
    i.class("prepare and restore");
    Ok(i)
}

fn theme_forms(a: (Option<u8>, Option<u8>, u8), b: (Option<u8>, Option<u8>, u8), order: u8) -> CaseResult {
    let parts = |t: Theme| (t.fg, t.bg, t.style);
    let want = (ocolor(b.0), ocolor(b.1), style(b.2));
    let start = match order % 4 {
        0 => Theme::default(),
        1 => Theme::new(None, None, None),
        2 => theme(a.0, a.1, a.2),
        _ => Theme::new(ocolor(a.0), ocolor(a.1), Some(style(a.2))),
    };
    if order % 4 < 2 && parts(start) != (None, None, Style::empty()) {
        return Err(format!("the empty theme is {:?}", start));
    }
    if order % 4 == 3 && parts(start) != (ocolor(a.0), ocolor(a.1), style(a.2)) {
        return Err(format!("Theme::new of {:?} is {:?}", a, start));
    }
    let mut t = start;
    for i in 0..3 {
        // Each step sets its own part and keeps the others
        let before = parts(t);
        let k = (i + order / 4) % 3;
        t = match (k, order & 64 != 0) {
            (0, false) => t.fg(ocolor(b.0)),
            (0, true) => match b.0 { Some(c) => t.fg(color(c)), None => t.fg(None) },
            (1, false) => t.bg(ocolor(b.1)),
            (1, true) => match b.1 { Some(c) => t.bg(color(c)), None => t.bg(None) },
            (_, false) => t.style(style(b.2)),
            (_, true) => if b.2 == 0 { t.style(None) } else { t.style(Some(style(b.2))) },
        };
        let w = match k {
            0 => (want.0, before.1, before.2),
            1 => (before.0, want.1, before.2),
            _ => (before.0, before.1, want.2),
        };
        if parts(t) != w {
            return Err(format!("builder step {} turns {:?} into {:?}, should be {:?}", k, before, t, w));
        }
    }
    if parts(t) != want || parts(Theme::new(want.0, want.1, want.2)) != want {
        return Err(format!("builder gives {:?}, should be {:?}", t, want));
    }
    let (l, c) = (a.2 as usize * 7, b.2 as usize);
    let cur: Cursor = (l, c).into();
    if cur != (Cursor { line: l, column: c }) {
        return Err(format!("Cursor from {:?} is {:?}", (l, c), cur));
    }
    let mut i = Info::new(a != b);
    i.class("theme");
    Ok(i)
}

pub struct C19;

impl Prop for C19 {
    type Case = FormCase;
    const ID: &'static str = "C19";
    const TIMES: u32 = 2;
    const RULE: &'static str = "a case is a history of calls made in several forms, each on a fresh device: on Terminal, its guards, Screen, its \
        guards, opened by path or as standard output or error, directly or in the documented long forms; what a terminal shows, results, times \
        and settings must be the same; non-trivial if more than two calls with attributes (or events, or nested prepares) were made";
    fn lanes() -> Vec<Lane<FormCase>> {
        let top = prop_oneof![4 => arb_attr_op(), 4 => arb_text_op(5), 3 => arb_move_op()];
        let term = (0u8..11, 2usize..8, 2usize..24, vec(top, 1..12))
            .prop_map(|(term, lines, cols, ops)| FormCase::Term { term, lines, cols, ops }).boxed();
        let screen = (0u8..11, arb_size(), arb_history(10, 8, 2))
            .prop_map(|(term, (lines, cols), ops)| FormCase::Screen { term, lines, cols, ops }).boxed();
        let data = prop_oneof![
            3 => vec(any::<u8>(), 1..5),
            4 => prop_oneof![Just("\x1b[A"), Just("\x1bOP"), Just("q"), Just("é"), Just("\x1b[<0;3;4M"), Just("\x1b"), Just("\x1b[<0;3"), Just("[B")]
                .prop_map(|s| s.as_bytes().to_vec()),
        ];
        let t = || prop_oneof![2 => Just(0u16), 3 => 0u16..40, 1 => Just(5000u16)];
        let call = prop_oneof![
            2 => t().prop_map(RCall::Wait), 4 => t().prop_map(RCall::Event), 2 => (0u8..9, t()).prop_map(|(n, t)| RCall::Raw(n, t)),
        ];
        let read = (0u8..11, arb_cfg(), vec((prop_oneof![Just(0u16), 0u16..30], prop_oneof![3 => data.prop_map(Ok), 1 => (0u8..8).prop_map(Err)]), 0..6),
            vec(call, 1..10)).prop_map(|(term, cfg, input, calls)| FormCase::Read { term, cfg, input, calls }).boxed();
        let prepare = (0u8..11, vec(arb_cfg(), 1..4)).prop_map(|(term, cfgs)| FormCase::Prepare { term, cfgs }).boxed();
        let th = || (arb_ocolor(), arb_ocolor(), 0u8..16);
        let theme = (th(), th(), any::<u8>()).prop_map(|(a, b, order)| FormCase::Theme { a, b, order }).boxed();
        vec![
            lane("terminal", 20_000, 400_000, term),
            lane("screen", 15_000, 300_000, screen),
            lane("reading", 15_000, 300_000, read),
            lane("prepare", 4_000, 60_000, prepare),
            lane("themes", 10_000, 100_000, theme),
        ]
    }
    fn run(case: &FormCase) -> CaseResult {
        match case {
            FormCase::Term { term, lines, cols, ops } => term_forms(*term, *lines, *cols, ops),
            FormCase::Screen { term, lines, cols, ops } => screen_forms(*term, *lines, *cols, ops),
            FormCase::Read { term, cfg, input, calls } => read_forms(*term, cfg, input, calls),
            FormCase::Prepare { term, cfgs } => prepare_forms(*term, cfgs),
            FormCase::Theme { a, b, order } => theme_forms(*a, *b, *order),
        }
    }
}
