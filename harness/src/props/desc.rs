//! C18: generated terminal descriptions.

use std::collections::BTreeMap;
use std::io;

use mortal::unix::OpenTerminalExt;
use mortal::{Screen, Terminal};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::term::Disp;
use crate::dev::{get_handler, pty, tio_eq, tio_str, Session, SIGNALS};
use crate::engine::*;
use crate::gen::*;
use crate::model::{Mask, Model};
use crate::screen_ops::*;
use crate::sim::{self, Sim};
use crate::term_ops::*;
use crate::ti;
use crate::vt::{Attr, Vt};

/// Capabilities and the forms they come in
const CAPS: &[(&str, &[&str])] = &[
    ("clear", &["{clear}"]), ("el", &["{el}"]), ("ed", &["{ed}"]),
    ("cup", &["{cup;%p1%d;%p2%d}", "{cupi;%i%p1%d;%p2%d}", "{cupr;%p2%d;%p1%d}"]),
    ("csr", &["{csr;%p1%d;%p2%d}", "{csri;%i%p1%d;%p2%d}"]),
    ("home", &["{home}"]),
    ("cuu", &["{cuu;%p1%d}"]), ("cud", &["{cud;%p1%d}"]), ("cub", &["{cub;%p1%d}"]), ("cuf", &["{cuf;%p1%d}"]),
    ("cuu1", &["{cuu1}"]), ("cub1", &["{cub1}", "\x08"]), ("cuf1", &["{cuf1}"]),
    ("civis", &["{civis}"]), ("cnorm", &["{cnorm}"]), ("smcup", &["{smcup}"]), ("rmcup", &["{rmcup}"]),
    ("smkx", &["{smkx}"]), ("rmkx", &["{rmkx}"]), ("sgr0", &["{sgr0}"]),
    ("bold", &["{bold}"]), ("sitm", &["{sitm}"]), ("ritm", &["{ritm}"]), ("smul", &["{smul}"]), ("rmul", &["{rmul}"]),
    ("rev", &["{rev}"]),
    ("setaf", &["{setaf;%p1%d}", "{setaf;%?%p1%{8}%<%t%p1%d%e9%;}"]), ("setab", &["{setab;%p1%d}"]),
];

/// Capabilities that may be defined by a string that cannot be expanded
const FRAIL: &[&str] = &["clear", "el", "ed", "cup", "csr", "home", "cuu", "cud", "cub", "cuf", "cuu1", "cub1", "cuf1"];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct CapDef {
    /// 0: missing, 1: defined, 2: cannot be expanded (if that may be)
    state: u8,
    form: u8,
    pad: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Descr {
    pub(super) xterm: bool,
    pub(super) caps: Vec<CapDef>,
    /// Where the name that it is found by comes in the entry: 0: first
    #[serde(default)]
    pub(super) alias: u8,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Missing,
    Good,
    Broken,
}

impl Descr {
    fn st(&self, name: &str) -> St {
        let i = CAPS.iter().position(|c| c.0 == name).unwrap();
        match self.caps.get(i).map(|c| c.state) {
            Some(2) if FRAIL.contains(&name) => St::Broken,
            Some(1) | Some(2) => St::Good,
            _ => St::Missing,
        }
    }
    pub(super) fn has(&self, name: &str) -> bool {
        self.st(name) == St::Good
    }
    /// Makes a capability missing.
    pub(super) fn remove(&mut self, name: &str) {
        let i = CAPS.iter().position(|c| c.0 == name).unwrap();
        if let Some(c) = self.caps.get_mut(i) {
            c.state = 0;
        }
    }
    pub(super) fn strings(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (i, (name, forms)) in CAPS.iter().enumerate() {
            let c = match self.caps.get(i) {
                Some(c) if c.state > 0 => c,
                _ => continue,
            };
            let mut s = String::new();
            if self.st(name) == St::Broken {
                // Needs a parameter that is not there
                s.push_str(&format!("\x1b{{{};%d}}", name));
            } else {
                let f = forms[c.form as usize % forms.len()];
                if f.starts_with('{') {
                    s.push('\x1b');
                }
                s.push_str(f);
            }
            let (before, after) = match c.pad % 8 {
                1 => ("", "$<5>"),
                2 => ("", "$<50/>"),
                3 => ("$<2>", ""),
                4 => ("", "$<10.5*/>"),
                5 => ("$<1>", "$<2*>"),
                _ => ("", ""),
            };
            if s.ends_with('}') && c.pad % 8 == 6 {
                // Not padding, but to be sent
                s.pop();
                s.push_str([";$<x>}", ";$<}", ";$}", ";$<>}$<4>"][(i + c.form as usize) % 4]);
            } else if s.ends_with('}') && c.pad % 8 == 7 {
                s.insert_str(s.len() - 1, "$<2.5*>");
            }
            m.insert(name.to_string(), format!("{}{}{}", before, s, after).into_bytes());
        }
        m
    }
    fn mask(&self) -> Mask {
        let b = |n: &str, m: u8| if self.has(n) { m } else { 0 };
        Mask {
            fg: self.has("setaf"),
            bg: self.has("setab"),
            style: b("bold", 1) | b("sitm", 2) | b("rev", 4) | b("smul", 8),
        }
    }
    pub(super) fn name(&self) -> &'static str {
        if self.xterm { "xterm-vpgen" } else { "vpgen" }
    }
    pub(super) fn install(&self) {
        let n = self.name();
        let names = match (self.alias, self.xterm) {
            (1, true) => format!("xterm|{}", n),
            (1, false) => format!("vt|{}", n),
            (2, true) => format!("xterm-other|vt|{}|another", n),
            (2, false) => format!("other|x|{}|another", n),
            _ => n.to_owned(),
        };
        ti::install_as(n, &names, &self.strings());
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DPart {
    Direct(Vec<TOp>),
    Guard(Vec<TOp>),
    /// prepare, calls, restore
    Prepared(Cfg, Vec<TOp>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DescCase {
    Calls { desc: Descr, lines: usize, cols: usize, start: (Rel, Rel), parts: Vec<DPart> },
    Screen { desc: Descr, lines: usize, cols: usize, cfg: Cfg, ops: Vec<SOp> },
    /// Opening with a terminal type that does not exist
    NoType { name: Option<String>, path: u8 },
    /// Opening a path that is not a terminal
    NoPath { desc: Descr, path: u8, cfg: Cfg },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Need {
    Must,
    May,
    Cannot,
}

fn need(d: &Descr, op: &TOp) -> Need {
    let one = |good: bool| if good { Need::Must } else { Need::Cannot };
    let mv = |n: u64, parm: &str, single: &str, prefer_parm: bool| {
        let (p, s) = (d.st(parm), d.st(single));
        match n {
            0 => Need::Must,
            1 if prefer_parm && (p == St::Good || (p == St::Missing && s == St::Good)) => Need::Must,
            1 if !prefer_parm && s == St::Good => Need::Must,
            n if n > 1 && p == St::Good => Need::Must,
            _ if p == St::Good || s == St::Good => Need::May,
            _ => Need::Cannot,
        }
    };
    match op {
        TOp::Up(n) => mv(*n, "cuu", "cuu1", true),
        TOp::Down(0) => Need::Must,
        TOp::Down(_) => one(d.has("cud")),
        TOp::Left(n) => mv(*n, "cub", "cub1", false),
        TOp::Right(n) => mv(*n, "cuf", "cuf1", false),
        TOp::ClearScreen => one(d.has("clear")),
        TOp::ClearEol => one(d.has("el")),
        TOp::ClearEos => one(d.has("ed")),
        _ => Need::Must,
    }
}

/// The device seen from both sides
struct Rig<'a> {
    d: &'a Descr,
    mask: Mask,
    disp: Disp,
    attr: Attr,
    want: Vec<(char, Attr)>,
    vt: Vt,
    info: Info,
    failed: u32,
}

impl<'a> Rig<'a> {
    fn new(d: &'a Descr, lines: usize, cols: usize, start: (usize, usize)) -> Rig<'a> {
        let mut vt = Vt::new(lines, cols, false, false);
        vt.xterm = d.xterm;
        vt.record = true;
        for c in vt.grid.iter_mut() {
            c.text = "#".into();
        }
        vt.cur = start;
        Rig {
            d, mask: d.mask(), attr: Attr::default(), want: Vec::new(),
            disp: Disp { lines, cols, cur: start, cells: vec![Some("#".into()); lines * cols], visible: true },
            vt, info: Info::default(), failed: 0,
        }
    }

    /// Makes one call and predicts its effect.
    fn call(&mut self, op: &TOp, f: &mut dyn FnMut(&TOp) -> io::Result<()>) -> Result<(), String> {
        let fit = |s: &str| self.disp.fit(s);
        let op = &match op {
            TOp::WriteStr(s) => TOp::WriteStr(fit(s)),
            TOp::WriteFmt(s, n) => TOp::WriteStr(fit(&format!("{}{}", s, n))),
            TOp::WriteChar(c) if fit(&c.to_string()).is_empty() => return Ok(()),
            TOp::WriteStyled(a, b, c, s) => TOp::WriteStyled(*a, *b, *c, fit(s)),
            op => op.clone(),
        };
        let need = need(self.d, op);
        match (f(op), need) {
            (Err(_), Need::Must) | (Ok(()), Need::Cannot) => {
                return Err(format!("{:?} {} with the capabilities {:?}", op, if need == Need::Must { "fails" } else { "succeeds" },
                    self.d.strings().keys().collect::<Vec<_>>()));
            }
            (Err(_), _) => {
                self.failed += 1;
                self.info.class("call failed: missing capability");
                return Ok(());
            }
            (Ok(()), _) => (),
        }
        attr_model(&mut self.attr, op, &mut self.want);
        match op {
            TOp::CursorMode(m) => {
                if self.d.has(if *m % 3 == 1 { "civis" } else { "cnorm" }) {
                    self.disp.visible = *m % 3 != 1;
                } else {
                    self.info.class("cursor mode not supported");
                }
            }
            TOp::WriteChar(c) => self.disp.apply(&TOp::WriteStr(c.to_string())),
            TOp::WriteStyled(_, _, _, s) => self.disp.apply(&TOp::WriteStr(s.clone())),
            op => self.disp.apply(op),
        }
        Ok(())
    }

    fn check(&mut self) -> Result<(), String> {
        self.vt.feed(&sim::take_out());
        if self.vt.mid() {
            return Err("output ends inside a sequence".into());
        }
        self.disp.compare(&self.vt, true)?;
        let attrs = self.d.has("sgr0");
        if self.want.len() != self.vt.printed.len() {
            return Err(format!("printed {:?}, should print {:?}", self.vt.printed, self.want));
        }
        for (w, v) in self.want.iter().zip(&self.vt.printed) {
            let (w, v) = ((w.0, self.mask.apply(w.1)), *v);
            if w.0 != v.0 || attrs && w.1 != v.1 {
                return Err(format!("character appears as {:?}, should be {:?}", v, w));
            }
        }
        self.want.clear();
        self.vt.printed.clear();
        Ok(())
    }
}

pub(super) fn lowest_fd() -> i32 {
    unsafe {
        let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDONLY | libc::O_CLOEXEC);
        libc::close(fd);
        fd
    }
}

fn calls(desc: &Descr, lines: usize, cols: usize, start: (Rel, Rel), parts: &[DPart]) -> CaseResult {
    let start = (start.0.inside(lines), start.1.inside(cols));
    let mut rig = Rig::new(desc, lines, cols, start);
    let s = Session::new(desc.name(), lines, cols, Sim::default());
    let term = s.terminal().map_err(|e| format!("open: {}", e))?;
    if term.name() != desc.name() {
        return Err(format!("name() is {:?}", term.name()));
    }
    // Keypad mode: None: not specified
    let mut keypad = Some(false);
    for p in parts {
        match p {
            DPart::Direct(ops) => for op in ops {
                let before = rig.failed;
                rig.call(op, &mut |op| on_term(&term, op))?;
                if rig.failed > before && !sim::with(|s| s.out.is_empty()) {
                    return Err(format!("{:?} fails, but sends {:?}", op, String::from_utf8_lossy(&sim::take_out())));
                }
                rig.check().map_err(|e| format!("after {:?}: {}", op, e))?;
            },
            DPart::Guard(ops) => {
                let mut g = term.lock_write().map_err(|_| "poisoned")?;
                for op in ops {
                    rig.call(op, &mut |op| on_guard(&mut g, op))?;
                }
                drop(g);
                rig.check().map_err(|e| format!("after a write guard {:?}: {}", ops, e))?;
            }
            DPart::Prepared(cfg, ops) => {
                let state = term.prepare(cfg.get()).map_err(|e| format!("prepare fails: {}", e))?;
                rig.check().map_err(|e| format!("after prepare: {}", e))?;
                let on = cfg.keypad && desc.has("smkx");
                if on {
                    keypad = Some(true);
                }
                let kp = |rig: &Rig, keypad: Option<bool>, when: &str| match keypad {
                    Some(k) if k != rig.vt.keypad => Err(format!("keypad mode {} {}", rig.vt.keypad, when)),
                    _ => Ok(()),
                };
                kp(&rig, keypad, "while prepared")?;
                let mouse = cfg.mouse && desc.xterm;
                let m = (rig.vt.mouse, rig.vt.mouse_sgr, rig.vt.mouse_motion);
                if m != (mouse, mouse, mouse && cfg.motion) {
                    return Err(format!("mouse modes {:?} while prepared with {:?} on {}", m, cfg, desc.name()));
                }
                for op in ops {
                    rig.call(op, &mut |op| on_term(&term, op))?;
                    rig.check().map_err(|e| format!("after {:?}: {}", op, e))?;
                }
                term.restore(state).map_err(|e| format!("restore fails: {}", e))?;
                rig.check().map_err(|e| format!("after restore: {}", e))?;
                if on {
                    keypad = if desc.has("rmkx") { Some(false) } else { None };
                }
                kp(&rig, keypad, "after restore")?;
                if (rig.vt.mouse, rig.vt.mouse_sgr, rig.vt.mouse_motion) != (false, false, false) {
                    return Err("mouse modes remain after restore".into());
                }
                rig.info.class("prepare and restore");
                rig.info.class_if(cfg.keypad && !desc.has("smkx"), "keypad not supported");
                rig.info.class_if(cfg.mouse && !desc.xterm, "mouse not supported");
            }
        }
    }
    drop(term);
    if desc.has("cnorm") {
        rig.disp.visible = true;
    }
    rig.check().map_err(|e| format!("after dropping the Terminal: {}", e))?;
    rig.info.nontrivial = rig.failed > 0 || desc.caps.iter().any(|c| c.state != 0 && c.pad % 8 != 0);
    rig.info.class_if(desc.caps.iter().any(|c| c.state == 2), "capability that cannot be expanded");
    rig.info.class_if(!desc.has("sgr0"), "no sgr0");
    Ok(rig.info)
}

fn screen(desc: &Descr, lines: usize, cols: usize, cfg: &Cfg, ops: &[SOp]) -> CaseResult {
    let mut vt = Vt::new(lines, cols, false, false);
    vt.xterm = desc.xterm;
    for c in vt.grid.iter_mut() {
        c.text = "#".into();
    }
    let before = vt.clone();
    let s = Session::new(desc.name(), lines, cols, Sim::default());
    s.drain_signals();
    let handlers: Vec<_> = SIGNALS.iter().map(|s| get_handler(*s)).collect();
    let tio = pty().get_tio();
    let fd = lowest_fd();
    let mut info = Info::default();
    let opened = s.screen(cfg.get());
    vt.feed(&sim::take_out());
    let can = desc.has("csr") && desc.has("home") && desc.has("clear");
    let leaves = desc.has("smcup") && desc.has("rmcup");
    let scr: Screen = match opened {
        Ok(_) if !can => return Err(format!("opening a Screen succeeds with {:?}", desc.strings().keys().collect::<Vec<_>>())),
        Err(e) if can => return Err(format!("opening a Screen fails: {}", e)),
        Err(_) => {
            info.class("opening failed: missing capability");
            info.nontrivial = true;
            after(&vt, desc, &tio, &handlers, fd, cfg)?;
            if (leaves || !desc.has("smcup")) && (vt.grid != before.grid || vt.alt) {
                return Err("a failed opening changed the display".into());
            }
            return Ok(info);
        }
        Ok(s) => s,
    };
    if scr.name() != desc.name() {
        return Err(format!("name() is {:?}", scr.name()));
    }
    let mut model = Model::new(lines, cols);
    let mask = if desc.has("sgr0") { desc.mask() } else { Mask { fg: false, bg: false, style: 0 } };
    // Without cup a refresh may fail, but not do something else
    let compare = |vt: &mut Vt, model: &Model, done: bool, at: &str| -> Result<(), String> {
        if !vt.errors.is_empty() {
            return Err(format!("{}: terminal received garbage: {:?}", at, vt.errors));
        }
        if desc.has("cup") || done {
            let mut v = vt.clone();
            if !desc.has("sgr0") {
                v.grid.iter_mut().for_each(|c| c.attr = Attr::default());
            }
            model.compare(&v, &mask).map_err(|e| format!("{}: {}", at, e))?;
        }
        Ok(())
    };
    let mut visible = true;
    let mut modes = |m: u8, info: &mut Info| {
        if desc.has(if m % 3 == 1 { "civis" } else { "cnorm" }) {
            visible = m % 3 != 1;
            info.class("cursor mode");
        }
    };
    for op in ops {
        match op {
            SOp::Refresh => {
                let r = scr.refresh();
                vt.feed(&sim::take_out());
                match r {
                    Err(e) if desc.has("cup") => return Err(format!("refresh fails: {}", e)),
                    r => {
                        compare(&mut vt, &model, r.is_ok(), "refresh")?;
                        info.class_if(!desc.has("cup"), if r.is_ok() { "no cup, not needed" } else { "no cup" });
                    }
                }
            }
            SOp::CursorMode(m) => {
                scr.set_cursor_mode(mode(*m)).map_err(|e| format!("set_cursor_mode: {}", e))?;
                modes(*m, &mut info);
            }
            SOp::Guard(ops) => {
                let mut g = scr.lock_write().map_err(|_| "poisoned")?;
                for op in ops {
                    match op {
                        SOp::Refresh => {
                            let _ = g.refresh();
                        }
                        SOp::CursorMode(m) => {
                            g.set_cursor_mode(mode(*m)).map_err(|e| format!("set_cursor_mode: {}", e))?;
                            modes(*m, &mut info);
                        }
                        SOp::Guard(_) => (),
                        op => {
                            draw_guard(&mut g, op);
                            draw_model(&mut model, op);
                        }
                    }
                }
                drop(g);
                vt.feed(&sim::take_out());
                compare(&mut vt, &model, false, "write guard")?;
            }
            op => {
                draw_screen(&scr, op);
                draw_model(&mut model, op);
            }
        }
    }
    vt.feed(&sim::take_out());
    if vt.visible != visible {
        return Err(format!("cursor visible: {}", vt.visible));
    }
    drop(scr);
    vt.feed(&sim::take_out());
    after(&vt, desc, &tio, &handlers, fd, cfg)?;
    if leaves && (vt.alt || vt.grid != before.grid) {
        return Err("the alternate screen was not left".into());
    }
    info.nontrivial = model.cells.iter().any(|c| c.text != " ")
        && desc.caps.iter().any(|c| c.state == 0 || c.pad % 8 != 0);
    info.class("screen");
    Ok(info)
}

/// What must hold after a Screen ended or could not be opened
pub(super) fn after(vt: &Vt, desc: &Descr, tio: &libc::termios, handlers: &[(usize, i32, u64)], fd: i32, cfg: &Cfg) -> Result<(), String> {
    if !vt.errors.is_empty() || vt.mid() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    if !tio_eq(tio, &pty().get_tio()) {
        return Err(format!("line settings {} remain, were {}", tio_str(&pty().get_tio()), tio_str(tio)));
    }
    for (s, h) in SIGNALS.iter().zip(handlers) {
        if get_handler(*s) != *h {
            return Err(format!("handler of signal {} was not restored", s));
        }
    }
    if lowest_fd() != fd {
        return Err("the device was not closed".into());
    }
    if vt.mouse || vt.mouse_motion || vt.mouse_sgr {
        return Err("mouse modes remain".into());
    }
    if vt.keypad && desc.has("rmkx") {
        return Err(format!("keypad mode remains ({:?})", cfg));
    }
    if desc.has("cnorm") && !vt.visible {
        return Err("the cursor remains invisible".into());
    }
    if desc.has("sgr0") && vt.attr != Attr::default() {
        return Err(format!("attributes {:?} remain", vt.attr));
    }
    Ok(())
}

fn no_type(name: &Option<String>, path: u8) -> CaseResult {
    let s = Session::new("xterm", 5, 10, Sim::default());
    match name {
        Some(n) => std::env::set_var("TERM", n),
        None => std::env::remove_var("TERM"),
    }
    let fd = lowest_fd();
    let handlers: Vec<_> = SIGNALS.iter().map(|s| get_handler(*s)).collect();
    let r = match path % 3 {
        0 => s.terminal().err(),
        1 => s.screen(Default::default()).err(),
        _ => Terminal::new().err(),
    };
    std::env::set_var("TERM", "xterm");
    match r {
        None => return Err(format!("opening with TERM={:?} succeeds", name)),
        Some(_) => (),
    }
    if !sim::take_out().is_empty() {
        return Err("output was sent".into());
    }
    if lowest_fd() != fd {
        return Err("the device was not closed after the error".into());
    }
    if SIGNALS.iter().zip(&handlers).any(|(s, h)| get_handler(*s) != *h) {
        return Err("signal handlers changed".into());
    }
    let mut i = Info::new(true);
    i.class("unknown terminal type");
    Ok(i)
}

fn no_path(desc: &Descr, path: u8, cfg: &Cfg) -> CaseResult {
    let s = Session::new(desc.name(), 5, 10, Sim::default());
    let base = crate::dev::scratch().join(format!("np{}", std::process::id()));
    let _ = std::fs::create_dir_all(&base);
    let mut i = Info::new(true);
    let (p, exists) = match path % 4 {
        0 => (base.join("nothing"), false),
        1 => (base.clone(), false),
        2 => {
            let p = base.join("file");
            std::fs::write(&p, b"").map_err(|e| e.to_string())?;
            (p, true)
        }
        _ => (std::path::PathBuf::from("/dev/null"), true),
    };
    let fd = lowest_fd();
    let handlers: Vec<_> = SIGNALS.iter().map(|s| get_handler(*s)).collect();
    match Terminal::from_path(&p) {
        Ok(_) if !exists => return Err(format!("opening {:?} succeeds", p)),
        Ok(t) => {
            // Not a terminal
            if t.size().is_ok() {
                return Err(format!("size of {:?} is known", p));
            }
            if t.prepare(cfg.get()).is_ok() {
                return Err(format!("prepare of {:?} succeeds", p));
            }
            if Screen::with_terminal(t, cfg.get()).is_ok() {
                return Err(format!("Screen of {:?} opens", p));
            }
            i.class("not a terminal");
        }
        Err(e) if exists => return Err(format!("opening {:?}: {}", p, e)),
        Err(_) => i.class("unknown path"),
    }
    drop(s);
    if lowest_fd() != fd {
        return Err("the device was not closed".into());
    }
    if SIGNALS.iter().zip(&handlers).any(|(s, h)| get_handler(*s) != *h) {
        return Err("signal handlers changed".into());
    }
    Ok(i)
}

pub struct C18;

fn arb_alias() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(0u8), 1 => 1u8..3].boxed()
}

fn arb_desc() -> BoxedStrategy<Descr> {
    // How much is missing differs between descriptions
    ((any::<bool>(), arb_alias()), prop_oneof![2 => Just(0u32), 3 => Just(10), 2 => Just(50), 1 => Just(90)],
        prop_oneof![3 => Just(0u32), 1 => Just(8)], prop_oneof![1 => Just(0u32), 1 => Just(30)],
        vec((0u32..100, 0u32..100, 0u32..100, 0u8..3, 0u8..8), CAPS.len()))
        .prop_map(|((xterm, alias), missing, broken, padded, v)| Descr {
            alias,
            xterm,
            caps: v.into_iter().map(|(a, b, c, form, pad)| CapDef {
                state: if a < missing { 0 } else if b < broken { 2 } else { 1 },
                form,
                pad: if c < padded { pad } else { 0 },
            }).collect(),
        }).boxed()
}

/// Mostly complete, with at most a few capabilities missing
pub(super) fn arb_screen_desc() -> BoxedStrategy<Descr> {
    ((any::<bool>(), arb_alias()), vec(0usize..CAPS.len(), 0..6), vec((0usize..CAPS.len(), 0u8..8), 0..4), vec(0u8..3, CAPS.len()),
        prop_oneof![6 => Just(None), 1 => (0usize..CAPS.len()).prop_map(Some)])
        .prop_map(|((xterm, alias), missing, padded, forms, broken)| {
            let mut caps: Vec<CapDef> = forms.into_iter().map(|form| CapDef { state: 1, form, pad: 0 }).collect();
            for (i, p) in padded {
                caps[i].pad = p;
            }
            for i in missing {
                caps[i].state = 0;
            }
            if let Some(b) = broken {
                caps[b].state = 2;
            }
            Descr { xterm, caps, alias }
        }).boxed()
}

impl Prop for C18 {
    type Case = DescCase;
    const ID: &'static str = "C18";
    const TIMES: u32 = 5;
    const RULE: &'static str = "a case is a generated terminal description (any subset of the capabilities, in its own sequences, with padding \
        markers and capabilities that cannot be expanded) and a history of Terminal calls, prepare/restore or a Screen session; a terminal that \
        knows only that description's sequences executes the output and anything else it receives is an error; also unknown types and paths; \
        non-trivial if a call failed for a missing capability or a capability was missing or padded";
    fn assumptions() -> Vec<&'static str> {
        vec!["descriptions with auto-margins and newline glitch (am, xenl)", "attributes are not specified without sgr0",
            "the alternate screen is left only if both smcup and rmcup exist"]
    }
    fn lanes() -> Vec<Lane<DescCase>> {
        fn op() -> BoxedStrategy<TOp> {
            prop_oneof![
                4 => arb_move_op(), 3 => arb_attr_op(), 2 => arb_text_op(4),
                1 => prop_oneof![Just("$<5>"), Just("a$<2/>b"), Just("$<"), Just("{cuu1}")].prop_map(|s| TOp::WriteStr(s.into())),
            ].boxed()
        }
        // Text is kept to characters of one column
        fn narrow(op: TOp) -> TOp {
            let f = |s: String| s.replace('漢', "k");
            match op {
                TOp::WriteStr(s) => TOp::WriteStr(f(s)),
                TOp::WriteFmt(s, n) => TOp::WriteFmt(f(s), n),
                TOp::WriteChar('漢') => TOp::WriteChar('k'),
                TOp::WriteStyled(a, b, c, s) => TOp::WriteStyled(a, b, c, f(s)),
                op => op,
            }
        }
        let op = || op().prop_map(narrow);
        let part = prop_oneof![
            2 => vec(op(), 1..8).prop_map(DPart::Direct),
            2 => vec(op(), 0..8).prop_map(DPart::Guard),
            1 => (arb_cfg(), vec(op(), 0..4)).prop_map(|(c, v)| DPart::Prepared(c, v)),
        ];
        let calls = (prop_oneof![arb_desc(), arb_screen_desc()], 1usize..8, 2usize..24, (arb_rel_in(), arb_rel_in()), vec(part, 1..5))
            .prop_map(|(desc, lines, cols, start, parts)| DescCase::Calls { desc, lines, cols, start, parts }).boxed();
        let screen = (arb_screen_desc(), arb_size(), arb_cfg(), arb_history(8, 8, 3))
            .prop_map(|(desc, (lines, cols), cfg, mut ops)| {
                ops.push(SOp::Refresh);
                DescCase::Screen { desc, lines, cols, cfg, ops }
            }).boxed();
        let none = prop_oneof![
            prop::option::of(prop_oneof![Just(String::new()), Just("nosuchterm".to_owned()), Just("xterm-nosuch".to_owned()),
                Just("/".to_owned()), Just("../x/xterm-".to_owned()), Just("é".to_owned()), vec(prop::char::range(' ', '~'), 9..20).prop_map(join)])
                .prop_flat_map(|name| (0u8..3).prop_map(move |path| DescCase::NoType { name: name.clone(), path })),
            (arb_desc(), 0u8..4, arb_cfg()).prop_map(|(desc, path, cfg)| DescCase::NoPath { desc, path, cfg }),
        ].boxed();
        vec![
            lane("calls", 60_000, 1_500_000, calls),
            lane("screen", 30_000, 600_000, screen),
            lane("unknown type or path", 3_000, 40_000, none),
        ]
    }
    fn run(case: &DescCase) -> CaseResult {
        let r = match case {
            DescCase::Calls { desc, lines, cols, start, parts } => {
                desc.install();
                calls(desc, *lines, *cols, *start, parts)
            }
            DescCase::Screen { desc, lines, cols, cfg, ops } => {
                desc.install();
                screen(desc, *lines, *cols, cfg, ops)
            }
            DescCase::NoType { name, path } => no_type(name, *path),
            DescCase::NoPath { desc, path, cfg } => {
                desc.install();
                no_path(desc, *path, cfg)
            }
        };
        ti::uninstall();
        r
    }
}
