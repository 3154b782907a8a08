//! C17 ending a Screen or Terminal, whatever happens. Each case runs in a process of its own.

use std::fmt;
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::time::Duration;

use libc::c_int;
use mortal::{Screen, ScreenWriteGuard, Terminal};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use super::desc::{self, Descr};
use super::screen::{arb_flt_set, disturb, Flt, STUCK};
use super::sigs::toggles;
use crate::dev::{get_handler, noop_handler, noop_handler2, pty, pty_in, Pty, set_handler, tio_eq, tio_str, Session, SIGNALS};
use crate::engine::*;
use crate::gen::*;
use crate::screen_ops::*;
use crate::sim::{self, Sim, WriteFault};
use crate::term_ops::*;
use crate::ti;
use crate::vt::{Attr, Vt};

#[derive(Serialize, Deserialize)]
struct Report {
    err: Option<String>,
    nontrivial: bool,
    classes: Vec<String>,
}

/// Runs a case in a child process, which may abort.
pub(super) fn in_child<F: FnOnce() -> CaseResult>(names: &[&'static str], secs: u32, f: F) -> CaseResult {
    let rep: Report = forked(secs, || match f() {
        Ok(i) => Report { err: None, nontrivial: i.nontrivial, classes: i.classes.iter().map(|c| c.to_string()).collect() },
        Err(e) => Report { err: Some(e), nontrivial: false, classes: Vec::new() },
    })?;
    match rep.err {
        Some(e) => Err(e),
        None => {
            let mut i = Info::new(rep.nontrivial);
            for n in names {
                i.class_if(rep.classes.iter().any(|c| c == n), n);
            }
            Ok(i)
        }
    }
}

/// The result of `f` called in a child process.
pub(super) fn forked<T: Serialize + DeserializeOwned, F: FnOnce() -> T>(secs: u32, f: F) -> Result<T, String> {
    let _ = pty();
    let mut fds = [0 as c_int; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
    }
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::signal(libc::SIGALRM, libc::SIG_DFL);
            libc::alarm(secs);
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Ok(r),
            Err(_) => Err(format!("panic: {}", take_panic().unwrap_or_default())),
        };
        sim::deactivate();
        let text = serde_json::to_vec(&r).unwrap();
        let mut at = 0;
        while at < text.len() {
            let n = unsafe { libc::write(fds[1], text[at..].as_ptr() as *const _, text.len() - at) };
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]); }
    let mut text = Vec::new();
    let mut status = 0;
    let mut was_stopped = false;
    // A stopped child would keep the pipe open
    unsafe {
        let mut rd = std::fs::File::from_raw_fd(fds[0]);
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut p, 1, 200) > 0 {
                let mut buf = [0u8; 4096];
                match rd.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => text.extend_from_slice(&buf[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
                    Err(e) => panic!("reading from the child: {}", e),
                }
            } else if stopped(pid as u32) {
                libc::kill(pid, libc::SIGKILL);
                was_stopped = true;
            }
        }
        while libc::waitpid(pid, &mut status, 0) < 0 {
            assert_eq!(std::io::Error::last_os_error().raw_os_error(), Some(libc::EINTR));
        }
        libc::tcsetattr(pty().slave, libc::TCSANOW, &pty().tio);
    }
    if was_stopped {
        return Err("the process was stopped".to_owned());
    }
    if libc::WIFSIGNALED(status) {
        let n = libc::WTERMSIG(status);
        return Err(match n {
            libc::SIGABRT => "the process aborted".to_owned(),
            libc::SIGALRM => "the process hung".to_owned(),
            n => format!("the process was killed by signal {}", n),
        });
    }
    let r: Result<T, String> = serde_json::from_slice(&text)
        .map_err(|_| format!("the process ended with status {}", libc::WEXITSTATUS(status)))?;
    r
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Draw(SOp),
    /// Draws and refreshes with the device accepting only so many bytes, twice
    Fail(SOp, u8),
    /// The same by dropping a write guard
    FailGuard(SOp, u8),
    Input(String),
    Event,
    Resize(u8, u8),
    Continue,
    /// Another thread draws and panics with these guards held (1 read, 2 write)
    Other(u8, SOp),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EndBy {
    Drop,
    /// A panic with guards held (1 read, 2 write; 4: write locked first)
    Panic(u8),
    /// A panic while text is being formatted for a Screen (0, 1) or guard (2, 3), by write! or term_write!
    Format(u8, String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Start {
    term: u8,
    lines: usize,
    cols: usize,
    tio: u32,
    handlers: Vec<u8>,
    cursor: (Rel, Rel),
    /// Of cases on standard streams: 1 opened as standard error, 2 input from another device, 4 messages go to the device
    #[serde(default)]
    io: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TStep {
    Op(TOp),
    Guard(Vec<TOp>),
    /// Flushes to a device that accepts only so many bytes
    Fail(TOp, u8),
    Other(u8, TOp),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EndCase {
    /// `faults`: the device's writes during the end, or while opening
    Screen { start: Start, cfg: Cfg, steps: Vec<Step>, end: EndBy, thread: bool, stdio: bool, #[serde(default)] faults: Vec<Flt> },
    Terminal { start: Start, steps: Vec<TStep>, end: EndBy, thread: bool, stdio: bool, #[serde(default)] faults: Vec<Flt> },
    Open { start: Start, cfg: Cfg, desc: Descr, lacks: u8, form: u8, #[serde(default)] faults: Vec<Flt> },
}

struct Payload(u32);
struct Bomb;
impl fmt::Display for Bomb {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        panic_any(Payload(7))
    }
}

const CLASSES: &[&str] = &["dropped", "panic without guards", "panic with read guard", "panic with write guard", "panic with both guards",
    "panic while formatting", "another thread panicked", "failed refresh before", "failed to open", "pending output at drop", "cursor invisible",
    "attributes set", "mouse on", "keypad on", "on standard streams", "on standard error", "input from another device", "messages to the same device", "window resized", "continued", "Terminal", "alternate screen", "unknown terminal type",
    "device refused output at the end", "device refused the last output", "device refused output of a failed opening",
    "line settings could not be set"];

fn open_fds() -> Vec<c_int> {
    (0..200).filter(|&fd| unsafe { libc::fcntl(fd, libc::F_GETFD) } >= 0).collect()
}

/// Initial state, compared with the final one
struct World {
    /// The device whose input is read
    input: &'static Pty,
    vt: Vt,
    tio: libc::termios,
    handlers: Vec<(usize, c_int, u64)>,
    fds: Vec<c_int>,
}

impl World {
    fn new(st: &Start, term: &str, mut vt: Vt, stdio: bool) -> (World, Session) {
        let s = Session::new(term, st.lines, st.cols, Sim::default());
        let input = if stdio && st.io & 2 != 0 { pty_in() } else { pty() };
        if stdio && st.io & 2 != 0 {
            input.set_tio(&input.tio);
            input.set_size(st.cols, st.lines);
            sim::input_from(input.rdev);
        }
        let mut tio = input.get_tio();
        for (i, (f, bit)) in toggles().into_iter().enumerate() {
            if st.tio & (1 << i) != 0 {
                match f {
                    0 => tio.c_iflag ^= bit,
                    1 => tio.c_oflag ^= bit,
                    _ => tio.c_lflag ^= bit,
                }
            }
        }
        input.set_tio(&tio);
        for (i, h) in st.handlers.iter().enumerate().take(5) {
            let f = match h % 4 {
                0 => libc::SIG_DFL,
                1 => libc::SIG_IGN,
                2 => noop_handler as *const () as usize,
                _ => noop_handler2 as *const () as usize,
            };
            set_handler(SIGNALS[i], f, if h & 4 != 0 { libc::SA_RESTART } else { 0 }, if h % 4 < 2 { 0 } else { (*h as u64) << 10 });
        }
        if stdio {
            unsafe {
                libc::dup2(input.slave, 0);
                libc::dup2(pty().slave, 1);
                if st.io & 5 != 0 {
                    libc::dup2(pty().slave, 2);
                }
            }
            if st.io & 5 == 4 {
                sim::with(|s| s.messages = Some(2));
            }
        }
        for (i, c) in vt.grid.iter_mut().enumerate() {
            c.text = ((b'a' + (i % 26) as u8) as char).to_string();
        }
        vt.cur = (st.cursor.0.inside(st.lines), st.cursor.1.inside(st.cols));
        let w = World {
            input, vt, tio: input.get_tio(), handlers: SIGNALS.iter().map(|s| get_handler(*s)).collect(), fds: open_fds(),
        };
        (w, s)
    }

    fn same(&self) -> Result<(), String> {
        if sim::with(|s| s.stuck_hit == 0) && !tio_eq(&self.tio, &self.input.get_tio()) {
            return Err(format!("line settings {} remain, were {}", tio_str(&self.input.get_tio()), tio_str(&self.tio)));
        }
        if self.input.rdev != pty().rdev && !tio_eq(&pty().tio, &pty().get_tio()) {
            return Err("line settings of the output device changed".into());
        }
        for (s, h) in SIGNALS.iter().zip(&self.handlers) {
            if get_handler(*s) != *h {
                return Err(format!("handler of signal {} was not restored", s));
            }
        }
        let fds = open_fds();
        if fds != self.fds {
            return Err(format!("open descriptors are {:?}, were {:?}", fds, self.fds));
        }
        Ok(())
    }
}

fn lock(scr: &Screen) -> ScreenWriteGuard {
    scr.lock_write().unwrap_or_else(|e| e.into_inner())
}

fn cut(n: u8) {
    sim::with(|s| s.faults = [WriteFault::Partial(n as usize), WriteFault::Err(libc::EAGAIN)].into_iter().collect());
}

fn uncut() -> bool {
    sim::with(|s| {
        let used = s.faults.len() < 2;
        s.faults.clear();
        used
    })
}

/// Whether all output was delivered in the end
fn delivered(i: &mut Info) -> bool {
    let (hit, full) = sim::with(|s| (s.faults_hit > 0, s.last_write_full));
    i.class_if(hit, "device refused output at the end");
    i.class_if(hit && !full, "device refused the last output");
    i.class_if(sim::with(|s| s.stuck_hit > 0), "line settings could not be set");
    full || !hit
}

/// What the run of a case notes for its classes
#[derive(Default)]
struct Notes {
    info: Info,
    poisoned: bool,
    resized: bool,
    /// Signals were raised since an event was last read
    signals: bool,
}

fn use_screen(scr: Screen, steps: &[Step], end: &EndBy, faults: &[Flt], w: &mut World, n: &mut Notes) -> Result<(), String> {
    for st in steps {
        match st {
            Step::Draw(op) => {
                n.info.class_if(matches!(op, SOp::CursorMode(1) | SOp::CursorMode(4)), "cursor invisible");
                match op {
                    SOp::Guard(ops) => {
                        let mut g = lock(&scr);
                        for op in ops {
                            match op {
                                SOp::Refresh => g.refresh(),
                                SOp::CursorMode(m) => g.set_cursor_mode(mode(*m)),
                                op => { draw_guard(&mut g, op); Ok(()) }
                            }.map_err(|e| e.to_string())?;
                        }
                    }
                    SOp::Refresh if n.poisoned => lock(&scr).refresh().map_err(|e| e.to_string())?,
                    SOp::Refresh => scr.refresh().map_err(|e| e.to_string())?,
                    SOp::CursorMode(m) if n.poisoned => lock(&scr).set_cursor_mode(mode(*m)).map_err(|e| e.to_string())?,
                    SOp::CursorMode(m) => scr.set_cursor_mode(mode(*m)).map_err(|e| e.to_string())?,
                    op if n.poisoned => draw_guard(&mut lock(&scr), op),
                    op => draw_screen(&scr, op),
                }
            }
            Step::Fail(op, k) => {
                let mut g = lock(&scr);
                draw_guard(&mut g, op);
                cut(*k);
                let r = g.refresh();
                let used = uncut();
                n.info.class_if(r.is_err() && used, "failed refresh before");
            }
            Step::FailGuard(op, k) => {
                let mut g = lock(&scr);
                draw_guard(&mut g, op);
                cut(*k);
                drop(g);
                n.info.class_if(uncut(), "failed refresh before");
            }
            Step::Input(s) => sim::with(|x| x.avail.extend(s.bytes())),
            // A pending signal may need the write lock
            Step::Event if n.poisoned && n.signals => (),
            Step::Event => {
                n.signals = false;
                let r = scr.lock_read().unwrap_or_else(|e| e.into_inner());
                let mut r = r;
                while r.read_event(Some(Duration::from_secs(0))).map_err(|e| e.to_string())?.is_some() {}
            }
            Step::Resize(l, c) => {
                if !n.poisoned {
                    w.vt.feed(&sim::take_out());
                    let (l, c) = (*l as usize % 9 + 1, *c as usize % 20 + 1);
                    pty().set_size(l, c);
                    w.vt.resize(l, c, '#', Attr::default(), (0, 0));
                    n.resized = true;
                    n.signals = true;
                    n.info.class("window resized");
                    sim::raise_now(libc::SIGWINCH);
                }
            }
            Step::Continue => {
                if !n.poisoned {
                    n.info.class("continued");
                    n.signals = true;
                    sim::raise_now(libc::SIGCONT);
                }
            }
            Step::Other(guards, op) => {
                n.info.class("another thread panicked");
                n.poisoned = true;
                let r = std::thread::scope(|s| {
                    s.spawn(|| {
                        let _r = if guards & 1 != 0 { Some(scr.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
                        let mut _w = if guards & 2 != 0 { Some(lock(&scr)) } else { None };
                        if let Some(w) = _w.as_mut() {
                            draw_guard(w, op);
                        }
                        panic_any(Payload(1));
                    }).join()
                });
                if r.map_err(|p| p.downcast::<Payload>().map(|p| p.0).ok()) != Err(Some(1)) {
                    return Err("the panic of another thread was replaced".into());
                }
            }
        }
    }
    disturb(faults);
    match end {
        EndBy::Drop => n.info.class("dropped"),
        EndBy::Panic(g) => {
            n.info.class(match g & 3 { 0 => "panic without guards", 1 => "panic with read guard", 2 => "panic with write guard",
                _ => "panic with both guards" });
            let (_w1, _r, _w2);
            if g & 4 != 0 && g & 2 != 0 {
                _w1 = lock(&scr);
                _r = if g & 1 != 0 { Some(scr.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
            } else {
                _r = if g & 1 != 0 { Some(scr.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
                if g & 2 != 0 {
                    _w2 = lock(&scr);
                }
            }
            panic_any(Payload(7));
        }
        EndBy::Format(k, text) => {
            n.info.class("panic while formatting");
            // A poisoned Screen can only be used through its guards
            let k = if n.poisoned { k % 4 | 2 } else { k % 4 };
            match k {
                0 => write!(scr, "{}{}", text, Bomb),
                1 => { let _ = term_write!(scr, [bold] ("{}{}", text, Bomb)); }
                2 => write!(lock(&scr), "{}{}", text, Bomb),
                _ => { let mut g = lock(&scr); let _ = term_write!(g, [bold] ("{}{}", text, Bomb)); }
            }
            return Err("formatting did not panic".into());
        }
    }
    drop(scr);
    Ok(())
}

fn use_terminal(t: Terminal, steps: &[TStep], end: &EndBy, faults: &[Flt], want: &mut Vec<(char, Attr)>, n: &mut Notes) -> Result<(), String> {
    let lock = |t| -> mortal::TerminalWriteGuard { Terminal::lock_write(t).unwrap_or_else(|e| e.into_inner()) };
    let mut attr = Attr::default();
    let err = |e: std::io::Error| e.to_string();
    for st in steps {
        match st {
            TStep::Op(op) => {
                n.info.class_if(matches!(op, TOp::CursorMode(1)), "cursor invisible");
                if n.poisoned { on_guard(&mut lock(&t), op) } else { on_term(&t, op) }.map_err(err)?;
                attr_model(&mut attr, op, want);
            }
            TStep::Guard(ops) => {
                let mut g = lock(&t);
                for op in ops {
                    on_guard(&mut g, op).map_err(err)?;
                    attr_model(&mut attr, op, want);
                }
            }
            TStep::Fail(op, k) => {
                let mut g = lock(&t);
                on_guard(&mut g, op).map_err(err)?;
                attr_model(&mut attr, op, want);
                cut(*k);
                drop(g);
                n.info.class_if(uncut(), "pending output at drop");
            }
            TStep::Other(guards, op) => {
                n.info.class("another thread panicked");
                n.poisoned = true;
                let r = std::thread::scope(|s| {
                    s.spawn(|| {
                        let _r = if guards & 1 != 0 { Some(t.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
                        let mut _w = if guards & 2 != 0 { Some(lock(&t)) } else { None };
                        if let Some(w) = _w.as_mut() {
                            on_guard(w, op).unwrap();
                        }
                        panic_any(Payload(1));
                    }).join()
                });
                if guards & 2 != 0 {
                    attr_model(&mut attr, op, want);
                }
                if r.map_err(|p| p.downcast::<Payload>().map(|p| p.0).ok()) != Err(Some(1)) {
                    return Err("the panic of another thread was replaced".into());
                }
            }
        }
    }
    disturb(faults);
    match end {
        EndBy::Drop => n.info.class("dropped"),
        EndBy::Panic(g) => {
            n.info.class(match g & 3 { 0 => "panic without guards", 1 => "panic with read guard", 2 => "panic with write guard",
                _ => "panic with both guards" });
            let _r = if g & 1 != 0 { Some(t.lock_read().unwrap_or_else(|e| e.into_inner())) } else { None };
            let mut _w = if g & 2 != 0 { Some(lock(&t)) } else { None };
            if let Some(w) = _w.as_mut() {
                w.write_str("zz").map_err(err)?;
                want.extend([('z', attr), ('z', attr)]);
            }
            panic_any(Payload(7));
        }
        EndBy::Format(k, _) => {
            n.info.class("panic while formatting");
            let k = if n.poisoned { k % 4 | 2 } else { k % 4 };
            let _ = match k {
                0 => write!(t, "{}", Bomb),
                1 => term_write!(t, ("{}", Bomb)),
                2 => write!(lock(&t), "{}", Bomb),
                _ => { let mut g = lock(&t); term_write!(g, ("{}", Bomb)) }
            };
            return Err("formatting did not panic".into());
        }
    }
    drop(t);
    Ok(())
}

/// Runs `f`, which ends as `end` says, here or in a thread.
fn ended<F: FnOnce() -> Result<(), String> + Send>(end: &EndBy, thread: bool, f: F) -> Result<(), String> {
    let r = if thread {
        std::thread::scope(|s| s.spawn(f).join())
    } else {
        catch_unwind(AssertUnwindSafe(f))
    };
    match (r, end) {
        (Ok(Err(e)), _) => Err(e),
        (Ok(Ok(())), EndBy::Drop) => Ok(()),
        (Ok(Ok(())), _) => Err("the panic disappeared".into()),
        (Err(p), end) => match p.downcast::<Payload>() {
            Ok(p) if p.0 == 7 && *end != EndBy::Drop => Ok(()),
            Ok(_) => Err("another panic came out".into()),
            Err(p) => resume_unwind(p),
        },
    }
}

fn stream_classes(i: &mut Info, start: &Start, stdio: bool) {
    i.class_if(stdio, "on standard streams");
    i.class_if(stdio && start.io & 1 != 0, "on standard error");
    i.class_if(stdio && start.io & 2 != 0, "input from another device");
    i.class_if(stdio && start.io & 5 == 4, "messages to the same device");
}

/// Messages of refused output may be among the output, or be what was delivered last
fn mixed(start: &Start, stdio: bool) -> bool {
    stdio && start.io & 1 != 0 && sim::with(|s| s.refusals > 0 || s.stuck_hit > 0)
}

fn screen(start: &Start, cfg: &Cfg, steps: &[Step], end: &EndBy, thread: bool, stdio: bool, faults: &[Flt]) -> CaseResult {
    let ty = ti::real(start.term);
    let (mut w, s) = World::new(start, ty.name, Vt::new(start.lines, start.cols, ty.bce, true), stdio);
    let before = w.vt.clone();
    let scr = match stdio {
        true if start.io & 1 != 0 => Screen::stderr(cfg.get()),
        true => Screen::new(cfg.get()),
        false => s.screen(cfg.get()),
    }.map_err(|e| format!("open: {}", e))?;
    if open_fds().len() != w.fds.len() + !stdio as usize {
        return Err("other than one device was opened".into());
    }
    let mut n = Notes::default();
    n.info.class_if(cfg.mouse && ty.xterm, "mouse on");
    n.info.class_if(cfg.keypad && ty.keypad, "keypad on");
    stream_classes(&mut n.info, start, stdio);
    ended(end, thread, || use_screen(scr, steps, end, faults, &mut w, &mut n))?;
    w.same()?;
    w.vt.feed(&sim::take_out());
    n.info.nontrivial = *end != EndBy::Drop || n.poisoned || steps.len() > 1;
    if !delivered(&mut n.info) || mixed(start, stdio) {
        return Ok(n.info);
    }
    let vt = &w.vt;
    // A Screen that has not read of its new size may draw outside
    if vt.mid() || !vt.errors.is_empty() && !n.resized {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    if vt.mouse || vt.mouse_motion || vt.mouse_sgr || vt.track != 0 {
        return Err("mouse modes remain".into());
    }
    if vt.keypad {
        return Err("keypad mode remains".into());
    }
    if !vt.visible {
        return Err("the cursor remains invisible".into());
    }
    if vt.attr != Attr::default() {
        return Err(format!("attributes {:?} remain", vt.attr));
    }
    if ty.alt {
        n.info.class("alternate screen");
        if vt.alt {
            return Err("the alternate screen was not left".into());
        }
        if !n.resized && vt.grid != before.grid {
            return Err("the display changed".into());
        }
    }
    n.info.nontrivial = *end != EndBy::Drop || n.poisoned || steps.len() > 1;
    Ok(n.info)
}

fn terminal(start: &Start, steps: &[TStep], end: &EndBy, thread: bool, stdio: bool, faults: &[Flt]) -> CaseResult {
    let ty = ti::real(start.term);
    let (mut w, s) = World::new(start, ty.name, Vt::new(start.lines, start.cols, ty.bce, true), stdio);
    w.vt.record = true;
    let t = match stdio {
        true if start.io & 1 != 0 => Terminal::stderr(),
        true => Terminal::new(),
        false => s.terminal(),
    }.map_err(|e| format!("open: {}", e))?;
    if open_fds().len() != w.fds.len() + !stdio as usize {
        return Err("other than one device was opened".into());
    }
    let mut n = Notes::default();
    stream_classes(&mut n.info, start, stdio);
    let mut want = Vec::new();
    ended(end, thread, || use_terminal(t, steps, end, faults, &mut want, &mut n))?;
    w.same()?;
    w.vt.feed(&sim::take_out());
    n.info.nontrivial = *end != EndBy::Drop || n.poisoned || steps.len() > 1;
    if !delivered(&mut n.info) || mixed(start, stdio) {
        return Ok(n.info);
    }
    let vt = &w.vt;
    if vt.mid() || !vt.errors.is_empty() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    if !vt.visible {
        return Err("the cursor remains invisible".into());
    }
    let got: Vec<_> = vt.printed.iter().map(|p| (p.0, ty.mask.apply(p.1))).collect();
    let want: Vec<_> = want.iter().map(|p| (p.0, ty.mask.apply(p.1))).collect();
    if got != want {
        return Err(format!("the terminal shows {:?}, written were {:?}", got, want));
    }
    n.info.class("Terminal");
    n.info.nontrivial = *end != EndBy::Drop || n.poisoned || steps.len() > 1;
    Ok(n.info)
}

fn open(start: &Start, cfg: &Cfg, desc: &Descr, lacks: u8, form: u8, faults: &[Flt]) -> CaseResult {
    let mut vt = Vt::new(start.lines, start.cols, false, false);
    vt.xterm = desc.xterm;
    let (mut w, s) = World::new(start, desc.name(), vt, form % 3 == 2);
    let before = w.vt.clone();
    // From 3 on the terminal type is unknown
    let unknown = form % 6 >= 3;
    if unknown {
        if lacks & 1 != 0 {
            std::env::remove_var("TERM");
        } else {
            std::env::set_var("TERM", "mortal-pbt-unknown");
        }
    }
    disturb(faults);
    let r = match form % 3 {
        0 => s.screen(cfg.get()),
        1 => s.terminal().and_then(|t| Screen::with_terminal(t, cfg.get())),
        _ if start.io & 1 != 0 => Screen::stderr(cfg.get()),
        _ => Screen::new(cfg.get()),
    };
    let can = ["csr", "home", "clear"].iter().all(|c| desc.has(c)) && !unknown;
    let refused = sim::with(|s| s.faults_hit > 0 || s.stuck_hit > 0);
    let failed = r.is_err();
    if r.is_ok() != can && !(refused && r.is_err()) {
        return Err(format!("opening {} although {:?} is lacking (unknown type: {})", if r.is_ok() { "succeeds" } else { "fails" }, lacks, unknown));
    }
    drop(r);
    w.vt.feed(&sim::take_out());
    w.same()?;
    let mut i = Info::new(failed);
    i.class_if(refused && failed, "device refused output of a failed opening");
    i.class_if(failed, "failed to open");
    if !delivered(&mut i) || mixed(start, form % 3 == 2) {
        return Ok(i);
    }
    let fd = desc::lowest_fd();
    // Those of the input device were compared above
    let tio = if w.input.rdev != pty().rdev { pty().tio } else { w.tio };
    desc::after(&w.vt, desc, &tio, &w.handlers, fd, cfg)?;
    if (desc.has("smcup") && desc.has("rmcup") || !can && !desc.has("smcup")) && (w.vt.grid != before.grid || w.vt.alt) {
        return Err("the display changed".into());
    }
    i.class_if(unknown, "unknown terminal type");
    stream_classes(&mut i, start, form % 3 == 2);
    Ok(i)
}

pub struct C17;

impl Prop for C17 {
    type Case = EndCase;
    const ID: &'static str = "C17";
    const TIMES: u32 = 2;
    const RULE: &'static str = "a case is random initial line settings, signal handlers and display, a history of drawing, reading, signals, failed \
        refreshes and other threads panicking with guards, and an end: a drop, a panic with no guard or any guards held, or a panic while formatting, \
        in the main or another thread; run in a process of its own, whose settings, handlers, open descriptors, display and exit status are compared \
        with those before; likewise a Terminal, and failing openings with generated descriptions; non-trivial if something panicked, failed to open, \
        or more than one step was made";
    fn assumptions() -> Vec<&'static str> {
        vec!["what the device refused to the last is not displayed; settings, handlers and descriptors are given back nevertheless", "the alternate screen is left only if the type has one"]
    }
    fn lanes() -> Vec<Lane<EndCase>> {
        let start = |big: bool| (0u8..11, if big { (20usize..50, 150usize..300) } else { (1usize..8, 2usize..20) }, prop_oneof![1 => Just(0u32), 2 => any::<u32>()], vec(any::<u8>(), 5), (arb_rel_in(), arb_rel_in()), 0u8..8)
            .prop_map(|(term, (lines, cols), tio, handlers, cursor, io)| Start { term, lines, cols, tio, handlers, cursor, io });
        let draw = || prop_oneof![3 => arb_draw(6), 1 => (prop::char::range('a', 'd'), arb_ocolor(), arb_style()).prop_map(|(c, f, s)| SOp::Fill(c, f, s))];
        let end = || prop_oneof![
            3 => Just(EndBy::Drop), 5 => (0u8..8).prop_map(EndBy::Panic), 2 => (0u8..4, "[a-z]{0,5}").prop_map(|(a, b)| EndBy::Format(a, b)),
        ];
        let step = || prop_oneof![
            4 => draw().prop_map(Step::Draw),
            3 => Just(Step::Draw(SOp::Refresh)),
            2 => (0u8..3).prop_map(|m| Step::Draw(SOp::CursorMode(m))),
            2 => vec(prop_oneof![4 => draw(), 1 => Just(SOp::Refresh), 1 => (0u8..3).prop_map(SOp::CursorMode)], 0..4)
                .prop_map(|v| Step::Draw(SOp::Guard(v))),
            2 => (draw(), 0u8..40).prop_map(|(a, b)| Step::Fail(a, b)),
            2 => (draw(), 0u8..40).prop_map(|(a, b)| Step::FailGuard(a, b)),
            1 => prop_oneof![Just("x".to_owned()), Just("\x1b[A".to_owned()), Just("é\x1b".to_owned())].prop_map(Step::Input),
            2 => Just(Step::Event),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::Resize(a, b)),
            1 => Just(Step::Continue),
            2 => (0u8..4, draw()).prop_map(|(a, b)| Step::Other(a, b)),
        ];
        let faults = || prop_oneof![3 => Just(Vec::new()), 2 => vec(arb_flt_set(), 1..5), 1 => (2u16..=5).prop_map(|k| vec![Flt(k); 40]),
            1 => (2u16..=5).prop_map(|k| [vec![Flt(k); 40], vec![STUCK; 4]].concat())];
        let scr = |big| (start(big), arb_cfg(), vec(step(), 0..8), end(), any::<bool>(), prop::bool::weighted(0.3), faults())
            .prop_map(|(start, cfg, steps, end, thread, stdio, faults)| EndCase::Screen { start, cfg, steps, end, thread, stdio, faults }).boxed();
        let top = || prop_oneof![3 => arb_attr_op(), 4 => arb_text_op(5), 2 => (0u8..3).prop_map(TOp::CursorMode)];
        let tstep = prop_oneof![
            4 => top().prop_map(TStep::Op),
            2 => vec(top(), 0..5).prop_map(TStep::Guard),
            2 => (top(), 0u8..10).prop_map(|(a, b)| TStep::Fail(a, b)),
            1 => (0u8..4, top()).prop_map(|(a, b)| TStep::Other(a, b)),
        ];
        let term = (start(false), vec(tstep, 0..7), end(), any::<bool>(), prop::bool::weighted(0.4), faults())
            .prop_map(|(start, steps, end, thread, stdio, faults)| EndCase::Terminal { start, steps, end, thread, stdio, faults }).boxed();
        let open = (start(false), arb_cfg(), desc::arb_screen_desc(), prop_oneof![2 => Just(0u8), 5 => 1u8..8], prop_oneof![4 => 0u8..3, 1 => 3u8..6], faults())
            .prop_map(|(start, cfg, mut desc, lacks, form, faults)| {
                for (i, c) in ["csr", "home", "clear"].iter().enumerate() {
                    if lacks & 1 << i != 0 {
                        desc.remove(c);
                    }
                }
                EndCase::Open { start, cfg, desc, lacks, form, faults }
            }).boxed();
        vec![
            lane("screen", 16_000, 400_000, scr(false)),
            lane("large screen", 1_500, 30_000, scr(true)),
            lane("terminal", 6_000, 120_000, term),
            lane("open", 4_000, 80_000, open),
        ]
    }
    fn run(case: &EndCase) -> CaseResult {
        in_child(CLASSES, 10, || match case {
            EndCase::Screen { start, cfg, steps, end, thread, stdio, faults } => screen(start, cfg, steps, end, *thread, *stdio, faults),
            EndCase::Terminal { start, steps, end, thread, stdio, faults } => terminal(start, steps, end, *thread, *stdio, faults),
            EndCase::Open { start, cfg, desc, lacks, form, faults } => {
                desc.install();
                open(start, cfg, desc, *lacks, *form, faults)
            }
        })
    }
}
