//! C09 locks: a sequential model of lock histories, and concurrent programs.

use std::fmt;
use std::io;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Mutex, OnceLock, TryLockError};
use std::time::Duration;

use mortal::{Event, Key, Screen, ScreenReadGuard, ScreenWriteGuard, Terminal, TerminalReadGuard, TerminalWriteGuard};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::end::{forked, in_child};
use crate::dev::{pty, Session};
use crate::engine::*;
use crate::gen::*;
use crate::sim::{self, Item, Sim, What};
use crate::step::{self, Pause};
use crate::vt::{Attr, Vt};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LOp {
    /// Read (false) or write lock, in this or another thread
    Lock(bool, bool),
    Try(bool, bool),
    Release(bool),
    Write,
    Read,
    Wait,
    /// A change of the window's size, and reading it
    Resize,
    /// Panics with held or now acquired guards (1 read, 2 write), here or in another thread
    Panic(u8, bool),
    /// Panics while formatting in a direct call, which holds no guard
    Format,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Unit {
    /// Direct call: 0 write_str, 1 write!, 2 write_styled
    Call(u8, u16, u8),
    /// A guard session of several calls, yielding in between
    Session(Vec<(u16, u8)>, u8),
    /// Statements of term_write!
    Macro(u16, u8),
    /// Read lock, then write lock
    Both(Vec<(u16, u8)>),
    /// Session only if the lock is free
    Try(u16),
    /// Panics in a session
    Panic(u16),
    /// Reads events directly (0), through a guard (1), or through a guard if the lock is free (2), or only waits for one (3)
    Read(u8, u8),
    Pause(u8),
    /// Prepares, and later restores (the first thread only); through a guard or not
    Prepare(bool, u8),
    Size,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SUnit {
    At(u8, u8, u8),
    Styled(u8, u8, u8),
    Session(Vec<(u8, u8)>, u8),
    Macro(u8, u8),
    Refresh,
    Try(u8),
    Panic(u8),
    Read(u8, u8),
    Both(u8),
    CursorMode(u8),
    Pause(u8),
    Query,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LockCase {
    History { screen: bool, ops: Vec<LOp> },
    Threads { threads: Vec<Vec<Unit>>, input: u8, sigcont: Vec<u8>, yields: u8, prepared: bool,
        /// Where the first thread pauses while the others run
        #[serde(default)] pauses: Vec<Pause> },
    Screen { threads: Vec<Vec<SUnit>>, input: u8, signals: Vec<(u8, bool)>, yields: u8, #[serde(default)] pauses: Vec<Pause> },
    /// On a Screen, all writing where the cursor is
    Flow { threads: Vec<Vec<Unit>>, input: u8, yields: u8, pauses: Vec<Pause> },
    /// A thread that holds both guards reads an event while a signal is pending
    Known(u8),
}

struct Payload(u32);
struct Bomb;
impl fmt::Display for Bomb {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        panic_any(Payload(7))
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Got {
    Fine,
    Poisoned,
    WouldBlock,
}

/// Terminal and Screen alike
trait Dev: Sync {
    const SCREEN: bool;
    type R<'a> where Self: 'a;
    type W<'a> where Self: 'a;
    fn lock_r(&self) -> (Got, Self::R<'_>);
    fn lock_w(&self) -> (Got, Self::W<'_>);
    fn try_r(&self) -> (Got, Option<Self::R<'_>>);
    fn try_w(&self) -> (Got, Option<Self::W<'_>>);
    fn write(&self, n: usize) -> io::Result<()>;
    fn guard_write(g: &mut Self::W<'_>, n: usize) -> io::Result<()>;
    fn read(&self) -> io::Result<Option<Event>>;
    fn guard_read(g: &mut Self::R<'_>) -> io::Result<Option<Event>>;
    fn wait(&self) -> io::Result<bool>;
    fn guard_wait(g: &mut Self::R<'_>) -> io::Result<bool>;
    fn format(&self);
}

fn ch(n: usize) -> char {
    char::from_u32(0x100 + n as u32).unwrap()
}

const Z: Option<Duration> = Some(Duration::from_secs(0));

macro_rules! locks {
    () => {
        fn lock_r(&self) -> (Got, Self::R<'_>) {
            match self.lock_read() {
                Ok(g) => (Got::Fine, g),
                Err(e) => (Got::Poisoned, e.into_inner()),
            }
        }
        fn lock_w(&self) -> (Got, Self::W<'_>) {
            match self.lock_write() {
                Ok(g) => (Got::Fine, g),
                Err(e) => (Got::Poisoned, e.into_inner()),
            }
        }
        fn try_r(&self) -> (Got, Option<Self::R<'_>>) {
            match self.try_lock_read() {
                Ok(g) => (Got::Fine, Some(g)),
                Err(TryLockError::Poisoned(e)) => (Got::Poisoned, Some(e.into_inner())),
                Err(TryLockError::WouldBlock) => (Got::WouldBlock, None),
            }
        }
        fn try_w(&self) -> (Got, Option<Self::W<'_>>) {
            match self.try_lock_write() {
                Ok(g) => (Got::Fine, Some(g)),
                Err(TryLockError::Poisoned(e)) => (Got::Poisoned, Some(e.into_inner())),
                Err(TryLockError::WouldBlock) => (Got::WouldBlock, None),
            }
        }
        fn read(&self) -> io::Result<Option<Event>> {
            self.read_event(Z)
        }
        fn guard_read(g: &mut Self::R<'_>) -> io::Result<Option<Event>> {
            g.read_event(Z)
        }
        fn wait(&self) -> io::Result<bool> {
            self.wait_event(Z)
        }
        fn guard_wait(g: &mut Self::R<'_>) -> io::Result<bool> {
            g.wait_event(Z)
        }
    };
}

impl Dev for Terminal {
    const SCREEN: bool = false;
    type R<'a> = TerminalReadGuard<'a>;
    type W<'a> = TerminalWriteGuard<'a>;
    locks!();
    fn write(&self, n: usize) -> io::Result<()> {
        self.write_char(ch(n))
    }
    fn guard_write(g: &mut TerminalWriteGuard, n: usize) -> io::Result<()> {
        g.write_char(ch(n))
    }
    fn format(&self) {
        let _ = write!(self, "{}", Bomb);
    }
}

impl Dev for Screen {
    const SCREEN: bool = true;
    type R<'a> = ScreenReadGuard<'a>;
    type W<'a> = ScreenWriteGuard<'a>;
    locks!();
    fn write(&self, n: usize) -> io::Result<()> {
        self.write_at((0, n), &ch(n).to_string());
        Ok(())
    }
    fn guard_write(g: &mut ScreenWriteGuard, n: usize) -> io::Result<()> {
        g.write_at((0, n), &ch(n).to_string());
        Ok(())
    }
    fn format(&self) {
        write!(self, "{}", Bomb);
    }
}

const CLASSES: &[&str] = &["poisoned read lock", "poisoned write lock", "would block", "both held", "other thread", "Screen", "threads",
    "sections interleaved with reading", "panicking thread", "pending signal", "lock tried in vain", "handed over", "resize", "at the cursor", "others ran at an instruction", "at several instructions", "another waited for a lock"];

fn history<D: Dev>(dev: D, ops: &[LOp]) -> Result<(D, usize, Info), String> {
    let mut info = Info::default();
    // What the model says: held by the main thread, poisoned
    let mut pois = [false; 2];
    let mut written = 0;
    let mut typed = 0;
    {
        let mut r: Option<D::R<'_>> = None;
        let mut w: Option<D::W<'_>> = None;
        for (i, op) in ops.iter().enumerate() {
            let held = [r.is_some(), w.is_some()];
            let fail = |m: String| -> Result<(), String> {
                Err(format!("op {} {:?} (held {:?}, poisoned {:?}): {}", i, op, held, pois, m))
            };
            info.class_if(held == [true, true], "both held");
            let want = |k: usize| if held[k] { Got::WouldBlock } else if pois[k] { Got::Poisoned } else { Got::Fine };
            match op {
                LOp::Lock(k, other) => {
                    let k = *k as usize;
                    if held[k] {
                        continue;
                    }
                    let got = if *other {
                        info.class("other thread");
                        let d = &dev;
                        std::thread::scope(|s| s.spawn(move || if k == 0 { d.lock_r().0 } else { d.lock_w().0 }).join()).map_err(|_| "panic in lock")?
                    } else if k == 0 {
                        let (g, x) = dev.lock_r();
                        r = Some(x);
                        g
                    } else {
                        let (g, x) = dev.lock_w();
                        w = Some(x);
                        g
                    };
                    if got != want(k) {
                        fail(format!("{:?}, should be {:?}", got, want(k)))?;
                    }
                }
                LOp::Try(k, other) => {
                    let k = *k as usize;
                    info.class_if(held[k], "would block");
                    let got = if *other {
                        info.class("other thread");
                        let d = &dev;
                        std::thread::scope(|s| s.spawn(move || if k == 0 { d.try_r().0 } else { d.try_w().0 }).join()).map_err(|_| "panic in try_lock")?
                    } else if k == 0 {
                        let (g, x) = dev.try_r();
                        if x.is_some() {
                            r = x;
                        }
                        g
                    } else {
                        let (g, x) = dev.try_w();
                        if x.is_some() {
                            w = x;
                        }
                        g
                    };
                    if got != want(k) {
                        fail(format!("{:?}, should be {:?}", got, want(k)))?;
                    }
                }
                LOp::Release(false) => r = None,
                LOp::Release(true) => w = None,
                LOp::Write => {
                    if let Some(w) = w.as_mut() {
                        D::guard_write(w, written).map_err(|e| e.to_string())?;
                    } else if pois[1] {
                        D::guard_write(&mut dev.lock_w().1, written).map_err(|e| e.to_string())?;
                    } else {
                        dev.write(written).map_err(|e| e.to_string())?;
                    }
                    written += 1;
                }
                LOp::Read => {
                    sim::with(|s| s.avail.extend(ch(typed).to_string().bytes()));
                    let ev = if let Some(r) = r.as_mut() {
                        D::guard_read(r)
                    } else if pois[0] {
                        D::guard_read(&mut dev.lock_r().1)
                    } else {
                        dev.read()
                    };
                    match ev {
                        Ok(Some(Event::Key(Key::Char(c)))) if c == ch(typed) => (),
                        e => fail(format!("reads {:?}, should be {:?}", e, ch(typed)))?,
                    }
                    typed += 1;
                }
                LOp::Resize => {
                    if D::SCREEN && (held[1] || pois[1]) {
                        continue;
                    }
                    info.class("resize");
                    sim::raise_now(libc::SIGWINCH);
                    let ev = if let Some(r) = r.as_mut() {
                        D::guard_read(r)
                    } else if pois[0] {
                        D::guard_read(&mut dev.lock_r().1)
                    } else {
                        dev.read()
                    };
                    match ev {
                        Ok(Some(Event::Resize(s))) if (s.lines, s.columns) == (3, 60) => (),
                        e => fail(format!("reads {:?}, should be a resize", e))?,
                    }
                }
                LOp::Wait => {
                    let res = if let Some(r) = r.as_mut() {
                        D::guard_wait(r)
                    } else if pois[0] {
                        D::guard_wait(&mut dev.lock_r().1)
                    } else {
                        dev.wait()
                    };
                    match res {
                        Ok(false) => (),
                        e => fail(format!("wait_event gives {:?}", e))?,
                    }
                }
                LOp::Panic(bits, other) => {
                    let bits = bits & 3;
                    let n = written;
                    let res = if *other {
                        info.class("other thread");
                        if held[0] && bits & 1 != 0 || held[1] && bits & 2 != 0 {
                            continue;
                        }
                        let d = &dev;
                        std::thread::scope(|s| s.spawn(move || {
                            let _r = if bits & 1 != 0 { Some(d.lock_r().1) } else { None };
                            let mut w = if bits & 2 != 0 { Some(d.lock_w().1) } else { None };
                            if let Some(w) = w.as_mut() {
                                D::guard_write(w, n).unwrap();
                            }
                            panic_any(Payload(3))
                        }).join())
                    } else {
                        let gr = if bits & 1 != 0 { Some(r.take().unwrap_or_else(|| dev.lock_r().1)) } else { None };
                        let mut gw = if bits & 2 != 0 { Some(w.take().unwrap_or_else(|| dev.lock_w().1)) } else { None };
                        catch_unwind(AssertUnwindSafe(move || {
                            let _gr = gr;
                            if let Some(w) = gw.as_mut() {
                                D::guard_write(w, n).unwrap();
                            }
                            panic_any(Payload(3))
                        }))
                    };
                    let res: Result<(), _> = res;
                    if res.map_err(|p| p.downcast::<Payload>().map_or(0, |p| p.0)) != Err(3) {
                        fail("the panic was replaced".into())?;
                    }
                    if bits & 2 != 0 {
                        written += 1;
                    }
                    for k in 0..2 {
                        if bits & 1 << k != 0 {
                            pois[k] = true;
                            info.class(["poisoned read lock", "poisoned write lock"][k]);
                        }
                    }
                }
                LOp::Format => {
                    if held[1] || pois[1] {
                        continue;
                    }
                    let res = catch_unwind(AssertUnwindSafe(|| dev.format()));
                    if res.map_err(|p| p.downcast::<Payload>().map_or(0, |p| p.0)) != Err(7) {
                        fail("the panic was replaced".into())?;
                    }
                }
            }
        }
        drop(w);
        drop(r);
    }
    info.nontrivial = ops.len() > 2;
    Ok((dev, written, info))
}

fn run_history(screen: bool, ops: &[LOp]) -> CaseResult {
    let s = Session::new("xterm", 3, 60, Sim::default());
    let want: String;
    let mut vt = Vt::new(3, 60, true, true);
    let info = if screen {
        let scr = s.screen(Default::default()).map_err(|e| e.to_string())?;
        let (scr, n, mut info) = history(scr, ops)?;
        drop(scr.lock_write().unwrap_or_else(|e| e.into_inner()));
        vt.feed(&sim::take_out());
        want = (0..60).map(|i| if i < n { ch(i) } else { ' ' }).collect();
        info.class("Screen");
        if vt.line_text(0) != want {
            return Err(format!("the display shows {:?}, should be {:?}", vt.line_text(0), want));
        }
        info
    } else {
        let t = s.terminal().map_err(|e| e.to_string())?;
        let _state = t.prepare(Default::default()).map_err(|e| e.to_string())?;
        sim::take_out();
        let (t, n, info) = history(t, ops)?;
        drop(t);
        vt.record = true;
        vt.feed(&sim::take_out());
        want = (0..n).map(ch).collect();
        let got: String = vt.printed.iter().map(|p| p.0).collect();
        if got != want {
            return Err(format!("the terminal received {:?}, should be {:?}", got, want));
        }
        info
    };
    Ok(info)
}

// ---------------------------------------------------------------------------
// Concurrent programs on a Terminal

const LONG: u16 = 9000;

/// The text of one unit: thread, number, payload
fn piece(t: usize, u: usize, k: usize, n: u16) -> String {
    let c = (b'a' + ((t * 7 + u * 3 + k) % 26) as u8) as char;
    // Some texts have several words and lines
    let mixed = (t + u + k) % 2 == 1;
    let text: String = (0..n as usize).map(|i| match (i * 7 + u) % 11 {
        3 if mixed => '\n',
        6 if mixed => ' ',
        8 if mixed => 'é',
        _ => c,
    }).collect();
    format!("<{}.{}.{}:{}>", t, u, k, text)
}

/// What a unit shows: text with attributes
fn unit_want(t: usize, u: usize, unit: &Unit) -> Vec<(String, Attr)> {
    let p = |k, n| piece(t, u, k, n).replace('\n', "");
    let plain = Attr::default();
    match unit {
        Unit::Call(2, n, c) => vec![(p(0, *n), attr(Some(*c), None, *c))],
        Unit::Call(_, n, _) => vec![(p(0, *n), plain)],
        Unit::Session(v, _) | Unit::Both(v) => v.iter().enumerate().map(|(k, (n, c))| (p(k, *n), attr(Some(*c), None, *c))).collect(),
        Unit::Macro(n, c) => vec![(p(0, *n), attr(Some(*c), None, 1)), (p(1, *n), attr(Some(*c), None, 9)), ("!".into(), plain)],
        Unit::Try(n) => vec![(p(0, *n), plain), (p(1, 3), plain)],
        Unit::Panic(n) => vec![(p(0, *n), plain)],
        Unit::Read(..) | Unit::Pause(_) | Unit::Prepare(..) | Unit::Size => vec![],
    }
}

fn yields(n: u8) {
    for _ in 0..n {
        std::thread::yield_now();
    }
}

/// Runs one unit; returns false if it did nothing.
fn run_unit(term: &Terminal, t: usize, u: usize, unit: &Unit, poisoning: bool, events: &mut Vec<Event>) -> io::Result<bool> {
    let p = |k, n| piece(t, u, k, n);
    let lock = || term.lock_write().unwrap_or_else(|e| e.into_inner());
    let lock_r = || term.lock_read().unwrap_or_else(|e| e.into_inner());
    let session = |g: &mut TerminalWriteGuard, v: &[(u16, u8)], y: u8| -> io::Result<()> {
        for (k, (n, c)) in v.iter().enumerate() {
            g.set_theme(theme(Some(*c), None, *c))?;
            yields(y);
            g.write_str(&p(k, *n))?;
            g.clear_attributes()?;
        }
        Ok(())
    };
    match unit {
        // After a panic only guards can be used
        Unit::Call(2, n, c) if poisoning => lock().write_styled(ocolor(Some(*c)), None, style(*c), &p(0, *n))?,
        Unit::Call(_, n, _) if poisoning => lock().write_str(&p(0, *n))?,
        Unit::Call(0, n, _) => term.write_str(&p(0, *n))?,
        Unit::Call(1, n, _) => {
            let s = p(0, *n);
            let (a, b) = s.split_at((s.len() / 2..).find(|&i| s.is_char_boundary(i)).unwrap());
            write!(term, "{}{}", a, b)?
        }
        Unit::Call(_, n, c) => term.write_styled(ocolor(Some(*c)), None, style(*c), &p(0, *n))?,
        Unit::Session(v, y) => session(&mut lock(), v, *y)?,
        Unit::Both(v) => {
            let _r = lock_r();
            session(&mut lock(), v, 1)?
        }
        Unit::Macro(n, c) => {
            let (a, b) = (p(0, *n), p(1, *n));
            let c = ocolor(Some(*c));
            if poisoning {
                let mut g = lock();
                term_write!(g, [fg=c] [bold] (: a) [underline] ("{}", b) [reset] "!")?
            } else {
                term_write!(term, [fg=c] [bold] (: a) [underline] ("{}", b) [reset] "!")?
            }
        }
        Unit::Try(n) => match term.try_lock_write() {
            Err(TryLockError::WouldBlock) => return Ok(false),
            g => {
                let mut g = match g {
                    Ok(g) => g,
                    Err(TryLockError::Poisoned(e)) => e.into_inner(),
                    Err(_) => unreachable!(),
                };
                g.write_str(&p(0, *n))?;
                yields(2);
                g.write_str(&p(1, 3))?;
            }
        },
        Unit::Panic(n) => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut g = lock();
                g.write_str(&p(0, *n)).unwrap();
                yields(2);
                panic_any(Payload(1));
            }));
            let _: Result<(), _> = r;
        }
        Unit::Read(k, n) => {
            let t = Some(Duration::from_micros(*n as u64));
            let ev = match k {
                0 if !poisoning => term.read_event(t)?,
                3 if !poisoning => {
                    term.wait_event(t)?;
                    None
                }
                2 => match term.try_lock_read() {
                    Err(TryLockError::WouldBlock) => return Ok(false),
                    Ok(mut g) => g.read_event(t)?,
                    Err(TryLockError::Poisoned(_)) => return Err(io::Error::new(io::ErrorKind::Other, "read lock is poisoned")),
                },
                _ => {
                    let mut g = term.lock_read().map_err(|_| io::Error::new(io::ErrorKind::Other, "read lock is poisoned"))?;
                    g.read_event(t)?
                }
            };
            events.extend(ev);
        }
        Unit::Pause(n) => yields(*n),
        Unit::Size if poisoning => (),
        Unit::Size => if term.size()? != (mortal::Size { lines: 3, columns: 60 }) {
            return Err(io::Error::new(io::ErrorKind::Other, "wrong size"));
        },
        // The state of one prepare must be restored before another's
        Unit::Prepare(..) if t > 0 || poisoning => (),
        Unit::Prepare(guard, n) => {
            let cfg = Cfg { keypad: true, mouse: n % 2 == 0, ..Cfg::default() }.get();
            let st = if *guard { lock_r().prepare(cfg)? } else { term.prepare(cfg)? };
            yields(*n);
            events.extend(term.read_event(Some(Duration::from_micros(5)))?);
            if n & 2 == 0 { lock_r().restore(st)? } else { term.restore(st)? }
        }
    }
    Ok(true)
}

/// The order of threads when the first one pauses where the case says
struct Turns {
    t: usize,
    on: bool,
    /// Only one other thread
    single: bool,
}

impl Turns {
    fn run<F: FnOnce()>(&self, f: F) {
        if !self.on {
            f()
        } else if self.t == 0 {
            f();
            step::finish();
        } else {
            f();
            step::done(self.t);
        }
    }
    fn unit<R, F: FnOnce() -> R>(&self, f: F) -> R {
        if self.on && self.t == 0 {
            let r = step::paused(f);
            step::DOING.store(0, Ordering::SeqCst);
            r
        } else {
            f()
        }
    }
    /// What the unit needs: 1 the read lock only, 2 the write lock only
    fn next(&self, doing: u32) {
        if self.on && self.t == 0 {
            step::DOING.store(if self.single { doing } else { 0 }, Ordering::SeqCst);
        } else if self.on {
            step::turn(self.t, doing);
        }
    }
}

fn stepped(pauses: &[Pause], threads: usize) -> (bool, bool) {
    if step::learning() {
        return (true, false);
    }
    let on = !pauses.is_empty() && threads > 1;
    if on {
        step::plan(pauses, threads - 1, PLACES.get().expect("places"));
    }
    (on, threads == 2)
}

/// The locked instructions of this program that these programs run
static PLACES: OnceLock<Vec<usize>> = OnceLock::new();

/// Each kind of unit
fn kinds() -> (Vec<Unit>, Vec<SUnit>) {
    let s = || vec![(2u16, 1u8), (3, 0)];
    let v = |a: &[u8]| a.iter().map(|&n| (n, n)).collect();
    (vec![Unit::Call(0, 3, 0), Unit::Call(1, 3, 0), Unit::Call(2, 3, 1), Unit::Session(s(), 0), Unit::Macro(2, 1), Unit::Both(s()),
        Unit::Try(2), Unit::Read(0, 0), Unit::Read(1, 0), Unit::Read(2, 5), Unit::Read(3, 5), Unit::Prepare(true, 1), Unit::Prepare(false, 2), Unit::Size],
     vec![SUnit::At(1, 1, 0), SUnit::Styled(1, 1, 1), SUnit::Session(v(&[1, 2]), 0), SUnit::Macro(1, 1), SUnit::Refresh, SUnit::Try(1),
        SUnit::Read(0, 0), SUnit::Read(1, 5), SUnit::Read(2, 5), SUnit::Both(1), SUnit::CursorMode(1), SUnit::Query])
}

fn learn_places() {
    PLACES.get_or_init(|| {
        let (terminal, screen) = kinds();
        let mut all: Vec<usize> = Vec::new();
        for k in 0..3 {
            let r = forked(60, || step::learn(|| {
                let _ = if k == 0 {
                    run_threads(&[terminal.clone()], 3, &[1], 0, false, &[])
                } else if k == 1 {
                    run_flow(&[terminal.clone()], 3, 0, &[])
                } else {
                    run_screen(&[screen.clone()], 3, &[(1, true), (3, false)], 0, &[])
                };
            }));
            all.extend(r.unwrap_or_default());
        }
        all.sort();
        all.dedup();
        all
    });
}

fn check_turns(on: bool, info: &mut Info) -> Result<(), String> {
    if !on {
        return Ok(());
    }
    info.class_if(step::PAUSES.load(Ordering::SeqCst) > 0, "others ran at an instruction");
    info.class_if(step::PAUSES.load(Ordering::SeqCst) > 1, "at several instructions");
    info.class_if(step::BLOCKS.load(Ordering::SeqCst) > 0, "another waited for a lock");
    match step::CONFLICT.load(Ordering::SeqCst) {
        0 => Ok(()),
        c => Err(format!("a thread that only {} waits for one that only {}", ["", "reads", "writes"][c as usize >> 8], ["", "reads", "writes"][c as usize & 3])),
    }
}

fn input_sim(input: u8, signals: Vec<(u64, libc::c_int)>) -> Sim {
    let mut sim = Sim::default();
    for i in 0..input as usize {
        let d = ch(i).to_string().into_bytes();
        if i < input as usize / 3 {
            sim.avail.extend(d);
        } else {
            // A character in two pieces
            let at = (i as u64) * 20;
            sim.arrivals.push_back(Item { at, what: What::Data(vec![d[0]]) });
            sim.arrivals.push_back(Item { at: at + (i as u64 % 2) * 7, what: What::Data(vec![d[1]]) });
        }
    }
    sim.call_signals = signals.into_iter().collect();
    sim
}

/// Each typed character was read once, and in order by each thread.
fn check_events(input: u8, threads: &[Vec<Event>], rest: Vec<Event>) -> Result<(), String> {
    let mut all = Vec::new();
    for t in threads.iter().chain([&rest]) {
        let mut seen = None;
        for e in t {
            match e {
                Event::Key(Key::Char(c)) => {
                    if seen.map_or(false, |s| s >= *c) {
                        return Err(format!("one thread read {:?}", t));
                    }
                    seen = Some(*c);
                    all.push(*c);
                }
                Event::Resize(_) => (),
                e => return Err(format!("event {:?} in {:?}", e, t)),
            }
        }
    }
    all.sort();
    let want: Vec<char> = (0..input as usize).map(ch).collect();
    if all != want {
        return Err(format!("threads read {:?}, typed was {:?}", all, want));
    }
    Ok(())
}

fn drain<D: Dev>(d: &D) -> Result<Vec<Event>, String> {
    let mut v = Vec::new();
    let mut idle = 0;
    let mut g = d.lock_r().1;
    while idle < 2 {
        sim::with(|s| for i in s.arrivals.iter_mut() { i.at = 0 });
        match D::guard_read(&mut g).map_err(|e| e.to_string())? {
            Some(e) => { v.push(e); idle = 0 }
            None => idle += 1,
        }
    }
    Ok(v)
}

/// The output is the units, each whole, those of a thread in order; returns how often another thread's followed
fn check_units(printed: &[(char, Attr)], threads: &[Vec<Unit>], results: &[(Vec<Event>, Vec<bool>)], shown: impl Fn(&str) -> String)
        -> Result<usize, String> {
    let mut queues: Vec<std::collections::VecDeque<(usize, Vec<(char, Attr)>)>> = threads.iter().enumerate().map(|(t, units)| {
        units.iter().enumerate().filter(|(u, _)| results[t].1[*u]).map(|(u, unit)| {
            (u, unit_want(t, u, unit).into_iter().flat_map(|(s, a)| shown(&s).chars().map(|c| (c, a)).collect::<Vec<_>>()).collect::<Vec<_>>())
        }).filter(|q| !q.1.is_empty()).collect()
    }).collect();
    let mut at = 0;
    let (mut prev, mut switches) = (None, 0);
    while at < printed.len() {
        let rest = &printed[at..];
        // '<', number of the thread
        let t = rest.get(1).and_then(|c| c.0.to_digit(10)).map(|d| d as usize).filter(|&t| t < queues.len() && rest[0].0 == '<');
        let fail = |why: String| {
            let s: String = printed[at.saturating_sub(30)..].iter().take(90).map(|p| p.0).collect();
            Err(format!("output {}: ...{:?}", why, s))
        };
        let t = match t {
            Some(t) => t,
            None => return fail(format!("is interleaved at {}", at)),
        };
        let (u, want) = match queues[t].pop_front() {
            Some(q) => q,
            None => return fail(format!("has more than thread {} wrote", t)),
        };
        if rest.len() < want.len() || rest[..want.len()] != want[..] {
            let k = rest.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(rest.len());
            return fail(format!("of unit {} of thread {} differs at {}: {:?}, should be {:?}", u, t, k, rest.get(k), want.get(k)));
        }
        at += want.len();
        if prev.map_or(false, |p| p != t) {
            switches += 1;
        }
        prev = Some(t);
    }
    if let Some(t) = queues.iter().position(|q| !q.is_empty()) {
        return Err(format!("unit {} of thread {} is missing in the output", queues[t][0].0, t));
    }
    Ok(switches)
}

fn run_threads(threads: &[Vec<Unit>], input: u8, sigcont: &[u8], y: u8, prepared: bool, pauses: &[Pause]) -> CaseResult {
    let mut info = Info::default();
    let mut sc: Vec<u8> = sigcont.to_vec();
    sc.sort();
    let poisoning = threads.iter().flatten().any(|u| matches!(u, Unit::Panic(_)));
    // Handling these takes the write lock, which may be poisoned
    let preparing = prepared || threads[0].iter().any(|u| matches!(u, Unit::Prepare(..)));
    let signals: Vec<(u64, libc::c_int)> = if preparing && !poisoning { sc.iter().map(|n| (*n as u64, libc::SIGCONT)).collect() } else { vec![] };
    let signalled = !signals.is_empty();
    info.class_if(signalled, "pending signal");
    let s = Session::new("xterm", 3, 60, Sim::default());
    let term = s.terminal().map_err(|e| e.to_string())?;
    if prepared {
        let _ = term.prepare(Cfg { keypad: true, mouse: true, ..Cfg::default() }.get()).map_err(|e| e.to_string())?;
    }
    let before = sim::take_out();
    sim::with(|s| *s = input_sim(input, signals));
    info.class_if(poisoning, "panicking thread");
    let start = std::sync::Barrier::new(threads.len());
    let errors = Mutex::new(Vec::new());
    let order = Mutex::new(Vec::new());
    let (stepping, single) = stepped(pauses, threads.len());
    sim::YIELD.store(y as u32, Ordering::SeqCst);
    let vain = AtomicU32::new(0);
    let results: Vec<(Vec<Event>, Vec<bool>)> = std::thread::scope(|s| {
        let hs: Vec<_> = threads.iter().enumerate().map(|(t, units)| {
            let (term, start, errors, vain, order) = (&term, &start, &errors, &vain, &order);
            s.spawn(move || {
                let mut evs = Vec::new();
                let mut done = Vec::new();
                start.wait();
                let turns = Turns { t, on: stepping, single };
                turns.run(|| for (u, unit) in units.iter().enumerate() {
                    turns.next(match unit {
                        Unit::Call(..) | Unit::Session(..) | Unit::Macro(..) | Unit::Try(..) | Unit::Panic(..) => 2,
                        Unit::Read(..) if !signalled => 1,
                        _ => 0,
                    });
                    match turns.unit(|| run_unit(term, t, u, unit, poisoning, &mut evs)) {
                        Ok(d) => {
                            if !d {
                                vain.fetch_add(1, Ordering::SeqCst);
                            }
                            done.push(d)
                        }
                        Err(e) => {
                            errors.lock().unwrap().push(format!("thread {} {:?}: {}", t, unit, e));
                            break;
                        }
                    }
                    order.lock().unwrap().push(t);
                });
                (evs, done)
            })
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    }).map_err(|_| format!("a thread panicked: {:?}", take_panic()))?;
    sim::YIELD.store(0, Ordering::SeqCst);
    if let Some(e) = errors.into_inner().unwrap().pop() {
        return Err(e);
    }
    check_turns(stepping, &mut info)?;
    info.class_if(vain.load(Ordering::SeqCst) > 0, "lock tried in vain");
    sim::with(|s| s.call_signals.clear());
    let rest = drain(&term)?;
    let events: Vec<_> = results.iter().map(|r| r.0.clone()).collect();
    check_events(input, &events, rest)?;
    info.class_if(events.iter().any(|e| !e.is_empty()), "sections interleaved with reading");
    drop(term);

    let mut vt = Vt::new(3, 60, true, true);
    vt.record = true;
    vt.feed(&before);
    vt.feed(&sim::take_out());
    if !vt.errors.is_empty() || vt.mid() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    let switches = check_units(&vt.printed, threads, &results, |s| s.to_string())?;
    info.class_if(switches >= threads.len(), "handed over");
    info.class("threads");
    info.nontrivial = threads.len() > 1 && switches > 0;
    Ok(info)
}

// ---------------------------------------------------------------------------
// Concurrent programs on a Screen: each thread draws in its own line

const COLS: usize = 24;

fn sunit_text(t: usize, u: usize, k: usize, n: u8) -> String {
    let c = (b'a' + ((t * 7 + u * 3 + k) % 26) as u8) as char;
    std::iter::repeat(c).take(n as usize % 6 + 1).collect()
}

type Line = Vec<(char, Attr)>;

fn put(line: &mut Line, at: usize, s: &str, a: Attr) -> usize {
    let mut at = at;
    for c in s.chars() {
        line[at] = (c, a);
        at += 1;
    }
    at
}

/// What a unit leaves in its thread's line
fn sunit_model(line: &mut Line, t: usize, u: usize, unit: &SUnit) {
    let plain = Attr::default();
    match unit {
        SUnit::At(c, n, _) => { put(line, *c as usize % 18, &sunit_text(t, u, 0, *n), plain); }
        SUnit::Styled(c, n, k) => { put(line, *c as usize % 18, &sunit_text(t, u, 0, *n), attr(Some(*k), None, *k)); }
        SUnit::Session(v, c) => {
            let mut at = *c as usize % 6;
            for (k, (n, col)) in v.iter().enumerate() {
                at = put(line, at, &sunit_text(t, u, k, *n), attr(Some(*col), None, *col));
            }
        }
        SUnit::Macro(n, c) => {
            let at = put(line, 0, &sunit_text(t, u, 0, *n), attr(Some(*c), None, 1));
            put(line, at, &sunit_text(t, u, 1, *n), attr(Some(*c), None, 9));
        }
        SUnit::Try(n) | SUnit::Panic(n) | SUnit::Both(n) => { put(line, 3, &sunit_text(t, u, 0, *n), plain); }
        _ => (),
    }
}

fn run_sunit(scr: &Screen, t: usize, u: usize, unit: &SUnit, poisoning: bool, events: &mut Vec<Event>) -> io::Result<bool> {
    let lock = || scr.lock_write().unwrap_or_else(|e| e.into_inner());
    let text = |k, n| sunit_text(t, u, k, n);
    match unit {
        SUnit::At(c, n, _) if poisoning => lock().write_at((t, *c as usize % 18), &text(0, *n)),
        SUnit::At(c, n, _) => scr.write_at((t, *c as usize % 18), &text(0, *n)),
        SUnit::Styled(c, n, k) if poisoning => lock().write_styled_at((t, *c as usize % 18), ocolor(Some(*k)), None, style(*k), &text(0, *n)),
        SUnit::Styled(c, n, k) => scr.write_styled_at((t, *c as usize % 18), ocolor(Some(*k)), None, style(*k), &text(0, *n)),
        SUnit::Session(v, c) => {
            let mut g = lock();
            g.set_cursor((t, *c as usize % 6));
            for (k, (n, col)) in v.iter().enumerate() {
                g.set_theme(theme(Some(*col), None, *col));
                yields(1);
                g.write_str(&text(k, *n));
                g.clear_attributes();
            }
        }
        SUnit::Macro(n, c) => {
            let (a, b) = (text(0, *n), text(1, *n));
            let c = ocolor(Some(*c));
            let mut g = lock();
            g.set_cursor((t, 0));
            term_write!(g, [fg=c] [bold] (: a) [underline] ("{}", b) [reset]);
        }
        SUnit::Refresh if poisoning => lock().refresh()?,
        SUnit::Refresh => scr.refresh()?,
        SUnit::Try(n) => match scr.try_lock_write() {
            Err(TryLockError::WouldBlock) => return Ok(false),
            g => {
                let mut g = match g {
                    Ok(g) => g,
                    Err(TryLockError::Poisoned(e)) => e.into_inner(),
                    Err(_) => unreachable!(),
                };
                g.set_cursor((t, 3));
                yields(1);
                g.write_str(&text(0, *n));
            }
        },
        SUnit::Panic(n) => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut g = lock();
                g.write_at((t, 3), &text(0, *n));
                yields(2);
                panic_any(Payload(1));
            }));
            let _: Result<(), _> = r;
        }
        SUnit::Read(k, n) => {
            let t = Some(Duration::from_micros(*n as u64));
            let ev = match k {
                0 if !poisoning => scr.read_event(t)?,
                2 if !poisoning => {
                    scr.wait_event(t)?;
                    None
                }
                _ => {
                    let mut g = scr.lock_read().map_err(|_| io::Error::new(io::ErrorKind::Other, "read lock is poisoned"))?;
                    g.read_event(t)?
                }
            };
            events.extend(ev);
        }
        SUnit::Both(n) => {
            let _r = scr.lock_read().map_err(|_| io::Error::new(io::ErrorKind::Other, "read lock is poisoned"))?;
            let mut w = lock();
            w.set_cursor((t, 3));
            w.write_str(&text(0, *n));
        }
        SUnit::CursorMode(m) if poisoning => lock().set_cursor_mode(mode(*m))?,
        SUnit::CursorMode(m) => scr.set_cursor_mode(mode(*m))?,
        SUnit::Pause(n) => yields(*n),
        SUnit::Query if poisoning => (),
        SUnit::Query => {
            let (size, c) = (scr.size(), scr.cursor());
            if size.columns != COLS || c.line >= size.lines || c.column >= size.columns {
                return Err(io::Error::new(io::ErrorKind::Other, format!("size {:?}, cursor {:?}", size, c)));
            }
        }
    }
    Ok(true)
}

fn run_screen(threads: &[Vec<SUnit>], input: u8, signals: &[(u8, bool)], y: u8, pauses: &[Pause]) -> CaseResult {
    let mut info = Info::default();
    let lines = threads.len().max(1);
    let s = Session::new("xterm", lines, COLS, Sim::default());
    let scr = s.screen(Default::default()).map_err(|e| e.to_string())?;
    let mut vt = Vt::new(lines, COLS, true, true);
    vt.feed(&sim::take_out());
    let poisoning = threads.iter().flatten().any(|u| matches!(u, SUnit::Panic(_)));
    let mut sig: Vec<(u64, libc::c_int)> = signals.iter().map(|&(n, w)| (n as u64, if w { libc::SIGWINCH } else { libc::SIGCONT })).collect();
    sig.sort();
    // Reporting these takes the write lock, which may be poisoned
    if poisoning {
        sig.clear();
    }
    let signalled = !sig.is_empty();
    info.class_if(signalled, "pending signal");
    info.class_if(poisoning, "panicking thread");
    sim::with(|s| *s = input_sim(input, sig));
    let start = std::sync::Barrier::new(threads.len());
    let errors = Mutex::new(Vec::new());
    let order = Mutex::new(Vec::new());
    let (stepping, single) = stepped(pauses, threads.len());
    sim::YIELD.store(y as u32, Ordering::SeqCst);
    let results: Vec<(Vec<Event>, Vec<bool>)> = std::thread::scope(|s| {
        let hs: Vec<_> = threads.iter().enumerate().map(|(t, units)| {
            let (scr, start, errors, order) = (&scr, &start, &errors, &order);
            s.spawn(move || {
                let mut evs = Vec::new();
                let mut done = Vec::new();
                start.wait();
                let turns = Turns { t, on: stepping, single };
                turns.run(|| for (u, unit) in units.iter().enumerate() {
                    turns.next(match unit {
                        SUnit::At(..) | SUnit::Styled(..) | SUnit::Session(..) | SUnit::Macro(..) | SUnit::Refresh | SUnit::Try(..)
                            | SUnit::Panic(..) | SUnit::CursorMode(..) => 2,
                        SUnit::Read(..) if !signalled => 1,
                        _ => 0,
                    });
                    match turns.unit(|| run_sunit(scr, t, u, unit, poisoning, &mut evs)) {
                        Ok(d) => done.push(d),
                        Err(e) => {
                            errors.lock().unwrap().push(format!("thread {} {:?}: {}", t, unit, e));
                            break;
                        }
                    }
                    order.lock().unwrap().push(t);
                });
                (evs, done)
            })
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    }).map_err(|_| format!("a thread panicked: {:?}", take_panic()))?;
    sim::YIELD.store(0, Ordering::SeqCst);
    if let Some(e) = errors.into_inner().unwrap().pop() {
        return Err(e);
    }
    check_turns(stepping, &mut info)?;
    sim::with(|s| s.call_signals.clear());
    let rest = drain(&scr)?;
    let events: Vec<_> = results.iter().map(|r| r.0.clone()).collect();
    check_events(input, &events, rest)?;
    info.class_if(results.iter().any(|r| r.1.contains(&false)), "lock tried in vain");
    info.class_if(events.iter().any(|e| !e.is_empty()), "sections interleaved with reading");
    scr.lock_write().unwrap_or_else(|e| e.into_inner()).refresh().map_err(|e| e.to_string())?;
    vt.feed(&sim::take_out());
    if !vt.errors.is_empty() || vt.mid() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    for (t, units) in threads.iter().enumerate() {
        let mut line: Line = vec![(' ', Attr::default()); COLS];
        for (u, unit) in units.iter().enumerate() {
            if results[t].1[u] {
                sunit_model(&mut line, t, u, unit);
            }
        }
        for (c, w) in line.iter().enumerate() {
            let cell = vt.cell(t, c);
            if cell.text != w.0.to_string() || cell.attr != w.1 {
                return Err(format!("line {} column {} shows {:?}, should be {:?}; line is {:?}", t, c, cell, w, vt.line_text(t)));
            }
        }
    }
    let order = order.into_inner().unwrap();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count();
    info.class_if(switches >= threads.len(), "handed over");
    info.class("threads");
    info.class("Screen");
    info.nontrivial = threads.len() > 1 && switches > 0;
    Ok(info)
}

// ---------------------------------------------------------------------------
// Concurrent writing on a Screen where the cursor is

const FLOW: (usize, usize) = (30, 60);

fn flow_text(s: &str) -> String {
    s.chars().filter(|c| *c != '\n').collect()
}

fn run_flow_unit(scr: &Screen, t: usize, u: usize, unit: &Unit, events: &mut Vec<Event>) -> io::Result<bool> {
    let p = |k, n: u16| flow_text(&piece(t, u, k, n % 20));
    let session = |g: &mut ScreenWriteGuard, v: &[(u16, u8)], y: u8| {
        for (k, (n, c)) in v.iter().enumerate() {
            g.set_theme(theme(Some(*c), None, *c));
            yields(y);
            g.write_str(&p(k, *n));
            g.clear_attributes();
        }
    };
    match unit {
        Unit::Call(0, n, _) => scr.write_str(&p(0, *n)),
        Unit::Call(1, n, _) => {
            let s = p(0, *n);
            let (a, b) = s.split_at((s.len() / 2..).find(|&i| s.is_char_boundary(i)).unwrap());
            write!(scr, "{}{}", a, b)
        }
        Unit::Call(_, n, c) => scr.write_styled(ocolor(Some(*c)), None, style(*c), &p(0, *n)),
        Unit::Session(v, y) => session(&mut scr.lock_write().unwrap(), v, *y),
        Unit::Both(v) => {
            let _r = scr.lock_read().unwrap();
            session(&mut scr.lock_write().unwrap(), v, 1)
        }
        Unit::Macro(n, c) => {
            let (a, b) = (p(0, *n), p(1, *n));
            let c = ocolor(Some(*c));
            term_write!(scr, [fg=c] [bold] (: a) [underline] ("{}", b) [reset] "!")
        }
        Unit::Try(n) => match scr.try_lock_write() {
            Ok(mut g) => {
                g.write_str(&p(0, *n));
                yields(2);
                g.write_str(&p(1, 3));
            }
            Err(_) => return Ok(false),
        },
        Unit::Read(3, n) => {
            scr.wait_event(Some(Duration::from_micros(*n as u64)))?;
        }
        Unit::Read(_, n) => events.extend(scr.read_event(Some(Duration::from_micros(*n as u64)))?),
        Unit::Pause(n) => yields(*n),
        Unit::Size | Unit::Prepare(..) => scr.refresh()?,
        Unit::Panic(_) => (),
    }
    Ok(true)
}

fn run_flow(threads: &[Vec<Unit>], input: u8, y: u8, pauses: &[Pause]) -> CaseResult {
    let mut info = Info::default();
    let threads: Vec<Vec<Unit>> = threads.iter().map(|u| u.iter().map(|u| match u {
        Unit::Call(k, n, c) => Unit::Call(*k, n % 20, *c),
        Unit::Session(v, y) => Unit::Session(v.iter().map(|(n, c)| (n % 20, *c)).collect(), *y),
        Unit::Both(v) => Unit::Both(v.iter().map(|(n, c)| (n % 20, *c)).collect()),
        Unit::Macro(n, c) => Unit::Macro(n % 20, *c),
        Unit::Try(n) => Unit::Try(n % 20),
        Unit::Panic(_) => Unit::Pause(1),
        u => u.clone(),
    }).collect()).collect();
    let s = Session::new("xterm", FLOW.0, FLOW.1, Sim::default());
    let scr = s.screen(Default::default()).map_err(|e| e.to_string())?;
    let mut vt = Vt::new(FLOW.0, FLOW.1, true, true);
    vt.feed(&sim::take_out());
    sim::with(|s| *s = input_sim(input, vec![]));
    let start = std::sync::Barrier::new(threads.len());
    let errors = Mutex::new(Vec::new());
    let (stepping, single) = stepped(pauses, threads.len());
    sim::YIELD.store(y as u32, Ordering::SeqCst);
    let results: Vec<(Vec<Event>, Vec<bool>)> = std::thread::scope(|s| {
        let hs: Vec<_> = threads.iter().enumerate().map(|(t, units)| {
            let (scr, start, errors) = (&scr, &start, &errors);
            s.spawn(move || {
                let mut evs = Vec::new();
                let mut done = Vec::new();
                start.wait();
                let turns = Turns { t, on: stepping, single };
                turns.run(|| for (u, unit) in units.iter().enumerate() {
                    turns.next(match unit {
                        Unit::Call(..) | Unit::Session(..) | Unit::Macro(..) | Unit::Try(..) | Unit::Size | Unit::Prepare(..) => 2,
                        Unit::Read(..) => 1,
                        _ => 0,
                    });
                    match turns.unit(|| run_flow_unit(scr, t, u, unit, &mut evs)) {
                        Ok(d) => done.push(d),
                        Err(e) => {
                            errors.lock().unwrap().push(format!("thread {} {:?}: {}", t, unit, e));
                            break;
                        }
                    }
                });
                (evs, done)
            })
        }).collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    }).map_err(|_| format!("a thread panicked: {:?}", take_panic()))?;
    sim::YIELD.store(0, Ordering::SeqCst);
    if let Some(e) = errors.into_inner().unwrap().pop() {
        return Err(e);
    }
    check_turns(stepping, &mut info)?;
    let rest = drain(&scr)?;
    let events: Vec<_> = results.iter().map(|r| r.0.clone()).collect();
    check_events(input, &events, rest)?;
    scr.refresh().map_err(|e| e.to_string())?;
    vt.feed(&sim::take_out());
    if !vt.errors.is_empty() || vt.mid() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    let cur = scr.cursor();
    let mut printed = Vec::new();
    for i in 0..cur.line * FLOW.1 + cur.column {
        let c = vt.cell(i / FLOW.1, i % FLOW.1);
        printed.push((c.text.chars().next().unwrap_or(' '), c.attr));
    }
    let switches = check_units(&printed, &threads, &results, flow_text)?;
    info.class_if(switches >= threads.len(), "handed over");
    info.class_if(events.iter().any(|e| !e.is_empty()), "sections interleaved with reading");
    info.class("threads");
    info.class("Screen");
    info.class("at the cursor");
    info.nontrivial = threads.len() > 1 && switches > 0;
    Ok(info)
}

fn known(kind: u8) -> CaseResult {
    let s = Session::new("xterm", 3, 20, Sim::default());
    let err = |e: io::Error| e.to_string();
    match kind {
        0 => {
            let t = s.terminal().map_err(err)?;
            let st = t.prepare(Default::default()).map_err(err)?;
            {
                let mut r = t.lock_read().unwrap();
                let _w = t.lock_write().unwrap();
                sim::raise_now(libc::SIGCONT);
                r.read_event(Z).map_err(err)?;
            }
            t.restore(st).map_err(err)?;
        }
        _ => {
            let scr = s.screen(Default::default()).map_err(err)?;
            let mut r = scr.lock_read().unwrap();
            let _w = scr.lock_write().unwrap();
            pty().set_size(5, 30);
            sim::raise_now(libc::SIGWINCH);
            r.read_event(Z).map_err(err)?;
        }
    }
    Ok(Info::new(true))
}

pub struct C09;

impl Prop for C09 {
    type Case = LockCase;
    const ID: &'static str = "C09";
    const TIMES: u32 = 2;
    const RULE: &'static str = "a case is either a history of lock, try_lock, release, write, read, resize and panicking with guards held (here or in another \
        thread), every result compared with a model of the two locks; or 2 to 5 threads with random programs of single calls, guard sessions, \
        term_write! statements, reading and panics on one Terminal or Screen, under the system's schedule with yields inside the device calls, or with \
        the first thread paused at generated instructions (counted in mutex operations, or from there in instructions) until the others have run so \
        many units or wait for a lock; the output must be the units each whole and in thread order (Screen: each thread's drawing intact, or the text \
        written at the cursor), with each typed character read once, nothing hanging, and nobody who only reads waiting for one who only writes or the \
        reverse; run in a process of its own; non-trivial if more than two operations were made, or units of different threads alternated";
    fn assumptions() -> Vec<&'static str> {
        vec!["schedules are those of the operating system with random yields, and those with pauses of one thread at generated instructions; with one \
            pause at a mutex operation, those of pairs of single units are enumerated", "a thread that holds its own write guard does not read \
            events while a continue or resize signal is pending (see known findings)", "after a panic with the write guard, signals that need the write \
            lock are not generated"]
    }
    fn lanes() -> Vec<Lane<LockCase>> {
        let op = prop_oneof![
            4 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| LOp::Lock(a, b)),
            5 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| LOp::Try(a, b)),
            3 => any::<bool>().prop_map(LOp::Release),
            3 => Just(LOp::Write),
            2 => Just(LOp::Read),
            1 => Just(LOp::Wait),
            2 => Just(LOp::Resize),
            2 => (0u8..4, any::<bool>()).prop_map(|(a, b)| LOp::Panic(a, b)),
            1 => Just(LOp::Format),
        ];
        let hist = (any::<bool>(), vec(op, 1..16)).prop_map(|(screen, ops)| LockCase::History { screen, ops }).boxed();
        let len = || prop_oneof![8 => 0u16..20, 2 => 20u16..300, 1 => LONG - 900..LONG];
        let unit = |panic: bool| prop_oneof![
            5 => (0u8..3, len(), 0u8..8).prop_map(|(a, b, c)| Unit::Call(a, b, c)),
            4 => (vec((len(), 0u8..8), 1..4), 0u8..4).prop_map(|(a, b)| Unit::Session(a, b)),
            4 => (len(), 0u8..8).prop_map(|(a, b)| Unit::Macro(a, b)),
            1 => vec((len(), 0u8..8), 1..3).prop_map(Unit::Both),
            1 => len().prop_map(Unit::Try),
            1 => len().prop_map(move |n| if panic { Unit::Panic(n) } else { Unit::Call(0, n, 0) }),
            3 => (0u8..4, 0u8..60).prop_map(|(a, b)| Unit::Read(a, b)),
            1 => (0u8..8).prop_map(Unit::Pause),
            2 => (any::<bool>(), 0u8..8).prop_map(|(a, b)| Unit::Prepare(a, b)),
            1 => Just(Unit::Size),
        ];
        let threads = |p: bool| (vec(vec(unit(p), 1..8), 2..6), 0u8..12, vec(any::<u8>(), 0..4), 0u8..4, any::<bool>())
            .prop_map(|(threads, input, sigcont, yields, prepared)| LockCase::Threads { threads, input, sigcont, yields, prepared, pauses: vec![] });
        let s = || any::<u8>();
        let sunit = |panic: bool| prop_oneof![
            4 => (s(), s(), s()).prop_map(|(a, b, c)| SUnit::At(a, b, c)),
            4 => (s(), s(), 0u8..8).prop_map(|(a, b, c)| SUnit::Styled(a, b, c)),
            4 => (vec((0u8..6, 0u8..8), 1..4), s()).prop_map(|(a, b)| SUnit::Session(a, b)),
            3 => (s(), 0u8..8).prop_map(|(a, b)| SUnit::Macro(a, b)),
            4 => Just(SUnit::Refresh),
            1 => s().prop_map(SUnit::Try),
            1 => s().prop_map(move |n| if panic { SUnit::Panic(n) } else { SUnit::At(n, n, n) }),
            2 => (0u8..3, 0u8..60).prop_map(|(a, b)| SUnit::Read(a, b)),
            1 => s().prop_map(SUnit::Both),
            1 => (0u8..3).prop_map(SUnit::CursorMode),
            1 => (0u8..8).prop_map(SUnit::Pause),
            1 => Just(SUnit::Query),
        ];
        let screens = |p: bool| (vec(vec(sunit(p), 1..8), 2..6), 0u8..10, vec((any::<u8>(), any::<bool>()), 0..3), 0u8..4)
            .prop_map(|(threads, input, signals, yields)| LockCase::Screen { threads, input, signals, yields, pauses: vec![] });
        let len = || prop_oneof![8 => 0u16..20, 1 => 20u16..300];
        let unit = |_| prop_oneof![
            5 => (0u8..3, len(), 0u8..8).prop_map(|(a, b, c)| Unit::Call(a, b, c)),
            3 => (vec((len(), 0u8..8), 1..3), Just(0)).prop_map(|(a, b)| Unit::Session(a, b)),
            4 => (len(), 0u8..8).prop_map(|(a, b)| Unit::Macro(a, b)),
            2 => vec((len(), 0u8..8), 1..3).prop_map(Unit::Both),
            2 => len().prop_map(Unit::Try),
            4 => (0u8..4, 0u8..60).prop_map(|(a, b)| Unit::Read(a, b)),
            2 => (any::<bool>(), 0u8..8).prop_map(|(a, b)| Unit::Prepare(a, b)),
            1 => Just(Unit::Size),
        ];
        // The first thread does little and pauses in it, so what the others do happens in between
        let pauses = || vec(prop_oneof![
            4 => (0u16..10, Just(0), 1u8..4),
            1 => (0u16..40, Just(0), 1u8..4),
            2 => (0u16..10, 1u16..100, 1u8..4),
            1 => (0u16..10, 100u16..2000, 1u8..4),
        ].prop_map(|(after, then, units)| Pause { after, then, units }), 1..4);
        let paused = (vec(unit(false), 1..3), vec(vec(unit(false), 1..5), 1..3), pauses(), 0u8..6, vec(0u8..30, 0..2), any::<bool>())
            .prop_map(|(first, others, pauses, input, sigcont, prepared)| LockCase::Threads {
                threads: [first].into_iter().chain(others).collect(), input, sigcont, yields: 0, prepared, pauses });
        let flow = (vec(unit(false), 1..3), vec(vec(unit(false), 1..5), 1..3), prop_oneof![2 => pauses(), 1 => Just(vec![])], 0u8..4, 0u8..4)
            .prop_map(|(first, others, pauses, input, yields)| LockCase::Flow {
                threads: [first].into_iter().chain(others).collect(), input, yields, pauses });
        let spaused = (vec(sunit(false), 1..3), vec(vec(sunit(false), 1..5), 1..3), pauses(), 0u8..6, vec((0u8..30, any::<bool>()), 0..2))
            .prop_map(|(first, others, pauses, input, signals)| LockCase::Screen {
                threads: [first].into_iter().chain(others).collect(), input, signals, yields: 0, pauses });
        vec![
            lane("terminal paused", 4_000, 150_000, paused.boxed()),
            lane("screen paused", 4_000, 150_000, spaused.boxed()),
            lane("screen cursor", 3_000, 100_000, flow.boxed()),
            lane("histories", 12_000, 300_000, hist),
            lane("terminal threads", 6_000, 150_000, prop_oneof![4 => threads(false), 1 => threads(true)].boxed()),
            lane("screen threads", 6_000, 150_000, prop_oneof![4 => screens(false), 1 => screens(true)].boxed()),
        ]
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (LockCase, String)> {
        let (terminal, screen) = kinds();
        let mut cases = Vec::new();
        for after in 0..14 {
            let pauses = vec![Pause { after, then: 0, units: 1 }];
            for a in &terminal {
                for b in &terminal {
                    // What follows shows whether its output is whole
                    let threads = vec![vec![a.clone()], vec![b.clone(), Unit::Call(0, 1, 0)]];
                    cases.push(LockCase::Threads { threads, input: 1, sigcont: vec![], yields: 0, prepared: false, pauses: pauses.clone() });
                }
            }
            for a in &terminal {
                for b in &terminal {
                    let threads = vec![vec![a.clone()], vec![b.clone(), Unit::Call(0, 1, 0)]];
                    cases.push(LockCase::Flow { threads, input: 1, yields: 0, pauses: pauses.clone() });
                }
            }
            for a in &screen {
                for b in &screen {
                    let threads = vec![vec![a.clone()], vec![b.clone(), SUnit::At(5, 1, 0)]];
                    cases.push(LockCase::Screen { threads, input: 1, signals: vec![], yields: 0, pauses: pauses.clone() });
                }
            }
        }
        let n = cases.len() as u64;
        for c in cases {
            if let Err(m) = Self::run(&c) {
                return Err((c, m));
            }
        }
        Ok(Some((n, "one unit of each kind in one thread, one of each kind in another at each of the first 14 places of the first".into())))
    }
    fn run(case: &LockCase) -> CaseResult {
        let paused = match case {
            LockCase::Threads { pauses, .. } | LockCase::Screen { pauses, .. } | LockCase::Flow { pauses, .. } => !pauses.is_empty(),
            _ => false,
        };
        if paused {
            learn_places();
        }
        let rounds = if replaying() && matches!(case, LockCase::Threads { .. } | LockCase::Screen { .. } | LockCase::Flow { .. }) { 200 } else { 1 };
        let secs = if matches!(case, LockCase::Known(_)) { 2 } else { 10 };
        let mut r = Ok(Info::default());
        for _ in 0..rounds {
            r = in_child(CLASSES, secs, || match case {
                LockCase::History { screen, ops } => run_history(*screen, ops),
                LockCase::Threads { threads, input, sigcont, yields, prepared, pauses } => run_threads(threads, *input, sigcont, *yields, *prepared, pauses),
                LockCase::Screen { threads, input, signals, yields, pauses } => run_screen(threads, *input, signals, *yields, pauses),
                LockCase::Flow { threads, input, yields, pauses } => run_flow(threads, *input, *yields, pauses),
                LockCase::Known(k) => known(*k),
            });
            if r.is_err() {
                break;
            }
        }
        r
    }
}
