//! C14 signals, C15 nested prepare and restore.

use std::io;
use std::sync::Mutex;
use std::time::Duration;

use libc::c_int;
use mortal::unix::TerminalExt;
use mortal::{Event, Key, PrepareState, Screen, Signal, Terminal};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::dev::{input, self, get_handler, noop_handler, noop_handler2, pty, set_handler, tio_eq, tio_str, Session, SIGNALS};
use crate::engine::*;
use crate::gen::{arb_cfg, sigset, Cfg};
use super::screen::{arb_flt_set, Flt};
use crate::sim::{self, Item, Sim, What};
use crate::ti;
use crate::vt::Vt;

/// Index into `SIGNALS` of what an event reports
fn sig_of(ev: &Event) -> Option<usize> {
    match ev {
        Event::Signal(Signal::Interrupt) => Some(0),
        Event::Signal(Signal::Quit) => Some(1),
        Event::Signal(Signal::Suspend) => Some(2),
        Event::Signal(Signal::Continue) => Some(3),
        Event::Resize(_) => Some(4),
        _ => None,
    }
}

const NAMES: [&str; 5] = ["SIGINT", "SIGQUIT", "SIGTSTP", "SIGCONT", "SIGWINCH"];

/// Which of `SIGNALS` a configuration wants reported (window changes always are)
fn requested(cfg: &Cfg) -> [bool; 5] {
    let s = sigset(cfg.sigs);
    [s.contains(Signal::Interrupt), s.contains(Signal::Quit), s.contains(Signal::Suspend), s.contains(Signal::Continue), true]
}

// ---------------------------------------------------------------------------
// What the world does when a signal is raised

struct World {
    tio: libc::termios,
    sizes: usize,
}
unsafe impl Send for World {}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

/// Whether windows without any lines or columns occur, as of devices that have no size
static ZERO: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn size_no(k: usize) -> (usize, usize) {
    if k % 5 == 2 && ZERO.load(std::sync::atomic::Ordering::SeqCst) {
        return if k % 2 == 0 { (0, 0) } else { (k % 3, 0) };
    }
    (3 + k % 17, 8 + (k * 7) % 41)
}

/// A shell that had the terminal in between resets it; a window change has a new size.
fn on_raise(sig: c_int) {
    let mut w = WORLD.lock().unwrap();
    if let Some(w) = w.as_mut() {
        if sig == libc::SIGCONT {
            input().set_tio(&w.tio);
            sim::with(|s| s.out.extend_from_slice(b"\x1b[?1l\x1b>\x1b[?1006l\x1b[?1002l\x1b[?1003l"));
        }
        if sig == libc::SIGWINCH {
            w.sizes += 1;
            let (l, c) = size_no(w.sizes);
            pty().set_size(l, c);
        }
    }
}

pub(super) fn set_world(tio: Option<libc::termios>) {
    *WORLD.lock().unwrap() = tio.map(|tio| World { tio, sizes: 0 });
    sim::ON_RAISE.store(if tio.is_some() { on_raise as fn(c_int) as usize } else { 0 }, std::sync::atomic::Ordering::SeqCst);
}

fn cur_size() -> (usize, usize) {
    size_no(WORLD.lock().unwrap().as_ref().map_or(0, |w| w.sizes))
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Modes {
    keypad: bool,
    mouse: bool,
    motion: bool,
    sgr: bool,
    track: u16,
}

fn modes(vt: &mut Vt) -> Modes {
    let out = sim::take_out();
    vt.feed(&out);
    Modes { keypad: vt.keypad, mouse: vt.mouse, motion: vt.mouse_motion, sgr: vt.mouse_sgr, track: vt.track }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    Event(u16),
    Wait(u16),
    Raw(u8, u16),
    Raise(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SItem {
    Data(u8),
    /// A character that arrives in two pieces
    Split,
    Sig(u8, bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SigCase {
    term: u8,
    cfg: Cfg,
    screen: bool,
    guard: bool,
    /// A configuration prepared before `cfg`; in force again when that is restored
    #[serde(default)]
    outer: Option<Cfg>,
    arrivals: Vec<(u8, SItem)>,
    /// Signals that arrive just when the n-th device call is made
    at_calls: Vec<(u8, u8)>,
    ops: Vec<SOp>,
    /// Bits: signals between calls are delivered to another thread; another thread waits and reads;
    /// signals during waits are delivered to another thread than waits
    #[serde(default)]
    threads: u8,
}

/// Calls `f` in another thread.
fn elsewhere<R: Send>(other: bool, f: impl FnOnce() -> R + Send) -> R {
    if !other {
        return f();
    }
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    })
}

enum Dev {
    T(Terminal),
    S(Screen),
}

impl Dev {
    fn event(&self, guard: bool, t: Duration) -> io::Result<Option<Event>> {
        match self {
            Dev::T(d) if guard => d.lock_read().unwrap().read_event(Some(t)),
            Dev::S(d) if guard => d.lock_read().unwrap().read_event(Some(t)),
            Dev::T(d) => d.read_event(Some(t)),
            Dev::S(d) => d.read_event(Some(t)),
        }
    }
    fn wait(&self, guard: bool, t: Duration) -> io::Result<bool> {
        match self {
            Dev::T(d) if guard => d.lock_read().unwrap().wait_event(Some(t)),
            Dev::S(d) if guard => d.lock_read().unwrap().wait_event(Some(t)),
            Dev::T(d) => d.wait_event(Some(t)),
            Dev::S(d) => d.wait_event(Some(t)),
        }
    }
    fn raw(&mut self, guard: bool, buf: &mut [u8], t: Duration) -> io::Result<Option<Event>> {
        match self {
            Dev::T(d) if guard => d.lock_read().unwrap().read_raw(buf, Some(t)),
            Dev::S(d) if guard => d.lock_read().unwrap().read_raw(buf, Some(t)),
            Dev::T(d) => d.read_raw(buf, Some(t)),
            Dev::S(d) => d.read_raw(buf, Some(t)),
        }
    }
}

/// What is owed and allowed for each signal
#[derive(Default)]
struct Owed {
    seen: usize,
    /// A report is due, since this time
    must: [Option<u64>; 5],
    credit: [u32; 5],
    both: bool,
}

impl Owed {
    /// Takes note of signals raised since the last call; the number of each.
    fn update(&mut self, req: &[bool; 5]) -> [u32; 5] {
        let new: Vec<(c_int, u64)> = sim::with(|s| s.raised[self.seen..].iter().cloned().zip(s.raised_at[self.seen..].iter().cloned()).collect());
        self.seen += new.len();
        let mut n = [0; 5];
        for (sig, at) in new {
            if let Some(i) = SIGNALS.iter().position(|&s| s == sig) {
                n[i] += 1;
                if req[i] {
                    self.credit[i] += 1;
                    self.must[i].get_or_insert(at);
                }
            }
        }
        self.both |= self.must.iter().filter(|m| m.is_some()).count() > 1;
        n
    }
    fn report(&mut self, i: usize, in_call: u32) -> Result<(), String> {
        if self.credit[i] == 0 {
            return Err(format!("{} is reported but did not arrive", NAMES[i]));
        }
        // Later arrivals during the same call may still be reported
        self.credit[i] = (self.credit[i] - 1).min(in_call);
        self.must[i] = None;
        Ok(())
    }
    /// A signal must not wait while time passes
    fn overdue(&self, none: bool) -> Option<String> {
        let now = sim::now();
        for i in 0..5 {
            if let Some(at) = self.must[i] {
                if at < now || none {
                    return Some(format!("{} arrived at {} us and is not reported at {} us", NAMES[i], at, now));
                }
            }
        }
        None
    }
}

struct Phase {
    req: [bool; 5],
    modes: Modes,
    tio: libc::termios,
}

pub struct C14;

impl Prop for C14 {
    type Case = SigCase;
    const ID: &'static str = "C14";
    const TIMES: u32 = 3;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a Terminal or Screen prepared with a random configuration (a Terminal at times within another one, which is in force again in the end), a schedule of input and of SIGINT, SIGQUIT, \
        SIGTSTP, SIGCONT and SIGWINCH (during waits, during reads with and without interrupting them, at the entry of the n-th device call, between \
        calls), and a mix of waiting and reading calls; a SIGCONT comes with line settings and modes reset as by a shell, a SIGWINCH with a new size; \
        non-trivial if a requested signal was reported, and two kinds were pending at once or one arrived at the entry of a device call";
    fn assumptions() -> Vec<&'static str> {
        vec!["signals of one kind that arrive before a report of that kind may be reported once", "signals that are not requested have a handler of the user",
            "signals that arrive during a call are delivered to the thread that makes it (otherwise: known finding)"]
    }
    fn lanes() -> Vec<Lane<SigCase>> {
        fn case(many: bool, calls: usize) -> BoxedStrategy<SigCase> {
            let item = prop_oneof![3 => (1u8..5).prop_map(SItem::Data), 1 => Just(SItem::Split), 6 => (0u8..5, any::<bool>()).prop_map(|(a, b)| SItem::Sig(a, b))];
            let gap = prop_oneof![3 => Just(0u8), 3 => 0u8..30];
            let t = || prop_oneof![2 => Just(0u16), 3 => 0u16..40];
            let op = prop_oneof![
                6 => t().prop_map(SOp::Event), 2 => t().prop_map(SOp::Wait), 2 => (1u8..6, t()).prop_map(|(a, b)| SOp::Raw(a, b)),
                if many { 6 } else { 2 } => (0u8..5).prop_map(SOp::Raise)];
            (0u8..11, arb_cfg(), any::<bool>(), any::<bool>(), vec((gap, item), 0..8), vec((0u8..12, 0u8..5), 0..=calls), vec(op, 1..14),
                    (prop_oneof![2 => Just(0u8), 1 => Just(63u8)], prop_oneof![12 => Just(0u8), 1 => 1u8..4]), proptest::option::weighted(0.3, arb_cfg()))
                .prop_map(|(term, mut cfg, screen, guard, arrivals, at_calls, ops, (more, threads), outer)| {
                    cfg.sigs |= more;
                    SigCase { term, cfg, screen, guard, outer, arrivals, at_calls, ops, threads }
                }).boxed()
        }
        vec![
            lane("schedules", 60_000, 1_500_000, case(false, 0)),
            lane("bursts", 30_000, 800_000, case(true, 0)),
            lane("at device calls", 60_000, 1_500_000, case(true, 4)),
        ]
    }
    fn run(case: &SigCase) -> CaseResult {
        let t = ti::real(case.term);
        ZERO.store(!case.screen, std::sync::atomic::Ordering::SeqCst);
        let (l, c) = size_no(0);
        let s = Session::new(t.name, l, c, Sim::default());
        s.drain_signals();
        for sig in SIGNALS {
            set_handler(sig, noop_handler as *const () as usize, 0, 0);
        }
        let shell_tio = input().get_tio();
        let mut vt = Vt::new(l, c, t.bce, true);
        let mut d = if case.screen {
            Dev::S(s.screen(case.cfg.get()).map_err(|e| format!("open: {}", e))?)
        } else {
            Dev::T(s.terminal().map_err(|e| format!("open: {}", e))?)
        };
        // Each with what holds when it is in force
        let mut states = Vec::new();
        let mut phases = Vec::new();
        match &d {
            Dev::T(t) => for cfg in case.outer.iter().chain([&case.cfg]) {
                states.push(t.prepare(cfg.get()).map_err(|e| format!("prepare: {}", e))?);
                phases.push(Phase { req: requested(cfg), modes: modes(&mut vt), tio: input().get_tio() });
            },
            Dev::S(_) => phases.push(Phase { req: requested(&case.cfg), modes: modes(&mut vt), tio: input().get_tio() }),
        }
        let phase = phases.pop().unwrap();

        let mut data = Vec::new();
        let mut arrivals = Vec::new();
        let mut at = 0;
        let mut k = 0u8;
        let mut split = false;
        for (gap, item) in &case.arrivals {
            at += *gap as u64 * 1000;
            match item {
                SItem::Data(n) => {
                    let v: Vec<u8> = (0..*n).map(|_| { k += 1; b'a' + k % 26 }).collect();
                    data.extend_from_slice(&v);
                    arrivals.push(Item { at, what: What::Data(v) });
                }
                SItem::Split => {
                    split = true;
                    data.extend_from_slice("漢".as_bytes());
                    arrivals.push(Item { at, what: What::Data("漢".as_bytes()[..2].to_vec()) });
                    at += 1000 * *gap as u64;
                    arrivals.push(Item { at, what: What::Data("漢".as_bytes()[2..].to_vec()) });
                }
                SItem::Sig(n, e) => arrivals.push(Item { at, what: What::Signal(SIGNALS[*n as usize % 5], *e) }),
            }
        }
        let mut calls: Vec<(u64, c_int)> = case.at_calls.iter().map(|c| (c.0 as u64, SIGNALS[c.1 as usize % 5])).collect();
        calls.sort_unstable();
        let at_call = !calls.is_empty();
        sim::with(|s| {
            s.arrivals = arrivals.into();
            s.call_signals = calls.into();
            s.other_thread = case.threads & 4 != 0;
            s.calls = 0;
        });
        set_world(Some(shell_tio));

        let mut owed = Owed::default();
        let pos = std::cell::Cell::new(0);
        let mut reports = 0;
        let mut info = Info::default();
        let mut conts = 0;
        let mut step = |op: &SOp, d: &mut Dev, vt: &mut Vt, info: &mut Info, phase: &Phase| -> Result<bool, String> {
            let Phase { req, modes: want_modes, tio: want_tio } = phase;
            let want_modes = *want_modes;
            let ms = |n: u16| Duration::from_millis(n as u64);
            let mut buf = [0u8; 8];
            let due = owed.must.iter().any(|m| m.is_some());
            let start = sim::now();
            let ev = match op {
                SOp::Raise(n) => {
                    elsewhere(case.threads & 1 != 0, || sim::raise_now(SIGNALS[*n as usize % 5]));
                    owed.update(req);
                    return Ok(true);
                }
                SOp::Wait(t) => {
                    let r = elsewhere(case.threads & 2 != 0, || d.wait(case.guard, ms(*t))).map_err(|e| format!("wait_event: {}", e))?;
                    owed.update(req);
                    if due && sim::now() != start {
                        return Err("wait_event waits although a signal is to be reported".into());
                    }
                    if let Some(m) = owed.overdue(!r) {
                        return Err(format!("wait_event gives {}: {}", r, m));
                    }
                    return Ok(r);
                }
                SOp::Event(t) => elsewhere(case.threads & 2 != 0, || d.event(case.guard, ms(*t))),
                SOp::Raw(..) if split => elsewhere(case.threads & 2 != 0, || d.event(case.guard, ms(5))),
                SOp::Raw(n, t) => elsewhere(case.threads & 2 != 0, || d.raw(case.guard, &mut buf[..*n as usize], ms(*t))),
            };
            let n = owed.update(req);
            info.class_if(ev.as_ref().map_or(false, |e| e.is_some()) && n.iter().any(|n| *n > 0), "signal during a call that reports something");
            let ev = match ev {
                Ok(ev) => ev,
                Err(e) => return Err(format!("{:?}: {}", op, e)),
            };
            match &ev {
                None => {
                    if let Some(m) = owed.overdue(true) {
                        return Err(format!("{:?} gives none: {}", op, m));
                    }
                    return Ok(false);
                }
                Some(Event::Key(Key::Char(ch))) => {
                    let mut b = [0; 4];
                    let b = ch.encode_utf8(&mut b).as_bytes();
                    if !data[pos.get()..].starts_with(b) {
                        return Err(format!("{:?} gives {:?}; input is {:?} from {}", op, ev, String::from_utf8_lossy(&data), pos.get()));
                    }
                    pos.set(pos.get() + b.len());
                }
                Some(Event::Raw(n)) => {
                    if !data[pos.get()..].starts_with(&buf[..*n]) {
                        return Err(format!("{:?} gives {:?}; input is {:?} from {}", op, &buf[..*n], String::from_utf8_lossy(&data), pos.get()));
                    }
                    pos.set(pos.get() + n);
                }
                Some(e) => match sig_of(e) {
                    Some(i) if req[i] => {
                        owed.report(i, n[i])?;
                        reports += 1;
                        if let Event::Resize(size) = e {
                            if (size.lines, size.columns) != cur_size() {
                                return Err(format!("resize event with {:?}, the window has {:?}", size, cur_size()));
                            }
                            if let Dev::S(s) = d {
                                if s.size() != *size {
                                    return Err(format!("Screen::size is {:?} after {:?}", s.size(), e));
                                }
                            }
                        }
                        // Unless it came again
                        if i == 3 && owed.credit[3] == 0 {
                            conts += 1;
                            let m = modes(vt);
                            if m != want_modes || !tio_eq(&input().get_tio(), want_tio) {
                                return Err(format!("after the continue signal: {:?}, prepared {:?}; {}, prepared {}", m, want_modes,
                                    tio_str(&input().get_tio()), tio_str(want_tio)));
                            }
                        }
                    }
                    Some(_) => return Err(format!("{:?} gives {:?}, which is not requested", op, ev)),
                    None => return Err(format!("{:?} gives {:?}", op, ev)),
                },
            }
            if let Some(m) = owed.overdue(false) {
                return Err(format!("{:?} gives {:?}: {}", op, ev, m));
            }
            Ok(true)
        };
        for op in &case.ops {
            step(op, &mut d, &mut vt, &mut info, &phase)?;
        }
        let mut idle = 0;
        while idle < 2 {
            idle = if step(&SOp::Event(3000), &mut d, &mut vt, &mut info, &phase)? { 0 } else { idle + 1 };
        }
        if pos.get() != data.len() {
            return Err(format!("input ends at {} of {:?}", pos.get(), String::from_utf8_lossy(&data)));
        }
        let Phase { modes: want_modes, tio: want_tio, .. } = phase;
        let m = modes(&mut vt);
        let came = sim::with(|s| s.raised.contains(&libc::SIGCONT));
        if m != want_modes || !tio_eq(&input().get_tio(), &want_tio) {
            return Err(format!("in the end: {:?}, prepared {:?}; {}, prepared {}", m, want_modes, tio_str(&input().get_tio()), tio_str(&want_tio)));
        }
        while let Some(st) = states.pop() {
            if let Dev::T(t) = &d {
                t.restore(st).map_err(|e| format!("restore: {}", e))?;
            }
            // With the outer configuration now in force
            if let Some(phase) = phases.pop() {
                for k in 0..5 {
                    step(&SOp::Raise(case.term + k), &mut d, &mut vt, &mut info, &phase)?;
                }
                let mut idle = 0;
                while idle < 2 {
                    idle = if step(&SOp::Event(3), &mut d, &mut vt, &mut info, &phase)? { 0 } else { idle + 1 };
                }
                info.class("outer configuration in force again");
            }
        }
        set_world(None);
        info.nontrivial = reports > 0 && (owed.both || at_call);
        info.class_if(owed.both, "two kinds pending");
        info.class_if(came, "continue signal");
        info.class_if(conts > 0, "continue signal reported");
        info.class_if(split, "unfinished character");
        info.class_if(case.screen, "Screen");
        info.class_if(case.threads & 1 != 0 && case.ops.iter().any(|o| matches!(o, SOp::Raise(_))), "signals in another thread");
        info.class_if(case.threads & 2 != 0, "another thread reads");
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum NOp {
    /// Configuration; method of the terminal, of a read guard, or with both locks
    Prepare(Cfg, u8),
    Restore(u8),
    Event(u8),
    Raw(u8),
    Wait,
    Drain,
    Raise(u8),
    Input(String),
    Write(String),
    Attrs(u8, u8),
    /// The device's writes during the next prepare or restore
    Faults(Vec<Flt>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct NestCase {
    term: u8,
    /// Changes of the initial line settings: bits of TOGGLES, and the values of some control characters
    tio: u32,
    cc: [u8; 3],
    /// Initial handler of each signal: kind, flags, mask
    handlers: Vec<(u8, u8, u8)>,
    ops: Vec<NOp>,
}

/// (field, bit) of line settings
pub(super) fn toggles() -> Vec<(u8, libc::tcflag_t)> {
    use libc::*;
    let mut v: Vec<(u8, tcflag_t)> = Vec::new();
    v.extend([INLCR, ICRNL, IGNCR, IXON, IXOFF, IXANY, ISTRIP, IUTF8, BRKINT, IMAXBEL, PARMRK, IGNBRK].map(|b| (0, b)));
    v.extend([OPOST, ONLCR, OCRNL, ONOCR, ONLRET].map(|b| (1, b)));
    v.extend([ICANON, ECHO, ISIG, IEXTEN, ECHOE, ECHOK, ECHONL, NOFLSH, TOSTOP, ECHOCTL, ECHOKE].map(|b| (3, b)));
    v
}

struct Level {
    state: PrepareState,
    cfg: Cfg,
    snap: Snap,
}

struct Snap {
    tio: libc::termios,
    /// Those of the device written to, if that is another one
    out_tio: Option<libc::termios>,
    handlers: Vec<(usize, c_int, u64)>,
    modes: Modes,
}

fn snap(vt: &mut Vt) -> Snap {
    Snap { tio: input().get_tio(), out_tio: if std::ptr::eq(input(), pty()) { None } else { Some(pty().get_tio()) }, handlers: SIGNALS.iter().map(|&s| get_handler(s)).collect(), modes: modes(vt) }
}

/// Whether settings, modes and handlers are what they were
fn same(now: &Snap, was: &Snap) -> Result<(), String> {
    if !tio_eq(&now.tio, &was.tio) {
        return Err(format!("line settings are {}, were {}", tio_str(&now.tio), tio_str(&was.tio)));
    }
    if let (Some(now), Some(was)) = (&now.out_tio, &was.out_tio) {
        if !tio_eq(now, was) {
            return Err(format!("line settings of the output are {}, were {}", tio_str(now), tio_str(was)));
        }
    }
    if now.modes != was.modes {
        return Err(format!("modes are {:?}, were {:?}", now.modes, was.modes));
    }
    for i in 0..5 {
        if now.handlers[i] != was.handlers[i] {
            return Err(format!("handler of {} is {:x?}, was {:x?}", NAMES[i], now.handlers[i], was.handlers[i]));
        }
    }
    Ok(())
}

/// Makes the device behave like this; whether it may refuse something.
fn disturb(f: &mut Vec<Flt>) -> bool {
    let f = std::mem::take(f);
    super::screen::disturb(&f);
    !f.is_empty()
}

fn undisturb() -> bool {
    sim::with(|s| {
        s.faults.clear();
        s.stuck = 0;
        s.faults_hit > 0 || s.stuck_hit > 0
    })
}

pub struct C15;

impl Prop for C15 {
    type Case = NestCase;
    const ID: &'static str = "C15";
    const TIMES: u32 = 2;
    const STREAMS: u8 = 3;
    const RULE: &'static str = "a case is random initial line settings and signal handlers, and a history of nested prepare (three forms, random \
        configurations) and restore calls with input, reading, writing and signals in between (a SIGCONT comes with everything reset as by a shell); \
        settings, modes and handlers after each restore are compared with those just before the matching prepare, and the reports of signals with \
        the configuration then in force; non-trivial if prepare was nested with a different configuration, or something was signalled before a restore";
    fn assumptions() -> Vec<&'static str> {
        vec!["a signal that arrives while it is not requested, although an outer prepare \
            requested it, may be reported after the inner restore or not"]
    }
    fn lanes() -> Vec<Lane<NestCase>> {
        fn case(inner: u32, max: usize, faults: u32) -> BoxedStrategy<NestCase> {
            let op = prop_oneof![
                8 => (arb_cfg(), 0u8..3).prop_map(|(a, b)| NOp::Prepare(a, b)),
                8 => (0u8..3).prop_map(NOp::Restore),
                inner => (0u8..30).prop_map(NOp::Event),
                inner / 2 => (1u8..8).prop_map(NOp::Raw),
                inner / 2 => Just(NOp::Wait),
                inner => Just(NOp::Drain),
                inner * 2 => (0u8..5).prop_map(NOp::Raise),
                inner => "[a-z]{1,4}".prop_map(NOp::Input),
                inner / 2 => "[a-z]{1,8}".prop_map(NOp::Write),
                inner / 2 => (0u8..8, 0u8..16).prop_map(|(a, b)| NOp::Attrs(a, b)),
            ];
            let op = if faults == 0 { op.boxed() } else { prop_oneof![faults => vec(arb_flt_set(), 1..4).prop_map(NOp::Faults), 20 => op].boxed() };
            let tio = prop_oneof![2 => Just(0u32), 2 => (0u32..32).prop_map(|n| 1 << n), 3 => any::<u32>()];
            (0u8..11, tio, any::<[u8; 3]>(), vec((0u8..4, 0u8..16, any::<u8>()), 5), vec(op, 1..max))
                .prop_map(|(term, tio, cc, handlers, ops)| NestCase { term, tio, cc, handlers, ops }).boxed()
        }
        vec![lane("nesting", 60_000, 1_500_000, case(0, 10, 0)), lane("mixed", 80_000, 2_000_000, case(4, 24, 0)),
            lane("refusing device", 30_000, 600_000, case(0, 12, 8)), lane("mixed, refusing device", 30_000, 600_000, case(4, 24, 6))]
    }
    fn run(case: &NestCase) -> CaseResult {
        let t = ti::real(case.term);
        ZERO.store(true, std::sync::atomic::Ordering::SeqCst);
        let (l, c) = size_no(0);
        let s = Session::new(t.name, l, c, Sim::default());
        s.drain_signals();
        let mut tio = input().get_tio();
        for (i, (f, bit)) in toggles().into_iter().enumerate() {
            if case.tio & (1 << i) != 0 {
                match f {
                    0 => tio.c_iflag ^= bit,
                    1 => tio.c_oflag ^= bit,
                    _ => tio.c_lflag ^= bit,
                }
            }
        }
        if case.tio & 1 != 0 {
            tio.c_cc[libc::VMIN] = case.cc[0];
            tio.c_cc[libc::VTIME] = case.cc[1];
            tio.c_cc[libc::VINTR] = case.cc[2];
        }
        input().set_tio(&tio);
        let shell_tio = input().get_tio();
        for (i, h) in case.handlers.iter().enumerate().take(5) {
            let f = match h.0 % 4 {
                0 => libc::SIG_DFL,
                1 => libc::SIG_IGN,
                2 => noop_handler as *const () as usize,
                _ => noop_handler2 as *const () as usize,
            };
            let flags = [0, libc::SA_RESTART, libc::SA_NODEFER, libc::SA_RESTART | libc::SA_NODEFER][h.1 as usize % 4];
            set_handler(SIGNALS[i], f, flags, if h.0 % 4 < 2 { 0 } else { (h.2 as u64) << 10 });
        }
        let deadly = |i: usize| i < 3 && case.handlers[i].0 % 4 == 0;
        let mut term = s.terminal().map_err(|e| format!("open: {}", e))?;
        let mut vt = Vt::new(l, c, t.bce, true);
        set_world(Some(shell_tio));
        let mut stack: Vec<Level> = Vec::new();
        let mut must = [false; 5];
        let mut may = [false; 5];
        let mut input: Vec<u8> = Vec::new();
        let mut pos = 0;
        let mut info = Info::default();
        let mut nested = 0;
        let mut signalled = false;
        let mut dirty = false;
        // Modes after the last prepare or restore
        let mut current = modes(&mut vt);
        let mut inner_undone = false;
        let mut faults: Vec<Flt> = Vec::new();

        let end = std::iter::repeat(NOp::Restore(0)).take(case.ops.iter().filter(|o| matches!(o, NOp::Prepare(..))).count());
        let ops: Vec<NOp> = case.ops.iter().cloned().chain(end).chain([NOp::Drain]).collect();
        for (n, op) in ops.iter().enumerate() {
            let fail = |m: String| Err(format!("op {} {:?} (depth {}): {}", n, op, stack.len(), m));
            let req = stack.last().map_or([false, false, false, false, true], |l| requested(&l.cfg));
            let mut evs: Vec<io::Result<Option<Event>>> = Vec::new();
            let mut buf = [0u8; 8];
            match op {
                NOp::Prepare(cfg, form) => {
                    // While the reset by a shell is not noticed, the state before is not known
                    if stack.len() >= 5 || dirty {
                        continue;
                    }
                    let sn = snap(&mut vt);
                    let mut refused = disturb(&mut faults);
                    let r = match form % 3 {
                        0 => term.prepare(cfg.get()),
                        1 => term.lock_read().unwrap().prepare(cfg.get()),
                        _ => {
                            let mut r = term.lock_read().unwrap();
                            let mut w = term.lock_write().unwrap();
                            r.prepare_with_lock(&mut w, cfg.get())
                        }
                    };
                    refused = undisturb() && refused;
                    if refused {
                        // What was held back
                        if let Err(e) = term.lock_write().unwrap().flush() {
                            return fail(format!("flush: {}", e));
                        }
                    }
                    let state = match r {
                        Ok(s) => s,
                        Err(_) if refused => {
                            info.class("prepare failed");
                            let now = snap(&mut vt);
                            if let Err(e) = same(&now, &sn) {
                                return fail(format!("after the failure {}", e));
                            }
                            current = now.modes;
                            continue;
                        }
                        Err(e) => return fail(e.to_string()),
                    };
                    if stack.last().map_or(false, |l| l.cfg != *cfg) {
                        nested += 1;
                    }
                    stack.push(Level { state, cfg: cfg.clone(), snap: sn });
                    current = modes(&mut vt);
                    inner_undone = false;
                    let req = requested(cfg);
                    for i in 0..5 {
                        must[i] &= req[i];
                    }
                }
                NOp::Restore(form) => {
                    let depth = stack.len();
                    let Level { state, cfg: _, snap: sn } = match stack.pop() {
                        Some(l) => l,
                        None => continue,
                    };
                    let mut refused = disturb(&mut faults);
                    let r = match form % 3 {
                        0 => term.restore(state),
                        1 => term.lock_read().unwrap().restore(state),
                        _ => {
                            let mut r = term.lock_read().unwrap();
                            let mut w = term.lock_write().unwrap();
                            r.restore_with_lock(&mut w, state)
                        }
                    };
                    let fail = |m: String| Err(format!("op {} {:?} (from depth {}): {}", n, op, depth, m));
                    refused = undisturb() && refused;
                    let ok = r.is_ok();
                    match r {
                        Err(_) if refused => info.class("restore failed"),
                        Err(e) => return fail(e.to_string()),
                        Ok(()) => (),
                    }
                    if refused {
                        if let Err(e) = term.lock_write().unwrap().flush() {
                            return fail(format!("flush: {}", e));
                        }
                    }
                    let mut now = snap(&mut vt);
                    if refused && sim::with(|s| s.stuck_hit > 0) {
                        // The settings cannot be given back, but all else can
                        if ok {
                            return fail("succeeds, but line settings could not be set".into());
                        }
                        now.tio = sn.tio;
                        info.class("restore failed to set line settings");
                    }
                    if let Err(e) = same(&now, &sn) {
                        return fail(format!("{}; type {}", e, t.name));
                    }
                    let req = stack.last().map_or([false; 5], |l| requested(&l.cfg));
                    for i in 0..5 {
                        must[i] &= req[i];
                    }
                    dirty = false;
                    current = now.modes;
                    inner_undone = depth > 1;
                    info.class_if(depth > 1, "inner restore");
                }
                NOp::Event(ms) => evs.push(term.read_event(Some(Duration::from_millis(*ms as u64)))),
                NOp::Raw(n) => evs.push(term.read_raw(&mut buf[..*n as usize], Some(Duration::from_millis(1)))),
                NOp::Wait => match term.wait_event(Some(Duration::from_millis(3))) {
                    Ok(false) if must.iter().any(|m| *m) => return fail("false although a signal is to be reported".into()),
                    Ok(_) => (),
                    Err(e) => return fail(e.to_string()),
                },
                NOp::Drain => {
                    let mut idle = 0;
                    while idle < 2 {
                        let r = term.read_event(Some(Duration::from_millis(0)));
                        idle = if let Ok(None) = r { idle + 1 } else { 0 };
                        if r.is_err() || evs.len() > 1000 {
                            idle = 2;
                        }
                        evs.push(r);
                    }
                }
                NOp::Raise(k) => {
                    let i = *k as usize % 5;
                    let handled = if i > 2 { !stack.is_empty() } else { stack.iter().any(|l| requested(&l.cfg)[i]) };
                    if !handled && deadly(i) {
                        continue;
                    }
                    // The shell does not know of the terminal's use outside
                    if i == 3 && stack.is_empty() {
                        continue;
                    }
                    sim::raise_now(SIGNALS[i]);
                    signalled |= !stack.is_empty();
                    dirty |= i == 3;
                    if handled {
                        may[i] = true;
                        must[i] |= req[i];
                    }
                }
                NOp::Input(s) => {
                    input.extend_from_slice(s.as_bytes());
                    sim::with(|sim| sim.avail.extend(s.bytes()));
                }
                NOp::Write(s) => if let Err(e) = term.write_str(s) {
                    return fail(e.to_string());
                },
                NOp::Faults(f) => faults = f.clone(),
                NOp::Attrs(fg, st) => {
                    let r = term.set_fg(crate::gen::ocolor(Some(*fg))).and_then(|_| term.set_style(crate::gen::style(*st)));
                    if let Err(e) = r {
                        return fail(e.to_string());
                    }
                }
            }
            for ev in evs {
                let fail = |m: String| Err(format!("op {} {:?} (depth {}): {}", n, op, stack.len(), m));
                match ev {
                    Err(e) => return fail(e.to_string()),
                    Ok(None) => {
                        for i in 0..5 {
                            if must[i] {
                                return fail(format!("{} is not reported", NAMES[i]));
                            }
                        }
                        if std::mem::take(&mut dirty) {
                            // Nothing of a preparation undone may come back
                            let now = modes(&mut vt);
                            if now != current {
                                return fail(format!("modes after SIGCONT are {:?}, were {:?}; type {}", now, current, t.name));
                            }
                            info.class_if(inner_undone && !stack.is_empty(), "continued after inner restore");
                        }
                    }
                    Ok(Some(Event::Key(Key::Char(ch)))) if input.get(pos) == Some(&(ch as u8)) => pos += 1,
                    Ok(Some(Event::Raw(n))) if input[pos..].starts_with(&buf[..n]) => pos += n,
                    Ok(Some(ev)) => match sig_of(&ev) {
                        Some(i) => {
                            if !req[i] {
                                return fail(format!("{:?} is reported but not requested", ev));
                            }
                            if !may[i] {
                                return fail(format!("{:?} is reported but did not arrive", ev));
                            }
                            may[i] = false;
                            must[i] = false;
                            info.class_if(stack.len() == 1 && nested > 0, "report after inner restore");
                        }
                        None => return fail(format!("{:?}; input is {:?} from {}", ev, String::from_utf8_lossy(&input), pos)),
                    },
                }
            }
        }
        if pos != input.len() {
            return Err(format!("input ends at {} of {:?}", pos, String::from_utf8_lossy(&input)));
        }
        set_world(None);
        let _ = dev::pty();
        info.nontrivial = nested > 0 || signalled;
        info.class_if(nested > 0, "nested with another configuration");
        info.class_if(signalled, "signals while prepared");
        info.class_if(case.tio != 0, "unusual line settings");
        Ok(info)
    }
}
