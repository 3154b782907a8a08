//! C16 what prepare makes of a real terminal device: the line discipline of the kernel.

use std::io;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use libc::c_int;
use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{Event, PrepareConfig, Screen, Signal, Terminal};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::end::in_child;
use super::sigs::toggles;
use crate::dev::{get_handler, open_pty, set_handler, Pty, SIGNALS};
use crate::engine::*;
use crate::gen::*;
use crate::sim;
use crate::ti;
use crate::vt::Vt;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PtyCase {
    term: u8,
    tio: u32,
    /// Changed control characters
    cc: Vec<(u8, u8)>,
    /// Ignored or handled (bit for each of `SIGNALS`)
    ignored: u8,
    cfgs: Vec<Cfg>,
    form: u8,
    typed: Vec<char>,
    /// Typed before prepare
    early: bool,
}

static COUNT: [AtomicU32; 32] = [const { AtomicU32::new(0) }; 32];

extern "C" fn count(sig: c_int) {
    COUNT[sig as usize].fetch_add(1, Ordering::SeqCst);
}

enum Dev {
    T(Terminal),
    S(Screen),
}

impl Dev {
    fn wait(&self, t: Duration) -> io::Result<bool> {
        match self {
            Dev::T(d) => d.wait_event(Some(t)),
            Dev::S(d) => d.wait_event(Some(t)),
        }
    }
    fn raw(&mut self, buf: &mut [u8], t: Duration) -> io::Result<Option<Event>> {
        match self {
            Dev::T(d) => d.read_raw(buf, Some(t)),
            Dev::S(d) => d.read_raw(buf, Some(t)),
        }
    }
}

const MARK: &[u8] = b"\x01\x02E\x03";
const SECS: u64 = 2;

/// Reads what the terminal gets, up to the mark.
fn output(p: &Pty, nb: c_int) -> Result<Vec<u8>, String> {
    let n = unsafe { libc::write(nb, MARK.as_ptr() as *const _, MARK.len()) };
    if n != MARK.len() as isize {
        return Err(format!("output is blocked: {} {}", n, io::Error::last_os_error()));
    }
    let mut out = Vec::new();
    while !out.ends_with(MARK) {
        let mut buf = [0u8; 512];
        let n = unsafe { libc::read(p.master, buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            return Err(format!("reading from the terminal's side: {}", io::Error::last_os_error()));
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    out.truncate(out.len() - MARK.len());
    Ok(out)
}

const CLASSES: &[&str] = &["signal character generates a signal", "signal character is a key", "signal requested", "output stopped",
    "output restarted", "flow character is a key", "CR or LF", "character outside ASCII", "Screen", "nested", "mouse", "motion", "keypad",
    "waiting before prepare"];

fn run(case: &PtyCase) -> CaseResult {
    sim::deactivate();
    unsafe {
        libc::signal(libc::SIGHUP, libc::SIG_IGN);
        libc::signal(libc::SIGTTOU, libc::SIG_IGN);
        libc::setsid();
    }
    let p = open_pty();
    let name = std::ffi::CString::new(p.path.clone()).unwrap();
    let nb = unsafe {
        if libc::ioctl(p.slave, libc::TIOCSCTTY, 0) != 0 {
            return Err(format!("harness: no controlling terminal: {}", io::Error::last_os_error()));
        }
        libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_NONBLOCK | libc::O_CLOEXEC)
    };
    let ty = ti::real(case.term);
    std::env::set_var("TERM", ty.name);
    p.set_size(6, 20);
    let mut tio = p.get_tio();
    for (i, (f, bit)) in toggles().into_iter().enumerate() {
        if case.tio & (1 << i) != 0 {
            match f {
                0 => tio.c_iflag ^= bit,
                1 => tio.c_oflag ^= bit,
                _ => tio.c_lflag ^= bit,
            }
        }
    }
    const CCS: [usize; 8] = [libc::VINTR, libc::VQUIT, libc::VSUSP, libc::VSTART, libc::VSTOP, libc::VMIN, libc::VTIME, libc::VEOF];
    for &(i, v) in &case.cc {
        let i = CCS[i as usize % 8];
        // One meaning for each character; the mark and the letters have none
        if i == libc::VMIN || i == libc::VTIME || v < 32 && (v == 0 || !tio.c_cc[..17].contains(&v)) {
            tio.c_cc[i] = v;
        }
    }
    p.set_tio(&tio);
    let cc = |i: usize| Some(tio.c_cc[i]).filter(|c| *c != 0);
    for (i, s) in SIGNALS.iter().enumerate() {
        set_handler(*s, if case.ignored & (1 << i) != 0 { libc::SIG_IGN } else { count as *const () as usize }, libc::SA_RESTART, 0);
    }
    let handlers: Vec<_> = SIGNALS.iter().map(|s| get_handler(*s)).collect();
    let mut info = Info::default();
    // Input waiting as an unfinished line is available once line editing ends
    let early = case.early && tio.c_lflag & (libc::ICANON | libc::ECHO) == libc::ICANON | libc::ECHO;
    if early {
        unsafe { libc::write(p.master, b"ab".as_ptr() as *const _, 2); }
        let mut got = [0u8; 2];
        let mut n = 0;
        // The echo shows that it has arrived
        while n < 2 {
            let r = unsafe { libc::read(p.master, got[n..].as_mut_ptr() as *mut _, 2 - n) };
            if r <= 0 {
                return Err("harness: no echo".into());
            }
            n += r as usize;
        }
        info.class("waiting before prepare");
    }

    let err = |e: io::Error| e.to_string();
    let term = Terminal::from_path(&p.path).map_err(err)?;
    let last = case.cfgs.last().unwrap();
    let cfg = |c: &Cfg| -> PrepareConfig { c.get() };
    let mut states = Vec::new();
    let mut dev = if case.form % 4 == 3 {
        info.class("Screen");
        Dev::S(Screen::with_terminal(term, cfg(last)).map_err(err)?)
    } else {
        for c in &case.cfgs {
            states.push(match case.form % 4 {
                0 => term.prepare(cfg(c)),
                1 => term.lock_read().unwrap().prepare(cfg(c)),
                _ => {
                    let mut r = term.lock_read().unwrap();
                    let mut w = term.lock_write().unwrap();
                    r.prepare_with_lock(&mut w, cfg(c))
                }
            }.map_err(err)?);
        }
        info.class_if(case.cfgs.len() > 1, "nested");
        Dev::T(term)
    };

    // Modes
    let mut vt = Vt::new(6, 20, ty.bce, true);
    let out = output(&p, nb)?;
    vt.feed(&out);
    if vt.mid() || !vt.errors.is_empty() {
        return Err(format!("terminal received garbage: {:?}", vt.errors));
    }
    let own = case.form % 4 == 3 || case.cfgs.len() == 1;
    let mouse = last.mouse && ty.xterm;
    let got = (vt.keypad, vt.mouse, vt.mouse_motion, vt.mouse_sgr);
    let want = (last.keypad && ty.keypad, mouse, mouse && last.motion, mouse);
    // What a prepare within another does to modes that it does not ask for is not specified
    let ok = if own { got == want } else {
        let le = |w: bool, g: bool, any: bool| if w { g } else { any || !g };
        let any = |f: &dyn Fn(&Cfg) -> bool| case.cfgs.iter().any(f);
        le(want.0, got.0, any(&|c| c.keypad)) && le(want.1, got.1, any(&|c| c.mouse)) && le(want.2, got.2, any(&|c| c.motion))
            && le(want.3, got.3, any(&|c| c.mouse))
    };
    if !ok {
        return Err(format!("keypad, mouse, motion, SGR modes are {:?}, should be {:?} for {:?} on {}", got, want, last, ty.name));
    }
    info.class_if(want.0, "keypad");
    info.class_if(want.1, "mouse");
    info.class_if(want.2, "motion");

    // Handlers
    let set = sigset(last.sigs);
    let req = [set.contains(Signal::Interrupt), set.contains(Signal::Quit), set.contains(Signal::Suspend), true, true];
    for i in 0..5 {
        let outer = case.form % 4 != 3 && case.cfgs.iter().any(|c| {
            let s = sigset(c.sigs);
            [s.contains(Signal::Interrupt), s.contains(Signal::Quit), s.contains(Signal::Suspend), true, true][i]
        });
        let h = get_handler(SIGNALS[i]);
        if req[i] && h.0 == handlers[i].0 {
            return Err(format!("handler of signal {} was not replaced", SIGNALS[i]));
        }
        if !outer && !req[i] && h != handlers[i] {
            return Err(format!("handler of signal {} was replaced", SIGNALS[i]));
        }
    }

    // Typing
    let mut stopped = false;
    let mut buf = [0u8; 32];
    if early {
        let mut got = Vec::new();
        while got.len() < 2 {
            match dev.raw(&mut buf, Duration::from_secs(SECS)).map_err(err)? {
                Some(Event::Raw(n)) => got.extend_from_slice(&buf[..n]),
                r => return Err(format!("input from before prepare: {:?} after {:?}", r, got)),
            }
        }
        if got != b"ab" {
            return Err(format!("input from before prepare is {:?}", got));
        }
    }
    for ch in &case.typed {
        let strip = tio.c_iflag & libc::ISTRIP != 0;
        let ch = if strip && !ch.is_ascii() { 'q' } else { *ch };
        let mut bytes = ch.to_string().into_bytes();
        let mut want = Vec::new();
        let mut sig = None;
        let key = bytes[0];
        let ours = |i: usize| bytes.len() == 1 && cc(i) == Some(key);
        let flow = ours(libc::VSTART) || ours(libc::VSTOP);
        let sigchar = [libc::VINTR, libc::VQUIT, libc::VSUSP].iter().position(|&i| ours(i));
        if last.flow && flow {
            stopped = ours(libc::VSTOP) && !ours(libc::VSTART);
            info.class(if stopped { "output stopped" } else { "output restarted" });
        } else if let (Some(s), false) = (sigchar, last.block) {
            sig = Some(s);
            if last.flow {
                stopped = false;
            }
            info.class("signal character generates a signal");
            info.class_if(req[s], "signal requested");
        } else {
            info.class_if(flow, "flow character is a key");
            info.class_if(sigchar.is_some(), "signal character is a key");
            info.class_if(ch == '\r' || ch == '\n', "CR or LF");
            info.class_if(!ch.is_ascii(), "character outside ASCII");
            want.extend_from_slice(&bytes);
        }
        bytes.push(b'Z');
        want.push(b'Z');
        if last.flow && tio.c_iflag & libc::IXANY != 0 {
            stopped = false;
        }
        let fail = |m: String| Err(format!("typed {:?}: {}", ch, m));
        let counts: Vec<u32> = (0..3).map(|i| COUNT[SIGNALS[i] as usize].load(Ordering::SeqCst)).collect();
        let start = Instant::now();
        let n = unsafe { libc::write(p.master, bytes.as_ptr() as *const _, bytes.len()) };
        if n != bytes.len() as isize {
            return Err(format!("harness: typing: {}", io::Error::last_os_error()));
        }
        match dev.wait(Duration::from_secs(SECS)) {
            Ok(true) => (),
            r => return fail(format!("wait_event gives {:?}", r)),
        }
        let mut got = Vec::new();
        let mut events = [0u32; 3];
        loop {
            let t = if got.len() < want.len() { SECS } else { 0 };
            match dev.raw(&mut buf, Duration::from_secs(t)) {
                Ok(Some(Event::Raw(n))) => got.extend_from_slice(&buf[..n]),
                Ok(Some(Event::Signal(s))) => match s {
                    Signal::Interrupt => events[0] += 1,
                    Signal::Quit => events[1] += 1,
                    Signal::Suspend => events[2] += 1,
                    s => return fail(format!("{:?} is reported", s)),
                },
                Ok(None) => break,
                r => return fail(format!("reading gives {:?}", r)),
            }
        }
        if got != want {
            return fail(format!("input is {:?}, should be {:?}", got, want));
        }
        if start.elapsed() > Duration::from_millis(SECS * 900) {
            return fail("input was not available at once".into());
        }
        for i in 0..3 {
            let seen = COUNT[SIGNALS[i] as usize].load(Ordering::SeqCst) - counts[i];
            let one = (sig == Some(i)) as u32;
            let outer = case.form % 4 != 3 && case.cfgs.iter().any(|c| sigset(c.sigs).contains([Signal::Interrupt, Signal::Quit, Signal::Suspend][i]));
            let (w_ev, w_seen) = if req[i] { (one, 0) } else if outer || case.ignored & (1 << i) != 0 { (0, 0) } else { (0, one) };
            if (events[i], seen) != (w_ev, w_seen) {
                return fail(format!("signal {} was reported {} times and handled otherwise {} times, should be {} and {}", SIGNALS[i], events[i], seen,
                    w_ev, w_seen));
            }
        }
        if stopped {
            let n = unsafe { libc::write(nb, MARK.as_ptr() as *const _, 1) };
            if n >= 0 || io::Error::last_os_error().raw_os_error() != Some(libc::EAGAIN) {
                return fail("output is not stopped".into());
            }
        } else {
            let out = match output(&p, nb) {
                Ok(o) => o,
                Err(e) => return fail(e),
            };
            if !out.is_empty() {
                return fail(format!("the terminal received {:?}", String::from_utf8_lossy(&out)));
            }
        }
    }
    if stopped {
        unsafe {
            libc::tcflow(p.slave, libc::TCOOFF);
            libc::tcflow(p.slave, libc::TCOON);
        }
    }
    info.nontrivial = case.typed.len() > 1 || case.cfgs.len() > 1;
    Ok(info)
}

pub struct C16;

impl Prop for C16 {
    type Case = PtyCase;
    const ID: &'static str = "C16";
    const TIMES: u32 = 2;
    const RULE: &'static str = "a case is random initial line settings, control characters and handlers of a real pseudo-terminal (the controlling \
        terminal of a process of its own), one to three nested random configurations through one of four forms, and characters typed at the other \
        end; what is delivered, echoed, signalled and stopped by the kernel's line discipline, the modes sent and the handlers are compared with the \
        configuration; non-trivial if more than one character was typed or prepare was nested";
    fn assumptions() -> Vec<&'static str> {
        vec!["the line discipline is that of the running Linux kernel", "modes that an outer prepare turned on and an inner one does not ask for are not compared"]
    }
    fn lanes() -> Vec<Lane<PtyCase>> {
        let ch = || prop_oneof![
            4 => Just('\x03'), 3 => Just('\x1c'), 3 => Just('\x1a'), 3 => Just('\x13'), 3 => Just('\x11'), 2 => Just('\r'), 2 => Just('\n'),
            2 => Just('\x04'), 1 => Just('\x7f'), 1 => Just('\x16'), 1 => Just('\x15'), 1 => Just('\x1b'), 1 => Just('\0'), 1 => Just('\t'),
            4 => (0u8..128).prop_map(|c| c as char), 1 => Just('é'), 1 => Just('漢'),
        ];
        let cc = vec((0u8..8, prop_oneof![2 => 0u8..32, 1 => any::<u8>()]), 0..4);
        let tio = || prop_oneof![2 => Just(0u32), 2 => (0u32..32).prop_map(|n| 1 << n), 3 => any::<u32>()];
        let pty = (0u8..11, tio(), cc, 0u8..32, prop_oneof![3 => vec(arb_cfg(), 1..2), 1 => vec(arb_cfg(), 1..4)], 0u8..4, vec(ch(), 0..7), prop::bool::weighted(0.2))
            .prop_map(|(term, tio, cc, ignored, cfgs, form, typed, early)| PtyCase { term, tio, cc, ignored, cfgs, form, typed, early }).boxed();
        vec![lane("pty", 24_000, 600_000, pty)]
    }
    fn run(case: &PtyCase) -> CaseResult {
        in_child(CLASSES, 20, || run(case))
    }
}
