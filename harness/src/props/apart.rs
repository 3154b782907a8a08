//! C24 what is done with one Terminal or Screen does not change what another does.

use std::io;
use std::sync::Barrier;
use std::time::Duration;

use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{PrepareConfig, PrepareState, Screen, ScreenWriteGuard, Terminal, TerminalWriteGuard};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::end::forked;
use crate::dev::{open_pty, pty, tio_str, Pty, Session, Stdio};
use crate::engine::*;
use crate::gen::*;
use crate::screen_ops::*;
use crate::sim::{self, Sim};
use crate::term_ops::*;
use crate::ti;
use crate::vt::Vt;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AOp {
    /// On a Terminal
    T(TOp),
    /// On a Screen
    S(SOp),
    /// Takes the write lock, or gives it back
    Hold(bool),
    /// The device's user types
    Type(Vec<u8>),
    Wait(u16),
    Event(u16),
    Raw(u8, u16),
    Prepare(Cfg),
    Restore,
    Ask,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inst {
    screen: bool,
    /// By path, as standard output or as standard error
    open: u8,
    term: u8,
    lines: usize,
    cols: usize,
    cfg: Cfg,
    ops: Vec<AOp>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ApartCase {
    /// Steps of the instances in an order; each step may be in a thread of its own
    Turns { insts: Vec<Inst>, order: Vec<u8>, threads: u64 },
    /// Each instance in its own thread with a terminal of its own, all at once
    Threads { insts: Vec<Inst>, rounds: u8 },
}

const SECS: u32 = 60;

/// Signals belong to the process
fn quiet(c: &Cfg) -> PrepareConfig {
    Cfg { sigs: 0, ..c.clone() }.get()
}

enum Dev {
    T(&'static Terminal),
    S(&'static Screen),
}

enum Guard {
    T(TerminalWriteGuard<'static>),
    S(ScreenWriteGuard<'static>),
}

/// An open Terminal or Screen
struct Open {
    dev: Dev,
    guard: Option<Guard>,
    states: Vec<PrepareState>,
}

// The guard is used by one thread only
struct Move<T>(T);
unsafe impl<T> Send for Move<T> {}

fn screen_op(s: &Screen, op: &SOp) -> io::Result<()> {
    match op {
        SOp::Refresh => s.refresh(),
        SOp::CursorMode(m) => s.set_cursor_mode(mode(*m)),
        SOp::Guard(v) => {
            let mut g = s.lock_write().unwrap();
            for op in v {
                guard_op(&mut g, op)?;
            }
            Ok(())
        }
        op => Ok(draw_screen(s, op)),
    }
}

fn guard_op(g: &mut ScreenWriteGuard, op: &SOp) -> io::Result<()> {
    match op {
        SOp::Refresh => g.refresh(),
        SOp::CursorMode(m) => g.set_cursor_mode(mode(*m)),
        SOp::Guard(_) => Ok(()),
        op => Ok(draw_guard(g, op)),
    }
}

impl Open {
    fn new(i: &Inst, p: &Pty) -> io::Result<Open> {
        let dev = match (i.screen, i.open) {
            (true, 0) => Dev::S(Box::leak(Box::new(Screen::with_terminal(Terminal::from_path(&p.path)?, quiet(&i.cfg))?))),
            (true, 1) => Dev::S(Box::leak(Box::new(Screen::new(quiet(&i.cfg))?))),
            (true, _) => Dev::S(Box::leak(Box::new(Screen::stderr(quiet(&i.cfg))?))),
            (_, 0) => Dev::T(Box::leak(Box::new(Terminal::from_path(&p.path)?))),
            (_, 1) => Dev::T(Box::leak(Box::new(Terminal::new()?))),
            (_, _) => Dev::T(Box::leak(Box::new(Terminal::stderr()?))),
        };
        Ok(Open { dev, guard: None, states: Vec::new() })
    }

    /// A call, and what came of it
    fn step(&mut self, op: &AOp) -> String {
        let ms = |t: &u16| Some(Duration::from_millis(*t as u64));
        let kind = |e: io::Error| e.kind();
        match op {
            AOp::T(op) => match (&self.dev, &mut self.guard) {
                (Dev::T(_), Some(Guard::T(g))) => format!("{:?}", on_guard(g, op).map_err(kind)),
                (Dev::T(t), _) => format!("{:?}", on_term(t, op).map_err(kind)),
                _ => String::new(),
            },
            AOp::S(op) => match (&self.dev, &mut self.guard) {
                (Dev::S(_), Some(Guard::S(g))) => format!("{:?} {:?}", guard_op(g, op).map_err(kind), g.cursor()),
                (Dev::S(s), _) => format!("{:?} {:?}", screen_op(s, op).map_err(kind), s.cursor()),
                _ => String::new(),
            },
            AOp::Hold(on) => {
                self.guard = match (*on, self.guard.take(), &self.dev) {
                    (false, _, _) => None,
                    (_, Some(g), _) => Some(g),
                    (_, _, Dev::T(t)) => Some(Guard::T(t.lock_write().unwrap())),
                    (_, _, Dev::S(s)) => Some(Guard::S(s.lock_write().unwrap())),
                };
                String::new()
            }
            AOp::Wait(t) => match &self.dev {
                Dev::T(d) => format!("{:?}", d.wait_event(ms(t)).map_err(kind)),
                Dev::S(d) => format!("{:?}", d.wait_event(ms(t)).map_err(kind)),
            },
            AOp::Event(t) => match &self.dev {
                Dev::T(d) => format!("{:?}", d.read_event(ms(t)).map_err(kind)),
                Dev::S(d) => format!("{:?}", d.read_event(ms(t)).map_err(kind)),
            },
            AOp::Raw(n, t) => {
                let mut buf = vec![0u8; *n as usize];
                let r = match &self.dev {
                    Dev::T(d) => d.lock_read().unwrap().read_raw(&mut buf, ms(t)),
                    Dev::S(d) => d.lock_read().unwrap().read_raw(&mut buf, ms(t)),
                };
                format!("{:?} {:?}", r.map_err(kind), buf)
            }
            AOp::Prepare(c) => {
                if let Dev::T(t) = &self.dev {
                    self.guard = None;
                    match t.prepare(quiet(c)) {
                        Ok(s) => self.states.push(s),
                        Err(e) => return format!("{:?}", e.kind()),
                    }
                }
                String::new()
            }
            AOp::Restore => {
                if let (Dev::T(t), Some(s)) = (&self.dev, self.states.pop()) {
                    self.guard = None;
                    return format!("{:?}", t.restore(s).map_err(kind));
                }
                String::new()
            }
            AOp::Ask => match (&self.dev, &self.guard) {
                (Dev::T(t), Some(Guard::T(g))) => format!("{:?} {}", g.size().map_err(kind), t.name()),
                (Dev::T(t), _) => format!("{:?} {}", t.size().map_err(kind), t.name()),
                (Dev::S(s), Some(Guard::S(g))) => format!("{:?} {:?} {}", g.size(), g.cursor(), s.name()),
                (Dev::S(s), _) => format!("{:?} {:?} {}", s.size(), s.cursor(), s.name()),
            },
            AOp::Type(_) => String::new(),
        }
    }
}

impl Drop for Open {
    fn drop(&mut self) {
        self.guard = None;
        while !self.states.is_empty() {
            self.step(&AOp::Restore);
        }
        match self.dev {
            Dev::T(t) => drop(unsafe { Box::from_raw(t as *const Terminal as *mut Terminal) }),
            Dev::S(s) => drop(unsafe { Box::from_raw(s as *const Screen as *mut Screen) }),
        }
    }
}

/// What one step did
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Done {
    result: String,
    out: Vec<u8>,
    tio: String,
}

/// The state of the device of one instance; there is only one real device
struct World {
    tio: libc::termios,
    avail: std::collections::VecDeque<u8>,
}

struct Player<'a> {
    inst: &'a Inst,
    world: World,
    open: Option<Open>,
    at: usize,
    log: Vec<Done>,
}

impl<'a> Player<'a> {
    fn new(inst: &'a Inst) -> Player<'a> {
        Player { inst, world: World { tio: pty().tio, avail: Default::default() }, open: None, at: 0, log: Vec::new() }
    }

    fn ended(&self) -> bool {
        self.at == self.inst.ops.len() + 2
    }

    /// Opens the device, makes one call or closes the device.
    fn step(&mut self, thread: bool) -> Result<(), String> {
        let i = self.inst;
        let p = pty();
        p.set_tio(&self.world.tio);
        p.set_size(i.lines, i.cols);
        sim::with(|s| {
            std::mem::swap(&mut s.avail, &mut self.world.avail);
            s.now = 0;
        });
        let at = self.at;
        self.at += 1;
        let held = self.open.as_ref().map_or(false, |o| o.guard.is_some());
        let open = Move(&mut self.open);
        let f = move || -> String {
            let open = open;
            let open = open.0;
            if at == 0 {
                std::env::set_var("TERM", ti::real(i.term).name);
                match Open::new(i, p) {
                    Ok(o) => *open = Some(o),
                    Err(e) => return format!("open: {}", e),
                }
            } else if at > i.ops.len() {
                *open = None;
            } else if let AOp::Type(b) = &i.ops[at - 1] {
                sim::with(|s| s.avail.extend(b));
            } else if let Some(o) = open {
                return o.step(&i.ops[at - 1]);
            }
            String::new()
        };
        // A guard stays in its thread
        let hold = at > 0 && at <= i.ops.len() && matches!(i.ops[at - 1], AOp::Hold(_));
        let result = if thread && !held && !hold {
            std::thread::scope(|s| match s.spawn(f).join() {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            })
        } else {
            f()
        };
        sim::with(|s| std::mem::swap(&mut s.avail, &mut self.world.avail));
        self.world.tio = p.get_tio();
        self.log.push(Done { result, out: sim::take_out(), tio: tio_str(&self.world.tio) });
        Ok(())
    }
}

/// Plays instances in turns, in a process in which no others have been; those not named any more play on in order
fn play(insts: &[&Inst], order: &[u8], threads: u64) -> Result<Vec<Vec<Done>>, String> {
    forked(SECS, || play_here(insts, order, threads))?
}

fn play_here(insts: &[&Inst], order: &[u8], threads: u64) -> Result<Vec<Vec<Done>>, String> {
    let _io = Stdio::of(false);
    let _s = Session::new("xterm", 4, 10, Sim::default());
    let mut players: Vec<Player> = insts.iter().map(|i| Player::new(i)).collect();
    for (k, o) in order.iter().enumerate() {
        let n = players.len();
        let p = &mut players[*o as usize % n];
        if !p.ended() {
            p.step(threads & (1 << (k % 64)) != 0)?;
        }
    }
    for p in &mut players {
        while !p.ended() {
            p.step(false)?;
        }
    }
    Ok(players.into_iter().map(|p| p.log).collect())
}

fn what(i: &Inst, at: usize) -> String {
    match at {
        0 => "opening".to_owned(),
        at if at > i.ops.len() => "closing".to_owned(),
        at => format!("{:?}", i.ops[at - 1]),
    }
}

/// Output may differ in how it makes the terminal show the same
fn shown_alike(i: &Inst, a: &[Done], b: &[Done]) -> bool {
    let ty = ti::real(i.term);
    let show = |v: &[Done]| {
        let mut vt = Vt::new(i.lines, i.cols, ty.bce, true);
        vt.record = true;
        for d in v {
            vt.feed(&d.out);
        }
        super::forms::seen(&vt)
    };
    show(a) == show(b)
}

fn turns(insts: &[Inst], order: &[u8], threads: u64) -> CaseResult {
    let refs: Vec<&Inst> = insts.iter().collect();
    let together = play(&refs, order, threads)?;
    for (k, i) in insts.iter().enumerate() {
        let alone = play(&[i], &[], 0)?.pop().unwrap();
        for at in 0..alone.len() {
            let (a, b) = (&alone[at], &together[k][at]);
            let name = || format!("{} {} of {} ({}), step {}, {}", if i.screen { "Screen" } else { "Terminal" }, k, insts.len(),
                ti::real(i.term).name, at, what(i, at));
            if a.result != b.result {
                return Err(format!("{}: gives {:?}, but {:?} without the others", name(), b.result, a.result));
            }
            if a.tio != b.tio {
                return Err(format!("{}: settings {}, but {} without the others", name(), b.tio, a.tio));
            }
            if a.out != b.out && !shown_alike(i, &alone[..=at], &together[k][..=at]) {
                return Err(format!("{}: sends {:?}, but {:?} without the others", name(), String::from_utf8_lossy(&b.out),
                    String::from_utf8_lossy(&a.out)));
            }
        }
    }
    // The instances were in use at the same time
    let mut open = vec![0; insts.len()];
    let mut both = false;
    let mut last = None;
    let mut switches = 0;
    for o in order {
        let o = *o as usize % insts.len();
        open[o] += 1;
        if open[o] <= insts[o].ops.len() + 2 && last != Some(o) {
            switches += last.is_some() as u32;
            last = Some(o);
            both |= (0..insts.len()).filter(|k| open[*k] > 1 && open[*k] < insts[*k].ops.len() + 2).count() > 1;
        }
    }
    let mut info = Info::new(both && switches > 3);
    info.class(if insts.len() > 2 { "three instances" } else { "two instances" });
    info.class_if(insts.iter().any(|i| i.screen) && insts.iter().any(|i| !i.screen), "Terminal and Screen");
    info.class_if(insts.iter().all(|i| i.screen), "Screens only");
    info.class_if(threads != 0, "threads");
    info.class_if(insts.iter().any(|i| i.term != insts[0].term), "different types");
    info.class_if(together.iter().any(|l| l.iter().any(|d| d.result.contains("Key(") || d.result.contains("Mouse("))), "events");
    info.class_if(insts.iter().any(|i| i.ops.iter().any(|o| matches!(o, AOp::Hold(true)))), "lock held");
    info.class_if(insts.iter().filter(|i| i.open > 0).count() > 1, "standard streams");
    Ok(info)
}

const KEYS: &[&str] = &["a", "\x01", "é", "漢", "\t", "Z"];

type Got = Vec<(Vec<String>, Vec<u8>)>;

/// The results, and what each terminal got
fn threads_here(insts: &[&Inst], rounds: u8) -> Result<Got, String> {
    sim::deactivate();
    let set = || -> io::Result<Vec<(Pty, Open)>> {
        insts.iter().map(|i| {
            let p = open_pty();
            let mut tio = p.tio;
            tio.c_oflag &= !libc::OPOST;
            p.set_tio(&tio);
            p.set_size(i.lines, i.cols);
            std::env::set_var("TERM", ti::real(i.term).name);
            let mut o = Open::new(&Inst { open: 0, ..(*i).clone() }, &p)?;
            if !i.screen {
                o.step(&AOp::Prepare(i.cfg.clone()));
            }
            Ok((p, o))
        }).collect()
    };
    let end = |v: Vec<(Pty, Open)>| for (p, o) in v {
        drop(o);
        unsafe {
            libc::close(p.master);
            libc::close(p.slave);
        }
    };
    let run = |i: &Inst, p: &Pty, o: &mut Open, start: &Barrier| -> (Vec<String>, Vec<u8>) {
        let mut results = Vec::new();
        let mut out = Vec::new();
        let drain = |out: &mut Vec<u8>, idle: i32| {
            let mut pf = libc::pollfd { fd: p.master, events: libc::POLLIN, revents: 0 };
            while unsafe { libc::poll(&mut pf, 1, idle) } > 0 {
                let mut b = [0u8; 4096];
                let n = unsafe { libc::read(p.master, b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&b[..n as usize]);
            }
        };
        start.wait();
        for _ in 0..rounds {
            for op in &i.ops {
                match op {
                    // Keys are complete and there is time enough, so each read gives one
                    AOp::Type(b) => {
                        let key = KEYS[b.len() % KEYS.len()];
                        unsafe { libc::write(p.master, key.as_ptr() as *const _, key.len()); }
                        results.push(o.step(&AOp::Event(20_000)));
                    }
                    AOp::T(_) | AOp::S(_) | AOp::Ask => results.push(o.step(op)),
                    _ => (),
                }
                drain(&mut out, 0);
            }
        }
        // Output passes to the other side in order
        const MARK: &[u8] = b"\x01\x02E\x03";
        unsafe { libc::write(p.slave, MARK.as_ptr() as *const _, MARK.len()); }
        for _ in 0..2000 {
            if out.ends_with(MARK) {
                break;
            }
            drain(&mut out, 10);
        }
        (results, out)
    };
    let mut all = set().map_err(|e| format!("open: {}", e))?;
    let start = Barrier::new(insts.len());
    let got: Result<Got, String> = std::thread::scope(|s| {
        let hs: Vec<_> = all.iter_mut().enumerate().map(|(k, (p, o))| {
            let o = Move(o);
            let (run, start) = (&run, &start);
            s.spawn(move || {
                let o = o;
                run(insts[k], p, o.0, start)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "panic in a thread".to_owned())).collect()
    });
    end(all);
    got
}

fn threads(insts: &[Inst], rounds: u8) -> CaseResult {
    let refs: Vec<&Inst> = insts.iter().collect();
    let together = forked(SECS, || threads_here(&refs, rounds))??;
    let mut bytes = 0;
    for (k, (r, b)) in together.into_iter().enumerate() {
        let i = &insts[k];
        let (results, out) = forked(SECS, || threads_here(&[i], rounds))??.pop().unwrap();
        let name = format!("{} {} of {} at the same time ({})", if i.screen { "Screen" } else { "Terminal" }, k, insts.len(),
            ti::real(i.term).name);
        if r != results {
            let at = (0..).find(|n| r.get(*n) != results.get(*n)).unwrap();
            return Err(format!("{}: result {} is {:?}, but {:?} without the others", name, at, r.get(at), results.get(at)));
        }
        bytes += b.len();
        let ty = ti::real(i.term);
        let show = |b: &[u8]| {
            let mut vt = Vt::new(i.lines, i.cols, ty.bce, true);
            vt.record = true;
            vt.feed(b);
            super::forms::seen(&vt)
        };
        if b != out && show(&b) != show(&out) {
            return Err(format!("{}: sends {:?}, but {:?} without the others", name, String::from_utf8_lossy(&b), String::from_utf8_lossy(&out)));
        }
    }
    let mut info = Info::new(bytes > 100);
    info.class("at the same time");
    Ok(info)
}

pub struct C24;

impl Prop for C24 {
    type Case = ApartCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "a case is two or three Terminals and Screens of several types, each with a history of calls (opening, output, \
        locks held, line settings, typed input, reads, closing), played in turns in a generated order and partly in other threads, or all at \
        once in threads of their own on real devices; results, line settings and what the terminal shows must be those of the same history \
        played alone; non-trivial if two were open at once and turns changed more than three times (or more than 100 bytes were sent)";
    fn lanes() -> Vec<Lane<ApartCase>> {
        let data = prop_oneof![
            2 => vec(any::<u8>(), 1..5),
            5 => prop_oneof![Just("\x1b[A"), Just("\x1bOP"), Just("q"), Just("é"), Just("\x1b[<0;3;4M"), Just("\x1b"), Just("\x1b[<0;3"), Just("[B")]
                .prop_map(|s| s.as_bytes().to_vec()),
        ].boxed();
        let inst = move |text: bool| {
            let t = || prop_oneof![3 => Just(0u16), 2 => 0u16..40];
            let data = data.clone();
            let other = prop_oneof![
                2 => any::<bool>().prop_map(AOp::Hold), 5 => data.prop_map(AOp::Type), 1 => t().prop_map(AOp::Wait),
                4 => t().prop_map(AOp::Event), 2 => (0u8..9, t()).prop_map(|(n, t)| AOp::Raw(n, t)),
                2 => arb_cfg().prop_map(AOp::Prepare), 1 => Just(AOp::Restore), 1 => Just(AOp::Ask),
            ];
            let mv = prop_oneof![2 => Just(0u64), 3 => 0u64..12].prop_flat_map(|n| prop_oneof![
                Just(TOp::Up(n)), Just(TOp::Down(n)), Just(TOp::Left(n)), Just(TOp::Right(n)), Just(TOp::First), Just(TOp::ClearScreen),
                Just(TOp::ClearEol), Just(TOp::ClearEos),
            ]);
            let top = prop_oneof![4 => arb_attr_op(), 4 => arb_text_op(4), 2 => mv, 2 => (0u8..3).prop_map(TOp::CursorMode)].prop_map(AOp::T);
            let sop = prop_oneof![8 => arb_draw(4), 3 => Just(SOp::Refresh), 2 => (0u8..3).prop_map(SOp::CursorMode),
                1 => vec(arb_draw(3), 0..3).prop_map(SOp::Guard)].prop_map(AOp::S);
            let w = if text { 1 } else { 4 };
            let n = if text { 4..12usize } else { 0..14usize };
            let t_ops = vec(prop_oneof![6 => top, w => other.clone()], n.clone());
            let s_ops = vec(prop_oneof![6 => sop, w => other], n);
            ((0u8..3, 0u8..11, 2usize..6, 2usize..12, arb_cfg()), any::<bool>(), t_ops, s_ops)
                .prop_map(|((open, term, lines, cols, cfg), screen, t, s)| Inst { screen, open, term, lines, cols, cfg,
                    ops: if screen { s } else { t } })
        };
        let turns = (vec(inst(false), 2..=3), vec(0u8..6, 0..40), prop_oneof![2 => Just(0u64), 1 => any::<u64>()])
            .prop_map(|(insts, order, threads)| ApartCase::Turns { insts, order, threads }).boxed();
        let threads = (vec(inst(true), 2..=4), 1u8..20).prop_map(|(insts, rounds)| ApartCase::Threads { insts, rounds }).boxed();
        vec![lane("turns", 15_000, 250_000, turns), lane("threads", 1_200, 20_000, threads)]
    }
    fn run(case: &ApartCase) -> CaseResult {
        match case {
            ApartCase::Turns { insts, order, threads } => turns(insts, order, *threads),
            ApartCase::Threads { insts, rounds } => threads(insts, *rounds),
        }
    }
}
