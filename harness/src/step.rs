//! Pausing one thread at chosen instructions while others run.
//!
//! Places are the locked instructions of this program, where mutexes are taken and released:
//! one place before and one after each. They are found by running a fixed program with the
//! processor's trap flag set and looking at each instruction. They are then replaced by
//! breakpoints, whose handler runs the instruction elsewhere; at a chosen place it keeps the
//! thread there until the other threads have run what they were given, or wait for a lock.
//! A pause can also be some instructions after a place. None is made while the simulated
//! device is busy, or in the C library.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU8, AtomicUsize, Ordering::SeqCst};

use libc::{c_int, c_long, c_void};

use crate::sim;

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Pause {
    /// Places passed since the last pause
    pub after: u16,
    /// Instructions after that
    pub then: u16,
    /// Units the other threads may run
    pub units: u8,
}

const MAX: usize = 8;
const IDLE: u32 = 0;
const RUNNING: u32 = 1;
const BLOCKED: u32 = 2;
const DONE: u32 = 3;

static STATE: [AtomicU32; MAX] = [const { AtomicU32::new(DONE) }; MAX];
/// Units that may be started; as a futex
static TICKETS: AtomicI32 = AtomicI32::new(0);
const ALL: i32 = 1 << 20;

/// After, then, units of each pause; the end has no units
static PLAN: [[AtomicU32; 3]; 16] = [const { [const { AtomicU32::new(0) }; 3] }; 16];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicU32 = AtomicU32::new(0);
static STEPS: AtomicU32 = AtomicU32::new(0);

/// The locked instructions are being looked for
static LEARN: AtomicBool = AtomicBool::new(false);
const PLACES: usize = 512;
/// Their addresses, and how many there are
static AT: [AtomicUsize; PLACES] = [const { AtomicUsize::new(0) }; PLACES];
static KNOWN: AtomicUsize = AtomicUsize::new(0);
/// Lengths of these instructions, once they are replaced
static LEN: [AtomicU8; PLACES] = [const { AtomicU8::new(0) }; PLACES];
static ARMED: AtomicBool = AtomicBool::new(false);

/// Each instruction, a breakpoint and a jump back
const SLOT: usize = 32;
#[repr(align(4096))]
struct Slots(std::cell::UnsafeCell<[u8; PLACES * SLOT]>);
unsafe impl Sync for Slots {}
static SLOTS: Slots = Slots(std::cell::UnsafeCell::new([0; PLACES * SLOT]));
/// Pauses that were made, and during which another thread ran or waited for a lock
pub static PAUSES: AtomicU32 = AtomicU32::new(0);
pub static BLOCKS: AtomicU32 = AtomicU32::new(0);
/// What the paused thread is doing, as the caller says, and what another did when it waited for a lock
pub static DOING: AtomicU32 = AtomicU32::new(0);
pub static CONFLICT: AtomicU32 = AtomicU32::new(0);

/// Instructions stepped through
static TRAPS: AtomicU32 = AtomicU32::new(0);
const MAX_TRAPS: u32 = 4_000;
static IN_PAUSE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static STEPPING: Cell<bool> = const { Cell::new(false) };
    /// Number of a thread that is not the paused one
    static OTHER: Cell<usize> = const { Cell::new(0) };
    static UNIT: Cell<u32> = const { Cell::new(0) };
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

unsafe fn futex(a: &AtomicI32, op: c_int, val: i32) {
    sim::raw6(libc::SYS_futex, a as *const _ as usize, op as usize, val as usize, 0, 0, 0);
}

/// Futex calls of the standard library come here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let t = OTHER.with(|t| t.get());
    let op = b as c_int & 0x7f;
    let wait = t != 0 && n == libc::SYS_futex && (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET);
    if wait {
        BLOCKS.fetch_add(1, SeqCst);
        // Only one other thread: the paused one has the lock, if it is still locked
        let (u, d) = (UNIT.with(|u| u.get()), DOING.load(SeqCst));
        let locked = (*(a as *const AtomicU32)).load(SeqCst) == c as u32;
        if IN_PAUSE.load(SeqCst) && locked && u != 0 && d != 0 && u & d == 0 && DOING.load(SeqCst) == d {
            CONFLICT.store(u << 8 | d, SeqCst);
        }
        STATE[t].store(BLOCKED, SeqCst);
    }
    let r = sim::ret(sim::raw6(n, a, b, c, d, e, f));
    if wait {
        STATE[t].store(RUNNING, SeqCst);
    }
    r as c_long
}

/// The trap is not blocked while breakpoints are set: not by a signal's handler,
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    let f: unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int = std::mem::transmute(sim::next(b"sigaction\0"));
    let mut own: libc::sigaction;
    let mut new = new;
    if !new.is_null() && sig != libc::SIGTRAP && ARMED.load(SeqCst) {
        own = *new;
        libc::sigdelset(&mut own.sa_mask, libc::SIGTRAP);
        new = &own;
    }
    f(sig, new, old)
}

/// and not by a thread.
#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(how: c_int, set: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    let mut own: libc::sigset_t;
    let mut set = set;
    if !set.is_null() {
        own = *set;
        if how != libc::SIG_UNBLOCK {
            // Those of the C library
            *(&mut own as *mut _ as *mut u64) &= !(3 << 31);
            if ARMED.load(SeqCst) || STEPPING.with(|s| s.get()) {
                libc::sigdelset(&mut own, libc::SIGTRAP);
            }
        }
        set = &own;
    }
    -sim::raw6(libc::SYS_rt_sigprocmask, how as usize, set as usize, old as usize, 8, 0, 0) as c_int
}

/// The length of a locked instruction, and where in it is an offset relative to the next instruction
unsafe fn locked(ip: *const u8) -> Option<(usize, Option<usize>)> {
    let mut n = 0;
    let mut lock = false;
    loop {
        match *ip.add(n) {
            0xf0 => lock = true,
            0x66 | 0x2e | 0x3e | 0x26 | 0x36 | 0x64 | 0x65 | 0xf2 | 0xf3 => (),
            _ => break,
        }
        n += 1;
    }
    if *ip.add(n) & 0xf0 == 0x40 {
        n += 1;
    }
    let op = *ip.add(n);
    n += 1;
    let mut imm = 0;
    let exchange = op == 0x86 || op == 0x87;
    if op == 0x0f {
        imm = (*ip.add(n) == 0xba) as usize;
        n += 1;
    } else if op == 0x80 || op == 0x83 {
        imm = 1;
    } else if op == 0x81 {
        imm = 4;
    }
    if !lock && !exchange {
        return None;
    }
    let modrm = *ip.add(n);
    n += 1;
    let (md, rm) = (modrm >> 6, modrm & 7);
    if md == 3 {
        return None;
    }
    let mut rel = None;
    let mut disp = [0, 1, 4][md as usize];
    if rm == 4 {
        if md == 0 && *ip.add(n) & 7 == 5 {
            disp = 4;
        }
        n += 1;
    } else if md == 0 && rm == 5 {
        rel = Some(n);
        disp = 4;
    }
    Some((n + disp + imm, rel))
}

fn slot(i: usize) -> usize {
    SLOTS.0.get() as usize + i * SLOT
}

/// Replaces the known locked instructions.
unsafe fn arm() {
    let all = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;
    assert_eq!(libc::mprotect(SLOTS.0.get() as *mut c_void, PLACES * SLOT, all), 0);
    for i in 0..KNOWN.load(SeqCst) {
        let at = AT[i].load(SeqCst);
        let (len, rel) = locked(at as *const u8).expect("locked instruction");
        let to = slot(i);
        std::ptr::copy_nonoverlapping(at as *const u8, to as *mut u8, len);
        if let Some(r) = rel {
            let p = (to + r) as *mut i32;
            p.write_unaligned((p.read_unaligned() as isize + at as isize - to as isize) as i32);
        }
        *((to + len) as *mut u8) = 0xcc;
        *((to + len + 1) as *mut u8) = 0xe9;
        ((to + len + 2) as *mut i32).write_unaligned(((at + len) as isize - (to + len + 6) as isize) as i32);
        LEN[i].store(len as u8, SeqCst);
        let page = at & !4095;
        assert_eq!(libc::mprotect(page as *mut c_void, 4096, all), 0);
        *(at as *mut u8) = 0xcc;
    }
    ARMED.store(true, SeqCst);
}

fn load(i: usize) {
    let get = |k: usize| PLAN.get(i).map_or(0, |p| p[k].load(SeqCst));
    NEXT.store(i, SeqCst);
    LEFT.store(get(0), SeqCst);
    STEPS.store(get(1), SeqCst);
}

fn planned() -> bool {
    PLAN.get(NEXT.load(SeqCst)).map_or(false, |p| p[2].load(SeqCst) > 0)
}

unsafe extern "C" fn trap(_: c_int, info: *mut libc::siginfo_t, ctx: *mut c_void) {
    let ctx = &mut *(ctx as *mut libc::ucontext_t);
    let regs = &mut ctx.uc_mcontext.gregs;
    let ip = regs[libc::REG_RIP as usize] as usize;
    let me = STEPPING.with(|s| s.get());
    const TRACE: i64 = 0x100;
    if (*info).si_code != libc::TRAP_TRACE {
        // Before or after an instruction, or at the start
        for i in 0..KNOWN.load(SeqCst) {
            if AT[i].load(SeqCst) == ip - 1 {
                regs[libc::REG_RIP as usize] = slot(i) as i64;
                break;
            }
        }
        if !me || !planned() || sim::busy() || regs[libc::REG_EFL as usize] & TRACE != 0 {
            return;
        }
        if LEFT.load(SeqCst) > 0 {
            LEFT.fetch_sub(1, SeqCst);
        } else if STEPS.load(SeqCst) > 0 {
            TRAPS.store(0, SeqCst);
            regs[libc::REG_EFL as usize] |= TRACE;
        } else {
            pause();
        }
        return;
    }
    let ours = ip >= &__executable_start as *const u8 as usize && ip < &etext as *const u8 as usize;
    if LEARN.load(SeqCst) {
        let n = KNOWN.load(SeqCst);
        if ours && n < PLACES && locked(ip as *const u8).is_some() && !AT[..n].iter().any(|a| a.load(SeqCst) == ip) {
            AT[n].store(ip, SeqCst);
            KNOWN.store(n + 1, SeqCst);
        }
        return;
    }
    if !planned() || TRAPS.fetch_add(1, SeqCst) > MAX_TRAPS {
        regs[libc::REG_EFL as usize] &= !TRACE;
        return;
    }
    if !ours || sim::busy() {
        return;
    }
    if STEPS.load(SeqCst) > 1 {
        STEPS.fetch_sub(1, SeqCst);
        return;
    }
    regs[libc::REG_EFL as usize] &= !TRACE;
    pause();
}

/// Lets the others run.
fn pause() {
    let i = NEXT.load(SeqCst);
    let before = TICKETS.load(SeqCst);
    IN_PAUSE.store(true, SeqCst);
    give(before + PLAN[i][2].load(SeqCst) as i32);
    let mut ran = false;
    let mut rounds = 0u32;
    loop {
        let s = || STATE.iter().skip(1).map(|s| s.load(SeqCst));
        ran |= s().any(|s| s == RUNNING || s == BLOCKED);
        if !s().any(|s| s == RUNNING) && (TICKETS.load(SeqCst) <= 0 || !s().any(|s| s == IDLE)) && !s().any(|s| s == RUNNING) {
            break;
        }
        // One that waits in a way not known here
        rounds += 1;
        if rounds > 200_000 {
            break;
        }
        unsafe { sim::raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
    }
    IN_PAUSE.store(false, SeqCst);
    if ran {
        PAUSES.fetch_add(1, SeqCst);
    }
    load(i + 1);
}

fn give(n: i32) {
    TICKETS.store(n, SeqCst);
    unsafe { futex(&TICKETS, libc::FUTEX_WAKE, i32::MAX) }
}

unsafe fn install() {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = trap as *const () as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
    libc::sigfillset(&mut a.sa_mask);
    libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
}

/// The locked instructions that are run by `f`; leaves this process looking for more.
pub fn learn<F: FnOnce()>(f: F) -> Vec<usize> {
    unsafe { install(); }
    LEARN.store(true, SeqCst);
    f();
    AT[..KNOWN.load(SeqCst)].iter().map(|a| a.load(SeqCst)).collect()
}

pub fn learning() -> bool {
    LEARN.load(SeqCst)
}

/// Prepares for a run with `others` threads besides the paused one.
pub fn plan(pauses: &[Pause], others: usize, known: &[usize]) {
    for (i, p) in PLAN.iter().enumerate() {
        let q = pauses.get(i).map_or([0; 3], |p| [p.after as u32, p.then as u32, p.units.max(1) as u32]);
        for (p, q) in p.iter().zip(q) {
            p.store(q, SeqCst);
        }
    }
    for (t, s) in STATE.iter().enumerate() {
        s.store(if t >= 1 && t <= others { IDLE } else { DONE }, SeqCst);
    }
    TICKETS.store(0, SeqCst);
    load(0);
    for (a, k) in AT.iter().zip(known) {
        a.store(*k, SeqCst);
    }
    KNOWN.store(known.len().min(PLACES), SeqCst);
    unsafe {
        install();
        arm();
    }
}

/// Runs `f` in the thread that pauses.
pub fn paused<R, F: FnOnce() -> R>(f: F) -> R {
    STEPPING.with(|s| s.set(true));
    unsafe {
        if LEARN.load(SeqCst) {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            // A place
            std::arch::asm!("int3");
        }
    }
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq"); }
    STEPPING.with(|s| s.set(false));
    r
}

/// Nothing pauses any more, and all may run.
pub fn finish() {
    NEXT.store(PLAN.len(), SeqCst);
    give(ALL);
}

/// Called by another thread before each of its units; what it is about to do.
pub fn turn(t: usize, doing: u32) {
    OTHER.with(|o| o.set(0));
    STATE[t].store(IDLE, SeqCst);
    loop {
        let n = TICKETS.load(SeqCst);
        if n > 0 {
            STATE[t].store(RUNNING, SeqCst);
            if TICKETS.compare_exchange(n, n - 1, SeqCst, SeqCst).is_ok() {
                break;
            }
            STATE[t].store(IDLE, SeqCst);
        } else {
            unsafe { futex(&TICKETS, libc::FUTEX_WAIT, n) }
        }
    }
    UNIT.with(|u| u.set(doing));
    OTHER.with(|o| o.set(t));
}

pub fn done(t: usize) {
    OTHER.with(|o| o.set(0));
    STATE[t].store(DONE, SeqCst);
}
