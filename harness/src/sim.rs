//! Simulated device I/O.
//!
//! This binary defines `read`, `write`, `select`, `poll` and relatives itself, so calls that
//! the linked crate makes on the simulated terminal device (recognised by its device number)
//! are answered here; all other calls go to the kernel.

use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};

use libc::{c_int, c_long, c_void, size_t, ssize_t};

// ---------------------------------------------------------------------------
// Raw system calls

#[inline]
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall",
        inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        out("rcx") _, out("r11") _, options(nostack));
    r
}

pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r >= -4095 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

fn set_errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WriteFault {
    /// Accept everything
    Full,
    /// Accept at most this many bytes
    Partial(usize),
    Eintr,
    Err(c_int),
    Zero,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Data(Vec<u8>),
    /// Signal; the flag makes a `read` during which it arrives fail with EINTR
    Signal(c_int, bool),
}

#[derive(Clone, Debug)]
pub struct Item {
    pub at: u64,
    pub what: What,
}

#[derive(Default)]
pub struct Sim {
    pub out: Vec<u8>,
    /// Sizes of the device's accepted writes
    pub write_sizes: Vec<usize>,
    pub faults: VecDeque<WriteFault>,
    /// Faults that were used up
    pub faults_hit: u32,
    /// The last write took all it was given
    pub last_write_full: bool,
    /// The next settings of line settings that fail
    pub stuck: u32,
    /// Settings that failed
    pub stuck_hit: u32,
    /// Faults used up by the whole case
    pub refusals: u64,
    /// What is written to this descriptor is accepted or refused, but not shown
    pub messages: Option<c_int>,
    /// Bytes written to the input device
    pub elsewhere: u64,
    /// Errors of the next reads
    pub read_faults: VecDeque<Option<c_int>>,
    /// Read errors other than EINTR that were returned
    pub read_errors: u32,
    /// Future arrivals, in order of time
    pub arrivals: VecDeque<Item>,
    /// Signals raised on entry to the n-th device call
    pub call_signals: VecDeque<(u64, c_int)>,
    /// Signals arriving during waits are delivered to another thread, so they do not end the wait
    pub other_thread: bool,
    pub avail: VecDeque<u8>,
    pub delivered: u64,
    pub now: u64,
    /// A wait without timeout found nothing that could ever arrive
    pub blocked: bool,
    pub calls: u64,
    pub reads: u64,
    pub selects: u64,
    pub eintrs: u64,
    /// At most this many bytes are returned by one read
    pub max_read: usize,
    pub raised: Vec<c_int>,
    /// Times of these
    pub raised_at: Vec<u64>,
    /// Bytes handed out by reads
    pub consumed: u64,
    /// Number of bytes of `out` that had been written when the n-th read happened
    pub keep_log: bool,
    pub log: Vec<String>,
}

impl Sim {
    fn raise(&mut self, sig: c_int) {
        self.raised.push(sig);
        self.raised_at.push(self.now);
    }
}

struct Global {
    lock: AtomicBool,
    sim: UnsafeCell<Option<Sim>>,
}
unsafe impl Sync for Global {}

static G: Global = Global { lock: AtomicBool::new(false), sim: UnsafeCell::new(None) };
static ACTIVE: AtomicBool = AtomicBool::new(false);
static RDEV: AtomicU64 = AtomicU64::new(0);
/// The device whose input is read, if that is another one; nothing written there is shown
static RDEV_IN: AtomicU64 = AtomicU64::new(0);
static CALL_LIMIT: AtomicU64 = AtomicU64::new(2_000_000);
/// Virtual time for clock_gettime
static VCLOCK: AtomicBool = AtomicBool::new(false);
static VNOW: AtomicU64 = AtomicU64::new(0);
/// Yield the processor on every n-th device write / lock hand-over (thread tests)
pub static YIELD: AtomicU32 = AtomicU32::new(0);

struct Guard;
impl Guard {
    fn get() -> Guard {
        while G.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
        }
        Guard
    }
    #[allow(clippy::mut_from_ref)]
    fn sim(&self) -> &mut Sim {
        unsafe { (*G.sim.get()).as_mut().expect("sim") }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        G.lock.store(false, Ordering::Release);
    }
}

/// Is some thread inside the simulated device?
pub fn busy() -> bool {
    G.lock.load(Ordering::SeqCst)
}

/// Starts simulating the device with number `rdev`.
pub fn activate(rdev: u64, sim: Sim) {
    ACTIVE.store(false, Ordering::SeqCst);
    let g = Guard::get();
    unsafe { *G.sim.get() = Some(sim); }
    drop(g);
    RDEV.store(rdev, Ordering::SeqCst);
    RDEV_IN.store(0, Ordering::SeqCst);
    VNOW.store(0, Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Stops simulating; device calls go to the kernel again.
pub fn deactivate() {
    ACTIVE.store(false, Ordering::SeqCst);
    RDEV_IN.store(0, Ordering::SeqCst);
    VCLOCK.store(false, Ordering::SeqCst);
    YIELD.store(0, Ordering::SeqCst);
    ON_RAISE.store(0, Ordering::SeqCst);
}

pub fn set_virtual_clock(on: bool) {
    VCLOCK.store(on, Ordering::SeqCst);
}

pub fn with<R, F: FnOnce(&mut Sim) -> R>(f: F) -> R {
    let g = Guard::get();
    f(g.sim())
}

pub fn take_out() -> Vec<u8> {
    with(|s| std::mem::take(&mut s.out))
}

/// Raises a signal as the device would.
pub fn raise_now(sig: c_int) {
    with(|s| s.raise(sig));
    raise(sig);
}

pub fn now() -> u64 {
    with(|s| s.now)
}

/// Input comes from this device from now on, and none from the other.
pub fn input_from(rdev: u64) {
    RDEV_IN.store(rdev, Ordering::SeqCst);
}

fn rdev_of(fd: c_int) -> u64 {
    if fd < 0 || !ACTIVE.load(Ordering::Relaxed) {
        return 0;
    }
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { raw6(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) };
    if r == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFCHR { st.st_rdev } else { 0 }
}

/// One of the simulated devices
fn is_dev(fd: c_int) -> bool {
    let d = rdev_of(fd);
    d != 0 && (d == RDEV.load(Ordering::Relaxed) || d == RDEV_IN.load(Ordering::Relaxed))
}

/// The simulated device with the input
fn is_input(fd: c_int) -> bool {
    let d = rdev_of(fd);
    let i = RDEV_IN.load(Ordering::Relaxed);
    d != 0 && d == if i != 0 { i } else { RDEV.load(Ordering::Relaxed) }
}

/// The simulated device that shows output
fn is_output(fd: c_int) -> bool {
    let d = rdev_of(fd);
    d != 0 && d == RDEV.load(Ordering::Relaxed)
}

fn runaway() -> ! {
    unsafe { libc::_exit(crate::engine::RUNAWAY) }
}

/// Called just before a signal is raised
pub static ON_RAISE: AtomicUsize = AtomicUsize::new(0);

fn raise(sig: c_int) {
    let f = ON_RAISE.load(Ordering::SeqCst);
    if f != 0 {
        let f: fn(c_int) = unsafe { std::mem::transmute(f) };
        f(sig);
    }
    unsafe {
        libc::raise(sig);
    }
}

thread_local! {
    /// The call has been entered already
    static ENTERED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Counts a device call and raises the signals scheduled for its entry.
fn enter() {
    if ENTERED.with(|e| e.get()) {
        return;
    }
    // One signal for each call: while blocked, a stop signal would discard a pending SIGCONT
    let sig = {
        let g = Guard::get();
        let s = g.sim();
        let sig = if s.call_signals.front().map_or(false, |x| x.0 <= s.calls) {
            let (_, sig) = s.call_signals.pop_front().unwrap();
            s.raise(sig);
            Some(sig)
        } else {
            None
        };
        s.calls += 1;
        if s.calls > CALL_LIMIT.load(Ordering::Relaxed) {
            runaway();
        }
        sig
    };
    if let Some(sig) = sig {
        raise(sig);
    }
}

enum Wait {
    Ready,
    Timeout,
    Eintr,
    Blocked,
}

/// Waits until input is available; `timeout` in microseconds is left at the remainder.
fn wait_input(timeout: &mut Option<u64>) -> Wait {
    enter();
    let start = now();
    let deadline = timeout.map(|t| start.saturating_add(t));
    loop {
        let mut sig = None;
        let res = {
            let g = Guard::get();
            let s = g.sim();
            s.selects += 1;
            let mut res = None;
            // Arrivals that are due; data first come, a signal ends the wait
            while res.is_none() {
                let due = s.arrivals.front().map_or(false, |i| i.at <= s.now);
                if !due {
                    break;
                }
                match s.arrivals.front().unwrap().what {
                    What::Data(_) => {
                        if let Some(Item { what: What::Data(d), .. }) = s.arrivals.pop_front() {
                            s.delivered += d.len() as u64;
                            s.avail.extend(d);
                        }
                    }
                    What::Signal(n, _) => {
                        if !s.avail.is_empty() {
                            break; // Input came first; the signal comes later
                        }
                        s.arrivals.pop_front();
                        s.raise(n);
                        sig = Some(n);
                        if s.other_thread {
                            break;
                        }
                        s.eintrs += 1;
                        res = Some(Wait::Eintr);
                    }
                }
            }
            if res.is_none() && sig.is_none() {
                if !s.avail.is_empty() {
                    res = Some(Wait::Ready);
                } else if deadline.map_or(false, |d| d <= s.now) {
                    res = Some(Wait::Timeout);
                } else {
                    match (s.arrivals.front().map(|i| i.at), deadline) {
                        (Some(t), Some(d)) => s.now = t.min(d),
                        (Some(t), None) => s.now = t,
                        (None, Some(d)) => s.now = d,
                        (None, None) => {
                            s.blocked = true;
                            res = Some(Wait::Blocked);
                        }
                    }
                    VNOW.store(s.now, Ordering::SeqCst);
                }
            }
            if res.is_some() {
                if let (Some(d), Some(t)) = (deadline, timeout.as_mut()) {
                    *t = d - s.now.min(d);
                }
            }
            res
        };
        if let Some(sig) = sig {
            if with(|s| s.other_thread) {
                let _ = std::thread::spawn(move || raise(sig)).join();
            } else {
                raise(sig);
            }
        }
        if let Some(r) = res {
            return r;
        }
    }
}

fn sim_read(fd: c_int, buf: *mut u8, len: usize) -> ssize_t {
    enter();
    if !is_input(fd) {
        return 0;
    }
    loop {
        let mut sig = None;
        let res: Option<isize> = {
            let g = Guard::get();
            let s = g.sim();
            s.reads += 1;
            let mut res = None;
            while s.arrivals.front().map_or(false, |i| i.at <= s.now) {
                match s.arrivals.front().unwrap().what {
                    What::Data(_) => {
                        if let Some(Item { what: What::Data(d), .. }) = s.arrivals.pop_front() {
                            s.delivered += d.len() as u64;
                            s.avail.extend(d);
                        }
                    }
                    What::Signal(n, eintr) => {
                        s.arrivals.pop_front();
                        s.raise(n);
                        sig = Some(n);
                        if eintr {
                            s.eintrs += 1;
                            res = Some(-(libc::EINTR as isize));
                        }
                        break;
                    }
                }
            }
            let fault = if sig.is_none() { s.read_faults.pop_front().flatten() } else { None };
            if let Some(e) = fault {
                s.read_errors += (e != libc::EINTR) as u32;
                res = Some(-(e as isize));
            } else if sig.is_none() {
                let max = if s.max_read == 0 { usize::MAX } else { s.max_read };
                let n = len.min(s.avail.len()).min(max);
                for i in 0..n {
                    unsafe { *buf.add(i) = s.avail.pop_front().unwrap(); }
                }
                s.consumed += n as u64;
                res = Some(n as isize);
            }
            res
        };
        if let Some(sig) = sig {
            raise(sig);
        }
        if let Some(r) = res {
            return unsafe { ret(r) };
        }
    }
}

fn maybe_yield() {
    let n = YIELD.load(Ordering::Relaxed);
    for _ in 0..n {
        unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
    }
}

fn sim_write(fd: c_int, buf: *const u8, len: usize) -> ssize_t {
    enter();
    if !is_output(fd) {
        with(|s| s.elsewhere += len as u64);
        return len as ssize_t;
    }
    maybe_yield();
    let r = {
        let g = Guard::get();
        let s = g.sim();
        if len == 0 {
            0
        } else {
            let f = s.faults.pop_front().unwrap_or(WriteFault::Full);
            if f != WriteFault::Full {
                s.faults_hit += 1;
                s.refusals += 1;
            }
            let n = match f {
                WriteFault::Full => len as isize,
                WriteFault::Partial(k) => k.max(1).min(len) as isize,
                WriteFault::Eintr => -(libc::EINTR as isize),
                WriteFault::Err(e) => -(e as isize),
                WriteFault::Zero => 0,
            };
            if s.messages == Some(fd) {
                return unsafe { drop(g); ret(n) };
            }
            s.last_write_full = n == len as isize;
            if n > 0 {
                let data = unsafe { std::slice::from_raw_parts(buf, n as usize) };
                s.out.extend_from_slice(data);
                s.write_sizes.push(n as usize);
            }
            n
        }
    };
    maybe_yield();
    unsafe { ret(r) }
}

// ---------------------------------------------------------------------------
// The interposed functions

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    if is_dev(fd) {
        return sim_write(fd, buf as *const u8, len);
    }
    ret(raw6(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_dev(fd) {
        let mut all = Vec::new();
        for i in 0..n as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return sim_write(fd, all.as_ptr(), all.len());
    }
    ret(raw6(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if is_dev(fd) {
        return sim_read(fd, buf as *mut u8, len);
    }
    ret(raw6(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if is_dev(fd) && n > 0 {
        let v = &*iov;
        return sim_read(fd, v.iov_base as *mut u8, v.iov_len);
    }
    ret(raw6(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0))
}

unsafe fn fd_in(set: *mut libc::fd_set, fd: c_int) -> bool {
    !set.is_null() && libc::FD_ISSET(fd, set)
}

unsafe fn sim_select(nfds: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set, e: *mut libc::fd_set,
        dev: c_int, timeout: &mut Option<u64>) -> c_int {
    let in_r = fd_in(r, dev) && is_input(dev);
    let in_w = fd_in(w, dev);
    let clear = |set: *mut libc::fd_set| {
        if !set.is_null() {
            for fd in 0..nfds {
                libc::FD_CLR(fd, set);
            }
        }
    };
    if in_w {
        enter();
        clear(r);
        clear(e);
        return 1;
    }
    if !in_r {
        enter();
        let g = Guard::get();
        let s = g.sim();
        clear(r);
        s.now = s.now.saturating_add(timeout.unwrap_or(0));
        VNOW.store(s.now, Ordering::SeqCst);
        clear(e);
        return 0;
    }
    match wait_input(timeout) {
        Wait::Ready => {
            clear(r);
            clear(w);
            clear(e);
            libc::FD_SET(dev, r);
            1
        }
        Wait::Timeout => {
            clear(r);
            clear(w);
            clear(e);
            0
        }
        Wait::Eintr => {
            set_errno(libc::EINTR);
            -1
        }
        Wait::Blocked => {
            set_errno(libc::EIO);
            -1
        }
    }
}

unsafe fn find_dev(nfds: c_int, sets: [*mut libc::fd_set; 3]) -> Option<c_int> {
    if !ACTIVE.load(Ordering::Relaxed) {
        return None;
    }
    let mut other = None;
    for fd in 0..nfds.min(libc::FD_SETSIZE as c_int) {
        if sets.iter().any(|&s| fd_in(s, fd)) && is_dev(fd) {
            if is_input(fd) {
                return Some(fd);
            }
            other = Some(fd);
        }
    }
    other
}

#[no_mangle]
pub unsafe extern "C" fn select(nfds: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set,
        e: *mut libc::fd_set, timeout: *mut libc::timeval) -> c_int {
    match find_dev(nfds, [r, w, e]) {
        Some(dev) => {
            let mut t = if timeout.is_null() {
                None
            } else {
                let tv = &*timeout;
                // As the kernel checks them
                if tv.tv_sec < 0 || tv.tv_usec < 0 {
                    set_errno(libc::EINVAL);
                    return -1;
                }
                let us = (tv.tv_sec as u128) * 1_000_000 + tv.tv_usec as u128;
                Some(us.min(u64::MAX as u128) as u64)
            };
            let n = sim_select(nfds, r, w, e, dev, &mut t);
            if !timeout.is_null() {
                let t = t.unwrap();
                (*timeout).tv_sec = (t / 1_000_000) as i64;
                (*timeout).tv_usec = (t % 1_000_000) as i64;
            }
            n
        }
        None => ret(raw6(libc::SYS_select, nfds as usize, r as usize, w as usize, e as usize,
            timeout as usize, 0)) as c_int,
    }
}

unsafe fn ts_us(ts: *const libc::timespec) -> Result<Option<u64>, ()> {
    if ts.is_null() {
        return Ok(None);
    }
    let t = &*ts;
    if t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1_000_000_000 {
        return Err(());
    }
    let us = (t.tv_sec as u128) * 1_000_000 + (t.tv_nsec as u128 + 999) / 1000;
    Ok(Some(us.min(u64::MAX as u128) as u64))
}

#[no_mangle]
pub unsafe extern "C" fn pselect(nfds: c_int, r: *mut libc::fd_set, w: *mut libc::fd_set,
        e: *mut libc::fd_set, timeout: *const libc::timespec, mask: *const libc::sigset_t) -> c_int {
    match find_dev(nfds, [r, w, e]) {
        Some(dev) => {
            let mut t = match ts_us(timeout) {
                Ok(t) => t,
                Err(()) => {
                    set_errno(libc::EINVAL);
                    return -1;
                }
            };
            with_mask(mask, || sim_select(nfds, r, w, e, dev, &mut t))
        }
        None => {
            #[repr(C)]
            struct Arg(usize, usize);
            let arg = Arg(mask as usize, 8);
            let mut ts = if timeout.is_null() { std::mem::zeroed() } else { *timeout };
            let tp = if timeout.is_null() { 0 } else { &mut ts as *mut libc::timespec as usize };
            ret(raw6(libc::SYS_pselect6, nfds as usize, r as usize, w as usize, e as usize, tp,
                &arg as *const Arg as usize)) as c_int
        }
    }
}

/// Runs `f` with the signal mask; signals that this lets through end the call as in the kernel.
unsafe fn with_mask<F: FnOnce() -> c_int>(mask: *const libc::sigset_t, f: F) -> c_int {
    if mask.is_null() {
        return f();
    }
    enter();
    let mut pending: libc::sigset_t = std::mem::zeroed();
    libc::sigpending(&mut pending);
    let ends = (1..32).any(|s| {
        let mut sa: libc::sigaction = std::mem::zeroed();
        libc::sigismember(&pending, s) == 1 && libc::sigismember(mask, s) == 0
            && libc::sigaction(s, std::ptr::null(), &mut sa) == 0
            && sa.sa_sigaction != libc::SIG_DFL && sa.sa_sigaction != libc::SIG_IGN
    });
    let mut old: libc::sigset_t = std::mem::zeroed();
    libc::pthread_sigmask(libc::SIG_SETMASK, mask, &mut old);
    let (r, e) = if ends {
        (-1, libc::EINTR)
    } else {
        ENTERED.with(|e| e.set(true));
        let r = f();
        let e = *libc::__errno_location();
        ENTERED.with(|e| e.set(false));
        (r, e)
    };
    libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut());
    set_errno(e);
    r
}

unsafe fn sim_poll(fds: *mut libc::pollfd, n: libc::nfds_t, t: &mut Option<u64>) -> Option<c_int> {
    if !ACTIVE.load(Ordering::Relaxed) {
        return None;
    }
    let fds = std::slice::from_raw_parts_mut(fds, n as usize);
    let i = fds.iter().position(|p| is_input(p.fd)).or_else(|| fds.iter().position(|p| is_dev(p.fd)))?;
    for p in fds.iter_mut() {
        p.revents = 0;
    }
    if fds[i].events & libc::POLLOUT != 0 {
        enter();
        fds[i].revents = libc::POLLOUT;
        return Some(1);
    }
    if !is_input(fds[i].fd) {
        enter();
        let g = Guard::get();
        let s = g.sim();
        s.now = s.now.saturating_add(t.unwrap_or(0));
        VNOW.store(s.now, Ordering::SeqCst);
        return Some(0);
    }
    Some(match wait_input(t) {
        Wait::Ready => {
            fds[i].revents = libc::POLLIN;
            1
        }
        Wait::Timeout => 0,
        Wait::Eintr => {
            set_errno(libc::EINTR);
            -1
        }
        Wait::Blocked => {
            set_errno(libc::EIO);
            -1
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let mut t = if timeout < 0 { None } else { Some(timeout as u64 * 1000) };
    match sim_poll(fds, n, &mut t) {
        Some(r) => r,
        None => ret(raw6(libc::SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: *const libc::timespec,
        mask: *const libc::sigset_t) -> c_int {
    if ACTIVE.load(Ordering::Relaxed) && std::slice::from_raw_parts(fds, n as usize).iter().any(|p| is_dev(p.fd)) {
        if let Ok(mut t) = ts_us(timeout) {
            return with_mask(mask, || sim_poll(fds, n, &mut t).unwrap_or(0));
        }
    }
    let mut ts = if timeout.is_null() { std::mem::zeroed() } else { *timeout };
    let tp = if timeout.is_null() { 0 } else { &mut ts as *mut libc::timespec as usize };
    ret(raw6(libc::SYS_ppoll, fds as usize, n as usize, tp, mask as usize, 8, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if VCLOCK.load(Ordering::Relaxed) {
        let us = VNOW.load(Ordering::Relaxed);
        (*ts).tv_sec = 1_000_000 + (us / 1_000_000) as i64;
        (*ts).tv_nsec = ((us % 1_000_000) * 1000) as i64;
        return 0;
    }
    ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

/// The kernel sets the device's line settings; unread input is discarded as asked.
unsafe fn discard_input(fd: c_int) {
    if is_input(fd) {
        let g = Guard::get();
        let s = g.sim();
        while s.arrivals.front().map_or(false, |i| i.at <= s.now && matches!(i.what, What::Data(_))) {
            if let Some(Item { what: What::Data(d), .. }) = s.arrivals.pop_front() {
                s.delivered += d.len() as u64;
            }
        }
        s.avail.clear();
    }
}

pub unsafe fn next(name: &'static [u8]) -> usize {
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char) as usize;
    assert!(f != 0, "dlsym");
    f
}

#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, how: c_int, t: *const libc::termios) -> c_int {
    let f: unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int = std::mem::transmute(next(b"tcsetattr\0"));
    if is_input(fd) {
        let g = Guard::get();
        let s = g.sim();
        if s.stuck > 0 {
            s.stuck -= 1;
            s.stuck_hit += 1;
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
    }
    let r = f(fd, how, t);
    if r == 0 && how == libc::TCSAFLUSH {
        discard_input(fd);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn tcflush(fd: c_int, queue: c_int) -> c_int {
    let f: unsafe extern "C" fn(c_int, c_int) -> c_int = std::mem::transmute(next(b"tcflush\0"));
    let r = f(fd, queue);
    if r == 0 && queue != libc::TCOFLUSH {
        discard_input(fd);
    }
    r
}
