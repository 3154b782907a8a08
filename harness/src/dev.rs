//! The terminal device used by cases: one real pty per process, whose slave mortal opens.

use std::ffi::CStr;
use std::io;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::OnceLock;

use libc::c_int;
use mortal::unix::OpenTerminalExt;
use mortal::{Screen, Terminal, PrepareConfig};

use crate::sim::{self, Sim};

pub struct Pty {
    pub master: c_int,
    pub slave: c_int,
    pub path: String,
    pub rdev: u64,
    pub tio: libc::termios,
}

pub fn open_pty() -> Pty {
    unsafe {
        let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(master >= 0, "posix_openpt: {}", io::Error::last_os_error());
        assert_eq!(libc::grantpt(master), 0);
        assert_eq!(libc::unlockpt(master), 0);
        let mut name = [0 as libc::c_char; 128];
        assert_eq!(libc::ptsname_r(master, name.as_mut_ptr(), name.len()), 0);
        let path = CStr::from_ptr(name.as_ptr()).to_str().unwrap().to_owned();
        let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(slave >= 0, "open {}: {}", path, io::Error::last_os_error());
        let mut st: libc::stat = std::mem::zeroed();
        assert_eq!(libc::fstat(slave, &mut st), 0);
        let mut tio: libc::termios = std::mem::zeroed();
        assert_eq!(libc::tcgetattr(slave, &mut tio), 0);
        Pty { master, slave, path, rdev: st.st_rdev, tio }
    }
}

pub fn pty() -> &'static Pty {
    static PTY: OnceLock<Pty> = OnceLock::new();
    PTY.get_or_init(open_pty)
}

/// Another device, for input that comes from elsewhere
pub fn pty_in() -> &'static Pty {
    static PTY: OnceLock<Pty> = OnceLock::new();
    PTY.get_or_init(open_pty)
}

impl Pty {
    pub fn set_size(&self, lines: usize, cols: usize) {
        let ws = libc::winsize {
            ws_row: lines as u16,
            ws_col: cols as u16,
            ws_xpixel: 0,
            ws_ypixel: 0,
        };
        unsafe {
            assert_eq!(libc::ioctl(self.slave, libc::TIOCSWINSZ, &ws), 0);
        }
    }

    pub fn get_tio(&self) -> libc::termios {
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            assert_eq!(libc::tcgetattr(self.slave, &mut t), 0);
            t
        }
    }

    pub fn set_tio(&self, t: &libc::termios) {
        unsafe {
            assert_eq!(libc::tcsetattr(self.slave, libc::TCSANOW, t), 0);
        }
    }
}

pub fn tio_eq(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag
        && a.c_lflag == b.c_lflag && a.c_line == b.c_line && a.c_cc == b.c_cc
        && a.c_ispeed == b.c_ispeed && a.c_ospeed == b.c_ospeed
}

pub fn tio_str(a: &libc::termios) -> String {
    format!("iflag={:o} oflag={:o} cflag={:o} lflag={:o} cc={:?}", a.c_iflag, a.c_oflag, a.c_cflag, a.c_lflag,
        &a.c_cc[..20])
}

pub const SIGNALS: [c_int; 5] = [libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT, libc::SIGWINCH];

pub fn set_handler(sig: c_int, handler: usize, flags: c_int, mask_bits: u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = handler;
        sa.sa_flags = flags;
        libc::sigemptyset(&mut sa.sa_mask);
        for s in 1..32 {
            if mask_bits & (1 << s) != 0 {
                libc::sigaddset(&mut sa.sa_mask, s);
            }
        }
        assert_eq!(libc::sigaction(sig, &sa, std::ptr::null_mut()), 0);
    }
}

/// (handler, flags, mask) of a signal
pub fn get_handler(sig: c_int) -> (usize, c_int, u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        assert_eq!(libc::sigaction(sig, std::ptr::null(), &mut sa), 0);
        let mut m = 0u64;
        for s in 1..32 {
            if libc::sigismember(&sa.sa_mask, s) == 1 {
                m |= 1 << s;
            }
        }
        // SA_RESTORER is added by libc
        (sa.sa_sigaction, sa.sa_flags & !0x0400_0000, m)
    }
}

pub extern "C" fn noop_handler(_: c_int) {}
pub extern "C" fn noop_handler2(_: c_int) {}

/// Standard input, output and error are the device while this exists
pub struct Stdio(Vec<(c_int, c_int)>);

impl Stdio {
    /// `split`: standard input is another device
    pub fn of(split: bool) -> Stdio {
        Stdio::only(split, &[0, 1, 2])
    }

    pub fn only(split: bool, fds: &[c_int]) -> Stdio {
        Stdio(fds.iter().map(|&fd| {
            let saved = unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 10) };
            assert!(saved >= 0);
            let slave = if split && fd == 0 { pty_in().slave } else { pty().slave };
            unsafe { libc::dup2(slave, fd); }
            (fd, saved)
        }).collect())
    }
}

impl Drop for Stdio {
    fn drop(&mut self) {
        for &(fd, saved) in &self.0 {
            unsafe {
                libc::dup2(saved, fd);
                libc::close(saved);
            }
        }
    }
}

/// Input comes from another device of another size. To be called after `sim::activate`.
pub fn input_elsewhere(lines: usize, cols: usize) {
    let p = pty_in();
    p.set_tio(&p.tio);
    p.set_size(cols + 1, lines + 2);
    sim::input_from(p.rdev);
}

/// Every descriptor less than 1024 is in use while this exists
struct Crowd(Vec<c_int>);

impl Crowd {
    fn new() -> Crowd {
        static LIMIT: OnceLock<()> = OnceLock::new();
        LIMIT.get_or_init(|| unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            l.rlim_cur = l.rlim_max.min(4096).max(l.rlim_cur);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        });
        let null = unsafe { libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR | libc::O_CLOEXEC) };
        let mut v = vec![null];
        while *v.last().unwrap() < 1024 {
            match unsafe { libc::fcntl(null, libc::F_DUPFD_CLOEXEC, 0) } {
                // The system does not allow so many
                -1 => {
                    for fd in v.drain(..v.len().min(64)) {
                        unsafe { libc::close(fd); }
                    }
                    return Crowd(v);
                }
                fd => v.push(fd),
            }
        }
        Crowd(v)
    }
}

impl Drop for Crowd {
    fn drop(&mut self) {
        for &fd in &self.0 {
            unsafe { libc::close(fd); }
        }
    }
}

/// How sessions open the device: 0 by path, 1 as standard output, 2 as standard output with input
/// from another device, 3 by path with every descriptor less than 1024 in use, 4 as standard error
pub static STREAMS: AtomicU8 = AtomicU8::new(0);

fn streams() -> u8 {
    STREAMS.load(Ordering::SeqCst)
}

/// The device whose input sessions read
pub fn input() -> &'static Pty {
    if streams() == 2 { pty_in() } else { pty() }
}

/// One case's use of the device. Dropping it stops the simulation and restores the defaults.
pub struct Session {
    _io: Option<Stdio>,
    _crowd: Option<Crowd>,
}

impl Session {
    pub fn new(term: &str, lines: usize, cols: usize, sim: Sim) -> Session {
        sim::deactivate();
        let p = pty();
        for s in SIGNALS {
            set_handler(s, libc::SIG_DFL, 0, 0);
        }
        p.set_tio(&p.tio);
        p.set_size(lines, cols);
        std::env::set_var("TERM", term);
        sim::activate(p.rdev, sim);
        sim::set_virtual_clock(true);
        let _io = match streams() {
            0 | 3 => None,
            1 => Some(Stdio::only(false, &[0, 1])),
            2 => {
                input_elsewhere(lines, cols);
                Some(Stdio::only(true, &[0, 1]))
            }
            _ => Some(Stdio::only(false, &[0, 2])),
        };
        Session { _io, _crowd: if streams() == 3 { Some(Crowd::new()) } else { None } }
    }

    /// Forgets signals caught and not reported in earlier cases.
    pub fn drain_signals(&self) {
        if let Ok(t) = self.terminal() {
            for _ in 0..10 {
                let _ = t.read_event(Some(std::time::Duration::from_secs(0)));
            }
        }
        sim::with(|s| *s = Sim::default());
    }

    pub fn terminal(&self) -> io::Result<Terminal> {
        match streams() {
            0 | 3 => Terminal::from_path(&pty().path),
            4 => Terminal::stderr(),
            _ => Terminal::new(),
        }
    }

    pub fn screen(&self, config: PrepareConfig) -> io::Result<Screen> {
        match streams() {
            0 | 3 => Screen::with_terminal(self.terminal()?, config),
            4 => Screen::stderr(config),
            _ => Screen::new(config),
        }
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        sim::deactivate();
        for s in SIGNALS {
            set_handler(s, libc::SIG_DFL, 0, 0);
        }
        let p = pty();
        unsafe {
            libc::tcsetattr(p.slave, libc::TCSANOW, &p.tio);
        }
    }
}

pub fn scratch() -> std::path::PathBuf {
    std::env::var_os("MORTAL_PBT_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|| {
        let d = std::env::temp_dir().join(format!("mortal-pbt-replay-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        d
    })
}
