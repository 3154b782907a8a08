// A pseudo-terminal and a small display for demonstrations.
#![allow(dead_code)]

use std::ffi::CStr;
use std::io;
use mortal::unix::OpenTerminalExt;
use mortal::{PrepareConfig, Screen, Terminal};

pub struct Tty {
    pub master: i32,
    pub slave: i32,
    pub path: String,
}

impl Tty {
    pub fn new(lines: u16, cols: u16) -> Tty {
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(master >= 0);
            assert_eq!(libc::grantpt(master), 0);
            assert_eq!(libc::unlockpt(master), 0);
            let mut name = [0 as libc::c_char; 128];
            assert_eq!(libc::ptsname_r(master, name.as_mut_ptr(), name.len()), 0);
            let path = CStr::from_ptr(name.as_ptr()).to_str().unwrap().to_owned();
            let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            assert!(slave >= 0);
            let t = Tty { master, slave, path };
            let mut tio = t.tio();
            libc::cfmakeraw(&mut tio);
            assert_eq!(libc::tcsetattr(slave, libc::TCSANOW, &tio), 0);
            t.size(lines, cols);
            libc::fcntl(master, libc::F_SETFL, libc::O_NONBLOCK);
            t
        }
    }

    pub fn size(&self, lines: u16, cols: u16) {
        let ws = libc::winsize { ws_row: lines, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { assert_eq!(libc::ioctl(self.slave, libc::TIOCSWINSZ, &ws), 0); }
    }

    pub fn tio(&self) -> libc::termios {
        unsafe {
            let mut t = std::mem::zeroed();
            assert_eq!(libc::tcgetattr(self.slave, &mut t), 0);
            t
        }
    }

    pub fn set_tio(&self, t: &libc::termios) {
        unsafe { assert_eq!(libc::tcsetattr(self.slave, libc::TCSANOW, t), 0); }
    }

    pub fn term(&self, kind: &str) -> Terminal {
        std::env::set_var("TERM", kind);
        Terminal::from_path(&self.path).expect("open")
    }

    pub fn screen(&self, kind: &str, config: PrepareConfig) -> Screen {
        Screen::with_terminal(self.term(kind), config).expect("screen")
    }

    pub fn type_in(&self, b: &[u8]) {
        unsafe { assert_eq!(libc::write(self.master, b.as_ptr() as *const _, b.len()), b.len() as isize); }
    }

    /// Everything sent to the terminal so far
    pub fn out(&self) -> Vec<u8> {
        let mut v = Vec::new();
        let mut idle = 0;
        while idle < 3 {
            let mut buf = [0u8; 4096];
            let n = unsafe { libc::read(self.master, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n > 0 {
                v.extend(&buf[..n as usize]);
                idle = 0;
            } else {
                idle += 1;
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
        }
        v
    }
}

/// Calls `f` in a thread and fails if it does not end within `secs`.
pub fn within<R: Send + 'static>(secs: u64, f: impl FnOnce() -> R + Send + 'static) -> R {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { let _ = tx.send(f()); });
    rx.recv_timeout(std::time::Duration::from_secs(secs)).expect("does not end")
}

pub type IoResult<T> = io::Result<T>;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Sgr {
    pub fg: u16,
    pub bg: u16,
    pub bold: bool,
    pub italic: bool,
    pub under: bool,
    pub rev: bool,
}

/// An xterm of single-width characters
pub struct Display {
    pub lines: usize,
    pub cols: usize,
    pub cells: Vec<(char, Sgr)>,
    pub at: (usize, usize),
    pub sgr: Sgr,
    pub visible: bool,
    pub modes: Vec<(u16, bool)>,
    pub printed: Vec<(char, Sgr)>,
}

impl Display {
    pub fn new(lines: usize, cols: usize) -> Display {
        Display { lines, cols, cells: vec![(' ', Sgr::default()); lines * cols], at: (0, 0), sgr: Sgr::default(),
            visible: true, modes: vec![], printed: vec![] }
    }

    pub fn line(&self, l: usize) -> String {
        self.cells[l * self.cols..][..self.cols].iter().map(|c| c.0).collect::<String>().trim_end().to_owned()
    }

    pub fn feed(&mut self, b: &[u8]) {
        let s: Vec<char> = String::from_utf8_lossy(b).chars().collect();
        let mut i = 0;
        while i < s.len() {
            let c = s[i];
            i += 1;
            match c {
                '\x1b' => match s.get(i) {
                    Some('[') => {
                        let start = i + 1;
                        let mut j = start;
                        while j < s.len() && !('@'..='~').contains(&s[j]) { j += 1; }
                        let body: String = s[start..j].iter().collect();
                        let fin = s.get(j).copied().unwrap_or('?');
                        i = j + 1;
                        self.csi(&body, fin);
                    }
                    Some('(') => i += 2,
                    Some('M') => { i += 1; self.at.0 = self.at.0.saturating_sub(1) }
                    _ => i += 1,
                },
                '\r' => self.at.1 = 0,
                '\n' => self.at.0 = (self.at.0 + 1).min(self.lines - 1),
                '\x08' => self.at.1 = self.at.1.saturating_sub(1),
                c if c < ' ' => (),
                c => {
                    if self.at.1 >= self.cols {
                        self.at = ((self.at.0 + 1).min(self.lines - 1), 0);
                    }
                    let k = self.at.0 * self.cols + self.at.1;
                    self.cells[k] = (c, self.sgr);
                    self.printed.push((c, self.sgr));
                    self.at.1 += 1;
                }
            }
        }
    }

    fn csi(&mut self, body: &str, fin: char) {
        let private = body.starts_with('?');
        let p: Vec<u64> = body.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(0)).collect();
        let n = p[0].max(1).min(100_000) as usize;
        match fin {
            'h' | 'l' if private => for &m in &p {
                if m == 25 { self.visible = fin == 'h'; }
                self.modes.push((m as u16, fin == 'h'));
            },
            'm' => for &x in &p {
                match x {
                    0 => self.sgr = Sgr::default(),
                    1 => self.sgr.bold = true,
                    3 => self.sgr.italic = true,
                    4 => self.sgr.under = true,
                    7 => self.sgr.rev = true,
                    23 => self.sgr.italic = false,
                    24 => self.sgr.under = false,
                    30..=37 | 90..=97 => self.sgr.fg = x as u16,
                    40..=47 | 100..=107 => self.sgr.bg = x as u16,
                    39 => self.sgr.fg = 0,
                    49 => self.sgr.bg = 0,
                    _ => (),
                }
            },
            'H' => {
                let l = (p[0].max(1) as usize - 1).min(self.lines - 1);
                let c = (p.get(1).copied().unwrap_or(1).max(1) as usize - 1).min(self.cols - 1);
                self.at = (l, c);
            }
            'A' => self.at.0 = self.at.0.saturating_sub(n),
            'B' => self.at.0 = (self.at.0 + n).min(self.lines - 1),
            'C' => self.at.1 = (self.at.1 + n).min(self.cols - 1),
            'D' => self.at.1 = self.at.1.min(self.cols - 1).saturating_sub(n),
            'J' => {
                let k = self.at.0 * self.cols + self.at.1;
                let from = if p[0] == 2 { 0 } else { k };
                for c in &mut self.cells[from..] { *c = (' ', Sgr { bg: self.sgr.bg, ..Sgr::default() }); }
            }
            'K' => {
                let k = self.at.0 * self.cols + self.at.1;
                let end = (self.at.0 + 1) * self.cols;
                for c in &mut self.cells[k..end] { *c = (' ', Sgr { bg: self.sgr.bg, ..Sgr::default() }); }
            }
            _ => (),
        }
    }
}
