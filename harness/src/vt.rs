//! Reference terminal: executes the bytes sent to the device and keeps what would be shown.

use unicode_width::UnicodeWidthChar;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Attr {
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    /// Bits of mortal::Style: 1 bold, 2 italic, 4 reverse, 8 underline
    pub style: u8,
}

pub const BOLD: u8 = 1;
pub const ITALIC: u8 = 2;
pub const REVERSE: u8 = 4;
pub const UNDERLINE: u8 = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct VCell {
    pub text: String,
    pub attr: Attr,
    /// Number of columns; 0 for a column covered by the wide character to the left
    pub width: u8,
}

impl VCell {
    fn blank(attr: Attr) -> VCell {
        VCell { text: " ".into(), attr, width: 1 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Saved {
    grid: Vec<VCell>,
    cur: (usize, usize),
    attr: Attr,
}

#[derive(Clone, Debug, PartialEq)]
enum Ps {
    Ground,
    Esc,
    Csi(String),
    Charset,
    Tag(String),
}

#[derive(Clone, Debug)]
pub struct Vt {
    pub lines: usize,
    pub cols: usize,
    pub grid: Vec<VCell>,
    pub cur: (usize, usize),
    pub pending: bool,
    pub attr: Attr,
    pub bce: bool,
    /// Accept ANSI sequences / tag sequences
    pub ansi: bool,
    /// Knows the mouse modes of xterm
    pub xterm: bool,
    saved: Option<Saved>,
    decsc: Option<((usize, usize), Attr)>,
    pub alt: bool,
    pub visible: bool,
    pub keypad: bool,
    pub mouse: bool,
    pub mouse_motion: bool,
    pub mouse_sgr: bool,
    /// Tracking mode of terminals on which a tracking mode replaces the other
    pub track: u16,
    pub region: (usize, usize),
    pub scrolls: usize,
    pub bells: usize,
    pub errors: Vec<String>,
    /// Characters printed, with the attributes they were printed with
    pub printed: Vec<(char, Attr)>,
    pub record: bool,
    /// Semantic operations executed, in order
    pub trace: Vec<String>,
    pub tracing: bool,
    ps: Ps,
    utf8: Vec<u8>,
}

impl Vt {
    pub fn new(lines: usize, cols: usize, bce: bool, ansi: bool) -> Vt {
        Vt {
            lines, cols,
            grid: vec![VCell::blank(Attr::default()); lines * cols],
            cur: (0, 0), pending: false, attr: Attr::default(), bce, ansi, xterm: true,
            saved: None, decsc: None, alt: false, visible: true, keypad: false,
            mouse: false, mouse_motion: false, mouse_sgr: false, track: 0,
            region: (0, lines - 1), scrolls: 0, bells: 0, errors: Vec::new(),
            printed: Vec::new(), record: false, trace: Vec::new(), tracing: false,
            ps: Ps::Ground, utf8: Vec::new(),
        }
    }

    pub fn cell(&self, l: usize, c: usize) -> &VCell {
        &self.grid[l * self.cols + c]
    }

    fn err(&mut self, m: String) {
        if self.errors.len() < 20 {
            self.errors.push(m);
        }
    }

    /// The window changed; afterwards the terminal shows `junk` in all cells.
    pub fn resize(&mut self, lines: usize, cols: usize, junk: char, junk_attr: Attr, cur: (usize, usize)) {
        self.lines = lines;
        self.cols = cols;
        self.grid = vec![VCell { text: junk.to_string(), attr: junk_attr, width: 1 }; lines * cols];
        self.cur = (cur.0.min(lines - 1), cur.1.min(cols - 1));
        self.pending = false;
        self.region = (0, lines - 1);
        if let Some(s) = self.saved.as_mut() {
            s.grid = vec![VCell::blank(Attr::default()); lines * cols];
            s.cur = (0, 0);
        }
    }

    pub fn line_text(&self, l: usize) -> String {
        (0..self.cols).map(|c| self.cell(l, c).text.as_str()).collect()
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.byte(b);
        }
    }

    /// In the middle of a sequence or character
    pub fn mid(&self) -> bool {
        self.ps != Ps::Ground || !self.utf8.is_empty()
    }

    fn byte(&mut self, b: u8) {
        if self.utf8.is_empty() && b < 0x80 {
            self.ch(b as char);
            return;
        }
        self.utf8.push(b);
        match std::str::from_utf8(&self.utf8) {
            Ok(s) => {
                let c = s.chars().next().unwrap();
                self.utf8.clear();
                self.ch(c);
            }
            Err(e) => {
                if e.error_len().is_some() {
                    let m = format!("invalid utf-8 in output: {:?}", self.utf8);
                    self.err(m);
                    self.utf8.clear();
                    if b < 0x80 {
                        self.ch(b as char);
                    }
                }
            }
        }
    }

    fn ch(&mut self, c: char) {
        match std::mem::replace(&mut self.ps, Ps::Ground) {
            Ps::Ground => match c {
                '\x1b' => self.ps = Ps::Esc,
                '\r' => {
                    self.cur.1 = 0;
                    self.pending = false;
                }
                '\n' => self.line_feed(),
                '\x08' => {
                    self.cur.1 = self.cur.1.saturating_sub(1);
                    self.pending = false;
                }
                '\t' => {
                    self.cur.1 = ((self.cur.1 / 8 + 1) * 8).min(self.cols - 1);
                    self.pending = false;
                }
                '\x07' => self.bells += 1,
                '\x0e' | '\x0f' => (),
                c if (c as u32) < 0x20 || c == '\x7f' => {
                    self.err(format!("control character {:?} sent", c));
                }
                c => self.print(c),
            },
            Ps::Esc => match c {
                '[' if self.ansi => self.ps = Ps::Csi(String::new()),
                '(' | ')' if self.ansi => self.ps = Ps::Charset,
                '=' if self.ansi => self.keypad = true,
                '>' if self.ansi => self.keypad = false,
                'M' if self.ansi => self.reverse_index(),
                '7' if self.ansi => self.decsc = Some((self.cur, self.attr)),
                '8' if self.ansi => {
                    let (cur, attr) = self.decsc.unwrap_or_default();
                    self.cur = (cur.0.min(self.lines - 1), cur.1.min(self.cols - 1));
                    self.attr = attr;
                    self.pending = false;
                }
                '[' => self.ps = Ps::Csi(String::new()),
                '{' if !self.ansi => self.ps = Ps::Tag(String::new()),
                _ => self.err(format!("unknown sequence ESC {:?}", c)),
            },
            Ps::Charset => match c {
                'B' | '0' => (),
                _ => self.err(format!("unknown charset {:?}", c)),
            },
            Ps::Csi(mut s) => {
                if ('\x40'..='\x7e').contains(&c) {
                    self.csi(&s, c);
                } else if (' '..='?').contains(&c) {
                    s.push(c);
                    self.ps = Ps::Csi(s);
                } else {
                    self.err(format!("bad character {:?} in CSI {:?}", c, s));
                }
            }
            Ps::Tag(mut s) => {
                if c == '}' {
                    self.tag(&s);
                } else if c == '\x1b' || s.len() > 60 {
                    self.err(format!("bad tag {:?}", s));
                } else {
                    s.push(c);
                    self.ps = Ps::Tag(s);
                }
            }
        }
    }

    fn line_feed(&mut self) {
        self.pending = false;
        if self.cur.0 == self.region.1 {
            self.scroll_up();
        } else if self.cur.0 + 1 < self.lines {
            self.cur.0 += 1;
        }
    }

    fn scroll_up(&mut self) {
        self.scrolls += 1;
        let (t, b) = self.region;
        let a = self.erase_attr();
        for l in t..b {
            for c in 0..self.cols {
                self.grid[l * self.cols + c] = self.grid[(l + 1) * self.cols + c].clone();
            }
        }
        for c in 0..self.cols {
            self.grid[b * self.cols + c] = VCell::blank(a);
        }
    }

    fn reverse_index(&mut self) {
        self.pending = false;
        if self.cur.0 == self.region.0 {
            self.scrolls += 1;
            let (t, b) = self.region;
            let a = self.erase_attr();
            for l in (t..b).rev() {
                for c in 0..self.cols {
                    self.grid[(l + 1) * self.cols + c] = self.grid[l * self.cols + c].clone();
                }
            }
            for c in 0..self.cols {
                self.grid[t * self.cols + c] = VCell::blank(a);
            }
        } else {
            self.cur.0 = self.cur.0.saturating_sub(1);
        }
    }

    fn erase_attr(&self) -> Attr {
        if self.bce {
            Attr { fg: None, bg: self.attr.bg, style: 0 }
        } else {
            Attr::default()
        }
    }

    /// Blanks the parts of wide characters that stick out of columns a..b of line l.
    fn split_wide(&mut self, l: usize, a: usize, b: usize) {
        let row = l * self.cols;
        // Left edge: a wide character starting before `a` and covering it
        if a > 0 && a < self.cols && self.grid[row + a].width == 0 {
            let mut s = a;
            while s > 0 && self.grid[row + s].width == 0 {
                s -= 1;
            }
            let mut e = a;
            while e < self.cols && self.grid[row + e].width == 0 {
                e += 1;
            }
            for c in s..e {
                let at = self.grid[row + c].attr;
                self.grid[row + c] = VCell::blank(at);
            }
        }
        // Right edge
        if b < self.cols && self.grid[row + b].width == 0 {
            let mut e = b;
            while e < self.cols && self.grid[row + e].width == 0 {
                let at = self.grid[row + e].attr;
                self.grid[row + e] = VCell::blank(at);
                e += 1;
            }
        }
    }

    fn print(&mut self, c: char) {
        let w = c.width().unwrap_or(0);
        if self.record {
            self.printed.push((c, self.attr));
        }
        if w == 0 {
            // Joins the character before
            let col = if self.pending { self.cur.1 } else if self.cur.1 > 0 { self.cur.1 - 1 } else {
                self.err(format!("zero-width character {:?} at the beginning of a line", c));
                return;
            };
            let mut col = col;
            while col > 0 && self.cell(self.cur.0, col).width == 0 {
                col -= 1;
            }
            let i = self.cur.0 * self.cols + col;
            self.grid[i].text.push(c);
            return;
        }
        if self.pending {
            self.pending = false;
            self.cur.1 = 0;
            self.line_feed();
        }
        if w > self.cols {
            self.err(format!("character {:?} wider than the terminal", c));
            return;
        }
        if self.cur.1 + w > self.cols {
            self.cur.1 = 0;
            self.line_feed();
        }
        let (l, col) = self.cur;
        self.split_wide(l, col, col + w);
        let row = l * self.cols;
        self.grid[row + col] = VCell { text: c.to_string(), attr: self.attr, width: w as u8 };
        for i in 1..w {
            self.grid[row + col + i] = VCell { text: String::new(), attr: self.attr, width: 0 };
        }
        if col + w >= self.cols {
            self.cur.1 = self.cols - 1;
            self.pending = true;
        } else {
            self.cur.1 = col + w;
        }
    }

    // Semantic operations

    fn t(&mut self, s: &str) {
        if self.tracing {
            self.trace.push(s.to_owned());
        }
    }

    pub fn op_cup(&mut self, l: usize, c: usize) {
        self.t("cup");
        self.cur = (l.min(self.lines - 1), c.min(self.cols - 1));
        self.pending = false;
    }

    fn op_move(&mut self, dl: i64, dc: i64) {
        self.pending = false;
        // Within the scroll region movement stops at its margins
        let (top, bot) = if self.cur.0 >= self.region.0 && self.cur.0 <= self.region.1 {
            self.region
        } else {
            (0, self.lines - 1)
        };
        self.cur.0 = (self.cur.0 as i64).saturating_add(dl).clamp(top as i64, bot as i64) as usize;
        self.cur.1 = (self.cur.1 as i64).saturating_add(dc).clamp(0, self.cols as i64 - 1) as usize;
    }

    fn op_erase_line(&mut self, mode: u32) {
        let (l, c) = self.cur;
        let (a, b) = match mode {
            0 => (c, self.cols),
            1 => (0, c + 1),
            _ => (0, self.cols),
        };
        self.split_wide(l, a, b);
        let at = self.erase_attr();
        for c in a..b {
            self.grid[l * self.cols + c] = VCell::blank(at);
        }
    }

    fn op_erase_display(&mut self, mode: u32) {
        let at = self.erase_attr();
        let (l, c) = self.cur;
        match mode {
            0 => {
                self.op_erase_line(0);
                let _ = c;
                for i in (l + 1) * self.cols..self.lines * self.cols {
                    self.grid[i] = VCell::blank(at);
                }
            }
            2 => {
                for i in 0..self.lines * self.cols {
                    self.grid[i] = VCell::blank(at);
                }
            }
            3 => (),
            _ => self.err(format!("erase display mode {}", mode)),
        }
    }

    fn op_region(&mut self, top: usize, bot: usize) {
        if top < bot && bot < self.lines || (top == bot && self.lines == 1) {
            self.region = (top, bot);
            self.op_cup(0, 0);
        } else {
            self.err(format!("scroll region {}..{} on {} lines", top, bot, self.lines));
        }
    }

    fn op_alt(&mut self, on: bool) {
        self.t(if on { "smcup" } else { "rmcup" });
        if on && !self.alt {
            let blank = vec![VCell::blank(Attr::default()); self.lines * self.cols];
            self.saved = Some(Saved {
                grid: std::mem::replace(&mut self.grid, blank),
                cur: self.cur,
                attr: self.attr,
            });
            self.alt = true;
        } else if !on && self.alt {
            let s = self.saved.take().unwrap();
            self.grid = s.grid;
            self.cur = s.cur;
            self.attr = s.attr;
            self.pending = false;
            self.alt = false;
        }
    }

    fn csi(&mut self, body: &str, fin: char) {
        let (private, rest) = match body.strip_prefix('?') {
            Some(r) => (true, r),
            None => (false, body),
        };
        let mut nums = Vec::new();
        for p in rest.split(';') {
            if p.is_empty() {
                nums.push(None);
            } else {
                match p.parse::<u32>() {
                    // Terminals keep parameters in an int
                    Ok(n) if n <= i32::MAX as u32 => nums.push(Some(n)),
                    _ => {
                        self.err(format!("bad parameter {:?} in CSI {:?} {}", p, body, fin));
                        return;
                    }
                }
            }
        }
        let n = nums.first().copied().flatten();
        let n1 = n.unwrap_or(1).max(1) as i64;
        if !self.ansi && !(self.xterm && private && matches!(fin, 'h' | 'l')) {
            self.err(format!("ANSI sequence CSI {:?} {} sent to a non-ANSI terminal", body, fin));
            return;
        }
        if private {
            let on = match fin {
                'h' => true,
                'l' => false,
                'c' => return, // linux cursor shape
                _ => return self.err(format!("unknown CSI {:?} {}", body, fin)),
            };
            for p in nums {
                match p {
                    Some(1006) => self.mouse_sgr = on,
                    Some(n @ 1002) => {
                        self.mouse = on;
                        self.track = if on { n as u16 } else { 0 };
                    }
                    Some(n @ 1003) => {
                        self.mouse_motion = on;
                        self.track = if on { n as u16 } else { 0 };
                    }
                    _ if !self.ansi => self.err(format!("ANSI sequence CSI {:?} {} sent to a non-ANSI terminal", body, fin)),
                    Some(25) => {
                        self.visible = on;
                        self.t(if on { "cnorm" } else { "civis" });
                    }
                    Some(12) => (),
                    Some(1) => self.t(if on { "smkx" } else { "rmkx" }),
                    Some(47) | Some(1047) | Some(1049) => self.op_alt(on),
                    _ => self.err(format!("unknown CSI {:?} {}", body, fin)),
                }
            }
            return;
        }
        match fin {
            'm' => {
                let v: Vec<u32> = nums.iter().map(|p| p.unwrap_or(0)).collect();
                let mut i = 0;
                while i < v.len() {
                    match v[i..] {
                        // Indexed colors
                        [38, 5, n, ..] if n < 8 => {
                            self.attr.fg = Some(n as u8);
                            i += 2;
                        }
                        [48, 5, n, ..] if n < 8 => {
                            self.attr.bg = Some(n as u8);
                            i += 2;
                        }
                        _ => self.sgr(v[i]),
                    }
                    i += 1;
                }
            }
            'H' | 'f' => {
                let c = nums.get(1).copied().flatten().unwrap_or(1).max(1) as usize;
                self.op_cup(n1 as usize - 1, c - 1);
            }
            'A' => self.op_move(-n1, 0),
            'B' => self.op_move(n1, 0),
            'C' => self.op_move(0, n1),
            'D' => self.op_move(0, -n1),
            'G' => {
                self.cur.1 = (n1 as usize - 1).min(self.cols - 1);
                self.pending = false;
            }
            'K' => self.op_erase_line(n.unwrap_or(0)),
            'J' => {
                self.t("ed");
                self.op_erase_display(n.unwrap_or(0))
            }
            'r' => {
                let b = nums.get(1).copied().flatten().map(|b| b as usize).unwrap_or(self.lines);
                if b == 0 {
                    self.err("scroll region".into());
                } else {
                    self.op_region(n1 as usize - 1, b - 1);
                }
            }
            't' if matches!(n, Some(22) | Some(23)) => (),
            // ANSI mode 34: cursor shape (screen); mode 4: insert
            'h' | 'l' if matches!(n, Some(34) | Some(4)) => (),
            _ => self.err(format!("unknown CSI {:?} {}", body, fin)),
        }
    }

    fn sgr(&mut self, p: u32) {
        match p {
            0 => self.attr = Attr::default(),
            1 => self.attr.style |= BOLD,
            3 => self.attr.style |= ITALIC,
            4 => self.attr.style |= UNDERLINE,
            7 => self.attr.style |= REVERSE,
            22 => self.attr.style &= !BOLD,
            23 => self.attr.style &= !ITALIC,
            24 => self.attr.style &= !UNDERLINE,
            27 => self.attr.style &= !REVERSE,
            10 | 11 => (),
            30..=37 => self.attr.fg = Some((p - 30) as u8),
            39 => self.attr.fg = None,
            40..=47 => self.attr.bg = Some((p - 40) as u8),
            49 => self.attr.bg = None,
            _ => self.err(format!("unknown SGR {}", p)),
        }
    }

    /// A sequence of a generated terminal description: `ESC {name;arg;arg}`
    fn tag(&mut self, s: &str) {
        let mut it = s.split(';');
        let name = it.next().unwrap();
        let mut args = Vec::new();
        for a in it {
            if ["$<x>", "$<", "$", "$<>"].contains(&a) {
                continue;
            }
            match a.parse::<i64>() {
                Ok(n) if n >= 0 => args.push(n as usize),
                _ => return self.err(format!("bad argument in tag {:?}", s)),
            }
        }
        self.t(name);
        let want = match name {
            "cup" | "cupi" | "cupr" | "csr" | "csri" => 2,
            "cuu" | "cud" | "cub" | "cuf" | "setaf" | "setab" => 1,
            _ => 0,
        };
        if args.len() != want {
            return self.err(format!("tag {:?} has {} arguments", s, args.len()));
        }
        let n = args.first().copied().unwrap_or(0).min(1 << 40) as i64;
        match name {
            "cup" => {
                if args[0] >= self.lines || args[1] >= self.cols {
                    self.err(format!("cursor address {:?} outside {}x{}", args, self.lines, self.cols));
                }
                self.op_cup(args[0], args[1])
            }
            "cupi" => {
                if args[0] == 0 || args[1] == 0 || args[0] > self.lines || args[1] > self.cols {
                    return self.err(format!("cursor address {:?} outside {}x{}", args, self.lines, self.cols));
                }
                self.op_cup(args[0] - 1, args[1] - 1)
            }
            "cupr" => self.op_cup(args[1], args[0]),
            "home" => self.op_cup(0, 0),
            "csr" => self.op_region(args[0], args[1]),
            "csri" => {
                if args[0] == 0 || args[1] == 0 {
                    return self.err("scroll region".into());
                }
                self.op_region(args[0] - 1, args[1] - 1)
            }
            "cuu" => self.op_move(-n, 0),
            "cud" => self.op_move(n, 0),
            "cub" => self.op_move(0, -n),
            "cuf" => self.op_move(0, n),
            "cuu1" => self.op_move(-1, 0),
            "cub1" => self.op_move(0, -1),
            "cuf1" => self.op_move(0, 1),
            "clear" => {
                self.op_cup(0, 0);
                self.op_erase_display(2);
            }
            "el" => self.op_erase_line(0),
            "ed" => self.op_erase_display(0),
            "smcup" | "rmcup" => {
                let tr = std::mem::replace(&mut self.tracing, false);
                self.op_alt(name == "smcup");
                self.tracing = tr;
            }
            "smkx" => self.keypad = true,
            "rmkx" => self.keypad = false,
            "cnorm" => self.visible = true,
            "civis" => self.visible = false,
            "sgr0" => self.attr = Attr::default(),
            "bold" => self.attr.style |= BOLD,
            "sitm" => self.attr.style |= ITALIC,
            "ritm" => self.attr.style &= !ITALIC,
            "smul" => self.attr.style |= UNDERLINE,
            "rmul" => self.attr.style &= !UNDERLINE,
            "rev" => self.attr.style |= REVERSE,
            "setaf" | "setab" if args[0] > 7 => self.err(format!("color {} in tag {:?}", args[0], s)),
            "setaf" => self.attr.fg = Some(args[0] as u8),
            "setab" => self.attr.bg = Some(args[0] as u8),
            _ => self.err(format!("unknown tag {:?}", s)),
        }
    }
}
