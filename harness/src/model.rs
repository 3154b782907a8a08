//! Reference model of a Screen's content, by the documented layout rules.

use unicode_normalization::char::is_combining_mark;
use unicode_width::UnicodeWidthChar;

use crate::vt::{Attr, Vt};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MCell {
    pub text: String,
    pub attr: Attr,
    /// Columns taken; 0: covered by the character to the left
    pub width: u8,
    /// Blank left over from a wide character: its attributes are not specified
    pub any: bool,
}

impl MCell {
    fn blank() -> MCell {
        MCell { text: " ".into(), attr: Attr::default(), width: 1, any: false }
    }
    fn orphan() -> MCell {
        MCell { any: true, ..MCell::blank() }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub lines: usize,
    pub cols: usize,
    pub cells: Vec<MCell>,
    pub cur: (usize, usize),
    pub attr: Attr,
    /// What happened, for classification
    pub wraps: u32,
    pub fills: u32,
    pub joins: u32,
    pub splits: u32,
    pub stops: u32,
    pub wides: u32,
}

struct Stop;

impl Model {
    pub fn new(lines: usize, cols: usize) -> Model {
        Model {
            lines, cols,
            cells: vec![MCell::blank(); lines * cols],
            cur: (0, 0), attr: Attr::default(),
            wraps: 0, fills: 0, joins: 0, splits: 0, stops: 0, wides: 0,
        }
    }

    fn inside(&self, p: (usize, usize)) -> bool {
        p.0 < self.lines && p.1 < self.cols
    }

    /// First column of the character covering a cell
    fn lead(&self, l: usize, mut c: usize) -> usize {
        while c > 0 && self.cells[l * self.cols + c].width == 0 {
            c -= 1;
        }
        c
    }

    /// Blanks the whole character covering a cell if it is wide.
    fn unwide(&mut self, l: usize, c: usize) {
        let s = self.lead(l, c);
        let w = self.cells[l * self.cols + s].width as usize;
        if w > 1 {
            self.splits += 1;
            for i in s..s + w {
                self.cells[l * self.cols + i] = MCell::orphan();
            }
        }
    }

    fn put(&mut self, ch: char, w: usize) {
        let (l, c) = self.cur;
        for i in c..c + w {
            self.unwide(l, i);
        }
        self.cells[l * self.cols + c] = MCell { text: ch.to_string(), attr: self.attr, width: w as u8, any: false };
        for i in 1..w {
            self.cells[l * self.cols + c + i] = MCell { text: String::new(), attr: self.attr, width: 0, any: false };
        }
        self.cur.1 += w;
        if self.cur.1 >= self.cols {
            self.cur = (l + 1, 0);
            self.wraps += 1;
        }
    }

    fn write(&mut self, ch: char) -> Result<(), Stop> {
        match ch {
            '\t' => {
                if !self.inside(self.cur) {
                    return Err(Stop);
                }
                let stop = ((self.cur.1 / 8 + 1) * 8).min(self.cols);
                for _ in self.cur.1..stop {
                    self.write(' ')?;
                }
                Ok(())
            }
            '\r' => {
                self.cur.1 = 0;
                Ok(())
            }
            '\n' => {
                self.cur = (self.cur.0.saturating_add(1), 0);
                Ok(())
            }
            _ => {
                let w = ch.width().unwrap_or(0);
                if w == 0 {
                    if !is_combining_mark(ch) {
                        return Ok(());
                    }
                    let prev = if self.cur.1 > 0 {
                        (self.cur.0, self.cur.1 - 1)
                    } else if self.cur.0 > 0 {
                        (self.cur.0 - 1, self.cols - 1)
                    } else {
                        return Ok(());
                    };
                    if !self.inside(prev) {
                        return Err(Stop);
                    }
                    let c = self.lead(prev.0, prev.1);
                    self.cells[prev.0 * self.cols + c].text.push(ch);
                    self.joins += 1;
                    return Ok(());
                }
                if !self.inside(self.cur) || w > self.cols {
                    return Err(Stop);
                }
                if w > 1 {
                    self.wides += 1;
                }
                if self.cur.1 + w > self.cols {
                    // Does not fit: the rest of the line is left blank
                    self.fills += 1;
                    for c in self.cur.1..self.cols {
                        self.unwide(self.cur.0, c);
                        self.cells[self.cur.0 * self.cols + c] = MCell::orphan();
                    }
                    self.cur = (self.cur.0 + 1, 0);
                    if !self.inside(self.cur) {
                        return Err(Stop);
                    }
                }
                self.put(ch, w);
                Ok(())
            }
        }
    }

    pub fn write_str(&mut self, s: &str) {
        for ch in s.chars() {
            if self.write(ch).is_err() {
                self.stops += 1;
                break;
            }
        }
    }

    pub fn write_at(&mut self, pos: (usize, usize), s: &str) {
        if self.inside(pos) {
            self.cur = pos;
            self.write_str(s);
        }
    }

    pub fn write_styled(&mut self, attr: Attr, s: &str) {
        self.attr = attr;
        self.write_str(s);
        self.attr = Attr::default();
    }

    pub fn write_styled_at(&mut self, pos: (usize, usize), attr: Attr, s: &str) {
        if self.inside(pos) {
            self.cur = pos;
            self.write_styled(attr, s);
        }
    }

    pub fn clear_screen(&mut self) {
        for c in self.cells.iter_mut() {
            *c = MCell::blank();
        }
    }

    pub fn next_line(&mut self, col: usize) {
        self.cur = (self.cur.0.saturating_add(1), col);
    }

    pub fn resize(&mut self, lines: usize, cols: usize) {
        let mut cells = vec![MCell::blank(); lines * cols];
        for l in 0..lines.min(self.lines) {
            let mut c = 0;
            while c < cols.min(self.cols) {
                let w = (self.cells[l * self.cols + c].width as usize).max(1);
                for i in c..(c + w).min(cols) {
                    cells[l * cols + i] = if c + w <= cols {
                        self.cells[l * self.cols + i].clone()
                    } else {
                        MCell::orphan()
                    };
                }
                c += w;
            }
        }
        self.lines = lines;
        self.cols = cols;
        self.cells = cells;
    }

    /// Compares the reference terminal with this model. `mask` tells what the terminal type
    /// can display.
    pub fn compare(&self, vt: &Vt, mask: &Mask) -> Result<(), String> {
        self.compare_display(vt, mask)?;
        let want = if self.inside(self.cur) { self.cur } else { (self.lines - 1, self.cols - 1) };
        if vt.cur != want || vt.pending {
            return Err(format!("cursor is at {:?}{}, should be at {:?}", vt.cur,
                if vt.pending { " (wrap pending)" } else { "" }, want));
        }
        Ok(())
    }

    pub fn compare_display(&self, vt: &Vt, mask: &Mask) -> Result<(), String> {
        if !vt.errors.is_empty() {
            return Err(format!("terminal received garbage: {:?}", vt.errors));
        }
        if vt.mid() {
            return Err("output ends inside a sequence".into());
        }
        if vt.scrolls != 0 {
            return Err("the display was scrolled".into());
        }
        if (vt.lines, vt.cols) != (self.lines, self.cols) {
            return Err(format!("harness: size {:?} vs model {:?}", (vt.lines, vt.cols), (self.lines, self.cols)));
        }
        for l in 0..self.lines {
            for c in 0..self.cols {
                let m = &self.cells[l * self.cols + c];
                let v = vt.cell(l, c);
                let attr = mask.apply(m.attr);
                let same_text = if m.width == 0 { v.width == 0 } else { v.text == m.text && v.width == m.width };
                if !same_text || (!m.any && v.attr != attr) {
                    return Err(format!(
                        "cell ({}, {}) shows {:?}/{} {:?}, should show {:?}/{} {:?}\n shown line: {:?}",
                        l, c, v.text, v.width, v.attr, m.text, m.width, attr, vt.line_text(l)));
                }
            }
        }
        Ok(())
    }
}

/// What a terminal type can display
#[derive(Clone, Debug)]
pub struct Mask {
    pub fg: bool,
    pub bg: bool,
    pub style: u8,
}

impl Mask {
    pub fn all() -> Mask {
        Mask { fg: true, bg: true, style: 15 }
    }
    pub fn apply(&self, a: Attr) -> Attr {
        Attr {
            fg: if self.fg { a.fg } else { None },
            bg: if self.bg { a.bg } else { None },
            style: a.style & self.style,
        }
    }
}
