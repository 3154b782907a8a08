//! What the generated statements evaluate.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::io;

use mortal::{Color, Screen, Style, Terminal, Theme};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::*;

/// A statement, and the documented calls
pub enum F {
    T(fn(&Terminal, &E) -> io::Result<()>, fn(&Terminal, &E) -> io::Result<()>),
    S(fn(&Screen, &E), fn(&Screen, &E)),
}

pub const MARK: char = '§';

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Val {
    pub fg: Option<u8>,
    pub style: u8,
    pub num: i32,
    pub text: String,
    pub flag: bool,
}

pub fn arb_val() -> BoxedStrategy<Val> {
    (arb_ocolor(), arb_style(), prop_oneof![0i32..30, -100_000i32..100_000], arb_text(6), any::<bool>())
        .prop_map(|(fg, style, num, text, flag)| Val { fg, style, num, text, flag }).boxed()
}

pub struct E<'a> {
    vals: &'a [Val],
    pub log: RefCell<Vec<String>>,
    probe: Option<&'a Terminal>,
    /// How often the write lock was free
    pub free: Cell<usize>,
}

#[derive(Debug)]
#[allow(dead_code)]
pub struct Named {
    num: i64,
    text: String,
}

#[derive(Debug)]
pub struct Pair(#[allow(dead_code)] pub Named, pub i64);

/// Formats itself in pieces
pub struct Pieces(String);

impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{}", c)?;
        }
        Ok(())
    }
}

impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.debug_list().entries(self.0.chars()).finish()
    }
}

impl<'a> E<'a> {
    pub fn new(vals: &'a [Val], probe: Option<&'a Terminal>) -> E<'a> {
        E { vals, log: RefCell::default(), probe, free: Cell::new(0) }
    }
    fn val(&self, what: &str, i: usize) -> &Val {
        self.log.borrow_mut().push(format!("{}({})", what, i));
        if let Some(t) = self.probe {
            if let Ok(mut g) = t.try_lock_write() {
                self.free.set(self.free.get() + 1);
                let _ = g.write_char(MARK);
            }
        }
        &self.vals[i]
    }
    pub fn fg(&self, i: usize) -> Option<Color> {
        ocolor(self.val("fg", i).fg)
    }
    pub fn color(&self, i: usize) -> Color {
        color(self.val("color", i).style)
    }
    pub fn style(&self, i: usize) -> Style {
        style(self.val("style", i).style)
    }
    pub fn theme(&self, i: usize) -> Theme {
        let v = self.val("theme", i);
        theme(v.fg, Some(v.style), v.style)
    }
    pub fn text(&self, i: usize) -> String {
        self.val("text", i).text.clone()
    }
    pub fn num(&self, i: usize) -> i64 {
        self.val("num", i).num as i64
    }
    pub fn float(&self, i: usize) -> f64 {
        self.val("float", i).num as f64 / 7.0
    }
    pub fn width(&self, i: usize) -> usize {
        self.val("width", i).style as usize
    }
    pub fn ch(&self, i: usize) -> char {
        self.val("ch", i).text.chars().next().unwrap_or('c')
    }
    pub fn flag(&self, i: usize) -> bool {
        self.val("flag", i).flag
    }
    pub fn pieces(&self, i: usize) -> Pieces {
        Pieces(self.val("pieces", i).text.clone())
    }
    pub fn pair(&self, i: usize) -> Pair {
        let v = self.val("pair", i);
        Pair(Named { num: v.num as i64, text: v.text.clone() }, v.num as i64 + 1)
    }
    pub fn log_recv(&self) {
        self.log.borrow_mut().push("receiver".into());
    }
    /// The receiver given by an expression
    pub fn recv<T>(&self, t: T) -> T {
        self.log_recv();
        t
    }
}
