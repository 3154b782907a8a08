//! Histories of Screen calls, applied to the real thing and to the model.

use mortal::{Screen, ScreenWriteGuard};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::*;
use crate::model::Model;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    SetCursor(Rel, Rel),
    NextLine(Rel),
    ClearScreen,
    ClearAttrs,
    AddStyle(u8),
    RemoveStyle(u8),
    SetStyle(Option<u8>),
    SetFg(Option<u8>),
    SetBg(Option<u8>),
    SetTheme(Option<u8>, Option<u8>, u8),
    Bold,
    Italic,
    Underline,
    Reverse,
    WriteChar(char),
    WriteStr(String),
    WriteFmt(String, u32),
    WriteAt(Rel, Rel, String),
    WriteStyled(Option<u8>, Option<u8>, u8, String),
    WriteStyledAt(Rel, Rel, Option<u8>, Option<u8>, u8, String),
    /// Fills the whole screen from the first cell with one character
    Fill(char, Option<u8>, u8),
    CursorMode(u8),
    Refresh,
    /// Calls through a write guard, which is then dropped
    Guard(Vec<SOp>),
}

impl SOp {
    pub fn writes(&self) -> bool {
        matches!(self, SOp::WriteChar(_) | SOp::WriteStr(_) | SOp::WriteFmt(..) | SOp::WriteAt(..)
            | SOp::WriteStyled(..) | SOp::WriteStyledAt(..) | SOp::Fill(..))
    }
}

/// Applies one call (not Refresh / Guard / CursorMode) to a receiver.
macro_rules! apply_draw {
    ($r:expr, $op:expr, $lines:expr, $cols:expr) => {
        match $op {
            SOp::SetCursor(l, c) => $r.set_cursor((l.get($lines), c.get($cols))),
            SOp::NextLine(c) => $r.next_line(c.get($cols)),
            SOp::ClearScreen => $r.clear_screen(),
            SOp::ClearAttrs => $r.clear_attributes(),
            SOp::AddStyle(s) => $r.add_style(style(*s)),
            SOp::RemoveStyle(s) => $r.remove_style(style(*s)),
            SOp::SetStyle(s) => $r.set_style(s.map(style)),
            SOp::SetFg(c) => $r.set_fg(ocolor(*c)),
            SOp::SetBg(c) => $r.set_bg(ocolor(*c)),
            SOp::SetTheme(f, b, s) => $r.set_theme(theme(*f, *b, *s)),
            SOp::Bold => $r.bold(),
            SOp::Italic => $r.italic(),
            SOp::Underline => $r.underline(),
            SOp::Reverse => $r.reverse(),
            SOp::WriteChar(c) => $r.write_char(*c),
            SOp::WriteStr(s) => $r.write_str(s),
            SOp::WriteFmt(s, n) => write!($r, "{}{:>3}", s, n),
            SOp::WriteAt(l, c, s) => $r.write_at((l.get($lines), c.get($cols)), s),
            SOp::WriteStyled(f, b, st, s) => $r.write_styled(ocolor(*f), ocolor(*b), style(*st), s),
            SOp::WriteStyledAt(l, c, f, b, st, s) =>
                $r.write_styled_at((l.get($lines), c.get($cols)), ocolor(*f), ocolor(*b), style(*st), s),
            SOp::Fill(ch, f, st) => {
                let n = $lines * $cols;
                let s: String = std::iter::repeat(*ch).take(n).collect();
                $r.write_styled_at((0, 0), ocolor(*f), None, style(*st), &s)
            }
            SOp::CursorMode(_) | SOp::Refresh | SOp::Guard(_) => unreachable!(),
        }
    };
}

pub fn draw_screen(r: &Screen, op: &SOp) {
    let s = r.size();
    apply_draw!(r, op, s.lines, s.columns)
}

pub fn draw_guard(r: &mut ScreenWriteGuard, op: &SOp) {
    let s = r.size();
    apply_draw!(r, op, s.lines, s.columns)
}

pub fn draw_model(m: &mut Model, op: &SOp) {
    let (lines, cols) = (m.lines, m.cols);
    match op {
        SOp::SetCursor(l, c) => m.cur = (l.get(lines), c.get(cols)),
        SOp::NextLine(c) => m.next_line(c.get(cols)),
        SOp::ClearScreen => m.clear_screen(),
        SOp::ClearAttrs => m.attr = Default::default(),
        SOp::AddStyle(s) => m.attr.style |= s & 15,
        SOp::RemoveStyle(s) => m.attr.style &= !s,
        SOp::SetStyle(s) => m.attr.style = s.unwrap_or(0) & 15,
        SOp::SetFg(c) => m.attr.fg = c.map(|c| c % 8),
        SOp::SetBg(c) => m.attr.bg = c.map(|c| c % 8),
        SOp::SetTheme(f, b, s) => m.attr = attr(*f, *b, *s),
        SOp::Bold => m.attr.style |= 1,
        SOp::Italic => m.attr.style |= 2,
        SOp::Underline => m.attr.style |= 8,
        SOp::Reverse => m.attr.style |= 4,
        SOp::WriteChar(c) => m.write_str(c.encode_utf8(&mut [0; 4])),
        SOp::WriteStr(s) => m.write_str(s),
        SOp::WriteFmt(s, n) => m.write_str(&format!("{}{:>3}", s, n)),
        SOp::WriteAt(l, c, s) => m.write_at((l.get(lines), c.get(cols)), s),
        SOp::WriteStyled(f, b, st, s) => m.write_styled(attr(*f, *b, *st), s),
        SOp::WriteStyledAt(l, c, f, b, st, s) =>
            m.write_styled_at((l.get(lines), c.get(cols)), attr(*f, *b, *st), s),
        SOp::Fill(ch, f, st) => {
            let s: String = std::iter::repeat(*ch).take(lines * cols).collect();
            m.write_styled_at((0, 0), attr(*f, None, *st), &s)
        }
        SOp::CursorMode(_) | SOp::Refresh | SOp::Guard(_) => (),
    }
}

pub fn arb_draw(text: usize) -> BoxedStrategy<SOp> {
    let t = move || arb_text(text);
    prop_oneof![
        4 => (arb_rel(), arb_rel()).prop_map(|(a, b)| SOp::SetCursor(a, b)),
        1 => arb_rel().prop_map(SOp::NextLine),
        1 => Just(SOp::ClearScreen),
        1 => Just(SOp::ClearAttrs),
        1 => arb_style().prop_map(SOp::AddStyle),
        1 => arb_style().prop_map(SOp::RemoveStyle),
        1 => prop::option::of(arb_style()).prop_map(SOp::SetStyle),
        1 => arb_ocolor().prop_map(SOp::SetFg),
        1 => arb_ocolor().prop_map(SOp::SetBg),
        1 => (arb_ocolor(), arb_ocolor(), arb_style()).prop_map(|(a, b, c)| SOp::SetTheme(a, b, c)),
        1 => prop_oneof![Just(SOp::Bold), Just(SOp::Italic), Just(SOp::Underline), Just(SOp::Reverse)],
        3 => arb_char().prop_map(SOp::WriteChar),
        6 => t().prop_map(SOp::WriteStr),
        1 => (t(), 0u32..2000).prop_map(|(a, b)| SOp::WriteFmt(a, b)),
        6 => (arb_rel(), arb_rel(), t()).prop_map(|(a, b, c)| SOp::WriteAt(a, b, c)),
        3 => (arb_ocolor(), arb_ocolor(), arb_style(), t()).prop_map(|(a, b, c, d)| SOp::WriteStyled(a, b, c, d)),
        4 => (arb_rel(), arb_rel(), arb_ocolor(), arb_ocolor(), arb_style(), t())
            .prop_map(|(x, y, a, b, c, d)| SOp::WriteStyledAt(x, y, a, b, c, d)),
        1 => (prop_oneof![2 => prop::char::range('a', 'd'), 1 => Just('漢')], arb_ocolor(), arb_style())
            .prop_map(|(c, f, s)| SOp::Fill(c, f, s)),
    ].boxed()
}

/// Histories in which about one call in `1/refresh` is a refresh.
pub fn arb_history(max: usize, text: usize, refresh: u32) -> BoxedStrategy<Vec<SOp>> {
    let inner = prop_oneof![
        8 => arb_draw(text),
        1 => Just(SOp::Refresh),
        1 => (0u8..3).prop_map(SOp::CursorMode),
    ];
    vec(prop_oneof![
        24 => arb_draw(text),
        refresh => Just(SOp::Refresh),
        1 => (0u8..3).prop_map(SOp::CursorMode),
        2 => vec(inner, 0..6).prop_map(SOp::Guard),
    ], 0..=max).boxed()
}
