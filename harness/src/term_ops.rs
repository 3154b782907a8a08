//! Histories of Terminal calls.

use std::io;

use mortal::{Terminal, TerminalWriteGuard};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::*;
use crate::vt::Attr;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TOp {
    SetFg(Option<u8>),
    SetBg(Option<u8>),
    AddStyle(u8),
    RemoveStyle(u8),
    SetStyle(Option<u8>),
    SetTheme(Option<u8>, Option<u8>, u8),
    ClearAttrs,
    Bold,
    Italic,
    Underline,
    Reverse,
    WriteStr(String),
    WriteChar(char),
    WriteFmt(String, u32),
    WriteStyled(Option<u8>, Option<u8>, u8, String),
    Up(u64),
    Down(u64),
    Left(u64),
    Right(u64),
    First,
    ClearScreen,
    ClearEol,
    ClearEos,
    CursorMode(u8),
}

macro_rules! apply_term {
    ($r:expr, $op:expr) => {
        match $op {
            TOp::SetFg(c) => $r.set_fg(ocolor(*c)),
            TOp::SetBg(c) => $r.set_bg(ocolor(*c)),
            TOp::AddStyle(s) => $r.add_style(style(*s)),
            TOp::RemoveStyle(s) => $r.remove_style(style(*s)),
            TOp::SetStyle(s) => $r.set_style(s.map(style)),
            TOp::SetTheme(f, b, s) => $r.set_theme(theme(*f, *b, *s)),
            TOp::ClearAttrs => $r.clear_attributes(),
            TOp::Bold => $r.bold(),
            TOp::Italic => $r.italic(),
            TOp::Underline => $r.underline(),
            TOp::Reverse => $r.reverse(),
            TOp::WriteStr(s) => $r.write_str(s),
            TOp::WriteChar(c) => $r.write_char(*c),
            TOp::WriteFmt(s, n) => write!($r, "{}{:>3}", s, n),
            TOp::WriteStyled(f, b, s, t) => $r.write_styled(ocolor(*f), ocolor(*b), style(*s), t),
            TOp::Up(n) => $r.move_up(*n as usize),
            TOp::Down(n) => $r.move_down(*n as usize),
            TOp::Left(n) => $r.move_left(*n as usize),
            TOp::Right(n) => $r.move_right(*n as usize),
            TOp::First => $r.move_to_first_column(),
            TOp::ClearScreen => $r.clear_screen(),
            TOp::ClearEol => $r.clear_to_line_end(),
            TOp::ClearEos => $r.clear_to_screen_end(),
            TOp::CursorMode(m) => $r.set_cursor_mode(mode(*m)),
        }
    };
}

pub fn on_term(t: &Terminal, op: &TOp) -> io::Result<()> {
    apply_term!(t, op)
}

pub fn on_guard(t: &mut TerminalWriteGuard, op: &TOp) -> io::Result<()> {
    apply_term!(t, op)
}

/// Attributes in effect after a call, and the characters it writes with theirs.
pub fn attr_model(cur: &mut Attr, op: &TOp, out: &mut Vec<(char, Attr)>) {
    match op {
        TOp::SetFg(c) => cur.fg = c.map(|c| c % 8),
        TOp::SetBg(c) => cur.bg = c.map(|c| c % 8),
        TOp::AddStyle(s) => cur.style |= s & 15,
        TOp::RemoveStyle(s) => cur.style &= !s,
        TOp::SetStyle(s) => cur.style = s.unwrap_or(0) & 15,
        TOp::SetTheme(f, b, s) => *cur = attr(*f, *b, *s),
        TOp::ClearAttrs => *cur = Attr::default(),
        TOp::Bold => cur.style |= 1,
        TOp::Italic => cur.style |= 2,
        TOp::Underline => cur.style |= 8,
        TOp::Reverse => cur.style |= 4,
        TOp::WriteStr(s) => out.extend(s.chars().map(|c| (c, *cur))),
        TOp::WriteChar(c) => out.push((*c, *cur)),
        TOp::WriteFmt(s, n) => out.extend(format!("{}{:>3}", s, n).chars().map(|c| (c, *cur))),
        TOp::WriteStyled(f, b, s, t) => {
            let a = attr(*f, *b, *s);
            out.extend(t.chars().map(|c| (c, a)));
            *cur = Attr::default();
        }
        _ => (),
    }
}

/// Counts with interesting sizes
pub fn arb_count() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => Just(0u64), 4 => Just(1u64), 3 => Just(2), 6 => 0u64..14, 2 => 14u64..300, 1 => 300u64..70000,
        1 => prop_oneof![Just(9999u64), Just(65535), Just(65536), Just(32767), Just(32768)],
        2 => prop_oneof![Just(i32::MAX as u64), Just(i32::MAX as u64 + 1), Just(u32::MAX as u64),
            Just(u32::MAX as u64 + 1), Just(u32::MAX as u64 + 2), Just(u64::MAX), Just(i64::MAX as u64), Just(1 << 32 | 3)],
        1 => any::<u64>(),
    ].boxed()
}

pub fn arb_attr_op() -> BoxedStrategy<TOp> {
    prop_oneof![
        2 => arb_ocolor().prop_map(TOp::SetFg),
        2 => arb_ocolor().prop_map(TOp::SetBg),
        2 => arb_style().prop_map(TOp::AddStyle),
        3 => arb_style().prop_map(TOp::RemoveStyle),
        2 => prop::option::of(arb_style()).prop_map(TOp::SetStyle),
        2 => (arb_ocolor(), arb_ocolor(), arb_style()).prop_map(|(a, b, c)| TOp::SetTheme(a, b, c)),
        1 => Just(TOp::ClearAttrs),
        2 => prop_oneof![Just(TOp::Bold), Just(TOp::Italic), Just(TOp::Underline), Just(TOp::Reverse)],
    ].boxed()
}

pub fn arb_text_op(max: usize) -> BoxedStrategy<TOp> {
    let ch = || prop_oneof![6 => prop::char::range('a', 'z'), 1 => Just('漢'), 1 => Just('é'), 1 => Just(' ')];
    let text = move || prop::collection::vec(ch(), 0..=max).prop_map(join);
    prop_oneof![
        3 => text().prop_map(TOp::WriteStr),
        2 => ch().prop_map(TOp::WriteChar),
        1 => (text(), 0u32..2000).prop_map(|(a, b)| TOp::WriteFmt(a, b)),
        3 => (arb_ocolor(), arb_ocolor(), arb_style(), text()).prop_map(|(a, b, c, d)| TOp::WriteStyled(a, b, c, d)),
    ].boxed()
}

pub fn arb_move_op() -> BoxedStrategy<TOp> {
    prop_oneof![
        3 => arb_count().prop_map(TOp::Up),
        3 => arb_count().prop_map(TOp::Down),
        3 => arb_count().prop_map(TOp::Left),
        3 => arb_count().prop_map(TOp::Right),
        2 => Just(TOp::First),
        1 => Just(TOp::ClearScreen),
        2 => Just(TOp::ClearEol),
        2 => Just(TOp::ClearEos),
        2 => (0u8..3).prop_map(TOp::CursorMode),
    ].boxed()
}
