//! Shared generators and value conversions.

use mortal::{Color, CursorMode, PrepareConfig, Signal, SignalSet, Style, Theme};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::vt::Attr;

pub const COLORS: [Color; 8] = [Color::Black, Color::Red, Color::Green, Color::Yellow, Color::Blue,
    Color::Magenta, Color::Cyan, Color::White];

pub fn color(c: u8) -> Color {
    COLORS[c as usize % 8]
}
pub fn ocolor(c: Option<u8>) -> Option<Color> {
    c.map(color)
}
pub fn style(s: u8) -> Style {
    let mut r = Style::empty();
    for (bit, st) in [(1, Style::BOLD), (2, Style::ITALIC), (4, Style::REVERSE), (8, Style::UNDERLINE)] {
        if s & bit != 0 {
            r |= st;
        }
    }
    r
}
pub fn attr(fg: Option<u8>, bg: Option<u8>, st: u8) -> Attr {
    Attr { fg: fg.map(|c| c % 8), bg: bg.map(|c| c % 8), style: st & 15 }
}
pub fn theme(fg: Option<u8>, bg: Option<u8>, st: u8) -> Theme {
    match fg.unwrap_or(8).wrapping_add(bg.unwrap_or(8)).wrapping_add(st) {
        n if n % 4 == 0 => Theme::new(ocolor(fg), ocolor(bg), style(st)),
        n if n % 4 == 1 => Theme::default().fg(ocolor(fg)).style(style(st)).bg(ocolor(bg)),
        n if n % 4 == 2 => {
            let mut t = Theme::default();
            if let Some(c) = fg {
                t = t.fg(color(c));
            }
            if let Some(c) = bg {
                t = t.bg(color(c));
            }
            if st == 0 { t.style(None) } else { t.style(style(st)) }
        }
        _ => Theme { fg: ocolor(fg), bg: ocolor(bg), style: style(st) },
    }
}
pub fn mode(m: u8) -> CursorMode {
    match m % 3 {
        0 => CursorMode::Normal,
        1 => CursorMode::Invisible,
        _ => CursorMode::Overwrite,
    }
}

pub const SIGS: [Signal; 6] = [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize,
    Signal::Suspend, Signal::Quit];

pub fn sigset(bits: u8) -> SignalSet {
    let mut s = SignalSet::new();
    for (i, &g) in SIGS.iter().enumerate() {
        if bits & (1 << i) != 0 {
            s.insert(g);
        }
    }
    s
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Cfg {
    pub block: bool,
    pub flow: bool,
    pub keypad: bool,
    pub mouse: bool,
    pub motion: bool,
    pub sigs: u8,
}

impl Cfg {
    pub fn get(&self) -> PrepareConfig {
        // Only what differs from the documented defaults is set
        let mut c = PrepareConfig::default();
        if !self.block {
            c.block_signals = false;
        }
        if self.flow {
            c.enable_control_flow = true;
        }
        if !self.keypad {
            c.enable_keypad = false;
        }
        if self.mouse {
            c.enable_mouse = true;
        }
        if self.motion {
            c.always_track_motion = true;
        }
        if self.sigs != 0 {
            c.report_signals = sigset(self.sigs);
        }
        c
    }
}

pub fn arb_cfg() -> impl Strategy<Value = Cfg> {
    (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..64)
        .prop_map(|(block, flow, keypad, mouse, motion, sigs)| Cfg { block, flow, keypad, mouse, motion, sigs })
}

pub fn arb_ocolor() -> BoxedStrategy<Option<u8>> {
    prop_oneof![1 => Just(None), 3 => (0u8..8).prop_map(Some)].boxed()
}

pub fn arb_style() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 2 => prop_oneof![Just(1u8), Just(2), Just(4), Just(8)], 3 => 0u8..16].boxed()
}

pub const WIDE: &[char] = &['漢', '字', 'Ｗ', 'あ', '한', '🎉', '\u{3000}'];
pub const MARKS: &[char] = &['\u{301}', '\u{302}', '\u{20dd}', '\u{e31}', '\u{5b0}'];
pub const SPACING: &[char] = &['\u{903}', '\u{93e}', '\u{bc6}', '\u{16ff0}', '\u{16ff1}'];
pub const ZERO: &[char] = &['\u{200d}', '\u{200b}', '\u{fe0f}', '\u{1160}', '\u{feff}'];
pub const CTRL: &[char] = &['\x1b', '\x07', '\x7f', '\x08', '\u{85}', '\u{9b}', '\0', '\x0e'];

fn pick(set: &'static [char]) -> BoxedStrategy<char> {
    (0..set.len()).prop_map(move |i| set[i]).boxed()
}

/// Every character of a class: 0 combining without a column of its own, 1 other characters without
/// a column, 2 two columns, 3 more, 4 combining with a column
pub fn class_of(c: char) -> Option<usize> {
    use unicode_normalization::char::is_combining_mark;
    use unicode_width::UnicodeWidthChar;
    match (c.width().unwrap_or(0), is_combining_mark(c)) {
        (0, true) => Some(0),
        (0, false) => Some(1),
        (1, true) => Some(4),
        (1, false) => None,
        (2, _) => Some(2),
        _ => Some(3),
    }
}

fn classes() -> &'static [Vec<char>; 5] {
    static T: std::sync::OnceLock<[Vec<char>; 5]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t: [Vec<char>; 5] = Default::default();
        for c in '\0'..=char::MAX {
            // Few of the many control characters, tags and ideographs
            if let Some(k) = class_of(c).filter(|_| c != '\t' && c != '\r' && c != '\n') {
                if k != 2 || (c as u32) % 64 == 0 || !('\u{3400}'..='\u{3ffff}').contains(&c) {
                    t[k].push(c);
                }
            }
        }
        t
    })
}

/// All characters that may be laid out in their own way, and some of the many others
pub fn notable_chars() -> Vec<char> {
    let mut v: Vec<char> = classes().iter().flatten().copied().collect();
    v.extend(('\0'..=char::MAX).filter(|&c| class_of(c).is_none() && (c < '\u{3400}' || (c as u32) % 128 == 3)));
    v
}

/// Any character of a class
pub fn arb_of_class(k: usize) -> BoxedStrategy<char> {
    let t = &classes()[k];
    (0..t.len()).prop_map(move |i| t[i]).boxed()
}

/// Characters weighted towards the classes that interact in the layout.
pub fn arb_char() -> BoxedStrategy<char> {
    prop_oneof![
        10 => prop::char::range('a', 'e'),
        2 => Just(' '),
        6 => pick(WIDE),
        4 => prop_oneof![3 => pick(MARKS), 1 => arb_of_class(0)],
        1 => prop_oneof![1 => pick(SPACING), 1 => arb_of_class(4)],
        1 => prop_oneof![2 => pick(ZERO), 1 => arb_of_class(1)],
        1 => pick(CTRL),
        1 => Just('\t'),
        1 => Just('\r'),
        1 => Just('\n'),
        1 => Just('\u{17d8}'),
        1 => prop_oneof![2 => any::<char>(), 1 => arb_of_class(2)],
    ].boxed()
}

pub fn join(v: Vec<char>) -> String {
    v.into_iter().collect()
}

pub fn arb_text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(prop::char::range('a', 'z'), 0..=max.min(12)).prop_map(join),
        2 => vec(prop_oneof![3 => pick(WIDE), 1 => prop::char::range('a', 'c')], 1..=max.min(10)).prop_map(join),
        4 => vec(arb_char(), 0..=max).prop_map(join),
    ].boxed()
}

/// Plain one-column text
pub fn arb_plain(max: usize) -> BoxedStrategy<String> {
    vec(prop_oneof![8 => prop::char::range('a', 'z'), 1 => Just(' ')], 0..=max).prop_map(join).boxed()
}

/// A coordinate relative to a bound: inside, just outside, or far outside.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rel(pub u16);

impl Rel {
    pub fn get(self, bound: usize) -> usize {
        match self.0 {
            65535 => usize::MAX,
            65534 => usize::MAX / 2,
            65000..=65533 => 70_000 + self.0 as usize,
            n => n as usize % (bound + 2),
        }
    }
    pub fn inside(self, bound: usize) -> usize {
        self.0 as usize % bound
    }
}

pub fn arb_rel() -> BoxedStrategy<Rel> {
    prop_oneof![30 => (0u16..64000).prop_map(Rel), 1 => Just(Rel(65535)), 1 => Just(Rel(65534)), 1 => Just(Rel(65100))].boxed()
}

pub fn arb_rel_in() -> BoxedStrategy<Rel> {
    (0u16..64000).prop_map(Rel).boxed()
}

pub fn arb_size() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        8 => (1usize..=5, 1usize..=12),
        1 => (1usize..=2, 1usize..=3),
        1 => (1usize..=12, 10usize..=40),
    ].boxed()
}
