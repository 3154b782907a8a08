//! C10 keys, C11 mouse, C12 conservation of input, C13 waiting and timeouts.

use std::collections::BTreeMap;
use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Key, ModifierState, MouseButton, MouseInput, PrepareConfig, PrepareState, Screen, ScreenReadGuard, SignalSet, Terminal,
    TerminalReadGuard};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use terminfo::{capability as cap, Database};

use crate::dev::Session;
use crate::engine::*;
use crate::sim::{self, Item, Sim, What};
use crate::ti;

// ---------------------------------------------------------------------------
// Reference decoder

/// Key capabilities and what they mean
pub const KEY_CAPS: &[(&str, Key)] = &[
    ("kcuu1", Key::Up), ("kcud1", Key::Down), ("kcub1", Key::Left), ("kcuf1", Key::Right),
    ("khome", Key::Home), ("kend", Key::End), ("kpp", Key::PageUp), ("knp", Key::PageDown),
    ("kdch1", Key::Delete), ("kich1", Key::Insert),
    ("kf1", Key::F(1)), ("kf2", Key::F(2)), ("kf3", Key::F(3)), ("kf4", Key::F(4)), ("kf5", Key::F(5)), ("kf6", Key::F(6)),
    ("kf7", Key::F(7)), ("kf8", Key::F(8)), ("kf9", Key::F(9)), ("kf10", Key::F(10)), ("kf11", Key::F(11)), ("kf12", Key::F(12)),
];

#[derive(Clone, Debug, Default)]
pub struct Keys {
    /// sequence, keys it can mean
    pub seqs: Vec<(Vec<u8>, Vec<Key>)>,
    pub xterm: bool,
}

impl Keys {
    fn add(&mut self, seq: &[u8], key: Key) {
        match self.seqs.iter_mut().find(|s| s.0 == seq) {
            Some(s) => s.1.push(key),
            None => self.seqs.push((seq.to_vec(), vec![key])),
        }
    }
    pub fn of_real(t: &ti::TermType) -> Keys {
        let db = Database::from_name(t.name).expect("terminfo");
        let mut k = Keys { seqs: Vec::new(), xterm: t.xterm };
        macro_rules! add {
            ($($cap:ident $key:expr),* $(,)?) => { $( if let Some(s) = db.get::<cap::$cap>() { k.add(s.as_ref(), $key); } )* }
        }
        add!(KeyUp Key::Up, KeyDown Key::Down, KeyLeft Key::Left, KeyRight Key::Right, KeyHome Key::Home, KeyEnd Key::End,
            KeyPPage Key::PageUp, KeyNPage Key::PageDown, KeyDc Key::Delete, KeyIc Key::Insert,
            KeyF1 Key::F(1), KeyF2 Key::F(2), KeyF3 Key::F(3), KeyF4 Key::F(4), KeyF5 Key::F(5), KeyF6 Key::F(6),
            KeyF7 Key::F(7), KeyF8 Key::F(8), KeyF9 Key::F(9), KeyF10 Key::F(10), KeyF11 Key::F(11), KeyF12 Key::F(12));
        k
    }
    pub fn of_custom(desc: &Desc) -> Keys {
        let mut k = Keys { seqs: Vec::new(), xterm: desc.xterm() };
        if let Desc::Custom { keys, .. } = desc {
            for (c, s) in keys.iter() {
                let (name, key) = KEY_CAPS[*c as usize % KEY_CAPS.len()];
                // A later definition of the same capability replaces an earlier one
                if keys.iter().rev().find(|x| KEY_CAPS[x.0 as usize % KEY_CAPS.len()].0 == name).unwrap().1 == *s {
                    k.add(s.as_bytes(), key);
                }
            }
        }
        k
    }
}

/// An event that the reference allows
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Keys(Vec<Key>),
    /// `input: None`: any
    Mouse { line: usize, column: usize, mods: u8, input: Option<MouseInput> },
}

impl Want {
    pub fn allows(&self, ev: &Event) -> bool {
        match (self, ev) {
            (Want::Keys(k), Event::Key(e)) => k.contains(e),
            (Want::Mouse { line, column, mods, input }, Event::Mouse(m)) => {
                m.position == Cursor { line: *line, column: *column }
                    && m.modifiers == mods_of(*mods)
                    && input.map_or(true, |i| i == m.input)
            }
            _ => false,
        }
    }
}

/// Bits of the report: 4 shift, 8 alt, 16 ctrl
fn mods_of(b: u8) -> ModifierState {
    let mut m = ModifierState::empty();
    if b & 4 != 0 {
        m |= ModifierState::SHIFT;
    }
    if b & 8 != 0 {
        m |= ModifierState::ALT;
    }
    if b & 16 != 0 {
        m |= ModifierState::CTRL;
    }
    m
}

fn char_key(c: char) -> Key {
    match c {
        '\x1b' => Key::Escape,
        '\x7f' => Key::Backspace,
        '\r' | '\n' => Key::Enter,
        '\t' => Key::Tab,
        '\0'..='\x1f' => Key::Ctrl(((c as u8) + 0x40).to_ascii_lowercase() as char),
        c => Key::Char(c),
    }
}

/// A complete valid mouse report at the start of `s`, and its length
pub fn mouse(s: &[u8]) -> Option<(Want, usize)> {
    let body = s.strip_prefix(b"\x1b[<")?;
    let end = body.iter().position(|b| !b.is_ascii_digit() && *b != b';')?;
    let press = match body[end] {
        b'M' => true,
        b'm' => false,
        _ => return None,
    };
    let text = std::str::from_utf8(&body[..end]).ok()?;
    let parts: Vec<&str> = text.split(';').collect();
    if parts.len() != 3 {
        return None;
    }
    let num = |p: &str| -> Option<u32> { p.parse::<u32>().ok() };
    let (code, col, line) = (num(parts[0])?, num(parts[1])?, num(parts[2])?);
    if col == 0 || line == 0 {
        return None;
    }
    let base = code & !28;
    let b = |b: MouseButton| if press { MouseInput::ButtonPressed(b) } else { MouseInput::ButtonReleased(b) };
    let input = match (base, press) {
        (0, _) => Some(b(MouseButton::Left)),
        (1, _) => Some(b(MouseButton::Middle)),
        (2, _) => Some(b(MouseButton::Right)),
        (3, _) => Some(b(MouseButton::Other(3))),
        // Some terminals end reports of motion without a button with `m`
        (32..=35, _) => Some(MouseInput::Motion),
        (64, _) => Some(MouseInput::WheelUp),
        (65, _) => Some(MouseInput::WheelDown),
        _ => None,
    };
    Some((Want::Mouse { line: line as usize - 1, column: col as usize - 1, mods: (code & 28) as u8, input }, 3 + end + 1))
}

pub enum Step {
    One(Want, usize),
    /// Nothing, or only the beginning of a character
    Partial,
    Invalid,
}

fn first_char(s: &[u8]) -> Result<Option<char>, ()> {
    let n = s.len().min(4);
    match std::str::from_utf8(&s[..n]) {
        Ok(t) => Ok(t.chars().next()),
        Err(e) if e.valid_up_to() > 0 => Ok(std::str::from_utf8(&s[..e.valid_up_to()]).unwrap().chars().next()),
        Err(e) if e.error_len().is_none() => Ok(None),
        Err(_) => Err(()),
    }
}

/// The event at the start of `s`, all of which is available
pub fn decode(s: &[u8], keys: &Keys) -> Step {
    if keys.xterm {
        if let Some((w, n)) = mouse(s) {
            return Step::One(w, n);
        }
    }
    if let Some((seq, k)) = keys.seqs.iter().filter(|k| s.starts_with(&k.0)).max_by_key(|k| k.0.len()) {
        return Step::One(Want::Keys(k.clone()), seq.len());
    }
    match first_char(s) {
        Ok(Some(c)) => Step::One(Want::Keys(vec![char_key(c)]), c.len_utf8()),
        Ok(None) => Step::Partial,
        Err(()) => Step::Invalid,
    }
}

// ---------------------------------------------------------------------------
// Descriptions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Desc {
    Real(u8),
    Custom { xterm: bool, keys: Vec<(u8, String)> },
}

impl Desc {
    fn xterm(&self) -> bool {
        match self {
            Desc::Real(i) => ti::real(*i).xterm,
            Desc::Custom { xterm, .. } => *xterm,
        }
    }
    pub fn keys(&self) -> Keys {
        match self {
            Desc::Real(i) => Keys::of_real(ti::real(*i)),
            c => Keys::of_custom(c),
        }
    }
    /// Makes the description available; its name
    pub fn setup(&self) -> &'static str {
        match self {
            Desc::Real(i) => {
                ti::uninstall();
                ti::real(*i).name
            }
            Desc::Custom { xterm, keys } => {
                let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
                for (c, s) in keys {
                    m.insert(KEY_CAPS[*c as usize % KEY_CAPS.len()].0.to_owned(), s.clone().into_bytes());
                }
                for (n, v) in [("cup", "\x1b[%i%p1%d;%p2%dH"), ("clear", "\x1b[H\x1b[2J"), ("cnorm", "\x1b[?25h"),
                        ("kbs", "\x08"), ("kf13", "\x1bz")] {
                    m.insert(n.into(), v.as_bytes().to_vec());
                }
                let name = if *xterm { "xterm-vpgen" } else { "vpgen" };
                ti::install(name, &m);
                name
            }
        }
    }
}

const SEQ_ALPHA: &[char] = &['\x1b', 'O', '[', 'A', '1', '2', '~', 'a', '\x01', '\t', ';'];

fn arb_seq() -> BoxedStrategy<String> {
    let tail = || vec((0..SEQ_ALPHA.len()).prop_map(|i| SEQ_ALPHA[i]), 0..5);
    prop_oneof![
        6 => tail().prop_map(|t| format!("\x1b{}", t.into_iter().collect::<String>())),
        3 => tail().prop_map(|t| format!("\x1b[{}", t.into_iter().collect::<String>())),
        2 => (1usize..5).prop_map(|n| "\x1b[11111"[..n + 1].to_owned()),
        2 => tail().prop_filter("empty", |t| !t.is_empty()).prop_map(|t| t.into_iter().collect()),
        1 => prop_oneof![8usize..40, 40usize..300].prop_map(|n| format!("\x1b[{}~", "2".repeat(n))),
        // One character; some terminals have such keys
        1 => (1u8..128).prop_map(|c| (c as char).to_string()),
        1 => prop_oneof![Just("\x7f"), Just("\x08"), Just("\r"), Just("\n"), Just("\t"), Just("\x1b"), Just(" ")].prop_map(str::to_owned),
        1 => vec(1u8..128, 1..7).prop_map(|v| v.into_iter().map(|c| c as char).collect()),
    ].boxed()
}

fn arb_desc(xterm: BoxedStrategy<bool>) -> BoxedStrategy<Desc> {
    (xterm, vec((0u8..22, arb_seq()), 0..14)).prop_map(|(xterm, keys)| Desc::Custom { xterm, keys }).boxed()
}

// ---------------------------------------------------------------------------
// Input pieces

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Piece {
    /// The n-th key sequence of the description
    Key(u8),
    /// The beginning of one
    Part(u8, u8),
    Text(String),
    Mouse { code: u32, col: u32, line: u32, end: char },
    Bytes(Vec<u8>),
}

impl Piece {
    pub fn put(&self, keys: &Keys, out: &mut Vec<u8>) {
        let key = |n: u8| if keys.seqs.is_empty() { b"\x1b[A".to_vec() } else { keys.seqs[n as usize % keys.seqs.len()].0.clone() };
        match self {
            Piece::Key(n) => out.extend(key(*n)),
            Piece::Part(n, k) => {
                let s = key(*n);
                out.extend(&s[..*k as usize % s.len()]);
            }
            Piece::Text(t) => out.extend(t.as_bytes()),
            Piece::Mouse { code, col, line, end } => out.extend(format!("\x1b[<{};{};{}{}", code, col, line, end).as_bytes()),
            Piece::Bytes(b) => out.extend(b),
        }
    }
}

fn arb_in_text() -> BoxedStrategy<String> {
    let c = prop_oneof![
        6 => prop::char::range(' ', '~'),
        2 => (0..SEQ_ALPHA.len()).prop_map(|i| SEQ_ALPHA[i]),
        2 => (0u8..33).prop_map(|i| if i == 32 { '\x7f' } else { i as char }),
        2 => prop_oneof![Just('é'), Just('漢'), Just('🎉'), Just('\u{301}'), Just('\u{80}'), Just('\u{7ff}'), Just('\u{800}'), Just('\u{ffff}'), Just('\u{10ffff}')],
        1 => any::<char>(),
    ];
    vec(c, 1..6).prop_map(|v| v.into_iter().collect()).boxed()
}

const CODES: &[u32] = &[0, 1, 2, 3, 32, 33, 34, 35, 64, 65];

fn arb_mouse() -> BoxedStrategy<Piece> {
    let coord = || prop_oneof![8 => 1u32..300, 1 => Just(1u32), 1 => Just(u32::MAX), 1 => 1u32..100_000];
    (0..CODES.len(), 0u32..8, coord(), coord(), any::<bool>()).prop_map(|(c, m, col, line, press)| {
        let code = CODES[c];
        Piece::Mouse { code: code | m << 2, col, line, end: if press { 'M' } else { 'm' } }
    }).boxed()
}

/// Things that look like mouse reports
fn arb_bad_mouse() -> BoxedStrategy<Piece> {
    let n = || prop_oneof![
        3 => (0u32..300).prop_map(|n| n.to_string()), 2 => Just("0".to_owned()), 1 => Just("4294967296".to_owned()),
        1 => Just("99999999999999999999".to_owned()), 1 => Just("00000000001".to_owned()), 1 => Just("-1".to_owned()),
        1 => Just("é".to_owned()), 1 => Just("+1".to_owned())];
    let code = prop_oneof![6 => (0..CODES.len()).prop_map(|i| CODES[i].to_string()), 1 => n(), 1 => Just("x".to_owned())];
    let sep = || prop_oneof![8 => Just(';'), 1 => Just(':'), 1 => Just(','), 1 => Just('M')];
    let end = prop_oneof![6 => Just("M"), 3 => Just("m"), 1 => Just("x"), 1 => Just(""), 1 => Just(";"), 1 => Just(";1M"), 1 => Just("\x1b[A")];
    let many = (0u8..3, 10usize..300, prop_oneof![Just("M"), Just("m"), Just(""), Just("x"), Just(";1M"), Just("\x1b[A")]).prop_map(|(k, n, e)| {
        let z = "0".repeat(n);
        Piece::Bytes(match k {
            0 => format!("\x1b[<{}0;{}12;{}3{}", z, &z[n / 2..], &z[n / 3..], e),
            1 => format!("\x1b[<{}{}", "7".repeat(n), e),
            _ => format!("\x1b[<0;3;{}{}", "1".repeat(n), e),
        }.into_bytes())
    });
    let plain = (code, sep(), n(), sep(), n(), end, 0u8..14).prop_map(|(a, s, b, t, c, e, cut)| {
        let mut r = format!("\x1b[<{}{}{}{}{}{}", a, s, b, t, c, e).into_bytes();
        if cut < 3 {
            // Cut short
            let l = r.len();
            r.truncate(3 + (l - 3) * cut as usize / 3);
        }
        Piece::Bytes(r)
    });
    prop_oneof![9 => plain, 1 => many].boxed()
}

/// A report must have a button number
fn no_button(s: &[u8]) -> bool {
    s.windows(4).any(|w| w == b"\x1b[<;")
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct KeyCase {
    desc: Desc,
    /// Each burst arrives at once, after the events of the previous one were read
    bursts: Vec<Vec<Piece>>,
    /// Most bytes that one device read returns (0: no limit)
    max_read: u8,
    wait: bool,
}

fn bursts(case: &KeyCase, keys: &Keys) -> Vec<Vec<u8>> {
    case.bursts.iter().map(|b| {
        let mut out = Vec::new();
        for p in b {
            p.put(keys, &mut out);
        }
        out
    }).collect()
}

/// Feeds the bursts and compares the events with the reference decoder's.
fn check_decoding(case: &KeyCase, info: &mut Info) -> Result<(u32, u32), String> {
    let keys = case.desc.keys();
    let name = case.desc.setup();
    let s = Session::new(name, 24, 80, Sim { max_read: case.max_read as usize, ..Sim::default() });
    let term = s.terminal().map_err(|e| format!("open: {}", e))?;
    ti::uninstall();
    let mut rest: Vec<u8> = Vec::new();
    let (mut specials, mut contested) = (0, 0);
    for (bi, b) in bursts(case, &keys).into_iter().enumerate() {
        if no_button(&b) {
            return Ok((0, 0));
        }
        sim::with(|s| {
            s.avail.extend(&b);
            s.delivered += b.len() as u64;
        });
        rest.extend(b);
        let mut pos = 0;
        loop {
            let want = decode(&rest[pos..], &keys);
            if case.wait {
                let w = term.wait_event(Some(Duration::from_secs(0)));
                match &want {
                    Step::One(..) => if !matches!(w, Ok(true)) {
                        return Err(format!("wait_event gives {:?} although {:?} remains", w, String::from_utf8_lossy(&rest[pos..])));
                    },
                    _ => (),
                }
            }
            let got = term.read_event(Some(Duration::from_secs(0)));
            let shown = || format!("burst {} at byte {}: {:?}", bi, pos, String::from_utf8_lossy(&rest[pos..rest.len().min(pos + 60)]));
            match (want, got) {
                (Step::One(w, n), Ok(Some(ev))) if w.allows(&ev) => {
                    if n > 1 && matches!(w, Want::Keys(_)) && rest[pos].is_ascii() {
                        specials += 1;
                        // Other ways to read this were possible
                        if keys.seqs.iter().filter(|k| rest[pos..].starts_with(&k.0)).count() > 1 {
                            contested += 1;
                        }
                    }
                    if let Want::Mouse { .. } = w {
                        specials += 1;
                    }
                    info.class_if(pos < 128 && pos + n > 128, "sequence across the 128-byte read boundary");
                    pos += n;
                }
                (Step::One(w, _), got) => return Err(format!("{}: read {:?}, should be {:?}; type {}", shown(), got, w, name)),
                (Step::Partial, Ok(None)) => break,
                (Step::Partial, got) => return Err(format!("{}: read {:?}, should be none", shown(), got)),
                (Step::Invalid, _) => return Ok((specials, contested)),
            }
        }
        rest.drain(..pos);
    }
    Ok((specials, contested))
}

pub struct C10;

impl Prop for C10 {
    type Case = KeyCase;
    const ID: &'static str = "C10";
    const TIMES: u32 = 4;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a terminal description (real, or generated with key sequences that are prefixes of each other) and \
        bursts of input made of its key sequences, beginnings of them, text and control characters, placed across the 128-byte internal read \
        size and delivered by reads of limited size; each event is compared with that of a longest-match decoder over all available input; \
        non-trivial if a multi-byte key was decoded and, for generated descriptions, a shorter match was also possible";
    fn assumptions() -> Vec<&'static str> {
        vec!["if two capabilities have the same sequence, either key may be reported", "key sequences are ASCII"]
    }
    fn lanes() -> Vec<Lane<KeyCase>> {
        fn case(desc: BoxedStrategy<Desc>, pad: bool) -> BoxedStrategy<KeyCase> {
            let piece = prop_oneof![
                6 => any::<u8>().prop_map(Piece::Key),
                3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Piece::Part(a, b)),
                4 => arb_in_text().prop_map(Piece::Text),
            ];
            let burst = vec(piece, 0..8);
            let bursts = if pad {
                (100u8..140, vec(burst, 1..3)).prop_map(|(n, mut b)| {
                    b[0].insert(0, Piece::Text("x".repeat(n as usize)));
                    b
                }).boxed()
            } else {
                vec(burst, 1..4).boxed()
            };
            (desc, bursts, prop_oneof![4 => Just(0u8), 1 => 1u8..10, 1 => 60u8..130], any::<bool>())
                .prop_map(|(desc, bursts, max_read, wait)| KeyCase { desc, bursts, max_read, wait }).boxed()
        }
        let real = || (0u8..11).prop_map(Desc::Real).boxed();
        let custom = || arb_desc(Just(false).boxed());
        vec![
            lane("real", 30_000, 500_000, case(real(), false)),
            lane("real, long", 15_000, 300_000, case(real(), true)),
            lane("custom", 60_000, 1_000_000, case(custom(), false)),
            lane("custom, long", 15_000, 500_000, case(custom(), true)),
        ]
    }
    fn run(case: &KeyCase) -> CaseResult {
        let mut info = Info::default();
        let (specials, contested) = check_decoding(case, &mut info)?;
        info.nontrivial = match case.desc {
            Desc::Real(_) => specials > 0,
            Desc::Custom { .. } => contested > 0,
        };
        info.class_if(case.max_read != 0, "limited reads");
        Ok(info)
    }
}

pub struct C11;

impl Prop for C11 {
    type Case = KeyCase;
    const ID: &'static str = "C11";
    const TIMES: u32 = 4;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a terminal type (xterm-like or not, real or generated) and bursts of valid and malformed mouse \
        reports, keys and text, also across the internal read size and with limited reads; each event is compared with a reference decoder's; \
        non-trivial if a mouse report or a malformed one was met";
    fn assumptions() -> Vec<&'static str> {
        vec!["reports have a button number; button codes are 0-3, 32-35, 64, 65 with any modifiers (others may map to any mouse action)"]
    }
    fn lanes() -> Vec<Lane<KeyCase>> {
        fn case(pad: bool) -> BoxedStrategy<KeyCase> {
            let piece = || prop_oneof![
                6 => arb_mouse(),
                4 => arb_bad_mouse(),
                1 => any::<u8>().prop_map(Piece::Key),
                1 => arb_in_text().prop_map(Piece::Text),
            ];
            let desc = prop_oneof![
                6 => (0u8..2).prop_map(Desc::Real),
                2 => (2u8..11).prop_map(Desc::Real),
                2 => arb_desc(any::<bool>().boxed()),
            ];
            let burst = vec(piece(), 0..6);
            let bursts = if pad {
                (100u8..140, vec(burst, 1..3)).prop_map(|(n, mut b)| {
                    b[0].insert(0, Piece::Text("x".repeat(n as usize)));
                    b
                }).boxed()
            } else {
                vec(burst, 1..4).boxed()
            };
            (desc, bursts, prop_oneof![4 => Just(0u8), 1 => 1u8..10, 1 => 60u8..130], any::<bool>())
                .prop_map(|(desc, bursts, max_read, wait)| KeyCase { desc, bursts, max_read, wait }).boxed()
        }
        vec![
            lane("reports", 80_000, 1_500_000, case(false)),
            lane("long", 30_000, 500_000, case(true)),
        ]
    }
    fn run(case: &KeyCase) -> CaseResult {
        let mut info = Info::default();
        check_decoding(case, &mut info)?;
        let any = |f: &dyn Fn(&Piece) -> bool| case.bursts.iter().flatten().any(|p| f(p));
        let valid = any(&|p| matches!(p, Piece::Mouse { .. }));
        let bad = any(&|p| matches!(p, Piece::Bytes(_)));
        info.class_if(valid, "valid reports");
        info.class_if(bad, "malformed reports");
        info.class_if(!case.desc.xterm(), "not xterm-like");
        info.nontrivial = valid || bad;
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ROp {
    /// timeout in ms
    Event(u16),
    Wait(u16),
    Raw(u8, u16),
    /// A nested preparation, with mouse and keypad modes by its bits
    Prepare(u8),
    /// Ends the last of these
    Restore,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FlowCase {
    desc: Desc,
    /// (delay in ms since the previous, cut after n bytes of the total input)
    input: Vec<Piece>,
    cuts: Vec<(u8, u16)>,
    ops: Vec<ROp>,
    max_read: u8,
    /// Window size changes at these times
    winch: Vec<u16>,
    /// The device's reads after that many fail: 0 EIO, 1 EAGAIN, else EINTR
    #[serde(default)]
    failing: Vec<(u8, u8)>,
}

/// Positions in `data` after an event at `pos`
fn after(data: &[u8], pos: usize, ev: &Event, keys: &Keys) -> Vec<usize> {
    let s = &data[pos..];
    let mut r = Vec::new();
    match ev {
        Event::Key(k) => {
            for (q, ks) in &keys.seqs {
                if ks.contains(k) && s.starts_with(q) {
                    r.push(pos + q.len());
                }
            }
            if let Ok(Some(c)) = first_char(s) {
                if char_key(c) == *k {
                    r.push(pos + c.len_utf8());
                }
            }
        }
        Event::Mouse(_) => {
            if let Some((w, n)) = mouse(s) {
                if keys.xterm && w.allows(ev) {
                    r.push(pos + n);
                }
            }
        }
        _ => (),
    }
    r
}

pub struct C12;

impl Prop for C12 {
    type Case = FlowCase;
    const ID: &'static str = "C12";
    const TIMES: u32 = 4;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a byte stream (keys, parts of keys, mouse reports, text, invalid UTF-8) cut into pieces arriving over \
        virtual time, and a mix of read_event, wait_event and read_raw calls with various buffer sizes and timeouts; the events and raw data must \
        account for the stream exactly, and a final drain must reach its end; non-trivial if both events and raw data were read and a piece boundary \
        fell inside a character or sequence";
    fn assumptions() -> Vec<&'static str> {
        vec!["a call may report an error only where invalid UTF-8 is next"]
    }
    fn lanes() -> Vec<Lane<FlowCase>> {
        fn case(invalid: u32, max: usize) -> BoxedStrategy<FlowCase> {
            let piece = prop_oneof![
                4 => any::<u8>().prop_map(Piece::Key),
                2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Piece::Part(a, b)),
                5 => arb_in_text().prop_map(Piece::Text),
                2 => arb_mouse(),
                1 => arb_bad_mouse(),
                1 => (1u8..140).prop_map(|n| Piece::Text("é".repeat(n as usize))),
                invalid => vec(prop_oneof![Just(0x80u8), Just(0xff), Just(0xc3), Just(0xe2), Just(0xf0), Just(0xed), Just(0xa0), Just(0xc0), any::<u8>()], 1..4).prop_map(Piece::Bytes),
            ];
            let op = prop_oneof![
                6 => (0u16..40).prop_map(ROp::Event),
                2 => (0u16..40).prop_map(ROp::Wait),
                3 => (prop_oneof![Just(0u8), 1u8..6, 1u8..=255], 0u16..40).prop_map(|(a, b)| ROp::Raw(a, b)),
                1 => prop_oneof![(0u8..8).prop_map(ROp::Prepare), Just(ROp::Restore)],
            ];
            let desc = prop_oneof![3 => (0u8..11).prop_map(Desc::Real), 1 => arb_desc(any::<bool>().boxed())];
            (desc, vec(piece, 1..=max), vec((0u8..30, any::<u16>()), 0..8), vec(op, 0..30),
                prop_oneof![4 => Just(0u8), 1 => 1u8..10], vec(0u16..200, 0..3), prop_oneof![2 => Just(Vec::new()), 1 => vec((0u8..4, 0u8..3), 1..6)])
                .prop_map(|(desc, input, cuts, ops, max_read, winch, failing)| FlowCase { desc, input, cuts, ops, max_read, winch, failing }).boxed()
        }
        vec![
            lane("valid", 60_000, 1_000_000, case(0, 8)),
            lane("invalid", 50_000, 1_000_000, case(3, 8)),
            lane("long", 8_000, 200_000, case(1, 60)),
        ]
    }
    fn run(case: &FlowCase) -> CaseResult {
        let keys = case.desc.keys();
        let name = case.desc.setup();
        let mut data = Vec::new();
        for p in &case.input {
            p.put(&keys, &mut data);
        }
        if no_button(&data) {
            return Ok(Info::default());
        }
        let mut cuts: Vec<usize> = case.cuts.iter().map(|c| c.1 as usize % (data.len() + 1)).collect();
        cuts.sort_unstable();
        let mut arrivals: Vec<Item> = Vec::new();
        let (mut at, mut last) = (0u64, 0);
        for (i, c) in cuts.iter().chain([&data.len()]).enumerate() {
            at += case.cuts.get(i).map_or(0, |c| c.0 as u64 * 1000);
            if *c > last {
                arrivals.push(Item { at, what: What::Data(data[last..*c].to_vec()) });
            }
            last = *c;
        }
        for w in &case.winch {
            let sig = if w % 3 == 2 { libc::SIGCONT } else { libc::SIGWINCH };
            arrivals.push(Item { at: *w as u64 * 1000, what: What::Signal(sig, w % 2 == 0) });
        }
        arrivals.sort_by_key(|i| i.at);
        let mut read_faults = Vec::new();
        for (n, e) in &case.failing {
            read_faults.extend(std::iter::repeat(None).take(*n as usize));
            read_faults.push(Some([libc::EIO, libc::EAGAIN, libc::EINTR][*e as usize % 3]));
        }
        let s = Session::new(name, 24, 80, Sim { max_read: case.max_read as usize, arrivals: arrivals.into(), read_faults: read_faults.into(), ..Sim::default() });
        let mut term = s.terminal().map_err(|e| format!("open: {}", e))?;
        ti::uninstall();
        let state = term.prepare(Default::default()).map_err(|e| format!("prepare: {}", e))?;
        let mut info = Info::default();
        let mut pos = vec![0usize];
        let mut winch = 0;
        let (mut events, mut raws) = (0, 0);
        let mut nested = false;

        // Whether something could be read at `p` when `n` bytes have arrived
        let ready = |p: usize, n: usize| !matches!(decode(&data[p..n.max(p)], &keys), Step::Partial);
        let mut one = |op: &ROp, term: &mut Terminal, pos: &mut Vec<usize>, info: &mut Info| -> Result<bool, String> {
            let arrived = sim::with(|s| s.delivered) as usize;
            let p0 = *pos.iter().min().unwrap();
            let shown = || format!("{:?} at byte {} of {} ({} arrived): {:?}", op, p0, data.len(), arrived,
                String::from_utf8_lossy(&data[p0..data.len().min(p0 + 40)]));
            let ms = |n: u16| Some(Duration::from_millis(n as u64));
            let mut buf = [0xAAu8; 256];
            let errors = sim::with(|s| s.read_errors);
            let ev = match op {
                ROp::Event(t) => term.read_event(ms(*t)),
                ROp::Raw(n, t) => term.read_raw(&mut buf[..*n as usize], ms(*t)),
                ROp::Wait(t) => {
                    let r = term.wait_event(ms(*t));
                    let now = sim::with(|s| s.delivered) as usize;
                    return match r {
                        Ok(false) if pos.iter().all(|&p| ready(p, now)) => Err(format!("{}: false although input is available", shown())),
                        Ok(_) => Ok(false),
                        Err(_) if pos.iter().any(|&p| matches!(decode(&data[p..now], &keys), Step::Invalid)) => Ok(false),
                        Err(e) => Err(format!("{}: {}", shown(), e)),
                    };
                }
                ROp::Prepare(_) | ROp::Restore => return Ok(false),
            };
            let now = sim::with(|s| s.delivered) as usize;
            let refused = sim::with(|s| s.read_errors) != errors;
            match ev {
                // The device's error; nothing may be lost
                Err(_) if refused => {
                    info.class("read error");
                    Ok(true)
                }
                Ok(None) if refused => Ok(true),
                Ok(Some(Event::Resize(size))) => {
                    winch += 1;
                    if (size.lines, size.columns) != (24, 80) {
                        return Err(format!("resize to {:?}", size));
                    }
                    Ok(true)
                }
                Ok(Some(Event::Raw(n))) => {
                    let max = match op {
                        ROp::Raw(m, _) => *m as usize,
                        _ => return Err(format!("{}: raw event", shown())),
                    };
                    if n > max || (n == 0 && max > 0) {
                        return Err(format!("{}: Raw({}) of at most {}", shown(), n, max));
                    }
                    raws += (n > 0) as u32;
                    pos.retain(|&p| p + n <= now && data[p..p + n] == buf[..n]);
                    if pos.is_empty() {
                        return Err(format!("{}: raw data {:?} is not what comes next", shown(), String::from_utf8_lossy(&buf[..n])));
                    }
                    if buf[n..].iter().any(|&b| b != 0xAA) {
                        return Err(format!("{}: wrote behind the {} bytes reported", shown(), n));
                    }
                    pos.iter_mut().for_each(|p| *p += n);
                    Ok(true)
                }
                Ok(Some(ev)) => {
                    if matches!(op, ROp::Raw(..)) {
                        return Err(format!("{}: event {:?}", shown(), ev));
                    }
                    events += 1;
                    let mut next: Vec<usize> = pos.iter().flat_map(|&p| after(&data[..now], p, &ev, &keys)).collect();
                    next.sort_unstable();
                    next.dedup();
                    if next.is_empty() {
                        return Err(format!("{}: event {:?} is not what comes next", shown(), ev));
                    }
                    *pos = next;
                    Ok(true)
                }
                Ok(None) => {
                    if pos.iter().all(|&p| match op {
                        ROp::Event(_) => ready(p, now),
                        _ => p < now,
                    }) {
                        return Err(format!("{}: none although input is available", shown()));
                    }
                    Ok(false)
                }
                Err(e) => {
                    let invalid = |p: usize| matches!(decode(&data[p..now], &keys), Step::Invalid);
                    if matches!(op, ROp::Raw(..)) || !pos.iter().any(|&p| invalid(p)) {
                        return Err(format!("{}: {}", shown(), e));
                    }
                    info.class("invalid UTF-8 reported");
                    pos.retain(|&p| invalid(p));
                    Ok(false)
                }
            }
        };
        let mut states = Vec::new();
        for op in &case.ops {
            match op {
                ROp::Prepare(b) => {
                    let cfg = PrepareConfig { enable_mouse: b & 1 != 0, always_track_motion: b & 2 != 0, enable_keypad: b & 4 != 0, ..Default::default() };
                    states.push(term.prepare(cfg).map_err(|e| format!("prepare: {}", e))?);
                    nested = true;
                }
                ROp::Restore => if let Some(st) = states.pop() {
                    term.restore(st).map_err(|e| format!("restore: {}", e))?;
                },
                op => {
                    one(op, &mut term, &mut pos, &mut info)?;
                }
            }
        }
        // The rest: events as long as there are any, raw data otherwise
        let mut idle = 0;
        while idle < 3 {
            let a = one(&ROp::Event(500), &mut term, &mut pos, &mut info)?;
            let b = if a { false } else { one(&ROp::Raw(1, 0), &mut term, &mut pos, &mut info)? };
            idle = if a || b { 0 } else { idle + 1 };
        }
        if !pos.contains(&data.len()) {
            return Err(format!("input ends at byte {:?} of {}", pos, data.len()));
        }
        while let Some(st) = states.pop() {
            term.restore(st).map_err(|e| format!("restore: {}", e))?;
        }
        term.restore(state).map_err(|e| format!("restore: {}", e))?;
        info.class_if(nested, "prepared again in between");
        let inside = cuts.iter().any(|&c| c < data.len() && (data[c] & 0xC0 == 0x80 || (c > 0 && data[c - 1] == 0x1b)));
        info.nontrivial = events > 0 && raws > 0 && inside;
        info.class_if(raws > 0, "raw data");
        info.class_if(inside, "cut inside a character or sequence");
        info.class_if(winch > 0, "resize in between");
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Timeout {
    Micros(u32),
    Nanos(u32),
    Secs(u64, u32),
    Max,
    Never,
}

impl Timeout {
    fn get(&self) -> Option<Duration> {
        Some(match self {
            Timeout::Micros(n) => Duration::from_micros(*n as u64),
            Timeout::Nanos(n) => Duration::from_nanos(*n as u64),
            Timeout::Secs(s, n) => Duration::new(*s, *n % 1_000_000_000),
            Timeout::Max => Duration::MAX,
            Timeout::Never => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum What3 {
    Text(u8),
    /// A character of several bytes, cut
    Split(u8),
    /// A signal that has nothing to do with the terminal; (interrupts reads)
    Other(bool),
    /// SIGCONT, which is handled but not reported; only while prepared
    Cont(bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TimeCase {
    arrivals: Vec<(u32, What3)>,
    ops: Vec<(u8, Timeout)>,
    guard: bool,
    /// 0: plain, 1: prepared, 2: prepared twice, 3: a screen
    #[serde(default)]
    prep: u8,
}

enum Dev {
    T(Terminal, Vec<PrepareState>),
    S(Screen),
}

enum DevGuard<'a> {
    T(TerminalReadGuard<'a>),
    S(ScreenReadGuard<'a>),
}

macro_rules! dev_call {
    ($d:expr, $n:ident($($a:expr),*)) => {
        match $d {
            DevGuard::T(g) => g.$n($($a),*),
            DevGuard::S(g) => g.$n($($a),*),
        }
    };
}

impl Dev {
    fn new(s: &Session, prep: u8) -> std::io::Result<Dev> {
        Ok(match prep {
            3 => Dev::S(s.screen(PrepareConfig { report_signals: SignalSet::all(), ..PrepareConfig::default() })?),
            n => {
                let t = s.terminal()?;
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(t.prepare(PrepareConfig::default())?);
                }
                Dev::T(t, v)
            }
        })
    }
    fn lock(&self) -> Result<DevGuard<'_>, String> {
        match self {
            Dev::T(t, _) => t.lock_read().map(DevGuard::T).map_err(|_| "poisoned".into()),
            Dev::S(s) => s.lock_read().map(DevGuard::S).map_err(|_| "poisoned".into()),
        }
    }
    fn wait_event(&self, t: Option<Duration>) -> std::io::Result<bool> {
        match self {
            Dev::T(d, _) => d.wait_event(t),
            Dev::S(d) => d.wait_event(t),
        }
    }
    fn read_event(&self, t: Option<Duration>) -> std::io::Result<Option<Event>> {
        match self {
            Dev::T(d, _) => d.read_event(t),
            Dev::S(d) => d.read_event(t),
        }
    }
    fn end(self) {
        if let Dev::T(t, mut v) = self {
            while let Some(p) = v.pop() {
                let _ = t.restore(p);
            }
        }
    }
}

pub struct C13;

/// What counts as endless
const HUGE: u128 = 1 << 50;

impl Prop for C13 {
    type Case = TimeCase;
    const ID: &'static str = "C13";
    const TIMES: u32 = 6;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a schedule of input and unrelated signals in virtual time and a list of wait_event, read_event and \
        read_raw calls with timeouts from 0 over nanoseconds to Duration::MAX and none; result and elapsed virtual time of each call are predicted \
        exactly (1 ms tolerance upwards); non-trivial if a call really waited and a signal or input came during the wait";
    fn assumptions() -> Vec<&'static str> {
        vec!["time is virtual: select and clock_gettime are answered by the harness", "a wait longer than 35 years may end early or never"]
    }
    fn lanes() -> Vec<Lane<TimeCase>> {
        fn case(huge: u32) -> BoxedStrategy<TimeCase> {
            let t = prop_oneof![
                2 => Just(Timeout::Micros(0)),
                3 => (1u32..2000).prop_map(Timeout::Micros),
                8 => (1u32..60).prop_map(|n| Timeout::Micros(n * 1000)),
                3 => (0u32..100_000).prop_map(Timeout::Micros),
                2 => (1u32..3_000_000).prop_map(Timeout::Nanos),
                1 => (0u64..100, any::<u32>()).prop_map(|(a, b)| Timeout::Secs(a, b)),
                1 => (Just(0u64), 999_000_000u32..1_000_000_000).prop_map(|(a, b)| Timeout::Secs(a, b)),
                huge => prop_oneof![Just(Timeout::Max),
                    prop_oneof![Just(i64::MAX as u64 / 1000), Just(i64::MAX as u64 / 1000 + 1), Just(i64::MAX as u64), Just(u64::MAX),
                        Just(i64::MAX as u64 / 1_000_000), Just(u32::MAX as u64), Just(1 << 40), Just(i32::MAX as u64), any::<u64>()]
                        .prop_flat_map(|s| (Just(s), any::<u32>())).prop_map(|(a, b)| Timeout::Secs(a, b))],
                huge => (6u32..30, any::<u64>(), any::<u32>()).prop_map(|(k, a, b)| Timeout::Secs(1 << k | a % (1 << k), b)),
                2 => Just(Timeout::Never),
            ];
            let what = prop_oneof![4 => (1u8..4).prop_map(What3::Text), 1 => any::<u8>().prop_map(What3::Split), 4 => any::<bool>().prop_map(What3::Other),
                1 => any::<bool>().prop_map(What3::Cont)];
            let gap = prop_oneof![1 => Just(0u32), 3 => 0u32..3000, 5 => (0u32..60).prop_map(|n| n * 1000), huge.min(1) => any::<u32>()];
            (vec((gap, what), 0..9), vec((0u8..4, t), 1..12), any::<bool>(), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)])
                .prop_map(|(arrivals, ops, guard, prep)| TimeCase { arrivals, ops, guard, prep }).boxed()
        }
        vec![lane("short", 90_000, 2_000_000, case(0)), lane("huge", 30_000, 500_000, case(6))]
    }
    fn run(case: &TimeCase) -> CaseResult {
        let mut items = Vec::new();
        let mut at = 0u64;
        let mut data: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut ch = b'a';
        for (gap, w) in &case.arrivals {
            at += *gap as u64;
            match w {
                What3::Text(n) => {
                    let d: Vec<u8> = (0..*n).map(|_| { ch = if ch == b'z' { b'a' } else { ch + 1 }; ch }).collect();
                    data.push((at, d));
                }
                What3::Split(k) => {
                    let d = "é漢🎉".as_bytes();
                    let c: &[u8] = match k % 3 { 0 => &d[..2], 1 => &d[2..5], _ => &d[5..] };
                    let cut = 1 + (*k as usize / 3) % (c.len() - 1);
                    data.push((at, c[..cut].to_vec()));
                    at += *k as u64 * 300;
                    data.push((at, c[cut..].to_vec()));
                }
                What3::Other(e) => items.push(Item { at, what: What::Signal(libc::SIGUSR1, *e) }),
                What3::Cont(e) => if case.prep == 1 || case.prep == 2 {
                    items.push(Item { at, what: What::Signal(libc::SIGCONT, *e) });
                }
            }
        }
        for (t, d) in &data {
            items.push(Item { at: *t, what: What::Data(d.clone()) });
        }
        items.sort_by_key(|i| i.at);
        let signals: Vec<u64> = items.iter().filter(|i| matches!(i.what, What::Signal(..))).map(|i| i.at).collect();
        crate::dev::set_handler(libc::SIGUSR1, crate::dev::noop_handler as *const () as usize, 0, 0);
        let s = Session::new("xterm", 24, 80, Sim { arrivals: items.into(), ..Sim::default() });
        let term = Dev::new(&s, case.prep).map_err(|e| format!("open: {}", e))?;
        let r = C13::calls(case, &term, &data, &signals);
        term.end();
        r
    }
}

impl C13 {
    fn calls(case: &TimeCase, term: &Dev, data: &[(u64, Vec<u8>)], signals: &[u64]) -> CaseResult {
        let mut guard = if case.guard { Some(term.lock()?) } else { None };
        let cont = case.prep % 3 != 0 && case.arrivals.iter().any(|a| matches!(a.1, What3::Cont(_)));
        let stream: Vec<(u64, u8)> = data.iter().flat_map(|(t, d)| d.iter().map(move |b| (*t, *b))).collect();
        let bytes: Vec<u8> = stream.iter().map(|x| x.1).collect();
        let mut pos = 0;
        let mut info = Info::default();
        info.class(["plain", "prepared", "prepared twice", "screen"][case.prep as usize & 3]);
        for (kind, timeout) in &case.ops {
            let t = timeout.get();
            let now = sim::now();
            if now as u128 >= HUGE {
                break;
            }
            // When the call has something to report; whether wait_event reports a signal
            // that read_event does not is left open
            let kind = if cont && kind % 4 == 0 { 1 } else { kind % 4 };
            let ready = match kind {
                // An event needs a whole character
                0 | 1 => match first_char(&bytes[pos..]) {
                    Ok(Some(c)) if pos < bytes.len() => Some(stream[pos + c.len_utf8() - 1].0),
                    _ => None,
                },
                _ => stream.get(pos).map(|x| x.0),
            };
            // Raw reading may have stopped inside a character; events are then unspecified
            if kind < 2 && first_char(&bytes[pos..]).is_err() {
                break;
            }
            // wait_event becomes ready with any new input, though not with the unfinished character already read
            let read = (sim::with(|s| s.consumed) as usize).max(pos);
            let ready = if kind != 0 || matches!(first_char(&bytes[pos..read]), Ok(Some(_))) {
                ready.map(|t| (t, t))
            } else {
                info.class_if(read > pos, "waiting with an unfinished character read");
                stream.get(read).map(|x| (x.0, ready.unwrap_or(u64::MAX)))
            };
            let limit = t.map(|t| (t.as_nanos() + 999) / 1000);
            if t.is_none() && ready.is_none() {
                continue;
            }
            let lower = ready.map(|r| r.0.saturating_sub(now) as u128);
            let upper = ready.map(|r| (r.1.saturating_sub(now)) as u128);
            let mut buf = [0u8; 3];
            let (ok, what): (bool, String) = match kind {
                0 => {
                    let r = match guard.as_mut() { Some(g) => dev_call!(g, wait_event(t)), None => term.wait_event(t) };
                    if r.is_err() && t.map_or(false, |t| t.as_micros() >= HUGE) && ready.is_none() {
                        break;
                    }
                    match r {
                        Ok(b) => (b, format!("{}", b)),
                        Err(e) => return Err(format!("wait_event({:?}): {}", t, e)),
                    }
                }
                k => {
                    let r = match (k, guard.as_mut()) {
                        (1, Some(g)) => dev_call!(g, read_event(t)),
                        (1, None) => term.read_event(t),
                        (_, Some(g)) => dev_call!(g, read_raw(&mut buf, t)),
                        (_, None) => dev_call!(&mut term.lock()?, read_raw(&mut buf, t)),
                    };
                    if r.is_err() && t.map_or(false, |t| t.as_micros() >= HUGE) && ready.is_none() {
                        break;
                    }
                    match r {
                        Ok(Some(Event::Key(Key::Char(c)))) if k == 1 && first_char(&bytes[pos..]) == Ok(Some(c)) => {
                            pos += c.len_utf8();
                            (true, format!("{:?}", c))
                        }
                        Ok(Some(Event::Raw(n))) if k > 1 && n > 0 && n <= 3 && bytes[pos..].starts_with(&buf[..n]) => {
                            pos += n;
                            (true, format!("Raw({})", n))
                        }
                        Ok(None) => (false, "none".into()),
                        r => return Err(format!("{} ({:?}) at {} us gives {:?}", ["", "read_event", "read_raw", "read_raw"][k as usize], t, now, r)),
                    }
                }
            };
            let elapsed = (sim::now() - now) as u128;
            let name = ["wait_event", "read_event", "read_raw", "read_raw"][kind as usize];
            let ctx = || format!("{}({:?}) at {} us gives {} after {} us; input due after {:?} us", name, t, now, what, elapsed, lower);
            if ok {
                // Not before there is something, and within the timeout (waits are rounded up to at most 1 ms)
                let (lo, up) = match (lower, upper) {
                    (Some(l), Some(u)) => (l, u),
                    _ => return Err(format!("{}: there is no input", ctx())),
                };
                if elapsed < lo || elapsed > up {
                    return Err(format!("{}: reported at the wrong time", ctx()));
                }
                if limit.map_or(false, |l| elapsed > l + 1000) {
                    return Err(format!("{}: later than the timeout", ctx()));
                }
            } else {
                let l = match limit {
                    Some(l) => l,
                    None => return Err(format!("{}: without a timeout", ctx())),
                };
                if upper.map_or(false, |u| u <= l) {
                    return Err(format!("{}: input was available in time", ctx()));
                }
                if l < HUGE && elapsed < l {
                    return Err(format!("{}: before the timeout", ctx()));
                }
                if l < HUGE && elapsed > l + 1000 {
                    return Err(format!("{}: long after the timeout", ctx()));
                }
            }
            let end = now + elapsed.min(1 << 60) as u64;
            let disturbed = signals.iter().any(|&s| s > now && s < end);
            info.class_if(disturbed, "unrelated signal during a wait");
            info.class_if(disturbed && cont, "continue signal during a wait");
            info.class_if(!ok && elapsed > 0, "timed out");
            info.class_if(ok && elapsed > 0, "input during a wait");
            info.class_if(limit.map_or(false, |l| l >= HUGE), "huge timeout");
            info.class_if(t.map_or(false, |t| t.subsec_nanos() % 1_000_000 != 0), "part of a millisecond");
            info.nontrivial |= elapsed > 0 && (disturbed || ok);
        }
        Ok(info)
    }
}
