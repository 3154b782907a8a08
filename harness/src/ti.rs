//! Terminal types: entries of the terminfo database and generated descriptions.

use std::collections::BTreeMap;
use std::sync::OnceLock;

use terminfo::capability as cap;
use terminfo::Database;

use crate::model::Mask;

#[derive(Clone, Debug)]
pub struct TermType {
    pub name: &'static str,
    pub bce: bool,
    pub mask: Mask,
    pub keypad: bool,
    pub xterm: bool,
    /// moving up one line is "reverse index", which scrolls at the top
    pub up_scrolls: bool,
    pub civis: bool,
    /// Has an alternate screen, which keeps the display
    pub alt: bool,
}

/// Types with cursor addressing whose sequences the reference terminal knows.
pub const NAMES: &[&str] = &["xterm", "xterm-256color", "screen", "screen-256color", "tmux", "tmux-256color",
    "linux", "rxvt", "rxvt-unicode-256color", "Eterm", "vt220"];

pub fn real_types() -> &'static [TermType] {
    static T: OnceLock<Vec<TermType>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::new();
        for &name in NAMES {
            let db = match Database::from_name(name) {
                Ok(db) => db,
                Err(_) => continue,
            };
            let mut st = 0;
            if db.get::<cap::EnterBoldMode>().is_some() {
                st |= 1;
            }
            if db.get::<cap::EnterItalicsMode>().is_some() && db.get::<cap::ExitItalicsMode>().is_some() {
                st |= 2;
            }
            if db.get::<cap::EnterReverseMode>().is_some() {
                st |= 4;
            }
            if db.get::<cap::EnterUnderlineMode>().is_some() && db.get::<cap::ExitUnderlineMode>().is_some() {
                st |= 8;
            }
            let up = db.get::<cap::CursorUp>().map(|c| c.as_ref().to_vec());
            v.push(TermType {
                name,
                bce: db.get::<cap::BackColorErase>().map_or(false, |b| b.into()),
                mask: Mask {
                    fg: db.get::<cap::SetAForeground>().is_some(),
                    bg: db.get::<cap::SetABackground>().is_some(),
                    style: st,
                },
                keypad: db.get::<cap::KeypadXmit>().map_or(false, |k| !k.as_ref().is_empty()),
                xterm: name == "xterm" || name.starts_with("xterm-"),
                up_scrolls: up.map_or(false, |u| u == b"\x1bM"),
                civis: db.get::<cap::CursorInvisible>().is_some(),
                alt: db.get::<cap::EnterCaMode>().is_some() && db.get::<cap::ExitCaMode>().is_some(),
            });
        }
        assert!(v.len() >= 4, "terminfo database lacks the usual entries");
        v
    })
}

pub fn real(i: u8) -> &'static TermType {
    let t = real_types();
    &t[i as usize % t.len()]
}

// ---------------------------------------------------------------------------
// Compiled entries (legacy format)

/// Positions in the compiled format
pub const STR_INDEX: &[(&str, usize)] = &[
    ("csr", 3), ("clear", 5), ("el", 6), ("ed", 7), ("cup", 10), ("home", 12),
    ("civis", 13), ("cub1", 14), ("cnorm", 16), ("cuf1", 17), ("cuu1", 19),
    ("bold", 27), ("smcup", 28), ("rev", 34), ("smul", 36), ("sgr0", 39), ("rmcup", 40), ("rmul", 44),
    ("kbs", 55), ("kdch1", 59), ("kcud1", 61),
    ("kf1", 66), ("kf10", 67), ("kf2", 68), ("kf3", 69), ("kf4", 70), ("kf5", 71), ("kf6", 72), ("kf7", 73),
    ("kf8", 74), ("kf9", 75), ("khome", 76), ("kich1", 77), ("kcub1", 79), ("knp", 81), ("kpp", 82),
    ("kcuf1", 83), ("kcuu1", 87), ("rmkx", 88), ("smkx", 89),
    ("cud", 107), ("cub", 111), ("cuf", 112), ("cuu", 114),
    ("kend", 164), ("kf11", 216), ("kf12", 217), ("kf13", 218),
    ("sitm", 311), ("ritm", 321), ("setaf", 359), ("setab", 360),
];

pub fn compile(names: &str, strs: &BTreeMap<String, Vec<u8>>) -> Vec<u8> {
    let mut table: Vec<Option<&Vec<u8>>> = Vec::new();
    for (name, val) in strs {
        let i = STR_INDEX.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("unknown capability {}", name)).1;
        if table.len() <= i {
            table.resize(i + 1, None);
        }
        table[i] = Some(val);
    }
    let mut out = Vec::new();
    let p16 = |out: &mut Vec<u8>, n: i16| out.extend_from_slice(&n.to_le_bytes());
    let mut names = names.as_bytes().to_vec();
    names.push(0);
    // am, xenl: booleans 1 and 4
    let mut bools = vec![0u8, 1, 0, 0, 1];
    if (names.len() + bools.len()) % 2 == 1 {
        bools.push(0);
    }
    let mut data = Vec::new();
    let mut offs = Vec::new();
    for e in &table {
        match e {
            Some(v) => {
                offs.push(data.len() as i16);
                data.extend_from_slice(v);
                data.push(0);
            }
            None => offs.push(-1),
        }
    }
    p16(&mut out, 0o432);
    p16(&mut out, names.len() as i16);
    p16(&mut out, bools.len() as i16);
    p16(&mut out, 0);
    p16(&mut out, offs.len() as i16);
    p16(&mut out, data.len() as i16);
    out.extend_from_slice(&names);
    out.extend_from_slice(&bools);
    for o in offs {
        p16(&mut out, o);
    }
    out.extend_from_slice(&data);
    out
}

/// Installs a generated description under `name` and makes it the one that is found.
pub fn install(name: &str, strs: &BTreeMap<String, Vec<u8>>) -> std::path::PathBuf {
    install_as(name, name, strs)
}

/// Installs a generated description whose names are `names`, to be found by `name`.
pub fn install_as(name: &str, names: &str, strs: &BTreeMap<String, Vec<u8>>) -> std::path::PathBuf {
    let base = crate::dev::scratch().join(format!("ti{}", std::process::id()));
    let first = name.chars().next().unwrap();
    let dir = base.join(first.to_string());
    std::fs::create_dir_all(&dir).expect("terminfo scratch dir");
    std::fs::write(dir.join(name), compile(&format!("{}|generated description", names), strs)).expect("write entry");
    std::env::set_var("TERMINFO", &base);
    base
}

pub fn uninstall() {
    std::env::remove_var("TERMINFO");
}
