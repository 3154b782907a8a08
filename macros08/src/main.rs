//! C08: generated statements with term_write! and term_writeln!, compared with the calls their
//! documentation gives. The statements are in the file SHAPES_RS, made by `mortal-pbt gen08`.

#![allow(dead_code)]

#[macro_use]
extern crate mortal;

#[path = "../../harness/src/dev.rs"]
mod dev;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/shape.rs"]
mod shape;
#[path = "../../harness/src/sim.rs"]
mod sim;
#[path = "../../harness/src/ti.rs"]
mod ti;
#[path = "../../harness/src/vt.rs"]
mod vt;

mod env;

/// The statements, in a place where nothing of mortal but the macros is in scope, and where
/// names that the macros may use mean something else.
#[allow(unused, unused_must_use, unused_braces, unused_parens, clippy::all)]
mod statements {
    use crate::env::{E, F};
    enum Color {}
    enum Style {}
    enum Theme {}
    enum Terminal {}
    enum Screen {}
    trait Chain {}
    mod macros {}
    fn init() {}
    fn chain() {}
    include!(env!("SHAPES_RS"));
}

use std::collections::BTreeMap;
use std::io;
use std::path::Path;
use std::sync::OnceLock;

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use dev::Session;
use engine::*;
use env::{Val, E, F};
use gen::*;
use shape::{El, Shape};
use sim::{Sim, WriteFault};
use vt::{Attr, VCell, Vt};

fn shapes() -> &'static [Shape] {
    static S: OnceLock<Vec<Shape>> = OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!(env!("SHAPES_JSON"))).expect("list of statements"))
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MacroCase {
    shape: Shape,
    #[serde(default)]
    vals: Vec<Val>,
    #[serde(default)]
    term: u8,
    #[serde(default)]
    size: (usize, usize),
    /// Attributes and text before
    #[serde(default)]
    pre: (Option<u8>, Option<u8>, u8, String),
    /// What fails: 1 to 3 colors and styles, 4 output
    #[serde(default)]
    fails: u8,
}

/// A type on which setting some attributes is an error
fn broken(k: u8) -> BTreeMap<String, Vec<u8>> {
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (n, s) in [("csr", "\x1b[%i%p1%d;%p2%dr"), ("clear", "\x1b[H\x1b[2J"), ("cup", "\x1b[%i%p1%d;%p2%dH"), ("home", "\x1b[H"),
            ("el", "\x1b[K"), ("ed", "\x1b[J"), ("cuf1", "\x1b[C"), ("cub1", "\x08"), ("cuu1", "\x1b[A"), ("bold", "\x1b[1m"),
            ("rev", "\x1b[7m"), ("smul", "\x1b[4m"), ("rmul", "\x1b[24m"), ("sitm", "\x1b[3m"), ("ritm", "\x1b[23m"), ("sgr0", "\x1b[m"),
            ("setaf", "\x1b[3%p1%dm"), ("setab", "\x1b[4%p1%dm"), ("cnorm", "\x1b[?25h"), ("civis", "\x1b[?25l")] {
        m.insert(n.into(), s.as_bytes().to_vec());
    }
    let bad = b"\x1b[%dm".to_vec();
    match k {
        1 => m.insert("setaf".into(), bad),
        2 => m.insert("setab".into(), bad),
        _ => m.insert("bold".into(), bad),
    };
    m
}

#[derive(PartialEq, Debug)]
struct Outcome {
    result: Result<(), String>,
    log: Vec<String>,
    printed: Vec<(char, Attr)>,
    grid: Vec<VCell>,
    state: ((usize, usize), bool, Attr, bool),
    cursor: Option<(usize, usize)>,
    /// What is written next
    after: Vec<(char, Attr)>,
}

pub struct C08;

fn perform(case: &MacroCase, f: &F, by_macro: bool) -> Result<(Outcome, usize, usize), String> {
    let (mut lines, mut cols) = case.size;
    lines = lines.max(1);
    cols = cols.max(2);
    let (name, bce) = match case.fails {
        k @ 1..=3 => {
            let n = format!("broken{}", k);
            ti::install(&n, &broken(k));
            (n, false)
        }
        _ => {
            ti::uninstall();
            let t = ti::real(case.term);
            (t.name.to_owned(), t.bce)
        }
    };
    let s = Session::new(&name, lines, cols, Sim::default());
    let mut vt = Vt::new(lines, cols, bce, true);
    let err = |e: io::Error| format!("{:?}: {}", e.kind(), e);
    let text = |e: &dyn Fn() -> io::Result<()>| e().map_err(|e| format!("{:?}: {}", e.kind(), e));
    let (fg, bg, st, pre) = &case.pre;
    // On the type that lacks them, the attributes before are not set
    let (fg, bg, st) = match case.fails {
        1..=3 => (None, None, 0),
        _ => (ocolor(*fg), ocolor(*bg), *st),
    };
    let fail = |on: bool| if case.fails == 4 {
        sim::with(|s| s.faults = if on { (0..400).map(|_| WriteFault::Err(libc::EIO)).collect() } else { Default::default() });
    };
    let mut o;
    let mut free = 0;
    let evals;
    match f {
        F::T(m, r) => {
            let t = s.terminal().map_err(err)?;
            text(&|| {
                t.set_fg(fg)?;
                t.set_bg(bg)?;
                t.set_style(style(st))?;
                t.write_str(pre)
            })?;
            vt.feed(&sim::take_out());
            vt.record = true;
            let before = vt.attr;
            let e = E::new(&case.vals, if by_macro && case.fails != 4 { Some(&t) } else { None });
            fail(true);
            let result = if by_macro { m(&t, &e) } else { r(&t, &e) };
            fail(false);
            let log = e.log.take();
            free = e.free.get();
            evals = log.len();
            vt.feed(&sim::take_out());
            let lead = vt.printed.iter().take_while(|p| p.0 == env::MARK).count();
            if vt.printed[..lead].iter().any(|p| p.1 != before) || vt.printed[lead..].iter().any(|p| p.0 == env::MARK) {
                return Err("the write lock was free in the middle of the statement".into());
            }
            vt.printed.drain(..lead);
            o = Outcome { result: result.map_err(err), log, printed: std::mem::take(&mut vt.printed), grid: vt.grid.clone(),
                state: (vt.cur, vt.pending, vt.attr, vt.visible), cursor: None, after: Vec::new() };
            let _ = t.write_str("Z");
            drop(t);
        }
        F::S(m, r) => {
            let t = s.screen(Default::default()).map_err(err)?;
            t.set_theme(theme(None, None, 0).fg(fg).bg(bg).style(style(st)));
            t.write_str(pre);
            t.refresh().map_err(err)?;
            vt.feed(&sim::take_out());
            vt.record = true;
            let e = E::new(&case.vals, None);
            fail(true);
            if by_macro { m(&t, &e) } else { r(&t, &e) }
            fail(false);
            let log = e.log.take();
            evals = log.len();
            vt.feed(&sim::take_out());
            let c = t.cursor();
            o = Outcome { result: Ok(()), log, printed: Vec::new(), grid: vt.grid.clone(),
                state: (vt.cur, vt.pending, vt.attr, vt.visible), cursor: Some((c.line, c.column)), after: Vec::new() };
            t.write_str("Z");
            let _ = t.refresh();
            vt.feed(&sim::take_out());
            o.after = vt.grid.iter().map(|c| (c.text.chars().next().unwrap_or(' '), c.attr)).collect();
            drop(t);
            sim::take_out();
        }
    }
    vt.printed.clear();
    vt.feed(&sim::take_out());
    if let F::T(..) = f {
        o.after = vt.printed.clone();
    }
    if free > 0 {
        // Marks are among the text
        o.grid.clear();
        o.state = Default::default();
    }
    Ok((o, free, evals))
}

fn compare(a: &Outcome, b: &Outcome, free: usize) -> Result<(), String> {
    if a.result != b.result {
        return Err(format!("the statement gives {:?}, the calls give {:?}", a.result, b.result));
    }
    if a.log != b.log {
        return Err(format!("evaluated: {:?}; by the calls: {:?}", a.log, b.log));
    }
    if a.printed != b.printed {
        return Err(format!("the statement prints {:?}, the calls print {:?}", a.printed, b.printed));
    }
    if free == 0 && a.grid != b.grid {
        let i = (0..a.grid.len()).find(|i| a.grid[*i] != b.grid[*i]).unwrap_or(0);
        return Err(format!("cell {} shows {:?}, by the calls {:?}", i, a.grid.get(i), b.grid.get(i)));
    }
    if free == 0 && a.state != b.state {
        return Err(format!("(cursor, wrap, attributes, visible) {:?}, by the calls {:?}", a.state, b.state));
    }
    if a.cursor != b.cursor {
        return Err(format!("cursor {:?}, by the calls {:?}", a.cursor, b.cursor));
    }
    if a.after != b.after {
        return Err(format!("what is written next shows {:?}, after the calls {:?}", a.after, b.after));
    }
    Ok(())
}

impl Prop for C08 {
    type Case = MacroCase;
    const ID: &'static str = "C08";
    const RULE: &'static str = "a case is one of the generated statements (term_write! or term_writeln!; any elements; receivers of all four kinds, \
        by name, expression, reference, field or temporary; compiled anew with each seed), values for its expressions, the state before, and at times \
        a terminal type on which setting some attribute is an error, or failing output; results, output, evaluations in order, and the state \
        after are compared with the documented calls on a write guard; each evaluation tries to take the write lock of a Terminal; non-trivial \
        if the statement has at least two elements and an expression";
    fn assumptions() -> Vec<&'static str> {
        vec!["statements use the elements listed in the documentation of term_write!", "elements after an error are not evaluated"]
    }
    fn lanes() -> Vec<Lane<MacroCase>> {
        let vals = || vec(env::arb_val(), 4);
        let size = || (1usize..6, 2usize..24);
        let pre = || (arb_ocolor(), arb_ocolor(), arb_style(), prop_oneof![Just(String::new()), arb_text(5)]);
        let n = shapes().len();
        let case = |fails: BoxedStrategy<u8>, sel: Vec<usize>| (0..sel.len(), vals(), 0u8..11, size(), pre(), fails)
            .prop_map(move |(k, vals, term, size, pre, fails)| MacroCase { shape: shapes()[sel[k]].clone(), vals, term, size, pre, fails }).boxed();
        let err: Vec<usize> = (0..n).filter(|k| !shapes()[*k].screen && shapes()[*k].els.len() > 1).collect();
        let long: Vec<usize> = (0..n).filter(|k| shapes()[*k].arguments() > 0).collect();
        let long = (0..long.len(), vals(), 0u8..11, size(), pre(), 5000usize..20000)
            .prop_map(move |(k, mut vals, term, size, pre, n)| {
                vals[0].text = std::iter::repeat('x').take(n).collect();
                vals[1].text = std::iter::repeat('y').take(n / 3).collect();
                MacroCase { shape: shapes()[long[k]].clone(), vals, term, size, pre, fails: 4 }
            }).boxed();
        vec![
            lane("statements", 60_000, 1_000_000, case(Just(0u8).boxed(), (0..n).collect())),
            lane("errors", 20_000, 400_000, case((1u8..4).boxed(), err)),
            lane("failing output", 2_000, 40_000, long),
        ]
    }
    fn run(case: &MacroCase) -> CaseResult {
        let k = shapes().iter().position(|s| *s == case.shape)
            .ok_or("this statement was not compiled (replay with check.sh C08 replay FILE)")?;
        let f = &statements::STATEMENTS[k];
        let mut case = case.clone();
        while case.vals.len() < 4 {
            case.vals.push(Val::default());
        }
        let (want, _, _) = perform(&case, f, false)?;
        let (got, free, evals) = perform(&case, f, true)?;
        compare(&got, &want, free)?;
        ti::uninstall();
        let els = case.shape.els.len() + case.shape.ln as usize;
        let mut i = Info::new(els > 1 && evals > 0);
        i.class(if case.shape.screen { "Screen" } else { "Terminal" });
        i.class(match case.shape.recv % shape::RECVS { 0 => "receiver", 1 => "expression", 2 => "guard", 3 => "reference to a guard", 4 => "temporary guard",
            5 => "dereferenced", 6 => "field", _ => "place expression" });
        i.class_if(case.shape.ln, "term_writeln!");
        i.class_if(want.result.is_err(), "stopped by an error");
        i.class_if(want.result.is_err() && want.printed.len() > 0, "stopped after some output");
        i.class_if(els >= 5, "five elements or more");
        for e in &case.shape.els {
            i.class(match e {
                El::Fg(_) | El::Bg(_) => "named color", El::Add(_) => "named style", El::Remove(_) => "removed style",
                El::Reset | El::NoFg | El::NoBg | El::NoStyle => "reset", El::FgEx(_) | El::BgEx(_) => "color expression",
                El::StyleEx(_) => "style=", El::AddEx(_) => "style+=", El::RemoveEx(_) => "style-=", El::ThemeEx(_) => "theme=",
                El::Display(_) => "(: ..)", El::Debug(_) => "(? ..)", El::Format(..) => "(\"..\", ..)", El::Literal(_) => "literal",
            });
        }
        Ok(i)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match a(1) {
        "check" => check::<C08>(a(3), 8, a(4).parse().unwrap_or(1.0)),
        "worker" => worker::<C08>(a(3).parse().unwrap(), a(4).parse().unwrap(), a(5), Path::new(a(6)), a(7).parse().unwrap()),
        "show" => show::<C08>(a(3).parse().unwrap_or(100), args.get(4).map(|s| s.as_str())),
        "replay" => match std::fs::read(a(2)).ok().and_then(|d| serde_json::from_slice::<serde_json::Value>(&d).ok()) {
            Some(v) => replay::<C08>(v["case"].clone()),
            None => 2,
        },
        _ => 2,
    };
    std::process::exit(code);
}
