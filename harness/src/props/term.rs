//! C04 attributes, C05 cursor movement and clearing, C06 delivery of output.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::screen::{arb_flt, Flt};
use crate::dev::Session;
use crate::engine::*;
use crate::gen::*;
use crate::sim::{self, Sim, WriteFault};
use crate::term_ops::*;
use crate::ti;
use crate::vt::{Attr, VCell, Vt};

/// Calls made directly, or through one write guard
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Direct(Vec<TOp>),
    Guard(Vec<TOp>),
    /// A guard whose buffer contains so much, while the device behaves like this;
    /// only the length of texts counts
    Refused(u16, Vec<(TOp, u16)>, Vec<Flt>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TermCase {
    term: u8,
    parts: Vec<Part>,
    /// A character is written after every attribute call
    probe: bool,
}

pub struct C04;

impl Prop for C04 {
    type Case = TermCase;
    const ID: &'static str = "C04";
    const STREAMS: u8 = 3;
    const RULE: &'static str = "a case is a terminal type and a history of attribute and text calls, directly and through write guards; \
        the characters the reference terminal prints, with the attributes it prints them with, are compared with those of a plain \
        attribute model; non-trivial if an attribute was removed or changed while another one was in effect and text followed";
    fn assumptions() -> Vec<&'static str> {
        vec!["terminal types whose style capabilities set and reset single styles and that have sgr0",
            "colors and styles that the terminal type lacks are ignored"]
    }
    fn lanes() -> Vec<Lane<TermCase>> {
        fn case(max: usize, attrs: u32) -> BoxedStrategy<TermCase> {
            let op = move || prop_oneof![attrs => arb_attr_op(), 3 => arb_text_op(5), 1 => arb_move_op()];
            let part = prop_oneof![
                1 => vec(op(), 1..8).prop_map(Part::Direct),
                1 => vec(op(), 0..8).prop_map(Part::Guard),
            ];
            (0u8..11, vec(part, 1..=max), any::<bool>())
                .prop_map(|(term, parts, probe)| TermCase { term, parts, probe }).boxed()
        }
        let len = || prop_oneof![3 => 1u16..20, 2 => 20u16..9000, 1 => 8150u16..8250];
        let refused = (0u8..11, vec(prop_oneof![
            1 => vec(arb_attr_op(), 1..4).prop_map(Part::Guard),
            3 => (prop_oneof![1 => 0u16..8192, 3 => 8100u16..8200], vec((prop_oneof![1 => arb_attr_op(), 2 => arb_text_op(1)], len()), 1..6), vec(arb_flt(), 0..4))
                .prop_map(|(a, b, c)| Part::Refused(a, b, c)),
        ], 1..4)).prop_map(|(term, parts)| TermCase { term, parts, probe: true }).boxed();
        vec![
            lane("mixed", 120_000, 2_000_000, case(4, 4)),
            lane("long", 20_000, 300_000, case(30, 8)),
            lane("refusing device", 12_000, 300_000, refused),
        ]
    }
    fn run(case: &TermCase) -> CaseResult {
        let ty = ti::real(case.term);
        let s = Session::new(ty.name, 24, 80, Sim::default());
        let term = s.terminal().map_err(|e| format!("open: {}", e))?;
        let mut vt = Vt::new(24, 80, ty.bce, true);
        vt.record = true;
        let mut cur = Attr::default();
        let mut want: Vec<(char, Attr)> = Vec::new();
        // Parts of it that the device refused
        let mut maybe: Vec<(usize, usize)> = Vec::new();
        let (mut nontrivial, mut refused) = (false, false);
        let mut info = Info::default();
        let err = |op: &TOp, e: std::io::Error| format!("{:?} failed: {}", op, e);
        let mut note = |before: Attr, after: Attr| {
            let n = |a: Attr| a.fg.is_some() as u32 + a.bg.is_some() as u32 + a.style.count_ones();
            if n(before) >= 2 && before != after && n(after) >= 1 {
                nontrivial = true;
            }
        };
        let probe = |op: &TOp| case.probe && !matches!(op, TOp::WriteStr(_) | TOp::WriteChar(_) | TOp::WriteFmt(..));
        for p in &case.parts {
            match p {
                Part::Direct(ops) => {
                    info.class("direct calls");
                    for op in ops {
                        on_term(&term, op).map_err(|e| err(op, e))?;
                        let before = cur;
                        attr_model(&mut cur, op, &mut want);
                        note(before, cur);
                        if probe(op) {
                            term.write_char('.').map_err(|e| err(op, e))?;
                            want.push(('.', cur));
                        }
                    }
                }
                Part::Guard(ops) => {
                    info.class("write guard");
                    let mut g = term.lock_write().map_err(|_| "poisoned")?;
                    for op in ops {
                        on_guard(&mut g, op).map_err(|e| err(op, e))?;
                        let before = cur;
                        attr_model(&mut cur, op, &mut want);
                        note(before, cur);
                        if probe(op) {
                            g.write_char('.').map_err(|e| err(op, e))?;
                            want.push(('.', cur));
                        }
                    }
                }
                Part::Refused(fill, ops, faults) => {
                    let mut g = term.lock_write().map_err(|_| "poisoned")?;
                    for _ in 0..*fill {
                        g.write_char('.').map_err(|e| e.to_string())?;
                        want.push(('.', cur));
                    }
                    sim::with(|s| s.faults = faults.iter().map(|f| f.get()).collect());
                    for (i, (op, len)) in ops.iter().enumerate() {
                        let ch = (b'A' + i as u8) as char;
                        let text: String = std::iter::repeat(ch).take(*len as usize).collect();
                        let op = match op {
                            TOp::WriteStr(_) | TOp::WriteChar(_) | TOp::WriteFmt(..) => TOp::WriteStr(text),
                            TOp::WriteStyled(f, b, s, _) => TOp::WriteStyled(*f, *b, *s, text),
                            op => op.clone(),
                        };
                        let r = on_guard(&mut g, &op);
                        let n = want.len();
                        attr_model(&mut cur, &op, &mut want);
                        if r.is_err() {
                            if want.len() == n {
                                return Err(format!("{:?} failed: {:?}", op, r));
                            }
                            info.class("text refused");
                            info.class_if(matches!(op, TOp::WriteStyled(..)), "styled text refused");
                            maybe.push((n, want.len()));
                        }
                    }
                    sim::with(|s| s.faults.clear());
                    g.write_char('!').map_err(|e| e.to_string())?;
                    want.push(('!', cur));
                    refused |= !maybe.is_empty();
                }
            }
            vt.feed(&sim::take_out());
            if !vt.errors.is_empty() {
                return Err(format!("terminal received garbage: {:?}", vt.errors));
            }
            if vt.mid() {
                return Err("output ends inside a sequence".into());
            }
            // Texts refused appear up to some character
            let mut gone = 0;
            for (a, b) in maybe.drain(..) {
                let (a, b) = (a - gone, b - gone);
                let n = (a..b).take_while(|&i| vt.printed.get(i).map_or(false, |p| p.0 == want[a].0)).count();
                want.drain(a + n..b);
                gone += b - a - n;
            }
            for (i, w) in want.iter().enumerate() {
                let masked = (w.0, ty.mask.apply(w.1));
                match vt.printed.get(i) {
                    Some(&(c, mut a)) => {
                        // What the type cannot display may be anything
                        a = ty.mask.apply(a);
                        if (c, a) != masked {
                            return Err(format!("{} (type {}): character {} appears as {:?}, should be {:?}",
                                if let Part::Direct(_) = p { "direct calls" } else { "write guard" }, ty.name, i, (c, a), masked));
                        }
                    }
                    None => return Err(format!("character {} {:?} was not written", i, masked)),
                }
            }
            if vt.printed.len() > want.len() {
                return Err(format!("extra characters written: {:?}", &vt.printed[want.len()..]));
            }
            vt.printed.clear();
            want.clear();
        }
        info.nontrivial = nontrivial || refused;
        info.class_if(case.probe, "probe after each call");
        info.class_if(!ty.mask.fg, "type without colors");
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MoveCase {
    term: u8,
    lines: usize,
    cols: usize,
    start: (Rel, Rel),
    junk: char,
    parts: Vec<Part>,
}

/// What the display should be
#[derive(Clone)]
pub(super) struct Disp {
    pub lines: usize,
    pub cols: usize,
    pub cur: (usize, usize),
    /// None: erased
    pub cells: Vec<Option<String>>,
    pub visible: bool,
}

impl Disp {
    pub fn apply(&mut self, op: &TOp) {
        let n = |n: &u64| (*n).min(1 << 40) as usize;
        let (l, c) = self.cur;
        match op {
            TOp::Up(k) => self.cur.0 = l.saturating_sub(n(k)),
            TOp::Down(k) => self.cur.0 = (l + n(k)).min(self.lines - 1),
            TOp::Left(k) => self.cur.1 = c.saturating_sub(n(k)),
            TOp::Right(k) => self.cur.1 = (c + n(k)).min(self.cols - 1),
            TOp::First => self.cur.1 = 0,
            TOp::ClearScreen => {
                self.cells.iter_mut().for_each(|c| *c = None);
                self.cur = (0, 0);
            }
            TOp::ClearEol => {
                for i in c..self.cols {
                    self.cells[l * self.cols + i] = None;
                }
            }
            TOp::ClearEos => {
                for i in l * self.cols + c..self.lines * self.cols {
                    self.cells[i] = None;
                }
            }
            TOp::CursorMode(m) => self.visible = m % 3 != 1,
            TOp::WriteStr(s) => {
                // Only text that fits on the line is generated
                for ch in s.chars() {
                    if self.cur.1 + 1 >= self.cols {
                        break;
                    }
                    self.cells[self.cur.0 * self.cols + self.cur.1] = Some(ch.to_string());
                    self.cur.1 += 1;
                }
            }
            _ => (),
        }
    }
    /// The part of a text that stays on the line
    pub fn fit(&self, s: &str) -> String {
        s.chars().take(self.cols - 1 - self.cur.1).collect()
    }
    pub fn compare(&self, vt: &Vt, civis: bool) -> Result<(), String> {
        if !vt.errors.is_empty() {
            return Err(format!("terminal received garbage: {:?}", vt.errors));
        }
        if vt.scrolls > 0 {
            return Err("the display was scrolled".into());
        }
        if vt.cur != self.cur || vt.pending {
            return Err(format!("cursor is at {:?}, should be at {:?}", vt.cur, self.cur));
        }
        for i in 0..self.cells.len() {
            let (v, m) = (&vt.grid[i].text, &self.cells[i]);
            if v != m.as_deref().unwrap_or(" ") {
                return Err(format!("cell ({}, {}) shows {:?}, should show {:?}", i / self.cols, i % self.cols, v, m));
            }
        }
        if civis && vt.visible != self.visible {
            return Err(format!("cursor visible: {}, should be {}", vt.visible, self.visible));
        }
        Ok(())
    }
}

pub struct C05;

impl Prop for C05 {
    type Case = MoveCase;
    const ID: &'static str = "C05";
    const TIMES: u32 = 4;
    const STREAMS: u8 = 4;
    const RULE: &'static str = "a case is a terminal type, a window filled with text, a cursor position and a history of cursor movements \
        (counts 0, 1, around the window size, around 2^31, 2^32 and 2^64), clears, cursor modes and short texts; display and cursor of the \
        reference terminal are compared with a plain prediction after every direct call and every write guard; non-trivial if a movement met \
        an edge or a clear erased some but not all cells";
    fn lanes() -> Vec<Lane<MoveCase>> {
        fn case(size: BoxedStrategy<(usize, usize)>, max: usize) -> BoxedStrategy<MoveCase> {
            let op = || prop_oneof![8 => arb_move_op(), 1 => arb_plain(3).prop_map(TOp::WriteStr), 1 => arb_attr_op()];
            let part = prop_oneof![
                1 => vec(op(), 1..8).prop_map(Part::Direct),
                1 => vec(op(), 0..8).prop_map(Part::Guard),
            ];
            (0u8..11, size, (arb_rel_in(), arb_rel_in()), prop_oneof![Just('#'), Just('漢')], vec(part, 1..=max))
                .prop_map(|(term, (lines, cols), start, junk, parts)| MoveCase { term, lines, cols, start, junk, parts }).boxed()
        }
        let one = (0u8..11, (1usize..8, 1usize..16), (arb_rel_in(), arb_rel_in()), arb_move_op(), any::<bool>())
            .prop_map(|(term, (lines, cols), start, op, guard)| MoveCase {
                term, lines, cols, start, junk: '#',
                parts: vec![if guard { Part::Guard(vec![op]) } else { Part::Direct(vec![op]) }],
            }).boxed();
        vec![
            lane("one call", 100_000, 1_000_000, one),
            lane("small", 60_000, 1_000_000, case(arb_size(), 4)),
            lane("huge", 400, 8_000, case(prop_oneof![(900usize..20_000, 1usize..3), (1usize..3, 900usize..20_000),
                Just((65535usize, 1usize)), Just((1, 65535))].boxed(), 3)),
            lane("large", 3_000, 100_000, case(prop_oneof![Just((24usize, 80usize)), (1usize..60, 1usize..200)].boxed(), 12)),
        ]
    }
    fn run(case: &MoveCase) -> CaseResult {
        let ty = ti::real(case.term);
        let (lines, cols) = (case.lines, case.cols);
        let s = Session::new(ty.name, lines, cols, Sim::default());
        let term = s.terminal().map_err(|e| format!("open: {}", e))?;
        let mut vt = Vt::new(lines, cols, ty.bce, true);
        let wide = case.junk == '漢' && cols % 2 == 0;
        for (i, c) in vt.grid.iter_mut().enumerate() {
            let a = attr(Some(3), None, 1);
            *c = if wide && i % 2 == 0 {
                VCell { text: "漢".into(), attr: a, width: 2 }
            } else if wide {
                VCell { text: String::new(), attr: a, width: 0 }
            } else {
                VCell { text: "#".into(), attr: a, width: 1 }
            };
        }
        vt.cur = (case.start.0.inside(lines), case.start.1.inside(cols));
        if wide {
            vt.cur.1 &= !1;
        }
        let mut d = Disp {
            lines, cols, cur: vt.cur, visible: true,
            cells: vt.grid.iter().map(|c| Some(c.text.clone())).collect(),
        };
        let mut info = Info::default();
        let mut one = |d: &mut Disp, op: &TOp, f: &mut dyn FnMut(&TOp) -> std::io::Result<()>| -> Result<(), String> {
            let op = &match op {
                // Wide junk is only for clearing from its start
                TOp::WriteStr(_) if wide => return Ok(()),
                TOp::WriteStr(t) => TOp::WriteStr(d.fit(t)),
                op => op.clone(),
            };
            let before = d.clone();
            match f(op) {
                Ok(()) => d.apply(op),
                Err(e) => return Err(format!("{:?} failed: {}", op, e)),
            }
            if wide && d.cur.1 % 2 == 1 && matches!(op, TOp::Left(_) | TOp::Right(_)) {
                // Stay on the first half of a wide character
                let back = TOp::Left(1);
                f(&back).map_err(|e| e.to_string())?;
                d.apply(&back);
            }
            let dist = |a: (usize, usize), b: (usize, usize)| a.0.abs_diff(b.0) + a.1.abs_diff(b.1);
            match op {
                TOp::Up(n) | TOp::Down(n) | TOp::Left(n) | TOp::Right(n) => {
                    info.class_if(*n == 0, "count 0");
                    info.class_if(*n == 1, "count 1");
                    info.class_if(*n > i32::MAX as u64, "count beyond 2^31");
                    if (dist(before.cur, d.cur) as u64) < *n {
                        info.class("stopped at the edge");
                        info.nontrivial = true;
                    }
                }
                TOp::ClearEol | TOp::ClearEos | TOp::ClearScreen => {
                    let n = d.cells.iter().filter(|c| c.is_none()).count();
                    if n > 0 && n < d.cells.len() {
                        info.class("partial clear");
                        info.nontrivial = true;
                    }
                }
                TOp::CursorMode(_) => info.class("cursor mode"),
                _ => (),
            }
            Ok(())
        };
        for p in &case.parts {
            match p {
                Part::Direct(ops) => for op in ops {
                    one(&mut d, op, &mut |op| on_term(&term, op))?;
                    vt.feed(&sim::take_out());
                    d.compare(&vt, ty.civis).map_err(|e| format!("{} after {:?}: {}", ty.name, op, e))?;
                },
                Part::Guard(ops) => {
                    let mut g = term.lock_write().map_err(|_| "poisoned")?;
                    for op in ops {
                        one(&mut d, op, &mut |op| on_guard(&mut g, op))?;
                    }
                    drop(g);
                    vt.feed(&sim::take_out());
                    d.compare(&vt, ty.civis).map_err(|e| format!("{} after a write guard {:?}: {}", ty.name, ops, e))?;
                }
                Part::Refused(..) => (),
            }
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WOp {
    /// Writes a text of about this many bytes
    Text(u16),
    /// A longer one (multiples of 1024)
    Big(u8),
    /// set_fg with a color
    Fg(u8),
    Move(u8),
    Flush,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WPart {
    guard: bool,
    faults: Vec<Flt>,
    ops: Vec<WOp>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WriteCase {
    parts: Vec<WPart>,
    /// 0: write guard flush, 1: write guard drop, 2: dropping the terminal
    end: u8,
}

/// A write guard's calls with the buffer almost full and the device refusing
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Refuse {
    /// Calls made before, while the device works
    before: Vec<TOp>,
    /// Free bytes in the buffer
    room: u8,
    fault: Flt,
    op: TOp,
    /// Instead of the operation: a text longer than the buffer by this much; the buffer is then empty or not,
    /// and so many bytes are taken before the device refuses
    #[serde(default)]
    long: Option<(u16, bool, u16)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OutCase {
    Write(WriteCase),
    Refuse { term: u8, rounds: Vec<Refuse> },
}

pub struct C06;

/// Bytes that a write guard holds back at most, found out by writing; 0 if it seems to have no limit
fn capacity() -> usize {
    static CAP: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *CAP.get_or_init(|| {
        let s = Session::new("xterm", 24, 80, Sim::default());
        let term = s.terminal().expect("open");
        let mut g = term.lock_write().expect("lock");
        let mut n = 0;
        while n < 1 << 20 && sim::with(|s| s.out.is_empty()) {
            g.write_char('x').expect("write");
            n += 1;
        }
        if n == 1 << 20 { 0 } else { n - 1 }
    })
}

fn refuse(term: u8, rounds: &[Refuse]) -> CaseResult {
    let ty = ti::real(term);
    let cap = capacity();
    let s = Session::new(ty.name, 24, 80, Sim::default());
    let term = s.terminal().map_err(|e| format!("open: {}", e))?;
    let mut info = Info::default();
    for r in rounds {
        let mut g = term.lock_write().map_err(|_| "poisoned")?;
        for op in &r.before {
            let _ = on_guard(&mut g, op);
        }
        g.flush().map_err(|e| format!("flush failed without a fault: {}", e))?;
        let start = sim::with(|s| s.out.len());
        let op = match r.long {
            Some((n, ..)) => TOp::WriteStr("yz".repeat((cap + n as usize) / 2 + 1)),
            None => r.op.clone(),
        };
        let fill = match r.long {
            Some((_, true, _)) => String::new(),
            Some(_) => "x".repeat(r.room as usize),
            None => "x".repeat(cap.saturating_sub(r.room as usize)),
        };
        g.write_str(&fill).map_err(|e| format!("write failed without a fault: {}", e))?;
        let hits = sim::with(|s| {
            s.faults = std::iter::repeat(r.fault.get()).take(200).collect();
            // A device that takes a part has not refused yet; the text may fit in a buffer which has grown
            let part = r.long.map_or(0, |l| l.2 as usize);
            if part > 0 {
                s.faults.push_front(WriteFault::Partial(cap.max(1).min(part)));
            }
            s.faults_hit + (part > 0) as u32
        });
        let res = on_guard(&mut g, &op);
        let hit = sim::with(|s| {
            s.faults.clear();
            s.faults_hit > hits
        });
        if hit && res.is_ok() {
            let what = r.long.map_or_else(|| format!("{:?}", op), |l| format!("writing a text longer than the buffer {:?}", l));
            return Err(format!("{}: {} succeeds although the device refused its output ({:?})", ty.name, what, r.fault.get()));
        }
        info.nontrivial |= hit;
        info.class_if(hit && r.long.is_some(), "text longer than the buffer refused");
        info.class_if(hit, "call refused");
        info.class_if(hit && !matches!(op, TOp::WriteStr(_) | TOp::WriteChar(_) | TOp::WriteFmt(..)), "control sequence refused");
        g.flush().map_err(|e| format!("flush failed without a fault: {}", e))?;
        drop(g);
        // What had been accepted comes first
        if sim::with(|s| !s.out[start..].starts_with(fill.as_bytes())) {
            return Err(format!("{}: output accepted before {:?} was refused is lost", ty.name, op));
        }
        // Of a refused text, at most a leading part
        if let (Some(_), TOp::WriteStr(t)) = (r.long, &op) {
            if hit && sim::with(|s| !t.as_bytes().starts_with(&s.out[start + fill.len()..])) {
                return Err(format!("{}: other than a leading part of a refused text of {} bytes is delivered", ty.name, t.len()));
            }
        }
    }
    Ok(info)
}

/// The expected stream: pieces, those of failed calls being possibly cut short
struct Stream {
    pieces: Vec<(Vec<u8>, bool)>,
}

impl Stream {
    /// Whether `out` is a possible delivery; `complete`: everything must be there
    fn check(&self, out: &[u8], complete: bool) -> Result<(), String> {
        // Positions in `out` that can have been reached
        let mut at = vec![0usize];
        let mut best = 0;
        for (i, (p, cut)) in self.pieces.iter().enumerate() {
            let mut next: Vec<usize> = Vec::new();
            for &pos in &at {
                let rest = &out[pos..];
                let n = p.iter().zip(rest).take_while(|(a, b)| a == b).count();
                best = best.max(pos + n);
                if n == rest.len() && !complete {
                    return Ok(()); // Not all delivered yet
                }
                if *cut {
                    next.extend(pos..=pos + n);
                } else if n == p.len() {
                    next.push(pos + n);
                }
            }
            next.sort_unstable();
            next.dedup();
            at = next;
            if at.is_empty() {
                return Err(format!("at byte {} of {}: output differs from what was written, in piece {} ({} bytes); output there: {:?}",
                    best, out.len(), i, p.len(), String::from_utf8_lossy(&out[best..out.len().min(best + 40)])));
            }
        }
        if at.contains(&out.len()) {
            Ok(())
        } else {
            Err(format!("{} bytes delivered, at most {} were written", out.len(), at.iter().max().unwrap()))
        }
    }
}

impl Prop for C06 {
    type Case = OutCase;
    const ID: &'static str = "C06";
    const TIMES: u32 = 4;
    const STREAMS: u8 = 3;
    const RULE: &'static str = "a case is a history of text, attribute and movement calls of various sizes (1 byte to 255 KB, around the buffer \
        capacity), directly and through write guards, with flushes, while the device accepts writes partially, with EINTR, EAGAIN, EIO, ENOSPC \
        or not at all; the delivered bytes are compared with the concatenation of all calls' bytes; likewise every kind of call on a write guard whose \
        buffer is almost full while the device refuses, which must fail; non-trivial if a write was partial or failed";
    fn assumptions() -> Vec<&'static str> {
        vec!["the bytes of set_fg and of movements on type xterm are those of its terminal description"]
    }
    fn lanes() -> Vec<Lane<OutCase>> {
        fn case(max: usize, big: u32) -> BoxedStrategy<OutCase> {
            let op = prop_oneof![
                8 => (0u16..60).prop_map(WOp::Text),
                3 => (60u16..3000).prop_map(WOp::Text),
                big => prop_oneof![8150u16..8250, 8191u16..=8193, 4000u16..20000].prop_map(WOp::Text),
                big => (8u8..60).prop_map(WOp::Big),
                3 => (0u8..8).prop_map(WOp::Fg),
                3 => (1u8..200).prop_map(WOp::Move),
                3 => Just(WOp::Flush),
            ];
            let part = (any::<bool>(), prop_oneof![1 => Just(Vec::new()), 3 => vec(arb_flt(), 1..5)], vec(op, 0..8))
                .prop_map(|(guard, faults, ops)| WPart { guard, faults, ops });
            (vec(part, 1..=max), 0u8..3).prop_map(|(parts, end)| OutCase::Write(WriteCase { parts, end })).boxed()
        }
        // A device that takes a little at a time, for long
        let slow = prop_oneof![4 => (6u16..9).prop_map(Flt), 2 => (9u16..400).prop_map(Flt), 1 => Just(Flt(1))];
        let slow = (any::<bool>(), vec(slow, 20..300), vec(prop_oneof![
                4 => (0u16..200).prop_map(WOp::Text), 2 => (200u16..9000).prop_map(WOp::Text), 1 => (8u8..255).prop_map(WOp::Big), 1 => Just(WOp::Flush)], 1..5))
            .prop_map(|(guard, faults, ops)| WPart { guard, faults, ops });
        let slow = (vec(slow, 1..3), 0u8..3).prop_map(|(parts, end)| OutCase::Write(WriteCase { parts, end })).boxed();
        let any_op = || prop_oneof![4 => arb_attr_op(), 3 => arb_text_op(5), 3 => arb_move_op()];
        let round = (vec(any_op(), 0..4), prop_oneof![3 => 0u8..9, 1 => 9u8..40], (2u16..=5).prop_map(Flt), any_op(),
                prop_oneof![4 => Just(None), 1 => (prop_oneof![0u16..4, 0u16..9000], any::<bool>(), prop_oneof![Just(0u16), 1u16..9000]).prop_map(Some)])
            .prop_map(|(before, room, fault, op, long)| Refuse { before, room, fault, op, long });
        let refuse = (0u8..11, vec(round, 1..4)).prop_map(|(term, rounds)| OutCase::Refuse { term, rounds }).boxed();
        vec![
            lane("small", 60_000, 1_000_000, case(6, 1)),
            lane("big", 6_000, 150_000, case(5, 6)),
            lane("slow device", 1_000, 25_000, slow),
            lane("refused", 20_000, 400_000, refuse),
        ]
    }
    fn run(case: &OutCase) -> CaseResult {
        let case = match case {
            OutCase::Write(c) => c,
            OutCase::Refuse { term, rounds } => return refuse(*term, rounds),
        };
        let s = Session::new("xterm", 24, 80, Sim::default());
        let term = s.terminal().map_err(|e| format!("open: {}", e))?;
        let mut st = Stream { pieces: Vec::new() };
        let mut serial = 0u32;
        let mut fg = None;
        let mut fg_unknown = false;
        let mut info = Info::default();
        let hard = |q: &std::collections::VecDeque<WriteFault>| q.iter().filter(|f| matches!(f, WriteFault::Err(_) | WriteFault::Zero)).count();
        let mut text = |n: usize| {
            serial += 1;
            let mut t = format!("<{}:", serial);
            let mut k = serial as usize;
            while t.len() + 1 < n {
                k = (k * 7 + 3) % 1013;
                t.push(match k % 17 { 0 => 'é', 1 => '漢', 2 => '🎉', m => (b'a' + (m + k / 17) as u8 % 26) as char });
            }
            t.push('>');
            t
        };
        for p in &case.parts {
            let mut g = if p.guard { Some(term.lock_write().map_err(|_| "poisoned")?) } else { None };
            sim::with(|s| s.faults = p.faults.iter().map(|f| f.get()).collect());
            for op in &p.ops {
                let before = sim::with(|s| (hard(&s.faults), s.faults_hit));
                let mut flushed = false;
                let mut unsure = false;
                let (bytes, r) = match op {
                    WOp::Text(n) => {
                        let t = text(*n as usize);
                        let r = match g.as_mut() { Some(g) => g.write_str(&t), None => term.write_str(&t) };
                        (t.into_bytes(), r)
                    }
                    WOp::Big(n) => {
                        let t = text(*n as usize * 1024);
                        let r = match g.as_mut() { Some(g) => g.write_str(&t), None => term.write_str(&t) };
                        info.class("larger than the buffer");
                        (t.into_bytes(), r)
                    }
                    WOp::Fg(c) => {
                        let r = match g.as_mut() { Some(g) => g.set_fg(color(*c)), None => term.set_fg(color(*c)) };
                        let b = if fg == Some(*c) { Vec::new() } else { format!("\x1b[3{}m", c).into_bytes() };
                        // After a failure it is not known whether the color is set
                        unsure = fg_unknown;
                        fg_unknown = r.is_err();
                        fg = Some(*c);
                        (if unsure { format!("\x1b[3{}m", c).into_bytes() } else { b }, r)
                    }
                    WOp::Move(n) => {
                        let n = *n as usize + 1;
                        let r = match g.as_mut() { Some(g) => g.move_right(n), None => term.move_right(n) };
                        (format!("\x1b[{}C", n).into_bytes(), r)
                    }
                    WOp::Flush => {
                        let r = match g.as_mut() {
                            Some(g) => g.flush(),
                            None => term.lock_write().map_err(|_| "poisoned")?.flush(),
                        };
                        flushed = r.is_ok();
                        (Vec::new(), r)
                    }
                };
                let after = sim::with(|s| (hard(&s.faults), s.faults_hit));
                if r.is_err() && before.0 == after.0 {
                    return Err(format!("{:?} failed although the device reported no error: {:?}", op, r));
                }
                info.class_if(r.is_err(), "call failed");
                st.pieces.push((bytes, r.is_err() || unsure));
                info.nontrivial |= after.1 > before.1;
                // An accepted piece may be lost only before it is flushed
                sim::with(|s| st.check(&s.out, flushed)).map_err(|e| format!("after {:?}: {}", op, e))?;
            }
            let before = sim::with(|s| s.faults_hit);
            drop(g);
            let (clean, after) = sim::with(|s| (hard(&s.faults) == 0 && p.faults.iter().all(|f| !matches!(f.get(), WriteFault::Err(_) | WriteFault::Zero)), s.faults_hit));
            info.nontrivial |= after > before;
            // Without any error everything has been delivered by now
            // (a part without calls flushes nothing unless it held a guard)
            let clean = clean && (p.guard || !p.ops.is_empty());
            sim::with(|s| st.check(&s.out, clean)).map_err(|e| format!("after a part: {}", e))?;
            sim::with(|s| s.faults.clear());
        }
        match case.end % 3 {
            0 => {
                let mut g = term.lock_write().map_err(|_| "poisoned")?;
                g.flush().map_err(|e| format!("flush failed without a fault: {}", e))?;
                sim::with(|s| st.check(&s.out, true)).map_err(|e| format!("after a successful flush: {}", e))?;
            }
            1 => {
                drop(term.lock_write().map_err(|_| "poisoned")?);
                sim::with(|s| st.check(&s.out, true)).map_err(|e| format!("after dropping a write guard: {}", e))?;
            }
            _ => {
                drop(term);
                st.pieces.push((b"\x1b[?12l\x1b[?25h".to_vec(), false));
                sim::with(|s| st.check(&s.out, true)).map_err(|e| format!("after dropping the terminal: {}", e))?;
            }
        }
        Ok(info)
    }
}
