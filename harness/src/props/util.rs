//! C20 SequenceMap, C21 SignalSet, C22 Cursor and Size, C23 characters, keys and prefixes.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use mortal::sequence::{Entry, FindResult, SequenceMap};
use mortal::signal::{Signal, SignalSet};
use mortal::util::*;
use mortal::{Cursor, Key, Size};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::*;
use crate::gen::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MOp {
    Insert(String, u32),
    Remove(String),
    Get(String),
    GetMut(String, u32),
    Find(String),
    OrInsert(String, u32),
    OrInsertWith(String, u32),
    AndModify(String, u32, u32),
    /// Entry match: what is done to an occupied entry, value
    Ent(String, u8, u32),
    From(Vec<(String, u32)>),
    FromIter(Vec<(String, u32)>),
    Values(u32),
    Clone,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MapCase {
    ops: Vec<MOp>,
    cap: Option<usize>,
    queries: Vec<String>,
}

fn arb_key(alpha: &'static [char], max: usize) -> BoxedStrategy<String> {
    vec((0..alpha.len()).prop_map(move |i| alpha[i]), 0..=max).prop_map(join).boxed()
}

pub struct C20;

fn find_model(m: &BTreeMap<String, u32>, k: &str) -> FindResult<u32> {
    let longer = m.keys().any(|x| x.len() > k.len() && x.starts_with(k));
    match (m.get(k), longer) {
        (Some(&v), true) => FindResult::Undecided(v),
        (Some(&v), false) => FindResult::Found(v),
        (None, true) => FindResult::Incomplete,
        (None, false) => FindResult::NotFound,
    }
}

fn check_map<K: AsRef<str>>(s: &SequenceMap<K, u32>, m: &BTreeMap<String, u32>, queries: &[String]) -> Result<(), String> {
    let have: Vec<(&str, u32)> = s.sequences().iter().map(|(k, v)| (k.as_ref(), *v)).collect();
    let want: Vec<(&str, u32)> = m.iter().map(|(k, v)| (k.as_str(), *v)).collect();
    if have != want {
        return Err(format!("contents {:?}, should be {:?}", have, want));
    }
    for q in queries {
        let (f, w) = (s.find(q).cloned(), find_model(m, q));
        if f != w {
            return Err(format!("find({:?}) gives {:?}, should give {:?}; keys {:?}", q, f, w, m.keys()));
        }
        if s.get(q) != m.get(q) {
            return Err(format!("get({:?}) gives {:?}, should give {:?}", q, s.get(q), m.get(q)));
        }
    }
    Ok(())
}

impl Prop for C20 {
    type Case = MapCase;
    const ID: &'static str = "C20";
    const TIMES: u32 = 5;
    const RULE: &'static str = "a case is a history of map operations with keys over a small alphabet (so that keys are often prefixes of \
        each other, also empty and non-ASCII); every result is compared with a sorted reference map, and find and get are tried on generated \
        queries and on every prefix of a key after each step; non-trivial if an operation met an existing key and some key was a prefix of another";
    fn lanes() -> Vec<Lane<MapCase>> {
        fn case(alpha: &'static [char], klen: usize, max: usize, many: usize) -> BoxedStrategy<MapCase> {
            let k = move || arb_key(alpha, klen);
            let v = || 0u32..1000;
            let op = prop_oneof![
                6 => (k(), v()).prop_map(|(a, b)| MOp::Insert(a, b)),
                3 => k().prop_map(MOp::Remove),
                1 => k().prop_map(MOp::Get),
                2 => (k(), v()).prop_map(|(a, b)| MOp::GetMut(a, b)),
                3 => k().prop_map(MOp::Find),
                2 => (k(), v()).prop_map(|(a, b)| MOp::OrInsert(a, b)),
                2 => (k(), v()).prop_map(|(a, b)| MOp::OrInsertWith(a, b)),
                2 => (k(), v(), v()).prop_map(|(a, b, c)| MOp::AndModify(a, b, c)),
                4 => (k(), 0u8..8, v()).prop_map(|(a, b, c)| MOp::Ent(a, b, c)),
                1 => vec((k(), v()), 0..many).prop_map(MOp::From),
                1 => vec((k(), v()), 0..many).prop_map(MOp::FromIter),
                1 => v().prop_map(MOp::Values),
                1 => Just(MOp::Clone),
            ];
            (vec(op, 1..=max), prop::option::of(0usize..20), vec(k(), 0..6))
                .prop_map(|(ops, cap, queries)| MapCase { ops, cap, queries }).boxed()
        }
        vec![
            lane("ab", 60_000, 2_000_000, case(&['a', 'b'], 4, 24, 14)),
            lane("mixed", 40_000, 1_500_000, case(&['a', 'A', 'b', '\0', '\x7f', 'é', '漢', '\u{10ffff}', '\x1b', '['], 4, 30, 14)),
            lane("similar", 20_000, 600_000, case(&['a', 'A', 'é', 'É', 'e', '\u{301}', ' '], 3, 20, 14)),
            lane("large", 4_000, 100_000, case(&['a', 'b', 'c', 'é'], 6, 200, 100)),
            lane("long keys", 10_000, 300_000, case(&['a', 'a', 'a', 'b'], 40, 20, 14)),
            lane("conversions", 10_000, 300_000, case(&['a', 'b', 'c'], 3, 3, 300)),
        ]
    }
    fn run(case: &MapCase) -> CaseResult {
        let mut m: BTreeMap<String, u32> = BTreeMap::new();
        let mut s: SequenceMap<String, u32> = match case.cap {
            Some(n) => SequenceMap::with_capacity(n),
            None => SequenceMap::new(),
        };
        let mut info = Info::default();
        let (mut hit, mut pfx) = (false, false);
        macro_rules! same {
            ($op:expr, $a:expr, $b:expr) => {{
                let (a, b) = ($a, $b);
                if a != b {
                    return Err(format!("{:?} gives {:?}, should give {:?}", $op, a, b));
                }
            }};
        }
        for op in &case.ops {
            let mut query: Option<&String> = None;
            match op {
                MOp::Insert(k, v) => {
                    query = Some(k);
                    hit |= m.contains_key(k);
                    same!(op, s.insert(k.clone(), *v), m.insert(k.clone(), *v));
                }
                MOp::Remove(k) => {
                    query = Some(k);
                    hit |= m.contains_key(k);
                    same!(op, s.remove(k), m.remove_entry(k));
                }
                MOp::Get(k) => same!(op, s.get(k), m.get(k)),
                MOp::GetMut(k, v) => {
                    same!(op, s.get_mut(k).map(|x| std::mem::replace(x, *v)), m.get_mut(k).map(|x| std::mem::replace(x, *v)));
                }
                MOp::Find(k) => same!(op, s.find(k).cloned(), find_model(&m, k)),
                MOp::OrInsert(k, v) => {
                    query = Some(k);
                    hit |= m.contains_key(k);
                    let a = s.entry(k.clone()).or_insert(*v);
                    let b = m.entry(k.clone()).or_insert(*v);
                    same!(op, *a, *b);
                    *a += 1;
                    *b += 1;
                }
                MOp::OrInsertWith(k, v) => {
                    query = Some(k);
                    let (mut ca, mut cb) = (0, 0);
                    let a = s.entry(k.clone()).or_insert_with(|| { ca += 1; *v });
                    let b = m.entry(k.clone()).or_insert_with(|| { cb += 1; *v });
                    same!(op, *a, *b);
                    *a += 1;
                    *b += 1;
                    same!(op, ca, cb);
                }
                MOp::AndModify(k, v, w) => {
                    query = Some(k);
                    hit |= m.contains_key(k);
                    let a = *s.entry(k.clone()).and_modify(|x| *x = *v).or_insert(*w);
                    let b = *m.entry(k.clone()).and_modify(|x| *x = *v).or_insert(*w);
                    same!(op, a, b);
                }
                MOp::Ent(k, what, v) => {
                    query = Some(k);
                    let old = m.get(k).copied();
                    let e = s.entry(k.clone());
                    same!(op, e.key(), k);
                    match e {
                        Entry::Occupied(mut o) => {
                            hit = true;
                            let old = match old {
                                Some(v) => v,
                                None => return Err(format!("{:?}: occupied entry of an absent key", op)),
                            };
                            same!(op, o.key(), k);
                            same!(op, *o.get(), old);
                            same!(op, *o.get_mut(), old);
                            match what {
                                0 => { *o.get_mut() = *v; m.insert(k.clone(), *v); }
                                1 => { *o.into_mut() = *v; m.insert(k.clone(), *v); }
                                2 => { same!(op, o.insert(*v), old); same!(op, *o.get(), *v); m.insert(k.clone(), *v); }
                                3 | 4 => { same!(op, o.remove(), old); m.remove(k); }
                                5 | 6 => { same!(op, o.remove_entry(), (k.clone(), old)); m.remove(k); }
                                _ => (),
                            }
                        }
                        Entry::Vacant(e) => {
                            if old.is_some() {
                                return Err(format!("{:?}: vacant entry of a present key", op));
                            }
                            same!(op, e.key(), k);
                            match what {
                                0 => same!(op, &e.into_key(), k),
                                1 => (),
                                _ => {
                                    let x = e.insert(*v);
                                    same!(op, *x, *v);
                                    *x += 1;
                                    m.insert(k.clone(), *v + 1);
                                }
                            }
                        }
                    }
                }
                MOp::From(l) => {
                    s = SequenceMap::from(l.clone());
                    m.clear();
                    for (k, v) in l {
                        hit |= m.contains_key(k);
                        m.entry(k.clone()).or_insert(*v);
                    }
                }
                MOp::FromIter(l) => {
                    s = l.iter().cloned().collect();
                    m.clear();
                    for (k, v) in l {
                        hit |= m.contains_key(k);
                        m.insert(k.clone(), *v);
                    }
                }
                MOp::Values(d) => {
                    for (i, x) in s.sequences_mut().iter_mut().enumerate() {
                        x.1 = d + i as u32;
                    }
                    for (i, x) in m.values_mut().enumerate() {
                        *x = d + i as u32;
                    }
                }
                MOp::Clone => s = s.clone(),
            }
            let mut q = case.queries.clone();
            q.extend(query.cloned());
            check_map(&s, &m, &q).map_err(|e| format!("after {:?}: {}", op, e))?;
            pfx |= m.keys().zip(m.keys().skip(1)).any(|(a, b)| b.starts_with(a.as_str()));
        }
        // Every prefix of every key, and keys with something appended
        let mut q: Vec<String> = Vec::new();
        for k in m.keys() {
            q.extend(k.char_indices().map(|(i, _)| k[..i].to_owned()));
            q.push(k.clone());
            q.push(format!("{}\0", k));
            q.push(format!("{}a", k));
        }
        check_map(&s, &m, &q)?;
        // The same contents with another key type
        let l: Vec<(&str, u32)> = m.iter().map(|(k, v)| (k.as_str(), *v)).rev().collect();
        check_map(&SequenceMap::<&str, u32>::from(l.clone()), &m, &q)?;
        check_map(&l.into_iter().map(|(k, v)| (Box::<str>::from(k), v)).collect::<SequenceMap<Box<str>, u32>>(), &m, &q)?;
        info.nontrivial = hit && pfx;
        info.class_if(m.contains_key(""), "empty key");
        info.class_if(m.len() > 16, "more than 16 keys");
        Ok(info)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SetCase {
    a: u8,
    b: u8,
    /// (kind, signal) pairs for histories
    ops: Vec<(u8, u8, u8)>,
}

pub struct C21;

fn bits(s: SignalSet) -> u8 {
    (0..6).filter(|&i| s.contains(SIGS[i])).map(|i| 1 << i).sum()
}

fn set_of(b: u8) -> SignalSet {
    let mut s = SignalSet::new();
    for (i, &g) in SIGS.iter().enumerate() {
        if b & (1 << i) != 0 {
            s.insert(g);
        }
    }
    s
}

fn debug_of(b: u8) -> String {
    let names: Vec<String> = (0..6).filter(|i| b & (1 << i) != 0).map(|i| format!("{:?}", SIGS[i])).collect();
    format!("SignalSet({})", names.join(" | "))
}

fn check_pair(x: u8, y: u8) -> Result<u64, String> {
    let (a, b) = (set_of(x), set_of(y));
    let mut n = 0;
    let mut eq = |what: &str, got: SignalSet, want: u8| -> Result<(), String> {
        n += 1;
        // Equality with a set built otherwise shows that there are no hidden members
        if bits(got) != want || got != set_of(want) || format!("{:?}", got) != debug_of(want)
                || got.is_empty() != (want == 0) || !(got == set_of(want)) {
            return Err(format!("{} of {} and {} is {:?}, should be {}", what, debug_of(x), debug_of(y), got, debug_of(want)));
        }
        Ok(())
    };
    eq("first", a, x)?;
    eq("union", a.union(b), x | y)?;
    eq("|", a | b, x | y)?;
    eq("intersection", a.intersection(b), x & y)?;
    eq("&", a & b, x & y)?;
    eq("difference", a.difference(b), x & !y)?;
    eq("-", a - b, x & !y)?;
    eq("symmetric_difference", a.symmetric_difference(b), x ^ y)?;
    eq("^", a ^ b, x ^ y)?;
    eq("inverse", a.inverse(), !x & 63)?;
    eq("!", !a, !x & 63)?;
    eq("all", SignalSet::all(), 63)?;
    eq("default", SignalSet::default(), 0)?;
    macro_rules! assign { ($op:tt, $w:expr) => {{ let mut c = a; c $op b; eq(stringify!($op), c, $w)?; }} }
    assign!(|=, x | y);
    assign!(&=, x & y);
    assign!(-=, x & !y);
    assign!(^=, x ^ y);
    if a.contains_all(b) != (x & y == y) {
        return Err(format!("{:?} contains_all {:?}: {}", a, b, a.contains_all(b)));
    }
    if a.intersects(b) != (x & y != 0) {
        return Err(format!("{:?} intersects {:?}: {}", a, b, a.intersects(b)));
    }
    if (a == b) != (x == y) {
        return Err(format!("{:?} == {:?}: {}", a, b, a == b));
    }
    for (i, &g) in SIGS.iter().enumerate() {
        let bit = 1 << i;
        let mut c = a;
        c.insert(g);
        eq("insert", c, x | bit)?;
        let mut c = a;
        c.remove(g);
        eq("remove", c, x & !bit)?;
        for v in [false, true] {
            let mut c = a;
            c.set(g, v);
            eq("set", c, if v { x | bit } else { x & !bit })?;
        }
        eq("From", SignalSet::from(g), bit)?;
        eq("! of a signal", !g, !bit & 63)?;
        for (j, &h) in SIGS.iter().enumerate() {
            eq("| of signals", g | h, bit | 1 << j)?;
        }
    }
    let of = |y: u8| SIGS.iter().enumerate().filter(move |(i, _)| y & (1 << i) != 0).map(|(_, &g)| g);
    eq("FromIterator", of(y).collect(), y)?;
    eq("FromIterator (repeated, reversed)", of(y).rev_vec().into_iter().chain(of(y)).collect(), y)?;
    let mut c = a;
    c.extend(of(y));
    eq("extend", c, x | y)?;
    Ok(n)
}

trait RevVec {
    fn rev_vec(self) -> Vec<Signal>;
}
impl<I: Iterator<Item = Signal>> RevVec for I {
    fn rev_vec(self) -> Vec<Signal> {
        let mut v: Vec<Signal> = self.collect();
        v.reverse();
        v
    }
}

impl Prop for C21 {
    type Case = SetCase;
    const ID: &'static str = "C21";
    const TIMES: u32 = 10;
    const RULE: &'static str = "all 64x64 pairs of sets are checked exhaustively for every operation against bit arithmetic; generated histories \
        of mutating operations are checked against a reference set after every step; a history is non-trivial if it changes membership both ways";
    fn lanes() -> Vec<Lane<SetCase>> {
        vec![lane("history", 40_000, 1_000_000,
            (0u8..64, 0u8..64, vec((0u8..10, 0u8..6, 0u8..64), 0..30)).prop_map(|(a, b, ops)| SetCase { a, b, ops }).boxed())]
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (SetCase, String)> {
        let mut n = 0;
        for a in 0..64 {
            for b in 0..64 {
                match check_pair(a, b) {
                    Ok(k) => n += k,
                    Err(e) => return Err((SetCase { a, b, ops: Vec::new() }, e)),
                }
            }
        }
        Ok(Some((n, "every SignalSet operation on all 4096 pairs of sets and all signals".into())))
    }
    fn run(case: &SetCase) -> CaseResult {
        check_pair(case.a, case.b)?;
        let mut s = set_of(case.a);
        let mut m = case.a;
        let (mut up, mut down) = (false, false);
        for op in &case.ops {
            let (g, bit, o) = (SIGS[op.1 as usize], 1u8 << op.1, set_of(op.2));
            let before = m;
            match op.0 {
                0 => { s.insert(g); m |= bit; }
                1 => { s.remove(g); m &= !bit; }
                2 => { s.set(g, op.2 & 1 == 1); if op.2 & 1 == 1 { m |= bit } else { m &= !bit } }
                3 => { s |= o; m |= op.2; }
                4 => { s &= o; m &= op.2; }
                5 => { s ^= o; m ^= op.2; }
                6 => { s -= o; m &= !op.2; }
                7 => { s = !s; m = !m & 63; }
                8 => { s.extend(vec![g, g]); m |= bit; }
                _ => { s = s.union(SignalSet::from(g)).difference(o); m = (m | bit) & !op.2; }
            }
            up |= m & !before != 0;
            down |= before & !m != 0;
            if bits(s) != m || s != set_of(m) || format!("{:?}", s) != debug_of(m) {
                return Err(format!("after {:?}: {:?}, should be {}", op, s, debug_of(m)));
            }
        }
        Ok(Info::new(up && down))
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SizeCase {
    lines: u64,
    cols: u64,
    line: u64,
    col: u64,
}

pub struct C22;

fn check_cell(size: Size, line: usize, column: usize) -> Result<(), String> {
    let c = Cursor { line, column };
    let inside = line < size.lines && column < size.columns;
    if c.is_out_of_bounds(size) == inside {
        return Err(format!("{:?} in {:?}: is_out_of_bounds is {}", c, size, !inside));
    }
    if Cursor::from((line, column)) != c {
        return Err(format!("Cursor::from({:?}) is {:?}", (line, column), Cursor::from((line, column))));
    }
    if !inside {
        // Whatever it is, the next cell is not outside (if it can be computed)
        if line < usize::MAX && column < usize::MAX {
            if let Some(n) = c.next(size) {
                if n.line >= size.lines || n.column >= size.columns {
                    return Err(format!("{:?}.next({:?}) is {:?}, which is outside", c, size, n));
                }
            }
        }
        return Ok(());
    }
    let next = if column + 1 < size.columns {
        Some(Cursor { line, column: column + 1 })
    } else if line + 1 < size.lines {
        Some(Cursor { line: line + 1, column: 0 })
    } else {
        None
    };
    let prev = if column > 0 {
        Some(Cursor { line, column: column - 1 })
    } else if line > 0 {
        Some(Cursor { line: line - 1, column: size.columns - 1 })
    } else {
        None
    };
    if c.next(size) != next {
        return Err(format!("{:?}.next({:?}) is {:?}, should be {:?}", c, size, c.next(size), next));
    }
    if c.previous(size) != prev {
        return Err(format!("{:?}.previous({:?}) is {:?}, should be {:?}", c, size, c.previous(size), prev));
    }
    if let Some(n) = next {
        if n.previous(size) != Some(c) {
            return Err(format!("{:?}.previous({:?}) is {:?}, not {:?}", n, size, n.previous(size), c));
        }
    }
    if let Some(p) = prev {
        if p.next(size) != Some(c) {
            return Err(format!("{:?}.next({:?}) is {:?}, not {:?}", p, size, p.next(size), c));
        }
    }
    Ok(())
}

fn check_size(size: Size) -> Result<(), String> {
    let area = size.lines as u128 * size.columns as u128;
    let want = if area > usize::MAX as u128 { None } else { Some(area as usize) };
    if size.checked_area() != want {
        return Err(format!("{:?}.checked_area() is {:?}, should be {:?}", size, size.checked_area(), want));
    }
    let r = catch_unwind(AssertUnwindSafe(|| size.area())).ok();
    if r != want {
        return Err(format!("{:?}.area() is {:?} (None: panic), should be {:?}", size, r, want));
    }
    if Cursor::first() != (Cursor { line: 0, column: 0 }) || Cursor::default() != Cursor::first() {
        return Err("first() or default() is not the first cell".into());
    }
    let last = Cursor { line: size.lines - 1, column: size.columns - 1 };
    if Cursor::last(size) != last {
        return Err(format!("last({:?}) is {:?}", size, Cursor::last(size)));
    }
    check_cell(size, 0, 0)?;
    check_cell(size, last.line, last.column)
}

impl Prop for C22 {
    type Case = SizeCase;
    const ID: &'static str = "C22";
    const TIMES: u32 = 30;
    const RULE: &'static str = "all cells (and a margin outside) of all sizes up to 24x24 are walked exhaustively; generated sizes up to \
        the limits of usize are checked at generated cells and at the ends; a generated case is non-trivial if the cell is in the first or \
        last line or column, or outside";
    fn lanes() -> Vec<Lane<SizeCase>> {
        let n = || prop_oneof![
            4 => 1u64..300, 1 => 60_000u64..70_000, 1 => Just(1u64), 1 => Just(u64::MAX), 1 => Just(1 << 32), 1 => Just((1 << 32) - 1),
            1 => Just(u64::MAX / 2), 1 => (1u64..1000).prop_map(|d| u64::MAX / d), 1 => 1u64..=u64::MAX];
        let case = (n(), n(), any::<u64>(), any::<u64>(), 0u8..6, 0u8..6).prop_map(|(lines, cols, a, b, wa, wb)| {
            let at = |n: u64, x: u64, w: u8| match w {
                0 => 0,
                1 => n - 1,
                2 => (n - 1).saturating_add(1 + x % 2),
                3 => (n - 1).saturating_sub(x % 2),
                4 if x % 7 == 0 => u64::MAX,
                _ => x % n,
            };
            SizeCase { lines, cols, line: at(lines, a, wa), col: at(cols, b, wb) }
        }).boxed();
        vec![lane("sizes", 200_000, 5_000_000, case)]
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (SizeCase, String)> {
        let mut count = 0;
        for lines in 1..=24usize {
            for cols in 1..=24usize {
                let size = Size { lines, columns: cols };
                let case = |c: Cursor| SizeCase { lines: lines as u64, cols: cols as u64, line: c.line as u64, col: c.column as u64 };
                check_size(size).map_err(|e| (case(Cursor::first()), e))?;
                for l in 0..lines + 2 {
                    for c in 0..cols + 2 {
                        count += 1;
                        check_cell(size, l, c).map_err(|e| (case((l, c).into()), e))?;
                    }
                }
                // The whole walk, both ways
                let mut cur = Some(Cursor::first());
                let mut n = 0;
                while let Some(c) = cur {
                    if n > lines * cols || (c.line, c.column) != (n / cols, n % cols) {
                        return Err((case(c), format!("step {} of the walk is at {:?}", n, c)));
                    }
                    n += 1;
                    cur = c.next(size);
                }
                if n != lines * cols {
                    return Err((case(Cursor::last(size)), format!("the walk ends after {} of {} cells", n, lines * cols)));
                }
            }
        }
        Ok(Some((count, "all cells of all sizes up to 24x24, and the full walks".into())))
    }
    fn run(case: &SizeCase) -> CaseResult {
        let size = Size { lines: case.lines as usize, columns: case.cols as usize };
        check_size(size)?;
        check_cell(size, case.line as usize, case.col as usize)?;
        let mut i = Info::default();
        i.class_if(size.checked_area().is_none(), "area overflows");
        let out = case.line >= case.lines || case.col >= case.cols;
        i.class_if(out, "outside");
        i.nontrivial = out || case.line == 0 || case.col == 0 || case.line == case.lines - 1 || case.col == case.cols - 1;
        Ok(i)
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TextCase {
    text: String,
}

pub struct C23;

fn check_char(c: char) -> Result<(), String> {
    let n = c as u32;
    if is_ctrl(c) != (n <= 0x1f) {
        return Err(format!("is_ctrl({:?}) is {}", c, is_ctrl(c)));
    }
    if n <= 0x1f {
        let up = char::from_u32(n + 0x40).unwrap();
        if unctrl_upper(c) != up {
            return Err(format!("unctrl_upper({:?}) is {:?}", c, unctrl_upper(c)));
        }
        if unctrl_lower(c) != up.to_ascii_lowercase() {
            return Err(format!("unctrl_lower({:?}) is {:?}", c, unctrl_lower(c)));
        }
        if ctrl(unctrl_upper(c)) != c || ctrl(unctrl_lower(c)) != c {
            return Err(format!("ctrl is not inverse to unctrl at {:?}", c));
        }
    }
    if ('@'..='_').contains(&c) || c.is_ascii_lowercase() {
        let want = char::from_u32(n % 32).unwrap();
        if ctrl(c) != want || !is_ctrl(ctrl(c)) {
            return Err(format!("ctrl({:?}) is {:?}, should be {:?}", c, ctrl(c), want));
        }
        if unctrl_lower(ctrl(c)) != c.to_ascii_lowercase() || unctrl_upper(ctrl(c)) != c.to_ascii_uppercase() {
            return Err(format!("unctrl of ctrl({:?})", c));
        }
    }
    if char_width(c) != unicode_width::UnicodeWidthChar::width(c) {
        return Err(format!("char_width({:?}) is {:?}", c, char_width(c)));
    }
    if is_combining_mark(c) != unicode_normalization::char::is_combining_mark(c) {
        return Err(format!("is_combining_mark({:?}) is {:?}", c, is_combining_mark(c)));
    }
    let key = match c {
        '\x1b' => Key::Escape,
        '\x7f' => Key::Backspace,
        '\r' | '\n' => Key::Enter,
        '\t' => Key::Tab,
        '\0'..='\x1f' => Key::Ctrl(char::from_u32(n + 0x40).unwrap().to_ascii_lowercase()),
        c => Key::Char(c),
    };
    if Key::from(c) != key {
        return Err(format!("Key::from({:?}) is {:?}, should be {:?}", c, Key::from(c), key));
    }
    Ok(())
}

fn check_prefixes(s: &str) -> Result<(), String> {
    let mut want: Vec<&str> = Vec::new();
    for i in 1..=s.len() {
        if s.is_char_boundary(i) {
            want.push(&s[..i]);
        }
    }
    let mut it = prefixes(s);
    let mut got = Vec::new();
    while let Some(p) = it.next() {
        got.push(p);
        if got.len() > want.len() {
            break;
        }
    }
    if got != want {
        return Err(format!("prefixes({:?}) are {:?}", s, got));
    }
    if it.next().is_some() || it.next().is_some() {
        return Err(format!("prefixes({:?}) go on after the end", s));
    }
    Ok(())
}

impl Prop for C23 {
    type Case = TextCase;
    const ID: &'static str = "C23";
    const TIMES: u32 = 50;
    const RULE: &'static str = "all 1,112,064 characters are checked exhaustively; generated strings are checked for prefixes against \
        their character boundaries, and their characters again; a string is non-trivial if it has at least two characters of different encoded length";
    fn assumptions() -> Vec<&'static str> {
        vec!["unicode-width 0.1.14 and unicode-normalization 0.1 give the Unicode values of width and combining class"]
    }
    fn lanes() -> Vec<Lane<TextCase>> {
        vec![
            lane("text", 60_000, 2_000_000, arb_text(30).prop_map(|text| TextCase { text }).boxed()),
            lane("any", 40_000, 1_000_000, vec(any::<char>(), 0..40).prop_map(|v| TextCase { text: join(v) }).boxed()),
        ]
    }
    fn exhaustive() -> Result<Option<(u64, String)>, (TextCase, String)> {
        let mut n = 0;
        for c in '\0'..=char::MAX {
            n += 1;
            check_char(c).map_err(|e| (TextCase { text: c.to_string() }, e))?;
        }
        Ok(Some((n, "every character".into())))
    }
    fn run(case: &TextCase) -> CaseResult {
        for c in case.text.chars() {
            check_char(c)?;
        }
        check_prefixes(&case.text)?;
        let mut lens: Vec<usize> = case.text.chars().map(|c| c.len_utf8()).collect();
        lens.sort_unstable();
        lens.dedup();
        Ok(Info::new(lens.len() > 1))
    }
}
