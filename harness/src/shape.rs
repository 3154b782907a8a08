//! Statements with term_write! and term_writeln! (C08): their generation, and their source
//! together with that of the equivalent method calls. Shared with the crate `macros08`, which
//! is built with the source generated here.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};

/// An expression: its form, and the value it uses
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ex(pub u8, pub u8);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum El {
    Fg(u8),
    Bg(u8),
    Add(u8),
    Remove(u8),
    Reset,
    NoFg,
    NoBg,
    NoStyle,
    FgEx(Ex),
    BgEx(Ex),
    StyleEx(Ex),
    AddEx(Ex),
    RemoveEx(Ex),
    ThemeEx(Ex),
    Display(Ex),
    Debug(Ex),
    Format(u8, Ex, Ex),
    Literal(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Shape {
    pub screen: bool,
    /// How the receiver is written
    pub recv: u8,
    /// Names of the receiver and of the values
    pub names: u8,
    pub ln: bool,
    pub els: Vec<El>,
}

pub const RECVS: u8 = 8;
const COLORS: [&str; 8] = ["black", "blue", "cyan", "green", "magenta", "red", "white", "yellow"];
const STYLES: [&str; 4] = ["bold", "italic", "reverse", "underline"];
const LITERALS: [&str; 14] = [
    r#""lit""#, r#""""#, r#"" two  words ""#, r#""{}""#, r#""{{:?}}""#, r#""é漢e\u{301}""#, r##"r#"a "raw" \n {x}"#"##, r#""\\ \"q\"""#,
    r#""a\nb""#, r#""100%d""#, r#""one \
        two""#, r#""term""#, r#""\x41\t.""#, r#""[red] (: x)""#,
];

fn upper(s: &str) -> String {
    s[..1].to_uppercase() + &s[1..]
}

fn color(e: &str, x: Ex) -> String {
    let s = x.1 % 4;
    match x.0 % 11 {
        0 => format!("{e}.fg({s})"),
        1 => format!("Some({e}.color({s}))"),
        2 => format!("{e}.color({s})"),
        3 => format!("::mortal::Color::{}", upper(COLORS[x.1 as usize % 8])),
        4 => "None".into(),
        5 => format!("{{ let init = {e}.fg({s}); init }}"),
        6 => format!("if {e}.flag({s}) {{ Some(::mortal::Color::Red) }} else {{ None }}"),
        7 => format!("match {e}.num({s}) % 3 {{ 0 => Some({e}.color(1)), 1 => None, _ => {e}.fg(2) }}"),
        8 => format!("[{e}.fg({s}), {e}.fg(0)][1]"),
        9 => format!("(|| {e}.fg({s}))()"),
        _ => format!("*&{e}.color({s})"),
    }
}

/// An expression for a style; `opt`: an optional one will do
fn style(e: &str, x: Ex, opt: bool) -> String {
    let s = x.1 % 4;
    match (x.0 % 8, opt) {
        (0, _) => format!("{e}.style({s})"),
        (1, true) => format!("Some({e}.style({s}))"),
        (2, true) => "None".into(),
        (3, true) => format!("if {e}.flag({s}) {{ Some({e}.style({s})) }} else {{ None }}"),
        (4, _) => format!("::mortal::Style::{}", STYLES[x.1 as usize % 4].to_uppercase()),
        (5, _) => format!("::mortal::Style::BOLD | {e}.style({s})"),
        (6, _) => format!("{{ let term = {e}.style({s}); term }}"),
        (7, _) => format!("{e}.style({s}) - ::mortal::Style::UNDERLINE"),
        _ => format!("::mortal::Style::empty()"),
    }
}

fn theme(e: &str, x: Ex) -> String {
    let s = x.1 % 4;
    match x.0 % 6 {
        0 => format!("{e}.theme({s})"),
        1 => format!("::mortal::Theme::new({e}.fg({s}), {e}.fg(0), {e}.style({s}))"),
        2 => "::mortal::Theme::default()".into(),
        3 => format!("{e}.theme({s}).fg({e}.fg(1))"),
        4 => format!("::mortal::Theme {{ fg: {e}.fg({s}), bg: None, style: {e}.style(2) }}"),
        _ => format!("{{ let result = {e}.theme({s}); result.bg({e}.color(1)) }}"),
    }
}

/// An expression with Display and Debug
fn text(e: &str, x: Ex) -> String {
    let s = x.1 % 4;
    match x.0 % 14 {
        0 => format!("{e}.text({s})"),
        1 => format!("{e}.num({s})"),
        2 => format!("&{e}.text({s})"),
        3 => format!("\"lit{{}}\""),
        4 => format!("{e}.num({s}) + 2"),
        5 => format!("-{e}.num({s})"),
        6 => format!("if {e}.flag({s}) {{ \"yes\" }} else {{ \"no\" }}"),
        7 => format!("{e}.ch({s})"),
        8 => format!("{e}.pieces({s})"),
        9 => format!("{{ let init = {e}.num({s}); init * 3 }}"),
        10 => format!("{e}.text({s}).len()"),
        11 => format!("{e}.pair({s}).1"),
        12 => format!("{s}.5"),
        _ => format!("match {e}.flag({s}) {{ true => {e}.text(1), false => {e}.text(2) }}"),
    }
}

/// An expression with Debug
fn debug(e: &str, x: Ex) -> String {
    let s = x.1 % 4;
    match x.0 % 7 {
        0 => format!("{e}.pair({s})"),
        1 => format!("Some({e}.num({s}))"),
        2 => format!("vec![{e}.text({s}), {e}.text(0)]"),
        3 => format!("{e}.theme({s})"),
        4 => format!("({e}.ch({s}), \"q\\\"\")"),
        _ => text(e, Ex(x.0 / 2, x.1)),
    }
}

/// Format string and arguments
fn format_args(e: &str, n: u8, x: Ex, y: Ex) -> String {
    let (a, b) = (text(e, x), text(e, y));
    let (s, t) = (x.1 % 4, y.1 % 4);
    match n % 15 {
        0 => format!("\"{{}}\", {a}"),
        1 => format!("\"{{}} {{}}\", {a}, {b}"),
        2 => format!("\"{{1}} {{0}} {{1}}\", {a}, {b}"),
        3 => format!("\"{{:?}}|{{:#?}}\", {}, {}", debug(e, x), debug(e, y)),
        4 => format!("\"{{x:>8}}{{y:<4}}|\", x = {e}.num({s}), y = {e}.ch({t})"),
        5 => format!("\"{{:08.3}}\", {e}.float({s})"),
        6 => format!("\"{{:>1$}}|\", {e}.text({s}), {e}.width({t})"),
        7 => format!("\"no arguments {{{{}}}}\""),
        8 => format!("\"{{:#x}} {{:+}}\", {e}.num({s}), {e}.num({t})"),
        9 => format!("\"{{:*^9}}\", {e}.text({s})"),
        10 => format!("\"{{}}\", {a},"),
        11 => format!("\"{{0:?}} {{0}}\", {e}.text({s})"),
        12 => format!("\"{{:.*}}\", {e}.width({s}), {e}.float({t})"),
        13 => format!("\"{{}}{{}}{{}}{{}}\", {a}, {b}, {e}.num({s}), {e}.pieces({t})"),
        _ => format!("\"a\\n{{}}\\tb\", {e}.num({s})"),
    }
}

impl El {
    fn element(&self, e: &str) -> String {
        let n = |n: u8, k: usize| n as usize % k;
        match self {
            El::Fg(c) => format!("[{}]", COLORS[n(*c, 8)]),
            El::Bg(c) => format!("[#{}]", COLORS[n(*c, 8)]),
            El::Add(s) => format!("[{}]", STYLES[n(*s, 4)]),
            El::Remove(s) => format!("[!{}]", STYLES[n(*s, 4)]),
            El::Reset => "[reset]".into(),
            El::NoFg => "[!fg]".into(),
            El::NoBg => "[!bg]".into(),
            El::NoStyle => "[!style]".into(),
            El::FgEx(x) => format!("[fg={}]", color(e, *x)),
            El::BgEx(x) => format!("[bg = {}]", color(e, *x)),
            El::StyleEx(x) => format!("[style={}]", style(e, *x, true)),
            El::AddEx(x) => format!("[style+={}]", style(e, *x, false)),
            El::RemoveEx(x) => format!("[style -= {}]", style(e, *x, false)),
            El::ThemeEx(x) => format!("[theme={}]", theme(e, *x)),
            El::Display(x) => format!("(: {})", text(e, *x)),
            El::Debug(x) => format!("(? {})", debug(e, *x)),
            El::Format(k, x, y) => format!("({})", format_args(e, *k, *x, *y)),
            El::Literal(k) => LITERALS[n(*k, LITERALS.len())].into(),
        }
    }

    /// The documented call
    fn call(&self, e: &str) -> String {
        let n = |n: u8, k: usize| n as usize % k;
        let col = |c: u8| format!("::mortal::Color::{}", upper(COLORS[n(c, 8)]));
        let sty = |s: u8| format!("::mortal::Style::{}", STYLES[n(s, 4)].to_uppercase());
        match self {
            El::Fg(c) => format!("set_fg({})", col(*c)),
            El::Bg(c) => format!("set_bg({})", col(*c)),
            El::Add(s) => format!("add_style({})", sty(*s)),
            El::Remove(s) => format!("remove_style({})", sty(*s)),
            El::Reset => "clear_attributes()".into(),
            El::NoFg => "set_fg(None)".into(),
            El::NoBg => "set_bg(None)".into(),
            El::NoStyle => "set_style(None)".into(),
            El::FgEx(x) => format!("set_fg({})", color(e, *x)),
            El::BgEx(x) => format!("set_bg({})", color(e, *x)),
            El::StyleEx(x) => format!("set_style({})", style(e, *x, true)),
            El::AddEx(x) => format!("add_style({})", style(e, *x, false)),
            El::RemoveEx(x) => format!("remove_style({})", style(e, *x, false)),
            El::ThemeEx(x) => format!("set_theme({})", theme(e, *x)),
            El::Display(x) => format!("write_str(&format!(\"{{}}\", {}))", text(e, *x)),
            El::Debug(x) => format!("write_str(&format!(\"{{:?}}\", {}))", debug(e, *x)),
            El::Format(k, x, y) => format!("write_str(&format!({}))", format_args(e, *k, *x, *y)),
            El::Literal(k) => format!("write_str({})", LITERALS[n(*k, LITERALS.len())]),
        }
    }
}

impl Shape {
    /// Functions `mK` (with the macro) and `rK` (with calls on a write guard)
    fn source(&self, k: usize) -> String {
        let (t, e) = [("t", "e"), ("term", "init"), ("result", "term"), ("first", "rest")][self.names as usize % 4];
        let dev = if self.screen { "Screen" } else { "Terminal" };
        let (ret, ok, q) = if self.screen { ("()", "", "") } else { ("std::io::Result<()>", "Ok(())", "?") };
        let (pre, recv) = match self.recv % RECVS {
            0 => ("".into(), t.into()),
            1 => ("".into(), format!("{e}.recv({t})")),
            2 => (format!("let mut {t} = {t}.lock_write().unwrap();"), t.into()),
            3 => (format!("let {t} = &mut {t}.lock_write().unwrap();"), t.into()),
            4 => ("".into(), format!("{t}.lock_write().unwrap()")),
            5 => ("".into(), format!("(*{t})")),
            6 => (format!("struct S<'a> {{ term: &'a ::mortal::{dev} }} let {t} = S {{ term: {t} }};"), format!("{t}.term")),
            _ => (format!("let mut {t} = [Some({t}.lock_write().unwrap())];"), format!("{t}[0].as_mut().unwrap()")),
        };
        let els: Vec<String> = self.els.iter().map(|x| x.element(e)).collect();
        let stmt = match (self.ln, els.is_empty()) {
            (true, true) => format!("term_writeln!({recv})"),
            (ln, _) => format!("term_write{}!({recv}, {})", if ln { "ln" } else { "" }, els.join(" ")),
        };
        let mut calls: String = self.els.iter().map(|x| format!("    {t}.{}{q};\n", x.call(e))).collect();
        if self.ln {
            calls += &format!("    {t}.write_str(\"\\n\"){q};\n");
        }
        let logs = if self.recv % RECVS == 1 { format!("{e}.log_recv(); ") } else { String::new() };
        format!("fn m{k}({t}: &::mortal::{dev}, {e}: &E) -> {ret} {{\n    {pre}\n    let value = {stmt};\n    value\n}}\n\
            fn r{k}({t}: &::mortal::{dev}, {e}: &E) -> {ret} {{\n    {logs}let mut {t} = {t}.lock_write().unwrap();\n{calls}    {ok}\n}}\n")
    }

    /// How many values are evaluated
    pub fn arguments(&self) -> usize {
        self.els.iter().map(|e| e.call("@").matches('@').count()).sum()
    }
}

fn arb_el() -> BoxedStrategy<El> {
    let ex = || (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Ex(a, b));
    prop_oneof![
        6 => prop_oneof![
            (0u8..8).prop_map(El::Fg), (0u8..8).prop_map(El::Bg), (0u8..4).prop_map(El::Add), (0u8..4).prop_map(El::Remove),
            Just(El::Reset), Just(El::NoFg), Just(El::NoBg), Just(El::NoStyle)],
        6 => prop_oneof![
            ex().prop_map(El::FgEx), ex().prop_map(El::BgEx), ex().prop_map(El::StyleEx), ex().prop_map(El::AddEx),
            ex().prop_map(El::RemoveEx), ex().prop_map(El::ThemeEx)],
        6 => prop_oneof![
            ex().prop_map(El::Display), ex().prop_map(El::Debug), (any::<u8>(), ex(), ex()).prop_map(|(k, a, b)| El::Format(k, a, b))],
        3 => any::<u8>().prop_map(El::Literal),
    ].boxed()
}

fn arb_shape() -> BoxedStrategy<Shape> {
    (any::<bool>(), 0..RECVS, 0u8..4, any::<bool>(), vec(arb_el(), 1..9))
        .prop_map(|(screen, recv, names, ln, els)| Shape { screen, recv, names, ln, els }).boxed()
}

/// `n` statements, the smallest first, with those of `add`
pub fn shapes(seed: u64, n: usize, add: Vec<Shape>) -> Vec<Shape> {
    let mut out = add;
    // Each element and each form of the receiver alone
    let mut els: Vec<El> = Vec::new();
    els.extend((0..8).flat_map(|c| [El::Fg(c), El::Bg(c)]));
    els.extend((0..4).flat_map(|s| [El::Add(s), El::Remove(s)]));
    els.extend([El::Reset, El::NoFg, El::NoBg, El::NoStyle]);
    let ex = Ex(0, 0);
    els.extend([El::FgEx(ex), El::BgEx(ex), El::StyleEx(ex), El::AddEx(ex), El::RemoveEx(ex), El::ThemeEx(ex), El::Display(ex), El::Debug(ex),
        El::Format(0, ex, ex), El::Format(7, ex, ex)]);
    els.extend((0..LITERALS.len() as u8).map(El::Literal));
    for (i, e) in els.into_iter().enumerate() {
        for screen in [false, true] {
            out.push(Shape { screen, recv: (i as u8 + screen as u8 * 3) % RECVS, names: i as u8 % 4, ln: i % 3 == 2, els: vec![e.clone()] });
        }
    }
    for recv in 0..RECVS {
        for screen in [false, true] {
            out.push(Shape { screen, recv, names: recv % 4, ln: true, els: Vec::new() });
        }
    }
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..14].copy_from_slice(b"shapes");
    let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    let s = arb_shape();
    while out.len() < n {
        out.push(s.new_tree(&mut runner).unwrap().current());
    }
    out.sort_by_key(|s| (s.els.len(), s.source(0).len()));
    out.dedup();
    out
}

pub fn program(shapes: &[Shape]) -> String {
    let mut s = String::from("// Generated by `mortal-pbt gen08`\n");
    for (k, x) in shapes.iter().enumerate() {
        s += &x.source(k);
    }
    s += "pub static STATEMENTS: &[F] = &[\n";
    for (k, x) in shapes.iter().enumerate() {
        s += &format!("    F::{}(m{k}, r{k}),\n", if x.screen { "S" } else { "T" });
    }
    s + "];\n"
}

/// `gen08 SEED N DIR [CASE.json...]`: writes the program and the list of its statements.
pub fn generate(seed: u64, n: usize, dir: &std::path::Path, cases: &[String]) -> i32 {
    let mut add = Vec::new();
    for c in cases {
        let v: serde_json::Value = match std::fs::read(c).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
            Some(v) => v,
            None => {
                println!("cannot read {}", c);
                return 2;
            }
        };
        let v = v.get("case").cloned().unwrap_or(v);
        match serde_json::from_value::<Shape>(v["shape"].clone()) {
            Ok(s) => add.push(s),
            Err(e) => {
                println!("no statement in {}: {}", c, e);
                return 2;
            }
        }
    }
    let list = shapes(seed, n, add);
    let put = |name: &str, text: String| {
        let p = dir.join(name);
        // Unchanged files are not built again
        if std::fs::read(&p).ok().as_deref() != Some(text.as_bytes()) {
            std::fs::write(&p, text).expect("write");
        }
    };
    put("shapes.rs", program(&list));
    put("shapes.json", serde_json::to_string(&list).unwrap());
    0
}

/// `shape08 DIR LINE`: prints a case for the statement at a line of the program, which does not compile.
pub fn find(dir: &std::path::Path, line: usize, out: &std::path::Path) -> i32 {
    let src = std::fs::read_to_string(dir.join("shapes.rs")).unwrap_or_default();
    let list: Vec<Shape> = serde_json::from_slice(&std::fs::read(dir.join("shapes.json")).unwrap_or_default()).unwrap_or_default();
    let k = src.lines().take(line).filter(|l| l.starts_with("fn m")).count();
    let s = match list.get(k.wrapping_sub(1)) {
        Some(s) => s,
        None => return 2,
    };
    let v = serde_json::json!({"property": "C08", "lane": "compiling", "message": "this statement does not compile", "case": {"shape": s}});
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).expect("write");
    println!("statement:\n{}", s.source(0));
    0
}
