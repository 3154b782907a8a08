#[macro_use]
extern crate mortal;

mod dev;
mod engine;
mod gen;
mod model;
mod props;
#[macro_use]
mod screen_ops;
mod shape;
mod sim;
mod step;
#[macro_use]
mod term_ops;
mod ti;
mod vt;

use std::path::Path;

use engine::On;

macro_rules! dispatch {
    ($id:expr, $f:ident, $args:tt) => {
        dispatch!(@ $id, $f, $args, [
            On<props::screen::C01>,
            On<props::screen::C02>,
            On<props::screen::C03>,
            On<props::screen::C07>,
            On<props::term::C04>,
            On<props::term::C05>,
            On<props::term::C06>,
            On<props::input::C10>,
            On<props::input::C11>,
            On<props::input::C12>,
            On<props::input::C13>,
            On<props::sigs::C14>,
            On<props::sigs::C15>,
            On<props::desc::C18>,
            On<props::forms::C19>,
            On<props::locks::C09>,
            On<props::pty::C16>,
            On<props::end::C17>,
            On<props::util::C20>,
            On<props::util::C21>,
            On<props::util::C22>,
            On<props::util::C23>,
            On<props::apart::C24>,
        ])
    };
    (@ $id:expr, $f:ident, $args:tt, [$($p:ty),* $(,)?]) => {{
        $( if $id == <$p as engine::Prop>::ID { return dispatch!(@call $f, $p, $args); } )*
        eprintln!("unknown property {}", $id);
        2
    }};
    (@call $f:ident, $p:ty, ($($a:expr),*)) => { engine::$f::<$p>($($a),*) };
}

fn run() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match a(1) {
        "check" => {
            let tier = if a(3).is_empty() {
                std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into())
            } else {
                a(3).to_owned()
            };
            let scale = a(4).parse().unwrap_or(1.0);
            let workers = std::env::var("MORTAL_PBT_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            dispatch!(a(2), check, (&tier, workers, scale))
        }
        "worker" => dispatch!(a(2), worker, (a(3).parse().unwrap(), a(4).parse().unwrap(), a(5), Path::new(a(6)),
            a(7).parse().unwrap())),
        "show" => dispatch!(a(2), show, (a(3).parse().unwrap_or(100), args.get(4).map(|s| s.as_str()))),
        "gen08" => shape::generate(a(2).parse::<i64>().unwrap_or(1) as u64, a(3).parse().unwrap(), Path::new(a(4)), &args[5..]),
        "shape08" => shape::find(Path::new(a(2)), a(3).parse().unwrap_or(0), Path::new(a(4))),
        "replay" => {
            let v: serde_json::Value = match std::fs::read(a(2)).ok().and_then(|d| serde_json::from_slice(&d).ok()) {
                Some(v) => v,
                None => {
                    println!("cannot read {}", a(2));
                    return 2;
                }
            };
            let id = v["property"].as_str().unwrap_or("").to_owned();
            dispatch!(id, replay, (v["case"].clone()))
        }
        _ => {
            eprintln!("usage: mortal-pbt check ID [tier [scale]] | replay FILE | show ID N [lane]");
            2
        }
    }
}

fn main() {
    let code = run();
    std::process::exit(code);
}
