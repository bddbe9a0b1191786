#![allow(dead_code)]
mod alpha;
mod atoms;
mod alpha_faults;
mod checks_build;
mod checks_ext;
mod checks_json;
mod checks_misc;
mod checks_more;
mod checks_parts;
mod checks_text;
mod drive;
mod dump;
mod engine;
mod ext;
mod gen;
mod json;
mod judge;
mod model;
mod prog;

use checks_build::*;
use checks_ext::*;
use checks_json::*;
use checks_misc::*;
use checks_more::{n01, q02};
use checks_parts::j05;
use checks_text::j06;
use engine::Check;

const CHECKS: &[(&str, fn(bool) -> Check)] = &[
    ("S01", s01),
    ("S02", s02),
    ("F01", f01),
    ("F02", f02),
    ("A01", a01),
    ("D01", d01),
    ("D02", d02),
    ("D03", d03),
    ("U01", u01),
    ("R01", r01),
    ("L01", l01),
    ("L02", l02),
    ("T01", t01),
    ("B01", b01),
    ("J01", j01),
    ("J02", j02),
    ("J03", j03),
    ("J04", j04),
    ("J05", j05),
    ("J06", j06),
    ("E01", e01),
    ("E02", e02),
    ("D04", d04),
    ("O01", o01),
    ("P01", p01),
    ("Q01", q01),
    ("Q02", q02),
    ("N01", n01),
    ("M01", m01),
];

fn find(id: &str, tier: &str) -> Check {
    match CHECKS.iter().find(|c| c.0 == id) {
        Some(c) => (c.1)(tier == "thorough"),
        None => {
            eprintln!("no check for {id}");
            std::process::exit(2);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    engine::quiet_panics();
    let code = match args[..] {
        ["list"] => {
            for (id, _) in CHECKS {
                println!("{id}");
            }
            0
        }
        ["sizes", tier] => {
            for (id, _) in CHECKS {
                for s in &find(id, tier).spaces {
                    println!("{id} {:>12} {}", s.len, s.name);
                }
            }
            0
        }
        ["check", id, tier] => match std::panic::catch_unwind(|| find(id, tier)) {
            Ok(check) => engine::run(check, tier),
            Err(_) => engine::setup_failed(id, tier),
        },
        ["replay", file] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
            engine::replay(
                find(v["property"].as_str().unwrap(), v["tier"].as_str().unwrap()),
                v["space"].as_str().unwrap(),
                v["index"].as_u64().unwrap(),
            )
        }
        _ => {
            eprintln!("usage: wotmc check <id> quick|thorough | replay <file> | sizes <tier> | list");
            2
        }
    };
    std::process::exit(code);
}
