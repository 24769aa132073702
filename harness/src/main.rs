//! Conformance harness: drives the real crate with the specification's behaviours and records what it does.
#![allow(unconditional_panic, arithmetic_overflow, overflowing_literals, dead_code)]
mod calls;
mod consts;
mod deploy;
mod effects;
mod gen;
mod grants;
mod lazy;
mod mbt;
mod model;
mod names;
mod noise;
mod record;
mod replay;
mod sha;
mod user;
mod values;

use serde_json::Value;
use std::io::Write;

fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_else(|| panic!("harness: missing argument {n}"))
}
fn write_lines(path: &str, lines: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("create"));
    for l in lines {
        writeln!(f, "{l}").expect("write");
    }
    f.flush().expect("flush");
}
fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path).expect("read").lines().map(|l| serde_json::from_str(l).expect("json line")).collect()
}
/// Integer literals of the sources, with neighbours: only used as input values.
fn dictionary(path: &str) -> Vec<u64> {
    let mut d: Vec<u64> = std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| l.trim().parse().ok()).collect();
    let more: Vec<u64> = d.iter().flat_map(|x| [x.wrapping_sub(1), x.wrapping_add(1)]).collect();
    d.extend(more);
    for k in 0..64 {
        d.push(1 << k);
        d.push((1u64 << k) - 1);
    }
    d.sort();
    d.dedup();
    d
}

fn main() {
    let quiet = std::env::var("HARNESS_VERBOSE").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|i| {
            // panics of the code under test are observations; those of the harness itself are not
            let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("harness") || i.location().map_or(false, |l| l.file().starts_with("src/")) {
                eprintln!("{i}");
            }
        }));
    }
    match arg(1).as_str() {
        // record <prop> <quick|thorough> <seed> <dict> <out> <model>
        "record" => {
            let (deep, seed, dict) = (arg(3) == "thorough", arg(4).parse().unwrap(), dictionary(&arg(5)));
            let mut ev = record::events(&arg(2), deep, seed, &dict);
            // the same calls again, among unrelated ones: only different answers are news
            noise::start(seed ^ 0x6e6f697365, &dict, &model::Model::load(&arg(7)));
            let again = record::events(&arg(2), deep, seed, &dict);
            noise::stop();
            let news: Vec<Value> = again.into_iter().zip(&ev).filter(|(b, a)| b != *a).map(|(b, _)| b).collect();
            ev.extend(news);
            write_lines(&arg(6), &ev);
            println!("{{\"events\": {}}}", ev.len());
        }
        // replay <prop> <model> <quick|thorough> <seed> <dict> <scale> <sample> <bad-out> <sample-out> <seconds>
        "replay" => {
            let md = model::Model::load(&arg(3));
            let (sum, bad, smp) = replay::run(&arg(2), &md, &dictionary(&arg(6)), arg(5).parse().unwrap(), arg(7).parse().unwrap(),
                                              arg(4) == "thorough", 8, arg(8).parse().unwrap(), arg(11).parse().unwrap());
            write_lines(&arg(9), &bad);
            write_lines(&arg(10), &smp);
            println!("{sum}");
        }
        // ptr-record <seed> <dict> <count> <len> <out>
        "ptr-record" => {
            let dict = dictionary(&arg(3));
            let ev = mbt::ptr_sessions(&mut gen::Gen::new(arg(2).parse().unwrap(), &dict), arg(4).parse().unwrap(), arg(5).parse().unwrap());
            write_lines(&arg(6), &ev);
            println!("{{\"sessions\": {}}}", ev.len());
        }
        // ptr-replay | machine-replay | deploy-replay | grants-replay | effects-replay <walks> <bad-out>
        "ptr-replay" | "machine-replay" | "deploy-replay" | "grants-replay" | "effects-replay" => {
            let walks = read_lines(&arg(2));
            let (steps, bad) = match arg(1).as_str() {
                "ptr-replay" => mbt::ptr_replay(&walks),
                "machine-replay" => mbt::machine_replay(&walks),
                "deploy-replay" => deploy::replay(&walks),
                "effects-replay" => effects::replay(&walks),
                _ => grants::replay(&walks),
            };
            write_lines(&arg(3), &bad);
            println!("{{\"walks\": {}, \"steps\": {}, \"mismatches\": {}}}", walks.len(), steps, bad.len());
        }
        // machine-record <model> <seed> <dict> <programs> <cycles> <out> <single-out>
        "machine-record" => {
            let md = model::Model::load(&arg(2));
            let dict = dictionary(&arg(4));
            let mut g = gen::Gen::new(arg(3).parse().unwrap(), &dict);
            let ev = mbt::programs(&mut g, &md, arg(5).parse().unwrap(), arg(6).parse().unwrap());
            write_lines(&arg(7), &ev);
            let one = mbt::single_cycles(&mut g, &md);
            write_lines(&arg(8), &one);
            let cycles: usize = ev.iter().chain(&one).map(|e| e["obs"].as_array().unwrap().len()).sum();
            println!("{{\"programs\": {}, \"single\": {}, \"cycles\": {}}}", ev.len(), one.len(), cycles);
        }
        // deploy-run <model> <seed> <dict> <sessions> <with long codes> <sample> <seconds> <bad-out> <sample-out>
        "deploy-run" => {
            let md = model::Model::load(&arg(2));
            let n = |k| arg(k).parse().unwrap();
            let o = deploy::run(&md, &dictionary(&arg(4)), n(3), n(5), n(6), n(7), n(8));
            write_lines(&arg(9), &o.bad);
            write_lines(&arg(10), &o.sample);
            println!("{{\"sessions\": {}, \"steps\": {}, \"mismatches\": {}}}", o.sessions, o.steps, o.bad.len());
        }
        // grants-run <model> <seed> <dict> <sessions> <sample> <seconds> <bad-out> <sample-out>
        "grants-run" => {
            let md = model::Model::load(&arg(2));
            let n = |k| arg(k).parse().unwrap();
            let o = grants::run(&md, &dictionary(&arg(4)), n(3), n(5), n(6), n(7));
            write_lines(&arg(8), &o.bad);
            write_lines(&arg(9), &o.sample);
            println!("{{\"sessions\": {}, \"steps\": {}, \"mismatches\": {}}}", o.sessions, o.steps, o.bad.len());
        }
        // effects-run <model> <seed> <dict> <sessions> <sample> <seconds> <bad-out> <sample-out>
        "effects-run" => {
            let md = model::Model::load(&arg(2));
            let n = |k| arg(k).parse().unwrap();
            let o = effects::run(&md, &dictionary(&arg(4)), n(3), n(5), n(6), n(7));
            write_lines(&arg(8), &o.bad);
            write_lines(&arg(9), &o.sample);
            println!("{{\"sessions\": {}, \"steps\": {}, \"mismatches\": {}}}", o.sessions, o.steps, o.bad.len());
        }
        // generated <price file> <out>
        "generated" => {
            let ev = consts::generated(&std::fs::read_to_string(arg(2)).expect("harness: no generated price file"));
            write_lines(&arg(3), &ev);
            println!("{{\"events\": {}}}", ev.len());
        }
        // values-run <model> <seed> <quick|thorough> <dict> <events-out> <bad-out> <sessions-out>
        "values-run" => {
            let md = model::Model::load(&arg(2));
            let o = values::run(arg(3).parse().unwrap(), arg(4) == "thorough", &dictionary(&arg(5)), &md);
            write_lines(&arg(6), &o.events);
            write_lines(&arg(7), &o.bad);
            write_lines(&arg(8), &o.sessions);
            println!("{{\"pairs\": {}, \"events\": {}, \"mismatches\": {}, \"sessions\": {}}}", o.pairs, o.events.len(), o.bad.len(), o.sessions.len());
        }
        // lazy-run <seed> <quick|thorough> <scratch> <events-out> <sessions-out>
        "lazy-run" => {
            let (ev, ss) = lazy::run(arg(2).parse().unwrap(), arg(3) == "thorough", &arg(4));
            write_lines(&arg(5), &ev);
            write_lines(&arg(6), &ss);
            println!("{{\"events\": {}, \"sessions\": {}, \"steps\": {}}}", ev.len(), ss.len(), ss.iter().map(|s| s["steps"].as_array().unwrap().len()).sum::<usize>());
        }
        // lazy-child <first,..> <threads> <seed> <reference> <limit>
        "lazy-child" => {
            let first: Vec<usize> = arg(2).split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            let reference = serde_json::from_str(&std::fs::read_to_string(arg(5)).expect("harness: reference")).unwrap();
            println!("{}", lazy::child(&first, arg(3).parse().unwrap(), arg(4).parse().unwrap(), &reference, arg(6).parse().unwrap()));
        }
        other => panic!("harness: unknown command {other}"),
    }
}
