//! Sessions over the lazily initialised tables: fresh processes touch them in chosen orders from chosen numbers of threads.
use crate::calls::*;
use crate::consts;
use crate::gen::Rng;
use crate::names::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

type Cell = (String, Box<dyn Fn() -> Vec<Value> + Send + Sync>);

fn one<F: Fn() -> Value + Send + Sync + 'static>(name: &str, op: &'static str, a: Value, f: F) -> Cell {
    (name.to_string(), Box::new(move || vec![event(op, a.clone(), || f())]))
}
fn num(x: u64) -> Value {
    limbs(x as u128, 4)
}
/// Every shared cell and every derived value, each readable on its own.
pub fn cells() -> Vec<Cell> {
    let mut c: Vec<Cell> = vec![
        one("OPCODES_TABLE", "wholeTable", json!({}), || Value::Array(OPCODES_TABLE.iter().map(variant_json).collect())),
        one("BITMASKS", "wholeBits", json!({}), || Value::Array(OPCODES_PROPS_INTEGER_BITMASKS.iter().map(|x| num(*x)).collect())),
        one("PRICES", "wholePrices", json!({}), || Value::Array(OPCODES_PRICES.iter().map(|x| limbs(*x as u128, 2)).collect())),
        one("MONOTONIC", "wholeMap", json!({"map": "mono"}), || {
            let mut l: Vec<(usize, Value)> = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.iter().map(|(v, n)| (n.into_usize(), variant_json(v))).collect();
            l.sort_by_key(|e| e.0);
            Value::Array(l.into_iter().map(|(n, v)| json!([n, v])).collect())
        }),
        one("CANONICAL", "wholeMap", json!({"map": "canon"}), || {
            let mut l: Vec<(usize, Value)> = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.iter().map(|(v, n)| (*n, variant_json(v))).collect();
            l.sort_by_key(|e| e.0);
            Value::Array(l.into_iter().map(|(n, v)| json!([n, v])).collect())
        }),
        one("NOP_VARIANT", "lazy", json!({"name": "NOP_VARIANT"}), || variant_json(&NOP_OPCODE_VARIANT)),
        one("PANIC_VARIANT", "lazy", json!({"name": "PANIC_VARIANT"}), || variant_json(&PANIC_OPCODE_VARIANT)),
        one("NOP_BITS", "lazy", json!({"name": "NOP_BITS"}), || num(*NOP_BITSPREAD_U64)),
        one("PANIC_BITS", "lazy", json!({"name": "PANIC_BITS"}), || num(*PANIC_BITSPREAD_U64)),
        one("NUM_LOGICAL", "lazy", json!({"name": "NUM_LOGICAL"}), || json!(*NUM_LOGICAL_OPCODES)),
        one("NUM_IN", "lazy", json!({"name": "NUM_IN"}), || json!(*NUM_INPUT_VARIANTS)),
        one("NUM_OUT", "lazy", json!({"name": "NUM_OUT"}), || json!(*NUM_OUTPUT_VARIANTS)),
        one("PROTOTYPES", "prototypes", json!({}), || {
            Value::Array(OPCODE_PROTOTYPES.iter().map(|p| json!([p.max_variant_idx(ISAVersion(0)), p.variants_data(ISAVersion(1)).len()])).collect())
        }),
    ];
    for i in 0..consts::addresses_count() {
        let (n, f) = consts::address(i);
        c.push((n.to_string(), Box::new(move || vec![event("addr", json!({"name": n}), || json!({"bytes": f().to_vec()}))])));
    }
    for v in [0u8, 1] {
        let w = |name: &'static str, f: fn(ISAVersion) -> usize| one(&format!("{name}@{v}"), "width", json!({"name": name, "version": v}), move || json!(f(ISAVersion(v))));
        c.push(w("vars", max_num_variants_for_version));
        c.push(w("flags", max_num_flags_for_version));
        c.push(w("total", total_description_bits_for_version));
        c.push(w("rounded", total_description_bits_rounded_for_version));
        c.push(w("aux", total_opcode_description_and_aux_bits_for_version));
        c.push(w("format", |v| compute_decoding_format(v).split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse::<usize>().ok()).sum()));
        c.push((format!("table@{v}"), Box::new(move || ev_entries(false, v, 11, 1))));
        c.push((format!("wide@{v}"), Box::new(move || ev_entries(false, v, 12, 1).into_iter().step_by(3).collect())));
        c.push((format!("bits@{v}"), Box::new(move || ev_bits(v))));
        c.push((format!("families@{v}"), Box::new(move || FAMILIES.iter().map(|f| ev_family(f, v, true)).collect())));
        c.push((format!("ops@{v}"), Box::new(move || all_ops().iter().map(|(f, s, _)| ev_op(f, s, v, false)).collect())));
        c.push((format!("subs@{v}"), Box::new(move || FAMILIES.iter().flat_map(|f| (0..9).map(move |i| ev_sub_at(f, i, v))).collect())));
        c.push((format!("versions@{v}"), Box::new(move || vec![ev_versions(v)])));
    }
    c.push(("legacy@0".into(), Box::new(|| ev_entries(true, 0, 11, 1))));
    for m in M::ALL {
        let words = |m: M| (0..2048u128).step_by(11).map(move |k| (k | k % 8 << 13 | k.wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835u128) << 16) & m.word_mask());
        c.push((format!("decode@{}", m.name()), Box::new(move || words(m).flat_map(|w| [ev_decode(m, w), ev_head(m, w), ev_reencode(m, w)]).collect())));
        c.push((format!("special@{}", m.name()), Box::new(move || vec![ev_special(m), ev_default(m)])));
        c.push((format!("nopWord@{}", m.name()), Box::new(move || vec![ev_special(m)])));
        c.push((format!("mask@{}", m.name()), Box::new(move || {
            let i = Ins { variant: op_variant(), cond: cond_from("Lt"), regs: [1, 2, 3, 4], imm: [5, 6] };
            vec![ev_mask(m, &i, true), ev_mask(m, &i, false), ev_encode(m, &i)]
        })));
        c.push((format!("encode@{}", m.name()), Box::new(move || {
            let i = Ins { variant: op_variant(), cond: cond_from("Eq"), regs: [15, 0, 9, 4], imm: [0xfffe, 0x8001] };
            vec![ev_encode(m, &i), ev_round(m, &i)]
        })));
    }
    c.push(("hash".into(), Box::new(|| (0..4usize).map(|n| ev_bytecode(&vec![[n as u8 + 1; 32]; n], n % 2 == 0)).collect())));
    c.push(("abi".into(), Box::new(|| {
        let mut w = U256::from(0x0123_4567_89ab_cdefu64);
        (0..24).flat_map(|_| {
            w = w.overflowing_mul(U256::from_dec_str("115792089237316195423570985008687907853269984665640564039457584007913129639747").unwrap()).0.overflowing_add(U256::from(77)).0;
            [ev_farcall(w), ev_nearcall(w), ev_ret(w), ev_fat_unpack(w), ev_pre(w), ev_inner(w), ev_hash_parse(w), ev_hash_digest(w, 5)]
        }).collect()
    })));
    c
}
fn op_variant() -> OpcodeVariant {
    OpcodeVariant { opcode: op_from("NearCall", "NearCall"), src0_operand_type: Operand::RegOnly, dst0_operand_type: Operand::RegOnly, flags: [false, false] }
}
fn digest(lines: &[Value]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for l in lines {
        l.to_string().hash(&mut h);
    }
    h.finish()
}
/// Child: `first` are the cells to begin with (by position), then a random order, on `threads` threads at once.
/// Prints the touches in order of completion; cells whose value differs from the reference also print their events.
pub fn child(first: &[usize], threads: usize, seed: u64, reference: &BTreeMap<String, u64>, limit: usize) -> Value {
    let cells = cells();
    let clock = AtomicU64::new(0);
    let out = Mutex::new((Vec::<(u64, Value)>::new(), Vec::<Value>::new()));
    let gate = Barrier::new(threads);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (cells, clock, out, gate) = (&cells, &clock, &out, &gate);
            sc.spawn(move || {
                let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(t as u64));
                let mut order: Vec<usize> = (0..cells.len()).collect();
                for i in (1..order.len()).rev() {
                    order.swap(i, rng.below(i as u64 + 1) as usize);
                }
                // thread t starts with the t-th forced cell
                let mut forced: Vec<usize> = first.to_vec();
                if !forced.is_empty() {
                    let n = forced.len();
                    forced.rotate_left(t % n);
                }
                order.retain(|i| !forced.contains(i));
                forced.extend(order);
                forced.truncate(limit.max(first.len()));
                gate.wait();
                for i in forced {
                    let (name, f) = &cells[i];
                    let a = clock.fetch_add(1, Ordering::SeqCst);
                    let ev = f();
                    let b = clock.fetch_add(1, Ordering::SeqCst);
                    let d = digest(&ev);
                    let mut o = out.lock().unwrap();
                    o.0.push((a, json!({"e": "call", "t": t + 1, "cell": name})));
                    o.0.push((b, json!({"e": "ret", "t": t + 1, "cell": name, "d": d})));
                    if reference.get(name) != Some(&d) {
                        o.1.extend(ev);
                    }
                }
            });
        }
    });
    let (mut steps, lines) = out.into_inner().unwrap();
    steps.sort_by_key(|s| s.0);
    json!({"steps": steps.into_iter().map(|s| s.1).collect::<Vec<_>>(), "lines": lines})
}
fn spawn(first: &[usize], threads: usize, seed: u64, reference: &str, limit: usize, timeout: u64) -> Result<Value, &'static str> {
    use std::io::Read;
    let list: Vec<String> = first.iter().map(|x| x.to_string()).collect();
    let mut ch = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["lazy-child", &list.join(","), &threads.to_string(), &seed.to_string(), reference, &limit.to_string()])
        .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::inherit()).spawn().expect("spawn");
    let mut so = ch.stdout.take().expect("stdout");
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let start = std::time::Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                let s = reader.join().expect("reader");
                return if st.success() { serde_json::from_str(&s).map_err(|_| "garbled") } else { Err("crash") };
            }
            None if start.elapsed().as_secs() > timeout => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Err("hang");
            }
            None => std::thread::sleep(std::time::Duration::from_millis(1)),
        }
    }
}
/// Runs the sessions; returns (reference and deviating events, sessions for the trace specification).
pub fn run(seed: u64, deep: bool, scratch: &str) -> (Vec<Value>, Vec<Value>) {
    let n = cells().len();
    let mut events: Vec<Value> = vec![];
    let mut sessions: Vec<Value> = vec![];
    let reference_file = format!("{scratch}/lazy-reference.json");
    // the reference: every cell once, in one fresh process
    std::fs::write(&reference_file, "{}").expect("write");
    let mut reference: BTreeMap<String, u64> = BTreeMap::new();
    let names: Vec<String> = cells().iter().map(|c| c.0.clone()).collect();
    match spawn(&(0..n).collect::<Vec<_>>(), 1, seed, &reference_file, n, 120) {
        Ok(v) => {
            for s in v["steps"].as_array().unwrap() {
                if s["e"] == "ret" {
                    reference.insert(s["cell"].as_str().unwrap().into(), s["d"].as_u64().unwrap());
                }
            }
            events.extend(v["lines"].as_array().unwrap().iter().cloned());
        }
        Err(e) => {
            sessions.push(json!({"id": 0, "first": names, "threads": 1, "end": e, "steps": []}));
            return (events, sessions);
        }
    }
    std::fs::write(&reference_file, serde_json::to_string(&reference).unwrap()).expect("write");
    // plans: each cell alone first; each ordered pair of shared cells; the same pair racing; storms
    let shared = 13 + 7;
    let mut plans: Vec<(Vec<usize>, usize, usize)> = vec![];
    for i in 0..n {
        plans.push((vec![i], 1, n));
        plans.push((vec![i], 8, 1));
    }
    let top = if deep { n } else { shared };
    for i in 0..top {
        for j in 0..top {
            if i != j {
                plans.push((vec![i, j], 1, if deep { n } else { 2 }));
                if i < j {
                    plans.push((vec![i, j], 2, 2));
                }
            }
        }
    }
    // derived values of the two versions, in both orders
    for i in shared..n {
        for j in shared..n {
            if i != j && names[i].split('@').next() == names[j].split('@').next() {
                plans.push((vec![i, j], 1, 2));
                plans.push((vec![i, j, i, j], 2, 2));
            }
        }
    }
    for k in 0..if deep { 600 } else { 60 } {
        plans.push((vec![], [1, 2, 3, 8, 16][k % 5], n));
        plans.push((vec![], 8, 6));
    }
    let next = AtomicU64::new(0);
    let results = Mutex::new(BTreeMap::<usize, Result<Value, &'static str>>::new());
    let broken = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            let (plans, next, results, reference_file, broken) = (&plans, &next, &results, &reference_file, &broken);
            sc.spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                if k >= plans.len() || broken.load(Ordering::SeqCst) >= 8 {
                    return;
                }
                let (first, threads, limit) = &plans[k];
                let r = spawn(first, *threads, seed.wrapping_add(k as u64), reference_file, *limit, 60);
                if r.is_err() {
                    broken.fetch_add(1, Ordering::SeqCst);
                }
                results.lock().unwrap().insert(k, r);
            });
        }
    });
    let mut seen = std::collections::HashSet::new();
    for (k, r) in results.into_inner().unwrap() {
        let (first, threads, _) = &plans[k];
        let first: Vec<&String> = first.iter().map(|i| &names[*i]).collect();
        match r {
            Err(e) => sessions.push(json!({"id": k + 1, "first": first, "threads": threads, "end": e, "steps": []})),
            Ok(v) => {
                for l in v["lines"].as_array().unwrap() {
                    if seen.insert(l.to_string()) {
                        events.push(l.clone());
                    }
                }
                let steps: Vec<Value> = v["steps"].as_array().unwrap().iter().map(|s| {
                    if s["e"] == "ret" {
                        let same = reference.get(s["cell"].as_str().unwrap()) == s["d"].as_u64().as_ref();
                        json!({"e": "ret", "t": s["t"], "cell": s["cell"], "same": same})
                    } else {
                        s.clone()
                    }
                }).collect();
                sessions.push(json!({"id": k + 1, "first": first, "threads": threads, "end": "done", "steps": steps}));
            }
        }
    }
    (events, sessions)
}
