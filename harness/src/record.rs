//! Recorded calls of the finite part of the interface, property by property.
use crate::calls::*;
use crate::consts;
use crate::gen::Gen;
use crate::names::*;
use crate::sha;
use crate::user::*;
use serde_json::{json, Value};
use zkevm_opcode_defs::{ImmMemHandlerFlags, Operand};

const CODES: usize = 2048;

pub fn events(prop: &str, deep: bool, seed: u64, dict: &[u64]) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    let ops = all_ops();
    match prop {
        "C03" | "C02" => {
            let m = if prop == "C02" { M::Prod } else { M::Test };
            let mut g = Gen::new(seed, dict);
            for i in 0..128 + if deep { 4000 } else { 400 } {
                let w = if i < 128 { 1u128 << i } else { g.u256().low_u128() };
                out.push(ev_word_bytes(m, w & m.word_mask()));
            }
            for b in 0..=255u8 {
                out.push(ev_u4(b));
                out.push(ev_merge(b & 15, b >> 4));
            }
            for c in 0..8 {
                out.push(ev_cond(c));
            }
            out.extend(consts::events(Some(&["VARIANT_AND_CONDITION_ENCODING_BITS", "REGISTER_INDEX_ENCODING_BITS", "SRC_REGS_SHIFT", "DST_REGS_SHIFT",
                                             "CONDITIONAL_BITS_SHIFT", "CONDITIONAL_BITS_WIDTH", "OPCODES_TABLE_WIDTH", "REGISTERS_COUNT"])));
        }
        "C04" => {
            for m in M::ALL {
                for c in 0..CODES as u128 {
                    out.push(ev_total(m, c));
                }
            }
            out.extend(consts::events(Some(&["INVALID_OPCODE_ERGS"])));
        }
        "C05" => {
            for c in 0..CODES {
                out.push(ev_slot(c));
            }
            for v in every_variant() {
                out.push(ev_lookup(&v));
            }
        }
        "C06" => {
            for (legacy, version) in [(false, 0), (false, 1), (true, 0)] {
                out.extend(ev_entries(legacy, version, 11, 1));
                for w in 11..=if deep { 22 } else { 18 } {
                    out.push(ev_table_shape(legacy, version, w));
                }
                out.extend(ev_entries(legacy, version, if deep { 16 } else { 12 }, if deep { 7 } else { 1 }));
            }
            out.extend([0, 1].map(ev_versions));
            // tables of all versions and widths in any order
            let mut g = Gen::new(seed, dict);
            for _ in 0..if deep { 1000 } else { 80 } {
                let codes: Vec<usize> = (0..80).map(|_| g.rng.below(1200) as usize).collect();
                let (legacy, version) = [(false, 0), (false, 1), (true, 0)][g.rng.below(3) as usize];
                out.extend(ev_entries_at(legacy, version, 11 + g.rng.below(2) as usize, &codes));
            }
        }
        "C07" => {
            for v in [0, 1] {
                out.push(ev_versions(v));
                for f in FAMILIES {
                    out.push(ev_family(f, v, false));
                    out.push(ev_family(f, v, true));
                    let max = ops.iter().filter(|o| o.0 == f).count();
                    for i in 0..max {
                        out.push(ev_proto_at(f, i, v));
                    }
                    let far = [255, 256, 257, 511, 512, 65535, 65536, 65537, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, usize::MAX - 1, usize::MAX];
                    let more = dict.iter().map(|d| *d as usize).filter(|d| *d > if deep { 70000 } else { 300 });
                    for i in (0..if deep { 70000 } else { 300 }).chain(far).chain(more) {
                        out.push(ev_sub_at(f, i, v));
                    }
                }
                for (f, s, _) in &ops {
                    out.push(ev_avail(f, s, v));
                    for inner in [false, true] {
                        out.push(ev_op_part("index", f, s, v, inner));
                    }
                }
            }
            // families of a user, with every short history of introductions and some longer ones
            let mut g = Gen::new(seed, dict);
            for n in 0..=3u32 {
                for k in 0..4usize.pow(n) {
                    let introduced: Vec<u8> = (0..n).map(|i| [0, 1, 2, 255][k / 4usize.pow(i) % 4]).collect();
                    for v in [0, 1, 2, 3, 254, 255] {
                        out.push(ev_user_family(&introduced, v));
                    }
                }
            }
            for _ in 0..if deep { 4000 } else { 300 } {
                let n = g.rng.below(12);
                let near = g.rng.below(256) as u8;
                let introduced: Vec<u8> = (0..n).map(|_| if g.rng.below(2) == 0 { near.wrapping_add(g.rng.below(3) as u8) } else { g.rng.below(256) as u8 }).collect();
                out.push(ev_user_family(&introduced, near.wrapping_add(g.rng.below(3) as u8)));
            }
        }
        "C08" => {
            for v in every_variant() {
                out.push(ev_variant(&v));
            }
            for v in [0, 1] {
                for (f, s, _) in &ops {
                    for inner in [false, true] {
                        out.push(ev_op_part("rights", f, s, v, inner));
                    }
                }
                out.extend(ev_bits_part(v));
            }
        }
        "C09" => {
            for v in every_variant() {
                out.push(ev_swap(&v));
            }
            for v in [0, 1] {
                for (f, s, _) in &ops {
                    for inner in [false, true] {
                        out.push(ev_op_part("operands", f, s, v, inner));
                    }
                }
            }
            for (n, _) in all_modes() {
                out.push(ev_mode(n));
            }
            out.push(ev_mode_counts());
            // operations of a user, with operands of any shape
            for v in [0, 1] {
                for a in shapes(false) {
                    for b in if deep { shapes(true) } else { vec![vec![], a.clone(), vec![Operand::RegOnly], vec![Operand::Full(ImmMemHandlerFlags::UseCodePage)]] } {
                        let outs = if v % 2 == 0 { &b } else { &a };
                        if !matches!(outs.first(), Some(Operand::RegOrImm(_))) {
                            out.push(ev_user_shape(&a, &b, v));
                        }
                    }
                }
            }
            out.extend(consts::events(Some(&["SET_FLAGS_FLAG_IDX", "SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES", "SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE"])));
        }
        "C10" => {
            for v in [0, 1] {
                out.extend(ev_bits(v));
                out.push(ev_widths(v));
            }
            for c in 0..CODES {
                out.push(ev_published_bits(c));
            }
            let mut g = Gen::new(seed, dict);
            for i in 0..if deep { 3000 } else { 300 } {
                let n = if i == 0 { 0 } else { g.rng.below(if i % 50 == 0 { 300 } else { 14 }) };
                let near = g.rng.below(CODES as u64);
                let codes: Vec<usize> = (0..n).map(|_| (if g.rng.below(3) == 0 { g.rng.below(CODES as u64) } else { (near + g.rng.below(7)) % CODES as u64 }) as usize).collect();
                out.push(ev_bits_list(&codes, (i % 2) as u8));
            }
            for v in zkevm_opcode_defs::OPCODES_TABLE.iter().collect::<std::collections::HashSet<_>>() {
                out.push(ev_bits_of(v, 1));
            }
            out.extend(consts::events(Some(&["OPCODE_TYPE_BITS", "NUM_OPCODES", "OPCODE_INPUT_VARIANT_FLAGS", "OPCODE_OUTPUT_VARIANT_FLAGS",
                "KERNEL_MODE_FLAG_BITS", "CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS", "EXPLICIT_PANIC_FLAG_BITS", "KERNER_MODE_FLAG_IDX",
                "CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX", "EXPLICIT_PANIC_FLAG_IDX", "TOTAL_AUX_BITS"])));
        }
        "C11" => {
            for m in M::ALL {
                out.push(ev_default(m));
                out.push(ev_special(m));
            }
            out.push(ev_special_variants());
            let mut g = Gen::new(seed, dict);
            for i in 0..if deep { 4000 } else { 400 } {
                let (x, y) = (g.rng.below(65536), g.rng.below(65536));
                out.push(ev_user_mask(x, y, i % 2 == 0));
            }
        }
        "C12" => {
            for c in 0..CODES {
                out.push(ev_priced(c));
            }
            for v in every_variant() {
                out.push(ev_vprice(&v));
            }
            for v in [0, 1] {
                for (f, s, _) in &ops {
                    for inner in [false, true] {
                        out.push(ev_op_part("price", f, s, v, inner));
                    }
                }
            }
            out.extend(consts::events(Some(&["RICH_ADDRESSING_OPCODE_ERGS", "AVERAGE_OPCODE_ERGS", "STORAGE_READ_IO_PRICE", "STORAGE_WRITE_IO_PRICE", "EVENT_IO_PRICE",
                "L1_MESSAGE_IO_PRICE", "CALL_LIKE_ERGS_COST", "INVALID_OPCODE_ERGS", "MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION",
                "MIN_STORAGE_WRITE_COST", "ERGS_PER_CODE_WORD_DECOMMITTMENT"])));
        }
        "C14" => out.push(ev_fat_empty()),
        "C15" => out.extend(consts::events(Some(&["MAX_OFFSET_TO_DEREF", "MAX_OFFSET_FOR_ADD_SUB", "MAX_OFFSET_TO_DEREF_LOW_U32"]))),
        "C16" => {
            for b in 0..=255 {
                out.push(ev_fwd(b));
            }
            out.extend(consts::events(Some(&["FAR_CALL_FORWARDING_MODE_BYTE_IDX", "FAR_CALL_SHARD_ID_BYTE_IDX", "FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX",
                "FAR_CALL_SYSTEM_CALL_BYTE_IDX", "RET_FORWARDING_MODE_BYTE_IDX"])));
        }
        "C18" => {
            out.extend(consts::events(Some(&["VERSION_BYTE", "CODE_AT_REST_MARKER", "YET_CONSTRUCTED_MARKER"])));
            // hashes of another kind go through the same wrapper
            let mut g = Gen::new(seed, dict);
            for i in 0..if deep { 8000 } else { 800 } {
                let mut b = be32(&g.u256());
                match i % 8 { 0..=2 => b[0] = 7, 3 => { b[0] = 7; b[2] = 255 } 4 => b[0] = 1, 5 => { b[0] = 7; b[31] = 9 } 6 => { b[0] = 7; b[1] = 0 } _ => {} }
                out.push(ev_user_hash(b));
            }
        }
        "C19" => {
            let mut g = Gen::new(seed, dict);
            let words = |g: &mut Gen, n: usize| -> Vec<[u8; 32]> { (0..n).map(|_| be32(&g.u256())).collect() };
            for n in 0..if deep { 24 } else { 10 } {
                for k in 0..4 {
                    let w = match k {
                        0 => vec![[0; 32]; n],
                        1 => vec![[255; 32]; n],
                        _ => words(&mut g, n),
                    };
                    out.push(ev_bytecode(&w, k % 2 == 0));
                    out.push(ev_bytecode(&w, k % 2 == 1));
                    // the reference digest of the same words: the specification recomputes it
                    out.push(json!({"op": "sha", "a": {"words": w.iter().map(|w| limbs256(&from_be32(w))).collect::<Vec<_>>()},
                                    "r": {"k": "ok", "v": {"digest": limbs256(&from_be32(&sha::digest_words(&w)))}}}));
                }
            }
            let mut lens: Vec<usize> = vec![];
            if deep {
                lens.extend(0..65540);
                lens.extend(65540..66100);
            } else {
                lens.extend(0..2050);
                for k in 8..18u32 {
                    lens.extend([(1 << k) - 3, (1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2, (1 << k) + 3]);
                }
                lens.extend((65500..65560).chain(131060..131080));
                for d in dict {
                    if *d < 70000 { lens.push(*d as usize) }
                }
                for _ in 0..400 {
                    lens.push(g.rng.below(65536) as usize);
                }
            }
            lens.extend([131071, 131072, 131073, 196607, 196609, 262143, 262145]);
            lens.sort();
            lens.dedup();
            // prefixes of one random code, hashed incrementally by the reference
            let all = words(&mut g, *lens.last().unwrap());
            let mut st = sha::Sha::new();
            let mut digests = std::collections::BTreeMap::new();
            let mut next = 0;
            for n in 0..=all.len() {
                if next < lens.len() && lens[next] == n {
                    digests.insert(n, st.digest());
                    next += 1;
                }
                if n < all.len() { st.word(&all[n]) }
            }
            let items: Vec<(usize, [u8; 32])> = digests.into_iter().collect();
            let items = &items;
            let all = &all;
            let parts: Vec<Vec<Value>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..8usize).map(|k| sc.spawn(move || {
                    items.iter().enumerate().filter(|(i, _)| i % 8 == k).flat_map(|(i, (n, d))| {
                        let mut e = vec![ev_bytecode_long(&all[..*n], d, i / 8 % 2 == 0)];
                        if *n < 65536 {
                            // modes with another limit: the testing mode, and a user's
                            let near = [0, 1, 2, 7, 255, 256, 257, 65533, 65534, *n as u64, n.saturating_sub(1) as u64, *n as u64 + 1, n.saturating_sub(2) as u64, *n as u64 / 2];
                            e.push(ev_user_bytecode(&all[..*n], d, near[i / 16 % near.len()].min(65535)));
                            if *n < 2000 || i % 5 == 0 { e.push(ev_user_bytecode(&all[..*n], d, u32::MAX as u64)) }
                        }
                        if *n < 600 { e.push(ev_bytecode_long(&all[..*n], d, i / 8 % 2 == 1)) }
                        e
                    }).collect()
                })).collect();
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            });
            out.extend(parts.into_iter().flatten());
            // one buffer, edited in place between the hashes; and windows onto it
            for k in 0..if deep { 4000 } else { 400 } {
                let top = if k % 8 == 0 { 700 } else { 40 };
                let mut n = (g.rng.below(top) as usize) | 1;
                let mut buf = words(&mut g, n + 8);
                let mut from = 0;
                for i in 0..10 {
                    let (x, y) = (from + g.rng.below(n as u64) as usize, from + g.rng.below(n as u64) as usize);
                    match g.rng.below(7) {
                        0 | 1 => buf[x][g.rng.below(32) as usize] ^= 1 << g.rng.below(8),
                        2 => buf.swap(x, y),
                        3 => buf[x] = buf[y],
                        4 => buf[x] = be32(&g.u256()),
                        5 => from = g.rng.below(9) as usize,
                        _ => n = if n > 2 && g.rng.below(2) == 0 { n - 2 } else { (n + 2).min(buf.len() - from) | 1 },
                    }
                    n = n.min(buf.len() - from);
                    let w = &buf[from..from + n];
                    out.push(ev_bytecode_long(w, &sha::digest_words(w), i % 2 == 0));
                }
            }
        }
        "C20" => {
            for m in M::ALL {
                out.push(ev_max(m));
            }
        }
        "C21" => out.extend(consts::events(None)),
        _ => {}
    }
    out
}
