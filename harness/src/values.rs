//! Values as keys: equality, hashing, order and printed form of the crate's types (C24).
use crate::calls::*;
use crate::gen::Gen;
use crate::model::{vid, Model};
use crate::names::*;
use serde_json::{json, Value};
use std::collections::{hash_map::DefaultHasher, BTreeMap, HashMap};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

type H = VersionedHashGeneric<ContractCodeSha256>;
pub struct Out {
    pub pairs: u64,
    pub bad: Vec<Value>,
    pub events: Vec<Value>,
    pub sessions: Vec<Value>,
}
fn hash<K: Hash>(k: &K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}
fn rel(o: Option<Ordering>) -> &'static str {
    match o {
        Some(Ordering::Less) => "lt",
        Some(Ordering::Equal) => "eq",
        Some(Ordering::Greater) => "gt",
        None => "none",
    }
}
type Cmp<K> = Option<fn(&K, &K) -> (Ordering, Option<Ordering>)>;
fn ord<K: Ord>(a: &K, b: &K) -> (Ordering, Option<Ordering>) {
    (a.cmp(b), a.partial_cmp(b))
}
fn pair<K: Hash + Eq + Clone + Debug>(kind: &str, cmp: Cmp<K>, x: &(K, Value), y: &(K, Value)) -> Value {
    event("same", json!({"kind": kind, "ordered": cmp.is_some(), "x": x.1, "y": y.1}), || {
        let (a, b) = (&x.0, &y.0);
        let (mut o, mut back) = (vec![], vec![]);
        if let Some(c) = cmp {
            let (p, q) = (c(a, b), c(b, a));
            o = vec![rel(Some(p.0)), rel(p.1)];
            back = vec![rel(Some(q.0)), rel(q.1)];
        }
        json!({"eq": a == b, "back": b == a, "ne": a != b, "hash": hash(a) == hash(b), "cmp": o, "cmpBack": back,
               "copy": a.clone() == *a, "debug": format!("{a:?}") == format!("{b:?}")})
    })
}
fn fits<K: Hash + Eq + Clone>(cmp: Cmp<K>, x: &K, y: &K, same: bool) -> bool {
    let order = match cmp {
        None => true,
        Some(c) => {
            let ((p, pp), (q, qq)) = (c(x, y), c(y, x));
            pp == Some(p) && qq == Some(q) && p == q.reverse() && (p == Ordering::Equal) == same
        }
    };
    (x == y) == same && (x != y) != same && (!same || hash(x) == hash(y)) && order
}
/// All pairs of a pool; `key` numbers the contents.
fn pairs<K: Hash + Eq + Clone + Debug + Sync>(out: &mut Out, g: &mut Gen, kind: &str, cmp: Cmp<K>, pool: &[(K, Value)], samples: usize) where Value: Sync {
    let mut numbers: HashMap<String, usize> = HashMap::new();
    let id: Vec<usize> = pool.iter().map(|p| { let n = numbers.len(); *numbers.entry(p.1.to_string()).or_insert(n) }).collect();
    let id = &id;
    let found: Vec<(usize, usize)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8usize).map(|t| sc.spawn(move || {
            let mut bad = vec![];
            for i in (t..pool.len()).step_by(8) {
                for j in 0..=i {
                    let ok = catch_unwind(AssertUnwindSafe(|| fits(cmp, &pool[i].0, &pool[j].0, id[i] == id[j]))).unwrap_or(false);
                    if !ok && bad.len() < 3 { bad.push((i, j)) }
                }
            }
            bad
        })).collect();
        hs.into_iter().flat_map(|h| h.join().expect("worker")).collect()
    });
    out.pairs += (pool.len() * (pool.len() + 1) / 2) as u64;
    for (i, j) in found.into_iter().take(3) {
        out.bad.push(pair(kind, cmp, &pool[i], &pool[j]));
    }
    for k in 0..samples {
        let i = g.rng.below(pool.len() as u64) as usize;
        let j = if k % 4 == 0 { i } else { (i + 1 + g.rng.below(pool.len().min(12) as u64) as usize) % pool.len() };
        out.events.push(pair(kind, cmp, &pool[i], &pool[j]));
    }
    // the order is one order: sorting any arrangement leaves every earlier key below every later one
    if let Some(c) = cmp {
        let mut at: Vec<usize> = (0..pool.len()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            at.sort_by(|a, b| c(&pool[*a].0, &pool[*b].0).0);
            let at = &at;
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..8usize).map(|t| sc.spawn(move || {
                    (t..at.len()).step_by(8).all(|i| (0..i).all(|j| {
                        let o = c(&pool[at[j]].0, &pool[at[i]].0).0;
                        if id[at[i]] == id[at[j]] { o == Ordering::Equal } else { o == Ordering::Less }
                    }))
                })).collect();
                hs.into_iter().all(|h| h.join().unwrap_or(false))
            })
        })).unwrap_or(false);
        out.events.push(json!({"op": "sorted", "a": {"kind": kind, "n": pool.len()}, "r": {"k": "ok", "v": {"ordered": r}}}));
    }
}
/// Histories of a hash map (and a tree map, where the keys are ordered) keyed by these values.
fn sessions<K: Hash + Eq + Clone + Debug>(out: &mut Out, g: &mut Gen, kind: &str, cmp: Cmp<K>, pool: &[(K, Value)], count: usize, len: usize) {
    #[derive(Clone)]
    struct T<K>(K, fn(&K, &K) -> (Ordering, Option<Ordering>));
    impl<K> PartialEq for T<K> { fn eq(&self, o: &Self) -> bool { self.1(&self.0, &o.0).0 == Ordering::Equal } }
    impl<K> Eq for T<K> {}
    impl<K> PartialOrd for T<K> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    impl<K> Ord for T<K> { fn cmp(&self, o: &Self) -> Ordering { self.1(&self.0, &o.0).0 } }
    let opt = |v: Option<u64>| v.map_or(json!([]), |x| json!([x]));
    for _ in 0..count {
        let (mut h, mut t): (HashMap<K, u64>, BTreeMap<T<K>, u64>) = Default::default();
        let at = g.rng.below(pool.len() as u64) as usize;
        let steps: Vec<Value> = (0..len).map(|n| {
            // keys that differ little lie next to each other in the pool
            let (k, a) = &pool[(at + g.rng.below(pool.len().min(10) as u64) as usize) % pool.len()];
            let what = ["put", "get", "put", "del", "get"][g.rng.below(5) as usize];
            let a = json!({"do": what, "key": a, "val": n});
            let r = guard(|| {
                let x = match what {
                    "put" => h.insert(k.clone(), n as u64),
                    "del" => h.remove(k),
                    _ => h.get(k).copied(),
                };
                let y = match cmp {
                    None => x,
                    Some(c) => {
                        let k = T(k.clone(), c);
                        match what {
                            "put" => t.insert(k, n as u64),
                            "del" => t.remove(&k),
                            _ => t.get(&k).copied(),
                        }
                    }
                };
                json!({"hash": opt(x), "tree": opt(y), "size": h.len(), "treeSize": if cmp.is_some() { t.len() } else { h.len() }})
            });
            json!({"a": a, "r": r})
        }).collect();
        out.sessions.push(json!({"kind": kind, "steps": steps}));
    }
}
fn all<K: Hash + Eq + Clone + Debug + Sync>(out: &mut Out, g: &mut Gen, kind: &str, cmp: Cmp<K>, pool: Vec<(K, Value)>, deep: bool) {
    pairs(out, g, kind, cmp, &pool, if deep { 3000 } else { 300 });
    sessions(out, g, kind, cmp, &pool, if deep { 300 } else { 30 }, 24);
}
/// Families of words that differ in one bit, one byte or one lane, in clusters.
fn words(g: &mut Gen, n: usize) -> Vec<U256> {
    let mut v = vec![];
    while v.len() < n {
        let w = if g.rng.below(3) == 0 { U256([0; 4].map(|_: u64| g.rng.next())) } else { g.u256() };
        v.push(w);
        for _ in 0..6 {
            let b = g.rng.below(256) as usize;
            v.push(match g.rng.below(4) {
                0 | 1 => w ^ U256::one() << b,
                2 => w ^ U256::from(g.rng.below(255) + 1) << (b / 8 * 8),
                _ => w ^ U256::from(g.field(32)) << (b / 32 * 32),
            });
        }
        v.push(w);
    }
    // every single bit against the empty word
    v.push(U256::zero());
    v.extend((0..256).map(|b| U256::one() << b));
    v
}
fn val(e: Value) -> Value {
    e["r"]["v"].clone()
}
pub fn run(seed: u64, deep: bool, dict: &[u64], md: &Model) -> Out {
    let mut o = Out { pairs: 0, bad: vec![], events: vec![], sessions: vec![] };
    let mut g = Gen::new(seed ^ 0x2424, dict);
    let (o, g) = (&mut o, &mut g);
    let mut vs = every_variant();
    vs.extend_from_slice(&md.table[..md.assigned]);
    all(o, g, "variant", Some(ord), vs.iter().map(|v| (*v, variant_json(v))).collect(), deep);
    all(o, g, "op", Some(ord), all_ops().into_iter().map(|(f, s, op)| (op, json!([f, s]))).collect(), deep);
    all(o, g, "mode", Some(ord), all_modes().into_iter().map(|(n, m)| (m, json!(n))).collect(), deep);
    all(o, g, "cond", Some(ord), md.conds.iter().map(|c| (*c, json!(cond_name(c)))).collect(), deep);
    all(o, g, "version", Some(ord), (0..=255).map(|v| (ISAVersion(v), json!(v))).collect(), deep);
    all(o, g, "number", None, (0..2048).map(|v| (VariantMonotonicNumber::from_usize(v), json!(v))).collect(), deep);
    let n = if deep { 12000 } else { 2500 };
    let ws = words(g, n);
    let each = |f: &dyn Fn(U256) -> Value| -> Vec<(U256, Value)> { ws.iter().map(|w| (*w, f(*w))).collect() };
    let fat = |w: U256| FatPointer { offset: w.0[0] as u32, memory_page: (w.0[0] >> 32) as u32, start: w.0[1] as u32, length: (w.0[1] >> 32) as u32 };
    all(o, g, "fatptr", Some(ord), each(&|w| ptr_json(&fat(w))).into_iter().map(|(w, j)| (fat(w), j)).collect(), deep);
    // contents are set here, not decoded: decoding is judged elsewhere
    let far = |w: U256| FarCallABI {
        memory_quasi_fat_pointer: fat(w), ergs_passed: w.0[3] as u32, shard_id: (w.0[3] >> 40) as u8,
        forwarding_mode: [FarCallForwardPageType::UseHeap, FarCallForwardPageType::ForwardFatPointer, FarCallForwardPageType::UseAuxHeap][(w.0[3] >> 32) as usize % 3],
        constructor_call: w.0[3] >> 48 & 1 == 1, to_system: w.0[3] >> 56 & 1 == 1 };
    all(o, g, "farcall", Some(ord), ws.iter().map(|w| far(*w)).map(|f| (f, json!([ptr_json(&f.memory_quasi_fat_pointer), f.ergs_passed.to_string(), f.shard_id,
        far_fwd(&f.forwarding_mode), f.constructor_call, f.to_system]))).collect(), deep);
    let ret = |w: U256| RetABI { memory_quasi_fat_pointer: fat(w),
        page_forwarding_mode: [RetForwardPageType::UseHeap, RetForwardPageType::ForwardFatPointer, RetForwardPageType::UseAuxHeap][(w.0[3] >> 32) as usize % 3] };
    all(o, g, "ret", Some(ord), ws.iter().map(|w| ret(*w)).map(|f| (f, json!([ptr_json(&f.memory_quasi_fat_pointer), ret_fwd(&f.page_forwarding_mode)]))).collect(), deep);
    all(o, g, "nearcall", Some(ord), ws.iter().map(|w| w.0[0] as u32).map(|e| (NearCallABI { ergs_passed: e }, json!(e.to_string()))).collect(), deep);
    let pre = |w: U256| PrecompileCallABI { input_memory_offset: w.0[0] as u32, input_memory_length: (w.0[0] >> 32) as u32, output_memory_offset: w.0[1] as u32,
        output_memory_length: (w.0[1] >> 32) as u32, per_precompile_interpreted: w.0[3] };
    all(o, g, "precompile", Some(ord), ws.iter().map(|w| pre(*w)).map(|p| (p, json!([p.input_memory_offset.to_string(), p.input_memory_length.to_string(),
        p.output_memory_offset.to_string(), p.output_memory_length.to_string(), p.per_precompile_interpreted.to_string()]))).collect(), deep);
    let inner = |w: U256| PrecompileCallInnerABI { input_memory_offset: w.0[0] as u32, input_memory_length: (w.0[0] >> 32) as u32, output_memory_offset: w.0[1] as u32,
        output_memory_length: (w.0[1] >> 32) as u32, memory_page_to_read: w.0[2] as u32, memory_page_to_write: (w.0[2] >> 32) as u32, precompile_interpreted_data: w.0[3] };
    all(o, g, "inner", Some(ord), ws.iter().map(|w| inner(*w)).map(|p| (p, inner_json(&p))).collect(), deep);
    let meta = |w: U256| VmMetaParameters { ergs_per_pubdata_byte: w.0[0] as u32, heap_size: w.0[1] as u32, aux_heap_size: (w.0[1] >> 32) as u32,
        this_shard_id: (w.0[3] >> 32) as u8, caller_shard_id: (w.0[3] >> 40) as u8, code_shard_id: (w.0[3] >> 48) as u8 };
    all(o, g, "meta", Some(ord), ws.iter().map(|w| meta(*w)).map(|p| (p, meta_json(&p))).collect(), deep);
    let layout = |w: U256| {
        let b = be32(&w);
        ContractCodeSha256Storage { extra_marker: b[1], code_length_in_words: u16::from_be_bytes([b[2], b[3]]), partial_hash: b[4..].try_into().unwrap() }
    };
    let low = (U256::one() << 248) - U256::one();
    all(o, g, "codehash", None, ws.iter().map(|w| (layout(*w), limbs256(&(*w & low)))).collect(), deep);
    let hashes: Vec<(H, Value)> = ws.iter().map(|w| *w & low | U256::one() << 248)
        .filter_map(|w| H::try_create_from_raw(be32(&w)).map(|h| (h, limbs256(&w)))).collect();
    if !hashes.is_empty() {
        all(o, g, "hash", None, hashes, deep);
    }
    for m in M::ALL {
        texts(o, g, m, md, if deep { 20000 } else { 2000 });
    }
    std::mem::replace(o, Out { pairs: 0, bad: vec![], events: vec![], sessions: vec![] })
}

// ---- printed form ----
pub fn text(m: M, i: &Ins) -> (String, String) {
    match m {
        M::Prod => { let d = to_p(i); (format!("{d}"), format!("{d:?}")) }
        M::Test => { let d = to_t(i); (format!("{d}"), format!("{d:?}")) }
    }
}
/// Numbers of the printed form: register indices (r..) and hexadecimal constants, in order.
fn numbers(t: &str) -> (Vec<u64>, Vec<u64>) {
    let mut regs = vec![];
    let mut imms = vec![];
    for tok in t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|s| !s.is_empty()) {
        if let Some(h) = tok.strip_prefix("0x") {
            if let Ok(x) = u64::from_str_radix(h, 16) { imms.push(x) }
        } else if let Some(d) = tok.strip_prefix('r') {
            if let Ok(x) = d.parse() { regs.push(x) }
        }
    }
    (regs, imms)
}
pub fn ev_text(m: M, x: &Ins, y: &Ins) -> Value {
    event("text", json!({"mode": m.name(), "x": ins_json(m, x), "y": ins_json(m, y)}), || {
        let (t, u) = (text(m, x), text(m, y));
        let (regs, imms) = numbers(&t.0);
        let v = x.variant;
        json!({"same": t.0 == u.0, "sameDebug": t.1 == u.1, "sameVariant": format!("{}", v) == format!("{}", y.variant), "regs": regs,
               "imms": imms.iter().map(|i| limbs(*i as u128, m.imm_limbs())).collect::<Vec<_>>()})
    })
}
fn text_ok(m: M, x: &Ins, y: &Ins) -> bool {
    let same = vid(&x.variant) == vid(&y.variant) && cond_name(&x.cond) == cond_name(&y.cond) && x.regs == y.regs && x.imm == y.imm;
    let (t, u) = (text(m, x), text(m, y));
    let (regs, imms) = numbers(&t.0);
    (t.0 == u.0) == same && (t.1 == u.1) == same && (format!("{}", x.variant) == format!("{}", y.variant)) == (vid(&x.variant) == vid(&y.variant))
        && regs == x.regs.map(|r| r as u64) && imms == x.imm
}
fn texts(o: &mut Out, g: &mut Gen, m: M, md: &Model, n: usize) {
    let mut put = |x: Ins, y: Ins, keep: bool| {
        o.pairs += 1;
        if !catch_unwind(AssertUnwindSafe(|| text_ok(m, &x, &y))).unwrap_or(false) && o.bad.len() < 5 {
            o.bad.push(ev_text(m, &x, &y));
        }
        if keep { o.events.push(ev_text(m, &x, &y)) }
    };
    // all variants print differently: neighbours in the text order are compared
    let mut by_text: Vec<(String, Ins)> = every_variant().into_iter()
        .map(|v| Ins { variant: v, cond: md.conds[0], regs: [0; 4], imm: [0; 2] }).map(|i| (catch_unwind(AssertUnwindSafe(|| text(m, &i).0)).unwrap_or_default(), i)).collect();
    by_text.sort_by(|a, b| a.0.cmp(&b.0));
    for w in by_text.windows(2) {
        put(w[0].1, w[1].1, false);
    }
    for k in 0..n {
        let x = g.ins(m, md);
        let mut y = x;
        let keep = k % 8 == 0;
        put(x, x, false);
        match g.rng.below(5) {
            0 => y.variant = md.table[g.rng.below(md.assigned as u64) as usize],
            1 => y.variant.flags[g.rng.below(2) as usize] ^= true,
            2 => y.cond = md.conds[g.rng.below(8) as usize],
            3 => y.regs[g.rng.below(4) as usize] ^= 1 << g.rng.below(4),
            _ => y.imm[g.rng.below(2) as usize] ^= 1 << g.rng.below(16),
        }
        put(x, y, keep);
    }
}
