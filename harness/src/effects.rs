//! Logs, rollbacks and identities of frames. One world, two sets of rules: the real definitions, and a cheap prediction
//! from the exported specification. Sessions in which they differ, and a sample of the others, are recorded for the
//! specification to judge.
use crate::calls::{dec, mask, M};
use crate::gen::Gen;
use crate::model::{get, get256, Model};
use crate::names::*;
use crate::replay::pack_ins;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zkevm_opcode_defs::ethereum_types::{Address, U256};
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

type Op = (&'static str, &'static str);
const DEPTH: usize = 5;

#[derive(Clone, Copy)]
struct Decoded {
    op: Op,
    flags: [bool; 2],
    kernel: bool,
    in_static: bool,
    panic: bool,
}
#[derive(Clone, Copy)]
struct CallWord {
    shard: u8,
    ctor: bool,
    sys: bool,
}
trait Rules {
    fn decode(&self, word: u128) -> Decoded;
    /// What a masked instruction runs as.
    fn masked(&self, word: u128) -> Op;
    fn privileged(&self, a: u64) -> bool;
    fn call(&self, w: U256) -> CallWord;
    fn request(&self, w: U256, page: u32) -> U256;
    fn meta(&self, price: u32, shards: [u8; 3]) -> U256;
    fn circuit(&self, a: u64) -> &'static str;
    /// Log types: storage, event, message, precompile.
    fn types(&self) -> [u8; 4];
    fn first(&self, d: &Decoded) -> bool;
    fn makes_static(&self, d: &Decoded) -> bool;
    fn other_shard(&self, d: &Decoded) -> bool;
    /// Start of time, its steps; first pages, pages per call, heap among them.
    fn counters(&self) -> [u32; 6];
}
struct Real(M);
impl Rules for Real {
    fn decode(&self, word: u128) -> Decoded {
        let v = dec(self.0, word).0.variant;
        Decoded { op: op_names(&v.opcode), flags: v.flags, kernel: v.requires_kernel_mode(), in_static: v.can_be_used_in_static_context(),
                  panic: v.is_explicit_panic() }
    }
    fn masked(&self, word: u128) -> Op {
        op_names(&mask(self.0, &dec(self.0, word).0, true).variant.opcode)
    }
    fn privileged(&self, a: u64) -> bool {
        a < ADDRESS_UNRESTRICTED_SPACE
    }
    fn call(&self, w: U256) -> CallWord {
        let a = FarCallABI::from_u256(w);
        CallWord { shard: a.shard_id, ctor: a.constructor_call, sys: a.to_system }
    }
    fn request(&self, w: U256, page: u32) -> U256 {
        let p = PrecompileCallABI::from_u256(w);
        let packed = PrecompileCallInnerABI {
            input_memory_offset: p.input_memory_offset, input_memory_length: p.input_memory_length,
            output_memory_offset: p.output_memory_offset, output_memory_length: p.output_memory_length,
            memory_page_to_read: page, memory_page_to_write: page, precompile_interpreted_data: p.per_precompile_interpreted,
        }.to_u256();
        // what the circuit reads is what is logged
        PrecompileCallInnerABI::from_u256(packed).to_u256()
    }
    fn meta(&self, price: u32, [this, caller, code]: [u8; 3]) -> U256 {
        VmMetaParameters { ergs_per_pubdata_byte: price, heap_size: NEW_FRAME_MEMORY_STIPEND, aux_heap_size: NEW_FRAME_MEMORY_STIPEND,
                           this_shard_id: this, caller_shard_id: caller, code_shard_id: code }.to_u256()
    }
    fn circuit(&self, a: u64) -> &'static str {
        let a = Address::from_low_u64_be(a);
        if a == *KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS { "keccak" }
        else if a == *SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS { "sha" }
        else if a == *ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS { "ecrecover" }
        else { "none" }
    }
    fn types(&self) -> [u8; 4] {
        [STORAGE_AUX_BYTE, EVENT_AUX_BYTE, L1_MESSAGE_AUX_BYTE, PRECOMPILE_AUX_BYTE]
    }
    fn first(&self, d: &Decoded) -> bool {
        d.flags[FIRST_MESSAGE_FLAG_IDX]
    }
    fn makes_static(&self, d: &Decoded) -> bool {
        d.flags[FAR_CALL_STATIC_FLAG_IDX]
    }
    fn other_shard(&self, d: &Decoded) -> bool {
        d.flags[FAR_CALL_SHARD_FLAG_IDX]
    }
    fn counters(&self) -> [u32; 6] {
        [STARTING_TIMESTAMP, TIME_DELTA_PER_CYCLE, BOOTLOADER_BASE_PAGE, STARTING_BASE_PAGE, NEW_MEMORY_PAGES_PER_FAR_CALL,
         BOOTLOADER_HEAP_PAGE - BOOTLOADER_BASE_PAGE]
    }
}
struct Told<'a> {
    md: &'a Model,
    m: M,
    marks: &'a [(bool, bool, bool)],
}
impl Told<'_> {
    fn put(&self, layout: &str, name: &str, v: U256) -> U256 {
        v << self.md.f(layout, name).lo
    }
}
impl Rules for Told<'_> {
    fn decode(&self, word: u128) -> Decoded {
        let code = get(word, self.md.ins(self.m).fields[0]) as usize;
        let v = &self.md.table[code];
        let k = self.marks[if code < self.md.assigned { code } else { 0 }];
        Decoded { op: op_names(&v.opcode), flags: v.flags, kernel: k.0, in_static: k.1, panic: k.2 }
    }
    fn masked(&self, _: u128) -> Op {
        ("Ret", "Panic")
    }
    fn privileged(&self, a: u64) -> bool {
        a < 65536
    }
    fn call(&self, w: U256) -> CallWord {
        let f = |n| get256(&w, self.md.f("farcall", n)).low_u32() as u8;
        CallWord { shard: f("shard"), ctor: f("ctor") != 0, sys: f("sys") != 0 }
    }
    fn request(&self, w: U256, page: u32) -> U256 {
        let mut out = self.put("inner", "page_r", page.into()) | self.put("inner", "page_w", page.into());
        for n in ["in_off", "in_len", "out_off", "out_len", "data"] {
            out = out | self.put("inner", n, get256(&w, self.md.f("precompile", n)));
        }
        out
    }
    fn meta(&self, price: u32, s: [u8; 3]) -> U256 {
        let p = |n, v: u32| self.put("meta", n, v.into());
        p("pubdata", price) | p("heap", 1024) | p("aux", 1024) | p("this_shard", s[0] as u32) | p("caller_shard", s[1] as u32) | p("code_shard", s[2] as u32)
    }
    fn circuit(&self, a: u64) -> &'static str {
        match a { 32784 => "keccak", 2 => "sha", 1 => "ecrecover", _ => "none" }
    }
    fn types(&self) -> [u8; 4] {
        [0, 1, 2, 3]
    }
    fn first(&self, d: &Decoded) -> bool {
        d.flags[0]
    }
    fn makes_static(&self, d: &Decoded) -> bool {
        d.flags[0]
    }
    fn other_shard(&self, d: &Decoded) -> bool {
        d.flags[1]
    }
    fn counters(&self) -> [u32; 6] {
        [1024, 4, 8, 2048, 8, 2]
    }
}

#[derive(Clone)]
struct Act {
    word: u128,
    w0: U256,
    w1: U256,
    w2: u64,
}
#[derive(Clone, PartialEq)]
struct Rec {
    kind: u8,
    time: u32,
    addr: u64,
    shard: u8,
    tx: u32,
    rw: bool,
    first: bool,
    key: U256,
    value: U256,
    circuit: &'static str,
    live: bool,
}
#[derive(Clone)]
struct Frame {
    this: u64,
    caller: u64,
    code: u64,
    shards: [u8; 3],
    stat: bool,
    base: u32,
    ctx: U256,
    from: usize,
    near: bool,
}
#[derive(Clone, PartialEq)]
struct Seen {
    ran: Op,
    answer: Option<U256>,
    time: u32,
    depth: usize,
    pages: u32,
    record: Option<Rec>,
    live: [usize; 4],
}
/// How a history starts: who runs, after how many calls and cycles.
#[derive(Clone, Copy)]
struct Past {
    addr: u64,
    gone: u32,
    late: u32,
}
struct World<R: Rules> {
    rules: R,
    stack: Vec<Frame>,
    time: u32,
    pages: u32,
    tx: u32,
    price: u32,
    ctx: U256,
    log: Vec<Rec>,
}
fn low128(w: U256) -> U256 {
    U256([w.0[0], w.0[1], 0, 0])
}
impl<R: Rules> World<R> {
    fn new(rules: R, Past { addr, gone, late }: Past) -> Self {
        let [time, delta, boot, first, per_call, _] = rules.counters();
        let (time, pages) = (time + delta * late, first + per_call * gone);
        let base = if gone == 0 { boot } else { pages - per_call };
        World { rules, time, pages, tx: 0, price: 0, ctx: U256::zero(), log: vec![],
                stack: vec![Frame { this: addr, caller: 0, code: addr, shards: [0; 3], stat: false, base, ctx: U256::zero(), from: 0, near: false }] }
    }
    fn step(&mut self, a: &Act) -> Seen {
        let r = &self.rules;
        let [_, delta, _, _, per_call, heap] = r.counters();
        let [t_storage, t_event, t_message, t_precompile] = r.types();
        let d = r.decode(a.word);
        let f = self.stack.last().expect("harness: over").clone();
        let allowed = !d.panic && !(d.kernel && !r.privileged(f.this)) && !(f.stat && !d.in_static) && !((d.op.0 == "FarCall" || d.op.0 == "NearCall") && self.stack.len() >= DEPTH);
        let ran = if allowed { d.op } else { r.masked(a.word) };
        let mut answer = None;
        let mut record = None;
        let wide = |a: u64| Some(U256::from(a));
        match ran {
            ("Ret", how) => {
                if how != "Ok" {
                    for x in &mut self.log[f.from..] {
                        if x.rw && x.kind != t_precompile { x.live = false }
                    }
                }
                self.stack.pop();
                if !f.near { self.ctx = U256::zero() }
            }
            ("FarCall", kind) => {
                let c = r.call(a.w0);
                let to = a.w1.0[0];
                let shard = if r.other_shard(&d) { c.shard } else { f.shards[0] };
                let keeps = kind == "Delegate";
                let callee = Frame {
                    this: if keeps { f.this } else { to },
                    caller: if keeps { f.caller } else if kind == "Mimic" { a.w2 } else { f.this },
                    code: to,
                    shards: if keeps { [f.shards[0], f.shards[1], shard] } else { [shard, f.shards[0], shard] },
                    stat: f.stat || r.makes_static(&d), base: self.pages, ctx: if keeps { f.ctx } else { self.ctx }, from: self.log.len(), near: false,
                };
                answer = Some(U256::from(c.ctor as u64 | ((c.sys && r.privileged(callee.this)) as u64) << 16));
                self.stack.push(callee);
                self.pages += per_call;
                self.ctx = U256::zero();
            }
            ("NearCall", _) => self.stack.push(Frame { from: self.log.len(), near: true, ..f.clone() }),
            ("Log", sub) => {
                let kind = match sub { "StorageRead" | "StorageWrite" => t_storage, "Event" => t_event, "ToL1Message" => t_message, _ => t_precompile };
                let mut x = Rec { kind, time: self.time, addr: f.this, shard: f.shards[0], tx: self.tx, rw: sub != "StorageRead",
                                  first: (sub == "Event" || sub == "ToL1Message") && r.first(&d), key: a.w0, value: a.w1, circuit: "none", live: true };
                if sub == "StorageRead" {
                    x.value = self.log.iter().rev().find(|y| y.live && y.rw && y.kind == t_storage && (y.shard, y.addr, y.key) == (x.shard, x.addr, x.key))
                        .map_or(U256::zero(), |y| y.value);
                    answer = Some(x.value);
                }
                if sub == "PrecompileCall" {
                    x.key = r.request(a.w0, f.base + heap);
                    x.value = U256::zero();
                    x.circuit = r.circuit(f.this);
                }
                self.log.push(x.clone());
                record = Some(x);
            }
            ("Context", "This") => answer = wide(f.this),
            ("Context", "Caller") => answer = wide(f.caller),
            ("Context", "CodeAddress") => answer = wide(f.code),
            ("Context", "Meta") => answer = Some(r.meta(self.price, f.shards)),
            ("Context", "GetContextU128") => answer = Some(f.ctx),
            ("Context", "SetContextU128") => self.ctx = low128(a.w0),
            ("Context", "SetErgsPerPubdataByte") => self.price = a.w0.0[0] as u32,
            ("Context", "IncrementTxNumber") => self.tx += 1,
            _ => {}
        }
        self.time += delta;
        let count = |t: u8| self.log.iter().filter(|x| x.live && x.kind == t).count();
        Seen { ran, answer, time: self.time, depth: self.stack.len(), pages: self.pages, record,
               live: [count(t_storage), count(t_event), count(t_message), count(t_precompile)] }
    }
    fn try_step(&mut self, a: &Act) -> Option<Seen> {
        catch_unwind(AssertUnwindSafe(|| self.step(a))).ok()
    }
}
fn opt(v: Option<Value>) -> Value {
    match v {
        Some(v) => json!({"some": true, "v": v}),
        None => json!({"some": false}),
    }
}
fn seen_json(s: &Option<Seen>) -> Value {
    let Some(s) = s else { return json!({"k": "panic"}) };
    json!({"k": "ok", "v": {
        "ran": [s.ran.0, s.ran.1], "answer": opt(s.answer.as_ref().map(limbs256)), "time": s.time, "depth": s.depth, "pages": s.pages,
        "record": opt(s.record.as_ref().map(|r| json!({
            "type": r.kind, "time": r.time, "addr": limbs(r.addr as u128, 4), "shard": r.shard, "tx": r.tx, "rw": r.rw, "first": r.first,
            "key": limbs256(&r.key), "value": limbs256(&r.value), "circuit": r.circuit, "live": r.live}))),
        "live": s.live}})
}
fn act_json(m: M, a: &Act) -> Value {
    json!({"word": limbs(a.word, m.word_limbs()), "w0": limbs256(&a.w0), "w1": limbs256(&a.w1), "w2": limbs(a.w2 as u128, 4)})
}
fn record(m: M, p: Past, rec: &[(Act, Option<Seen>)]) -> Value {
    json!({"mode": m.name(), "addr": limbs(p.addr as u128, 4), "gone": p.gone, "late": p.late, "steps": rec.iter().map(|(a, s)| json!({"a": act_json(m, a), "r": seen_json(s)})).collect::<Vec<_>>()})
}
fn address(g: &mut Gen) -> u64 {
    match g.rng.below(8) {
        0 => 1, 1 => 2, 2 => 0x8010, 3 => 0x8001, 4 => g.field(16), 5 => 65536 + g.rng.below(3) - 1, 6 => g.field(17), _ => g.field(64),
    }
}
fn action(g: &mut Gen, md: &Model, m: M, families: &[Vec<usize>; 5], depth: usize) -> Act {
    let mut i = g.ins(m, md);
    let k = g.rng.below(16);
    // log, context, calls, returns, near calls
    let fam = match k { 0..=5 => 0, 6..=8 => 1, 9..=11 => 2, 12 | 13 => if depth == 1 && g.rng.below(8) > 0 { 2 } else { 3 }, 14 if g.rng.below(3) > 0 => 4, _ => 5 };
    if fam < 5 {
        i.variant = md.table[families[fam][g.rng.below(families[fam].len() as u64) as usize]];
    }
    let slot = |g: &mut Gen| if g.rng.below(3) > 0 { U256::from(g.rng.below(3)) } else { g.u256() };
    let to = address(g);
    Act { word: if k == 15 && g.rng.below(4) == 0 { g.word(m, md) } else { pack_ins(md, m, &i) }, w0: slot(g),
          w1: if fam == 2 { U256::from(to) } else { slot(g) }, w2: address(g) }
}
pub struct Out {
    pub sessions: u64,
    pub steps: u64,
    pub bad: Vec<Value>,
    pub sample: Vec<Value>,
}
pub fn run(md: &Model, dict: &[u64], seed: u64, count: u64, sample: u64, seconds: u64) -> Out {
    let start = std::time::Instant::now();
    let marks: Vec<(bool, bool, bool)> = md.raw["table"].as_array().unwrap().iter()
        .map(|e| (e["kernel"] == true, e["static"] == true, e["panics"] == true)).collect();
    let families = ["Log", "Context", "FarCall", "Ret", "NearCall"].map(|n| (0..md.assigned).filter(|c| op_names(&md.table[*c].opcode).0 == n).collect::<Vec<_>>());
    let (marks, families) = (&marks, &families);
    let parts: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64).map(|t| sc.spawn(move || {
            let mut g = Gen::new(seed.wrapping_mul(64).wrapping_add(t + 9000), dict);
            let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
            for i in 0..count / 8 {
                if o.bad.len() >= 4 || i % 64 == 0 && start.elapsed().as_secs() > seconds { break }
                let m = if i % 3 == 2 { M::Test } else { M::Prod };
                let addr = if g.rng.below(3) > 0 { 0x8001 } else { address(&mut g) };
                let gone = match g.rng.below(4) { 0 => 0, 1 => g.rng.below(64) as u32, 2 => 7900 + g.rng.below(64) as u32, _ => g.rng.below(23_000_000) as u32 };
                let late = match g.rng.below(3) { 0 => 0, 1 => 16100 + g.rng.below(64) as u32, _ => g.rng.below(500_000_000) as u32 };
                let past = Past { addr, gone, late };
                let mut real = World::new(Real(m), past);
                let mut told = World::new(Told { md, m, marks }, past);
                let mut rec = vec![];
                let mut differs = false;
                for _ in 0..16 + g.rng.below(32) {
                    let mut a = action(&mut g, md, m, families, told.stack.len());
                    // mostly what may run
                    for _ in 0..2 {
                        let (d, f) = (told.rules.decode(a.word), told.stack.last().unwrap());
                        if d.panic || d.kernel && f.this >= 65536 || f.stat && !d.in_static { a = action(&mut g, md, m, families, told.stack.len()) }
                    }
                    let (r, e) = (real.try_step(&a), told.step(&a));
                    differs = r.as_ref() != Some(&e);
                    rec.push((a, r));
                    if differs || told.stack.is_empty() { break }
                }
                o.sessions += 1;
                o.steps += rec.len() as u64;
                if differs { o.bad.push(record(m, past, &rec)) } else if i < sample / 8 { o.sample.push(record(m, past, &rec)) }
            }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
    for p in parts {
        o.sessions += p.sessions;
        o.steps += p.steps;
        o.bad.extend(p.bad);
        o.sample.extend(p.sample);
    }
    o
}
/// Behaviours of the specification, replayed.
pub fn replay(walks: &[Value]) -> (u64, Vec<Value>) {
    let (mut steps, mut bad) = (0, vec![]);
    for w in walks {
        let m = if w["mode"] == "prod" { M::Prod } else { M::Test };
        let n = |k: &str| w[k].as_u64().unwrap() as u32;
        let mut real = World::new(Real(m), Past { addr: from_limbs(&w["addr"]) as u64, gone: n("gone"), late: n("late") });
        let mut rec = vec![];
        let mut differs = false;
        for s in w["steps"].as_array().unwrap() {
            let a = &s["a"];
            let act = Act { word: from_limbs(&a["word"]), w0: from_limbs256(&a["w0"]), w1: from_limbs256(&a["w1"]), w2: from_limbs(&a["w2"]) as u64 };
            let r = seen_json(&real.try_step(&act));
            differs = r["k"] != "ok" || r["v"] != s["v"];
            rec.push(json!({"a": a, "r": r}));
            steps += 1;
            if differs { break }
        }
        if differs { bad.push(json!({"mode": w["mode"], "addr": w["addr"], "gone": w["gone"], "late": w["late"], "steps": rec})) }
    }
    (steps, bad)
}
