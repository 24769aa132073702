//! Memory handed between frames: calls, returns and pointer use, every decision taken by the real definitions.
//! Random sessions are shadowed by a cheap prediction; sessions that differ from it, and a sample of the others, are
//! recorded for the specification to judge.
use crate::gen::Gen;
use crate::model::Model;
use crate::names::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

const DEPTH: usize = 6;
const ARITH: [&str; 3] = ["add", "sub", "shrink"];

#[derive(Clone)]
pub enum Act {
    /// Call or return with the plain integer `w`.
    Plain { ret: bool, w: U256 },
    /// Call or return with a register, `hi` packed into its upper half.
    Packed { ret: bool, reg: usize, hi: [u64; 2] },
    Panic,
    Copy { reg: usize },
    Deref { reg: usize },
    Arith { op: usize, reg: usize, w: U256 },
}
impl Act {
    fn json(&self) -> Value {
        let name = |ret: &bool| if *ret { "ret" } else { "call" };
        match self {
            Act::Plain { ret, w } => json!({"do": name(ret), "reg": 0, "w": limbs256(w)}),
            Act::Packed { ret, reg, hi } => json!({"do": name(ret), "reg": reg + 1, "hi": limbs(hi[0] as u128 | (hi[1] as u128) << 64, 8)}),
            Act::Panic => json!({"do": "panic"}),
            Act::Copy { reg } => json!({"do": "copy", "reg": reg + 1}),
            Act::Deref { reg } => json!({"do": "deref", "reg": reg + 1}),
            Act::Arith { op, reg, w } => json!({"do": ARITH[*op], "reg": reg + 1, "w": limbs256(w)}),
        }
    }
    fn from(a: &Value) -> Act {
        let reg = a.get("reg").map_or(0, |r| (r.as_u64().unwrap() as usize).wrapping_sub(1));
        let w = || from_limbs256(&a["w"]);
        match a["do"].as_str().unwrap() {
            k @ ("call" | "ret") if a["reg"] == 0 => Act::Plain { ret: k == "ret", w: w() },
            k @ ("call" | "ret") => {
                let hi = from_limbs(&a["hi"]);
                Act::Packed { ret: k == "ret", reg, hi: [hi as u64, (hi >> 64) as u64] }
            }
            "panic" => Act::Panic,
            "copy" => Act::Copy { reg },
            "deref" => Act::Deref { reg },
            k => Act::Arith { op: ARITH.iter().position(|o| *o == k).expect("harness: action"), reg, w: w() },
        }
    }
}
/// What an observer sees after an action.
#[derive(Clone, PartialEq)]
pub struct Seen {
    out: &'static str,
    depth: usize,
    base: u32,
    pages: u32,
    ptr: [bool; 2],
    word: [u128; 2],
    page: u32,
    from: u32,
    n: u32,
}
impl Seen {
    fn json(&self) -> Value {
        json!({"out": self.out, "depth": self.depth, "base": self.base, "pages": self.pages, "ptr": self.ptr,
               "word": self.word.map(|w| limbs(w, 8)), "page": self.page, "from": limbs(self.from as u128, 2), "n": limbs(self.n as u128, 2)})
    }
}
fn seen_json(s: &Option<Seen>) -> Value {
    match s {
        Some(s) => json!({"k": "ok", "v": s.json()}),
        None => json!({"k": "panic"}),
    }
}

// ---- the real code ----
#[derive(Clone, Copy, Default)]
struct Reg {
    word: U256,
    ptr: bool,
}
#[derive(Clone)]
pub struct Node {
    stack: Vec<(u32, [Reg; 2])>,
    pages: u32,
}
enum Mode {
    Heap,
    Aux,
    Forward,
}
impl Node {
    /// After `gone` calls that have returned nothing.
    pub fn new(gone: u32) -> Self {
        Node { stack: vec![(BOOTLOADER_BASE_PAGE, [Reg::default(); 2])], pages: STARTING_BASE_PAGE + gone * NEW_MEMORY_PAGES_PER_FAR_CALL }
    }
    pub fn step(&mut self, a: &Act) -> Option<Seen> {
        let mut next = self.clone();
        let s = catch_unwind(AssertUnwindSafe(|| next.go(a))).ok();
        *self = next;
        s
    }
    /// What a call or return with this operand hands over.
    fn offer(&self, ret: bool, o: Reg) -> Option<Reg> {
        let base = self.stack.last().unwrap().0;
        let (mode, mut p) = if ret {
            let abi = RetABI::from_u256(o.word);
            (match abi.page_forwarding_mode {
                RetForwardPageType::UseHeap => Mode::Heap,
                RetForwardPageType::UseAuxHeap => Mode::Aux,
                RetForwardPageType::ForwardFatPointer => Mode::Forward,
            }, abi.memory_quasi_fat_pointer)
        } else {
            let abi = FarCallABI::from_u256(o.word);
            (match abi.forwarding_mode {
                FarCallForwardPageType::UseHeap => Mode::Heap,
                FarCallForwardPageType::UseAuxHeap => Mode::Aux,
                FarCallForwardPageType::ForwardFatPointer => Mode::Forward,
            }, abi.memory_quasi_fat_pointer)
        };
        let forward = matches!(mode, Mode::Forward);
        if forward && (!o.ptr || ret && p.memory_page < base) || !p.validate(!forward).is_empty() || !p.validate_as_slice() {
            return None;
        }
        match mode {
            Mode::Forward => {
                p.start = p.start.checked_add(p.offset).expect("address overflow");
                p.length = p.length.checked_sub(p.offset).expect("length underflow");
                p.offset = 0;
            }
            Mode::Heap => p.memory_page = base + (BOOTLOADER_HEAP_PAGE - BOOTLOADER_BASE_PAGE),
            Mode::Aux => p.memory_page = base + (BOOTLOADER_AUX_HEAP_PAGE - BOOTLOADER_BASE_PAGE),
        }
        Some(Reg { word: p.to_u256(), ptr: true })
    }
    fn go(&mut self, a: &Act) -> Seen {
        let (mut page, mut from, mut n) = (0, 0, 0);
        let top = self.stack.len() - 1;
        let out = match a {
            Act::Plain { ret, w } => self.transfer(*ret, Reg { word: *w, ptr: false }),
            Act::Packed { ret, reg, hi } => {
                let r = self.stack[top].1[*reg];
                let low = if r.ptr { r.word } else { U256::zero() };
                self.transfer(*ret, Reg { word: U256([low.0[0], low.0[1], hi[0], hi[1]]), ptr: r.ptr })
            }
            Act::Panic => {
                if top == 0 { "bottom" } else { self.back(None) }
            }
            Act::Copy { reg } => {
                let f = &mut self.stack[top].1;
                f[1 - *reg] = f[*reg];
                "ok"
            }
            Act::Deref { reg } => {
                let r = self.stack[top].1[*reg];
                let p = FatPointer::from_u256(r.word);
                if !r.ptr {
                    "not-a-pointer"
                } else if U256::from(p.offset) > MAX_OFFSET_TO_DEREF || p.offset > MAX_OFFSET_TO_DEREF_LOW_U32 {
                    "beyond-limit"
                } else {
                    if p.validate_in_bounds() {
                        page = p.memory_page;
                        from = p.start.checked_add(p.offset).expect("address overflow");
                        n = (p.length - p.offset).min(32);
                    }
                    "ok"
                }
            }
            Act::Arith { op, reg, w } => {
                let r = &mut self.stack[top].1[*reg];
                let mut p = FatPointer::from_u256(r.word);
                let d = w.low_u32();
                let fits = *w < MAX_OFFSET_FOR_ADD_SUB;
                if !r.ptr {
                    "not-a-pointer"
                } else {
                    let new = match op {
                        0 => p.offset.checked_add(d).map(|x| p.offset = x),
                        1 => p.offset.checked_sub(d).map(|x| p.offset = x),
                        _ => p.length.checked_sub(d).map(|x| p.length = x),
                    };
                    if fits && new.is_some() {
                        r.word = p.to_u256();
                        "ok"
                    } else { "overflow" }
                }
            }
        };
        let f = self.stack.last().unwrap();
        Seen { out, depth: self.stack.len(), base: f.0, pages: self.pages, ptr: f.1.map(|r| r.ptr),
               word: f.1.map(|r| if r.ptr { r.word.low_u128() } else { 0 }), page, from, n }
    }
    fn back(&mut self, g: Option<Reg>) -> &'static str {
        self.stack.pop();
        self.stack.last_mut().unwrap().1[0] = g.unwrap_or_default();
        if g.is_some() { "ok" } else { "panic" }
    }
    fn transfer(&mut self, ret: bool, o: Reg) -> &'static str {
        if ret {
            if self.stack.len() == 1 { return "bottom" }
            let g = self.offer(true, o);
            self.back(g)
        } else {
            if self.stack.len() >= DEPTH { return "depth" }
            match self.offer(false, o) {
                None => "invalid",
                Some(g) => {
                    self.stack.push((self.pages, [g, Reg::default()]));
                    self.pages += NEW_MEMORY_PAGES_PER_FAR_CALL;
                    "ok"
                }
            }
        }
    }
}

// ---- what is expected, with the layouts of the exported specification ----
#[derive(Clone, Copy, Default)]
struct P {
    offset: u32,
    page: u32,
    start: u32,
    length: u32,
}
struct Shadow<'a> {
    md: &'a Model,
    stack: Vec<(u32, [Option<P>; 2])>,
    pages: u32,
}
impl Shadow<'_> {
    fn part(&self, w: &U256, f: &str) -> u32 {
        crate::model::get256(w, self.md.f("fatptr", f)).low_u32()
    }
    fn word(&self, p: Option<P>) -> u128 {
        let Some(p) = p else { return 0 };
        [("offset", p.offset), ("page", p.page), ("start", p.start), ("length", p.length)].iter()
            .fold(0, |w, (f, v)| w | (*v as u128) << self.md.f("fatptr", f).lo)
    }
    fn offer(&self, ret: bool, hi: [u64; 2], ptr: bool, p: P) -> Option<P> {
        let base = self.stack.last().unwrap().0;
        let word = U256([0, 0, hi[0], hi[1]]);
        let mode = crate::model::get256(&word, self.md.f(if ret { "ret" } else { "farcall" }, "fwd")).low_u32();
        if p.start.checked_add(p.length).is_none() || p.offset > p.length { return None }
        if mode == 1 {
            if !ptr || ret && p.page < base { return None }
            Some(P { offset: 0, page: p.page, start: p.start + p.offset, length: p.length - p.offset })
        } else if p.offset != 0 { None } else {
            Some(P { page: base + if mode == 2 { 3 } else { 2 }, ..p })
        }
    }
    fn transfer(&mut self, ret: bool, hi: [u64; 2], ptr: bool, p: P) -> &'static str {
        if ret {
            if self.stack.len() == 1 { return "bottom" }
            let g = self.offer(true, hi, ptr, p);
            self.back(g)
        } else if self.stack.len() >= DEPTH { "depth" } else {
            match self.offer(false, hi, ptr, p) {
                None => "invalid",
                g => {
                    self.stack.push((self.pages, [g, None]));
                    self.pages += 8;
                    "ok"
                }
            }
        }
    }
    fn back(&mut self, g: Option<P>) -> &'static str {
        self.stack.pop();
        self.stack.last_mut().unwrap().1[0] = g;
        if g.is_some() { "ok" } else { "panic" }
    }
    fn step(&mut self, a: &Act) -> Seen {
        let top = self.stack.len() - 1;
        let (mut page, mut from, mut n) = (0, 0, 0);
        let out = match a {
            Act::Plain { ret, w } => {
                let p = P { offset: self.part(w, "offset"), page: 0, start: self.part(w, "start"), length: self.part(w, "length") };
                self.transfer(*ret, [w.0[2], w.0[3]], false, p)
            }
            Act::Packed { ret, reg, hi } => {
                let r = self.stack[top].1[*reg];
                self.transfer(*ret, *hi, r.is_some(), r.unwrap_or_default())
            }
            Act::Panic => if top == 0 { "bottom" } else { self.back(None) },
            Act::Copy { reg } => {
                let f = &mut self.stack[top].1;
                f[1 - *reg] = f[*reg];
                "ok"
            }
            Act::Deref { reg } => match self.stack[top].1[*reg] {
                None => "not-a-pointer",
                Some(p) if p.offset > u32::MAX - 32 => "beyond-limit",
                Some(p) => {
                    if p.offset < p.length { (page, from, n) = (p.page, p.start + p.offset, (p.length - p.offset).min(32)) }
                    "ok"
                }
            },
            Act::Arith { op, reg, w } => match &mut self.stack[top].1[*reg] {
                None => "not-a-pointer",
                Some(p) => {
                    let d = if w.bits() > 32 { None } else { Some(w.low_u32()) };
                    let x = if *op == 2 { &mut p.length } else { &mut p.offset };
                    match d.and_then(|d| if *op == 0 { x.checked_add(d) } else { x.checked_sub(d) }) {
                        Some(v) => { *x = v; "ok" }
                        None => "overflow",
                    }
                }
            },
        };
        let f = self.stack.last().unwrap();
        Seen { out, depth: self.stack.len(), base: f.0, pages: self.pages, ptr: f.1.map(|r| r.is_some()), word: f.1.map(|r| self.word(r)), page, from, n }
    }
}
fn near(g: &mut Gen, p: P) -> u32 {
    let v = match g.rng.below(9) {
        0 => p.offset, 1 => p.length, 2 => p.length.wrapping_sub(p.offset), 3 => 0u32.wrapping_sub(p.start), 4 => 0u32.wrapping_sub(p.offset),
        5 => p.start, 6 => p.length / 2, 7 => p.length.wrapping_sub(32), _ => g.field(32) as u32,
    };
    if g.rng.below(2) == 0 { v } else { v.wrapping_add(g.rng.below(5) as u32).wrapping_sub(2) }
}
fn upper(g: &mut Gen) -> [u64; 2] {
    let mode = match g.rng.below(4) { 0 => 0, 1 => 2, 2 => 1, _ => g.field(8) };
    if g.rng.below(2) == 0 { [0, mode << 32] } else { [g.field(64), g.field(64) & !(255 << 32) | mode << 32] }
}
fn action(g: &mut Gen, sh: &Shadow) -> Act {
    let f = sh.stack.last().unwrap();
    let live: Vec<usize> = (0..2).filter(|k| f.1[*k].is_some()).collect();
    let reg = if !live.is_empty() && g.rng.below(10) > 0 { live[g.rng.below(live.len() as u64) as usize] } else { g.rng.below(2) as usize };
    let p = f.1[reg].unwrap_or_default();
    let kind = if live.is_empty() && g.rng.below(4) > 0 { 0 } else { g.rng.below(16) };
    match kind {
        0..=5 => {
            let ret = kind >= 4 || kind == 3 && g.rng.below(3) == 0;
            if !live.is_empty() && g.rng.below(2) == 0 { Act::Packed { ret, reg, hi: upper(g) } } else {
                let (start, mut length) = (near(g, p), near(g, p));
                if g.rng.below(5) > 0 { length = length.min(u32::MAX - start) }
                let offset = if g.rng.below(8) == 0 { near(g, p) } else { 0 };
                let hi = upper(g);
                let low = offset as u64 | (g.field(32) << 32);
                Act::Plain { ret, w: U256([low, start as u64 | (length as u64) << 32, hi[0], hi[1]]) }
            }
        }
        6 => if g.rng.below(3) == 0 { Act::Panic } else { Act::Copy { reg } },
        7 => Act::Copy { reg },
        8..=11 => {
            let w = U256::from(near(g, p));
            Act::Arith { op: [0, 0, 1, 2][g.rng.below(4) as usize], reg, w: if g.rng.below(8) == 0 { w | g.u256() << 32 } else { w } }
        }
        _ => Act::Deref { reg },
    }
}
pub struct Out {
    pub sessions: u64,
    pub steps: u64,
    pub bad: Vec<Value>,
    pub sample: Vec<Value>,
}
fn record(gone: u32, rec: &[(Act, Option<Seen>)]) -> Value {
    json!({"gone": gone, "steps": rec.iter().map(|(a, s)| json!({"a": a.json(), "r": seen_json(s)})).collect::<Vec<_>>()})
}
pub fn run(md: &Model, dict: &[u64], seed: u64, count: u64, sample: u64, seconds: u64) -> Out {
    let start = std::time::Instant::now();
    let parts: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64).map(|t| sc.spawn(move || {
            let mut g = Gen::new(seed.wrapping_mul(64).wrapping_add(t + 8000), dict);
            let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
            for i in 0..count / 8 {
                if o.bad.len() >= 4 || i % 64 == 0 && start.elapsed().as_secs() > seconds { break }
                // (a block's ergs pay for fewer than 2^32 / 182 calls)
                let gone = if g.rng.below(2) == 0 { 0 } else { (g.field(25) as u32).min(23_000_000) };
                let mut node = Node::new(gone);
                let mut sh = Shadow { md, stack: vec![(8, [None; 2])], pages: 2048 + 8 * gone };
                let mut rec = vec![];
                let mut differs = false;
                for _ in 0..20 + g.rng.below(20) {
                    let a = action(&mut g, &sh);
                    let (r, e) = (node.step(&a), sh.step(&a));
                    differs = r.as_ref() != Some(&e);
                    rec.push((a, r));
                    if differs { break }
                }
                o.sessions += 1;
                o.steps += rec.len() as u64;
                if differs { o.bad.push(record(gone, &rec)) } else if i < sample / 8 { o.sample.push(record(gone, &rec)) }
            }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
    for p in parts {
        o.sessions += p.sessions;
        o.steps += p.steps;
        o.bad.extend(p.bad);
        o.sample.extend(p.sample);
    }
    o
}
/// Behaviours of the specification, replayed.
pub fn replay(walks: &[Value]) -> (u64, Vec<Value>) {
    let (mut steps, mut bad) = (0, vec![]);
    for w in walks {
        let gone = w["gone"].as_u64().unwrap() as u32;
        let mut node = Node::new(gone);
        let mut rec = vec![];
        let mut differs = false;
        for s in w["steps"].as_array().unwrap() {
            let r = seen_json(&node.step(&Act::from(&s["a"])));
            differs = r["k"] != "ok" || r["v"] != s["v"];
            rec.push(json!({"a": s["a"], "r": r}));
            steps += 1;
            if differs { break }
        }
        if differs { bad.push(json!({"gone": gone, "steps": rec})) }
    }
    (steps, bad)
}
