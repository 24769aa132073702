//! Life cycles of contract code, every decision taken by the real definitions.
//! A session is run for real and shadowed by a cheap prediction; sessions that differ from it, and a sample of the
//! others, are recorded for the specification to judge.
use crate::calls::{dec, enc_bytes, extract, ins_json, split_pc, Ins, M};
use crate::gen::Gen;
use crate::model::Model;
use crate::names::*;
use crate::replay::pack_ins;
use crate::sha;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

type W = [u8; 32];
type Hash = VersionedHashGeneric<ContractCodeSha256>;
const SMALL: usize = 40;

#[derive(Clone)]
pub enum Act {
    Publish { ins: Vec<Ins>, n: usize, digest: W, explicit: bool, audit: bool },
    Begin { at: u64, word: W },
    Finish { at: u64 },
    Write { at: u64, word: W },
    Call { at: u64, abi: U256 },
    Fetch { pc: u64 },
}
#[derive(Clone, PartialEq)]
pub enum Rep {
    Published(Option<W>, Vec<W>),
    Word(Option<W>),
    Called(&'static str, u64),
    Fetched(Option<Ins>),
    Panic,
}
fn word_json(w: &W) -> Value {
    limbs256(&from_be32(w))
}
fn word_from(v: &Value) -> W {
    be32(&from_limbs256(v))
}
fn opt(w: Option<Value>) -> Value {
    match w {
        Some(v) => json!({"some": true, "v": v}),
        None => json!({"some": false}),
    }
}
fn ins_from(v: &Value) -> Ins {
    let r = |k: &str| v[k].as_u64().unwrap() as u8;
    Ins { variant: variant_from(&v["variant"]), cond: cond_from(v["cond"].as_str().unwrap()), regs: [r("src0"), r("src1"), r("dst0"), r("dst1")],
          imm: [from_limbs(&v["imm0"]) as u64, from_limbs(&v["imm1"]) as u64] }
}
impl Act {
    fn json(&self, m: M) -> Value {
        match self {
            Act::Publish { ins, n, digest, explicit, audit } => json!({"do": "publish", "ins": ins.iter().map(|i| ins_json(m, i)).collect::<Vec<_>>(), "n": n,
                                                                "digest": word_json(digest), "explicit": explicit, "audit": audit}),
            Act::Begin { at, word } => json!({"do": "begin", "at": at, "word": word_json(word)}),
            Act::Finish { at } => json!({"do": "finish", "at": at}),
            Act::Write { at, word } => json!({"do": "write", "at": at, "word": word_json(word)}),
            Act::Call { at, abi } => json!({"do": "call", "at": at, "abi": limbs256(abi)}),
            Act::Fetch { pc } => json!({"do": "fetch", "pc": pc}),
        }
    }
    fn from(a: &Value) -> Act {
        let at = a.get("at").map_or(0, |x| x.as_u64().unwrap());
        match a["do"].as_str().unwrap() {
            "publish" => Act::Publish { ins: a["ins"].as_array().unwrap().iter().map(ins_from).collect(), n: a["n"].as_u64().unwrap() as usize,
                                        digest: word_from(&a["digest"]), explicit: a["explicit"] == true, audit: a["audit"] == true },
            "begin" => Act::Begin { at, word: word_from(&a["word"]) },
            "finish" => Act::Finish { at },
            "write" => Act::Write { at, word: word_from(&a["word"]) },
            "call" => Act::Call { at, abi: from_limbs256(&a["abi"]) },
            "fetch" => Act::Fetch { pc: a["pc"].as_u64().unwrap() },
            other => panic!("harness: action {other}"),
        }
    }
}
impl Rep {
    fn json(&self, m: M) -> Value {
        let v = match self {
            Rep::Panic => return json!({"k": "panic"}),
            Rep::Published(h, page) => json!({"hash": opt(h.as_ref().map(word_json)),
                                              "page": if page.len() <= SMALL { page.iter().map(word_json).collect() } else { vec![] }}),
            Rep::Word(w) => opt(w.as_ref().map(word_json)),
            Rep::Called(out, size) => json!({"out": out, "size": size}),
            Rep::Fetched(i) => opt(i.as_ref().map(|i| ins_json(m, i))),
        };
        json!({"k": "ok", "v": v})
    }
}

// ---- the real code ----
pub struct Node {
    m: M,
    known: HashMap<W, Vec<W>>,
    acct: HashMap<u64, W>,
    running: Option<W>,
}
impl Node {
    pub fn new(m: M) -> Self {
        Node { m, known: HashMap::new(), acct: HashMap::new(), running: None }
    }
    pub fn step(&mut self, a: &Act) -> Rep {
        catch_unwind(AssertUnwindSafe(|| self.go(a))).unwrap_or(Rep::Panic)
    }
    fn go(&mut self, a: &Act) -> Rep {
        match a {
            Act::Publish { ins, n, explicit, .. } => {
                let per = if self.m == M::Prod { 4 } else { 2 };
                let enc: Vec<Vec<u8>> = ins.iter().enumerate().map(|(k, i)| { let (a, b) = enc_bytes(self.m, i); if k % 2 == 0 { a } else { b } }).collect();
                let page: Vec<W> = (0..*n).map(|w| {
                    let mut out = [0u8; 32];
                    let size = 32 / per;
                    for s in 0..per {
                        out[s * size..(s + 1) * size].copy_from_slice(&enc[(w * per + s) % enc.len()]);
                    }
                    out
                }).collect();
                let h = match self.m {
                    M::Prod if !explicit => bytecode_to_code_hash(&page),
                    M::Prod => bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(&page),
                    M::Test => bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(&page),
                }.ok();
                if let Some(h) = h {
                    self.known.insert(h, page.clone());
                }
                Rep::Published(h, page)
            }
            Act::Begin { at, word } => {
                if self.acct.contains_key(at) || !self.known.contains_key(word) {
                    return Rep::Word(None);
                }
                match Hash::try_create_from_raw(*word) {
                    Some(h) if h.layout_ref().extra_marker == ContractCodeSha256::CODE_AT_REST_MARKER => {
                        let l = h.layout_ref();
                        let w = ContractCodeSha256::serialize(ContractCodeSha256Storage {
                            code_length_in_words: l.code_length_in_words, extra_marker: ContractCodeSha256::YET_CONSTRUCTED_MARKER, partial_hash: l.partial_hash,
                        }).expect("serialize");
                        self.acct.insert(*at, w);
                        Rep::Word(Some(w))
                    }
                    _ => Rep::Word(None),
                }
            }
            Act::Finish { at } => match self.acct.get(at).and_then(|w| Hash::try_create_from_raw(*w)) {
                Some(h) if h.layout_ref().extra_marker == ContractCodeSha256::YET_CONSTRUCTED_MARKER => {
                    let w = h.serialize_to_stored().expect("stored");
                    self.acct.insert(*at, w);
                    Rep::Word(Some(w))
                }
                _ => Rep::Word(None),
            },
            Act::Write { at, word } => {
                self.acct.insert(*at, *word);
                Rep::Word(None)
            }
            Act::Call { at, abi } => {
                self.running = None;
                let Some(w) = self.acct.get(at) else { return Rep::Called("empty", 0) };
                let Some(h) = Hash::try_create_from_raw(*w) else { return Rep::Called("foreign", 0) };
                let want = if FarCallABI::from_u256(*abi).constructor_call { ContractCodeSha256::YET_CONSTRUCTED_MARKER } else { ContractCodeSha256::CODE_AT_REST_MARKER };
                if h.layout_ref().extra_marker != want {
                    return Rep::Called("refused", 0);
                }
                let stored = h.serialize_to_stored().expect("stored");
                if !self.known.contains_key(&stored) {
                    return Rep::Called("unknown", 0);
                }
                self.running = Some(stored);
                Rep::Called("run", h.layout_ref().code_length_in_words as u64)
            }
            Act::Fetch { pc } => Rep::Fetched(self.running.map(|h| {
                let page = &self.known[&h];
                let (word, sub) = split_pc(self.m, *pc);
                let w = page.get(word as usize).map_or(U256::zero(), |w| U256::from_big_endian(w));
                dec(self.m, extract(self.m, w, sub)).0
            })),
        }
    }
}

// ---- what is expected, from the exported specification ----
struct Shadow<'a> {
    md: &'a Model,
    m: M,
    known: HashMap<W, (Vec<Ins>, usize)>,
    acct: HashMap<u64, W>,
    running: Option<W>,
}
fn page_words(md: &Model, m: M, ins: &[Ins], n: usize) -> Vec<W> {
    let per = if m == M::Prod { 4 } else { 2 };
    let enc: Vec<u128> = ins.iter().map(|i| pack_ins(md, m, i)).collect();
    (0..n).map(|w| {
        let mut out = [0u8; 32];
        for s in 0..per {
            let b = enc[(w * per + s) % enc.len()].to_be_bytes();
            let size = 32 / per;
            out[s * size..(s + 1) * size].copy_from_slice(&b[16 - size..]);
        }
        out
    }).collect()
}
impl Shadow<'_> {
    fn step(&mut self, a: &Act) -> Rep {
        let rest = |w: &W| { let mut x = *w; x[1] = 0; x };
        match a {
            Act::Publish { ins, n, digest, .. } => {
                let page = page_words(self.md, self.m, ins, *n);
                let h = if n % 2 == 1 && *n < 65536 {
                    let mut h = *digest;
                    h[0] = self.md.version_byte as u8;
                    h[1] = 0;
                    h[2..4].copy_from_slice(&(*n as u16).to_be_bytes());
                    self.known.insert(h, (ins.clone(), *n));
                    Some(h)
                } else { None };
                Rep::Published(h, page)
            }
            Act::Begin { at, word } => Rep::Word(if !self.acct.contains_key(at) && self.known.contains_key(word) {
                let mut w = *word;
                w[1] = 1;
                self.acct.insert(*at, w);
                Some(w)
            } else { None }),
            Act::Finish { at } => Rep::Word(match self.acct.get(at) {
                Some(w) if w[0] as u64 == self.md.version_byte as u64 && w[1] == 1 => {
                    let w = rest(w);
                    self.acct.insert(*at, w);
                    Some(w)
                }
                _ => None,
            }),
            Act::Write { at, word } => {
                self.acct.insert(*at, *word);
                Rep::Word(None)
            }
            Act::Call { at, abi } => {
                self.running = None;
                let Some(w) = self.acct.get(at) else { return Rep::Called("empty", 0) };
                if w[0] as u64 != self.md.version_byte as u64 {
                    return Rep::Called("foreign", 0);
                }
                let ctor = !crate::model::get256(abi, self.md.f("farcall", "ctor")).is_zero();
                if w[1] != ctor as u8 {
                    return Rep::Called("refused", 0);
                }
                match self.known.get(&rest(w)) {
                    None => Rep::Called("unknown", 0),
                    Some(_) => {
                        self.running = Some(rest(w));
                        Rep::Called("run", u16::from_be_bytes([w[2], w[3]]) as u64)
                    }
                }
            }
            Act::Fetch { pc } => Rep::Fetched(self.running.map(|h| {
                let (ins, n) = &self.known[&h];
                let per = if self.m == M::Prod { 4 } else { 2 };
                if *pc < *n as u64 * per { ins[*pc as usize % ins.len()] } else {
                    Ins { variant: self.md.table[0], cond: self.md.conds[0], regs: [0; 4], imm: [0; 2] }
                }
            })),
        }
    }
}

pub struct Out {
    pub sessions: u64,
    pub steps: u64,
    pub bad: Vec<Value>,
    pub sample: Vec<Value>,
}
fn variation(g: &mut Gen, w: W) -> W {
    let mut x = w;
    match g.rng.below(10) {
        0..=3 => {}
        4 => x[1] = 1,
        5 => x[1] = g.field(8) as u8,
        6 => x[0] = g.field(8) as u8,
        7 => x[2 + g.rng.below(2) as usize] ^= 1 << g.rng.below(8),
        8 => x[g.rng.below(32) as usize] ^= 1 << g.rng.below(8),
        _ => x = be32(&g.u256()),
    }
    x
}
fn session(g: &mut Gen, md: &Model, m: M, big: bool, keep: bool) -> (Option<Value>, bool, u64) {
    let mut node = Node::new(m);
    let mut sh = Shadow { md, m, known: HashMap::new(), acct: HashMap::new(), running: None };
    let mut rec: Vec<(Act, Rep)> = vec![];
    let mut words: Vec<W> = vec![];
    let mut last: (u64, usize) = (1, 1);
    let mut before: Option<(Vec<Ins>, usize)> = None;
    let len = if big { 40 } else { 14 + g.rng.below(14) };
    let mut differs = false;
    for k in 0..len {
        let at = g.rng.below(3);
        let a = if k == 0 || !big && (words.is_empty() || g.rng.below(8) == 0) {
            let n = if big {
                match g.rng.below(6) { 0 => 65535, 1 => 65535 - g.rng.below(4) as usize, 2 => (1usize << (8 + g.rng.below(8))) + 1, 3 => 65536 + g.rng.below(3) as usize, _ => g.rng.below(65536) as usize | 1 }
            } else { match g.rng.below(8) { 0 => g.rng.below(8) as usize, 1 => 2 * g.rng.below(20) as usize + 1, _ => 1 + 2 * g.rng.below(3) as usize } };
            let count = 1 + g.rng.below(if big { 30 } else { 12 }) as usize;
            let mut ins: Vec<Ins> = (0..count).map(|_| g.ins(m, md)).collect();
            let mut n = n;
            // often a close relative of the code published before
            if let (Some((old, length)), true) = (&before, g.rng.below(2) == 0) {
                ins = old.clone();
                match g.rng.below(5) {
                    0 => n = *length,
                    1 => n = length + 2,
                    2 => { ins.reverse(); n = *length }
                    _ => { let k = g.rng.below(ins.len().min(4 * length + 1) as u64) as usize; ins[k] = g.ins(m, md); n = *length }
                }
            }
            let count = ins.len();
            // (testing-mode codes beyond the declared length are left alone: their hash cannot carry it)
            let n = if m == M::Test { n.min(65535) } else { n };
            before = Some((ins.clone(), n));
            let digest = sha::digest_words(&page_words(md, m, &ins, n));
            last = (n as u64, count);
            Act::Publish { ins, n, digest, explicit: g.rng.below(2) == 0, audit: n <= SMALL && (n <= 7 && g.rng.below(12) == 0 || g.rng.below(100) == 0) }
        } else if big && k == 1 {
            Act::Begin { at: 0, word: *words.last().unwrap_or(&[0; 32]) }
        } else if big && k > 2 {
            let per = if m == M::Prod { 4 } else { 2 };
            let top = (last.0 * per).min(if m == M::Prod { 65536 } else { u64::MAX });
            Act::Fetch { pc: match g.rng.below(4) { 0 => top.saturating_sub(1 + g.rng.below(6)), 1 => g.field(16), 2 => (top + g.rng.below(3)).min(if m == M::Prod { 65535 } else { u64::MAX }), _ => g.rng.below(top) } }
        } else {
            let w = if words.is_empty() { be32(&g.u256()) } else { words[g.rng.below(words.len() as u64) as usize] };
            match g.rng.below(16) {
                0..=2 => Act::Begin { at, word: if g.rng.below(4) > 0 { w } else { variation(g, w) } },
                3 | 4 => Act::Finish { at },
                5 | 6 => Act::Write { at, word: variation(g, w) },
                7..=10 => {
                    let mut abi = g.u256();
                    if g.rng.below(3) > 0 {
                        abi = abi & !(U256::from(255u64) << 240) | U256::from(if g.rng.below(2) == 0 { 0 } else { g.field(8) }) << 240;
                    }
                    Act::Call { at, abi }
                }
                _ => Act::Fetch { pc: if g.rng.below(12) == 0 { g.field(16) } else { g.rng.below(4 * last.0 + 3) } },
            }
        };
        let a = if big && k == 2 { Act::Call { at: 0, abi: (g.u256() & !(U256::from(255u64) << 240)) | U256::one() << 240 } } else { a };
        let (r, e) = (node.step(&a), sh.step(&a));
        if let Act::Publish { .. } = a {
            if let Rep::Published(Some(h), _) = &r { words.push(*h) }
        }
        differs = r != e;
        rec.push((a, r));
        if differs { break }
    }
    let n = rec.len() as u64;
    (if differs || keep { Some(record(m, &rec)) } else { None }, differs, n)
}
fn record(m: M, rec: &[(Act, Rep)]) -> Value {
    json!({"mode": m.name(), "steps": rec.iter().map(|(a, r)| json!({"a": a.json(m), "r": r.json(m)})).collect::<Vec<_>>()})
}
pub fn run(md: &Model, dict: &[u64], seed: u64, count: u64, bigs: u64, sample: u64, seconds: u64) -> Out {
    let start = std::time::Instant::now();
    let parts: Vec<Out> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64).map(|t| sc.spawn(move || {
            let mut g = Gen::new(seed.wrapping_mul(64).wrapping_add(t + 7000), dict);
            let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
            for i in 0..count / 8 {
                if o.bad.len() >= 4 || i % 64 == 0 && start.elapsed().as_secs() > seconds { break }
                let m = if i % 3 == 2 { M::Test } else { M::Prod };
                let big = bigs > 0 && i % (count / bigs).max(1) == (count / bigs).max(1) - 1;
                let (v, bad, n) = session(&mut g, md, m, big, i < sample / 8 || big);
                o.sessions += 1;
                o.steps += n;
                if let Some(v) = v { if bad { o.bad.push(v) } else { o.sample.push(v) } }
            }
            o
        })).collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut o = Out { sessions: 0, steps: 0, bad: vec![], sample: vec![] };
    for p in parts {
        o.sessions += p.sessions;
        o.steps += p.steps;
        o.bad.extend(p.bad);
        o.sample.extend(p.sample);
    }
    o
}
/// Behaviours of the specification, replayed.
pub fn replay(walks: &[Value]) -> (u64, Vec<Value>) {
    let (mut steps, mut bad) = (0, vec![]);
    for w in walks {
        let m = if w["mode"] == "prod" { M::Prod } else { M::Test };
        let mut node = Node::new(m);
        let mut rec = vec![];
        let mut differs = false;
        for s in w["steps"].as_array().unwrap() {
            let r = node.step(&Act::from(&s["a"])).json(m);
            let got = if s["a"]["do"] == "publish" { &r["v"]["hash"] } else { &r["v"] };
            differs = r["k"] != "ok" || *got != s["v"];
            rec.push(json!({"a": s["a"], "r": r}));
            steps += 1;
            if differs { break }
        }
        if differs {
            bad.push(json!({"mode": m.name(), "steps": rec}));
        }
    }
    (steps, bad)
}
