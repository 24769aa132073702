//! Mass replay of specification-derived calls into the real code.
use crate::calls::*;
use crate::gen::*;
use crate::model::*;
use crate::names::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

#[derive(Clone, Copy)]
pub enum Case {
    Round(M, Ins),
    Reencode(M, u128),
    Decode(M, u128),
    Head(M, u128),
    Encode(M, Ins),
    Canon(M, u128),
    Total(M, u128),
    Mask(M, Ins, bool),
    FatUnpack(U256),
    FatPack(FatPointer),
    FatCheck(FatPointer, bool),
    Far(U256),
    Near(U256),
    Ret(U256),
    Pre(U256),
    Inner(U256),
    InnerPack(PrecompileCallInnerABI),
    MetaPack(VmMetaParameters),
    HashParse(U256),
    HashDigest(U256, u16),
    Split(M, u64),
    Extract(M, U256, u64),
    Wrap(M, u64, u64),
    Clip(M, u64),
    Widen(M, u64),
}
use Case::*;

fn low32(v: U256) -> u32 {
    v.0[0] as u32
}
type H = VersionedHashGeneric<ContractCodeSha256>;
fn hash_ok(md: &Model, h: &H, w: &U256, stored: &U256) -> bool {
    let l = h.layout_ref();
    let mut tail = [0u8; 32];
    tail[4..].copy_from_slice(&l.partial_hash);
    U256::from(l.extra_marker) == get256(w, md.f("hash", "marker"))
        && U256::from(l.code_length_in_words) == get256(w, md.f("hash", "len"))
        && from_be32(&tail) == get256(w, md.f("hash", "tail"))
        && h.serialize() == Some(be32(w))
        && h.serialize_to_stored() == Some(be32(stored))
}

impl Case {
    pub fn event(&self) -> Value {
        match *self {
            Round(m, i) => ev_round(m, &i),
            Reencode(m, w) => ev_reencode(m, w),
            Decode(m, w) => ev_decode(m, w),
            Head(m, w) => ev_head(m, w),
            Encode(m, i) => ev_encode(m, &i),
            Canon(m, w) => ev_canon(m, w),
            Total(m, w) => ev_total(m, w),
            Mask(m, i, p) => ev_mask(m, &i, p),
            FatUnpack(w) => ev_fat_unpack(w),
            FatPack(p) => ev_fat_pack(p),
            FatCheck(p, f) => ev_fat_check(p, f),
            Far(w) => ev_farcall(w),
            Near(w) => ev_nearcall(w),
            Ret(w) => ev_ret(w),
            Pre(w) => ev_pre(w),
            Inner(w) => ev_inner(w),
            InnerPack(p) => ev_inner_pack(p),
            MetaPack(p) => ev_meta_pack(p),
            HashParse(w) => ev_hash_parse(w),
            HashDigest(w, n) => ev_hash_digest(w, n),
            Split(m, pc) => ev_split(m, pc),
            Extract(m, w, s) => ev_extract(m, w, s),
            Wrap(m, x, y) => ev_wrap(m, x, y),
            Clip(m, v) => ev_clip(m, v),
            Widen(m, x) => ev_widen(m, x),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Round(..) => "roundtrip", Reencode(..) => "reencode", Decode(..) => "decode", Head(..) => "head", Encode(..) => "encode",
            Canon(..) => "canon", Total(..) => "total", Mask(..) => "mask", FatUnpack(..) => "fatUnpack", FatPack(..) => "fatPack",
            FatCheck(..) => "fatCheck", Far(..) => "farcall", Near(..) => "nearcall", Ret(..) => "ret", Pre(..) => "pre",
            Inner(..) => "inner", InnerPack(..) => "innerPack", MetaPack(..) => "metaPack", HashParse(..) => "hashParse",
            HashDigest(..) => "hashDigest", Split(..) => "split", Extract(..) => "extract", Wrap(..) => "wrap", Clip(..) => "clip",
            Widen(..) => "widen",
        }
    }
    /// Does the real code do what the exported specification says?  Panics count as no.
    pub fn ok(&self, md: &Model) -> bool {
        catch_unwind(AssertUnwindSafe(|| self.holds(md))).unwrap_or(false)
    }
    fn holds(&self, md: &Model) -> bool {
        match *self {
            Round(m, ref i) => {
                let w = enc(m, i);
                let (back, n) = dec(m, w);
                let (b, b2) = enc_bytes(m, i);
                let be = |b: &[u8]| b.iter().fold(0u128, |a, x| a << 8 | *x as u128) == w && b.len() == 2 * m.word_limbs();
                same(&back, i) && be(&b) && be(&b2) && OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&i.variant).map(|x| x.into_usize()) == Some(n)
            }
            Reencode(m, w) => {
                let code = get(w, md.ins(m).fields[0]) as usize;
                let r = enc(m, &dec(m, w).0);
                code == 0 || code >= md.assigned || w & (md.reserved | md.ins(m).dead) != 0 || r == w
            }
            Decode(m, w) => {
                let (i, n) = dec(m, w);
                let f = &md.ins(m).fields;
                let code = get(w, f[0]) as usize;
                n == code && same(&i, &Ins { variant: md.table[code], cond: md.conds[get(w, f[1]) as usize],
                                             regs: [get(w, f[2]) as u8, get(w, f[3]) as u8, get(w, f[4]) as u8, get(w, f[5]) as u8],
                                             imm: [get(w, f[6]), get(w, f[7])] })
            }
            Head(m, w) => {
                let (v, c, n) = head(m, w);
                let f = &md.ins(m).fields;
                let code = get(w, f[0]) as usize;
                n == code && vid(&v) == vid(&md.table[code]) && cond_name(&c) == cond_name(&md.conds[get(w, f[1]) as usize])
            }
            Encode(m, ref i) => {
                let w = enc(m, i);
                let (b, b2) = enc_bytes(m, i);
                let be = w.to_be_bytes();
                let be = &be[16 - 2 * m.word_limbs()..];
                w == pack_ins(md, m, i) && b == be && b2 == be
            }
            Canon(m, w) => canon(m, w) == (w & md.reserved == 0),
            Total(m, w) => {
                let code = get(w, md.ins(m).fields[0]) as usize;
                total(m, w) == [code == 0 || code >= md.assigned; 5]
            }
            Mask(m, ref i, p) => {
                let r = mask(m, i, p);
                let id = if p { md.panic } else { md.nop };
                let base = if p { md.ins(m).panic } else { md.ins(m).nop };
                let f = &md.ins(m).fields;
                let w = base | (i.imm[0] as u128) << f[6].lo | (i.imm[1] as u128) << f[7].lo;
                vid(&r.variant) == id && cond_name(&r.cond) == "Always" && r.regs == [0; 4] && r.imm == i.imm && enc(m, &r) == w && same(&mask(m, &r, p), &r)
            }
            FatUnpack(w) => ptr_is(md, "fatptr", &FatPointer::from_u256(w), &w),
            FatPack(p) => p.to_u256() == pack(md, "fatptr", &[("offset", p.offset as u64), ("page", p.memory_page as u64), ("start", p.start as u64), ("length", p.length as u64)]),
            FatCheck(p, fresh) => {
                let c = md.ptr_class(&p, fresh);
                let v = p.validate(fresh);
                let (o, e) = (FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED.bits(), FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE.bits());
                o != 0 && e != 0 && o & e == 0
                    && v.bits() == (if c.bits & 1 != 0 { o } else { 0 }) | (if c.bits & 2 != 0 { e } else { 0 })
                    && p.validate_in_bounds() == c.inb && p.validate_as_slice() == c.slice && p.is_trivial() == c.triv
            }
            Far(w) => {
                let a = FarCallABI::from_u256(w);
                let b = |n| get256(&w, md.f("farcall", n)).0[0];
                ptr_is(md, "farcall", &a.memory_quasi_fat_pointer, &w) && a.ergs_passed as u64 == b("ergs") && a.shard_id as u64 == b("shard")
                    && far_fwd(&a.forwarding_mode) == md.fwd[b("fwd") as usize] && a.constructor_call == (b("ctor") != 0) && a.to_system == (b("sys") != 0)
            }
            Near(w) => NearCallABI::from_u256(w).ergs_passed == low32(get256(&w, md.f("nearcall", "ergs"))),
            Ret(w) => {
                let a = RetABI::from_u256(w);
                ptr_is(md, "ret", &a.memory_quasi_fat_pointer, &w) && ret_fwd(&a.page_forwarding_mode) == md.fwd[get256(&w, md.f("ret", "fwd")).0[0] as usize]
            }
            Pre(w) => {
                let a = PrecompileCallABI::from_u256(w);
                let b = |n| get256(&w, md.f("precompile", n)).0[0];
                a.input_memory_offset as u64 == b("in_off") && a.input_memory_length as u64 == b("in_len") && a.output_memory_offset as u64 == b("out_off")
                    && a.output_memory_length as u64 == b("out_len") && a.per_precompile_interpreted == b("data")
            }
            Inner(w) => {
                let a = PrecompileCallInnerABI::from_u256(w);
                let b = |n| get256(&w, md.f("inner", n)).0[0];
                a.input_memory_offset as u64 == b("in_off") && a.input_memory_length as u64 == b("in_len") && a.output_memory_offset as u64 == b("out_off")
                    && a.output_memory_length as u64 == b("out_len") && a.precompile_interpreted_data == b("data")
                    && a.memory_page_to_read as u64 == b("page_r") && a.memory_page_to_write as u64 == b("page_w")
            }
            InnerPack(p) => p.to_u256() == pack(md, "inner", &[("in_off", p.input_memory_offset as u64), ("in_len", p.input_memory_length as u64),
                ("out_off", p.output_memory_offset as u64), ("out_len", p.output_memory_length as u64), ("page_r", p.memory_page_to_read as u64),
                ("page_w", p.memory_page_to_write as u64), ("data", p.precompile_interpreted_data)]),
            MetaPack(p) => p.to_u256() == pack(md, "meta", &[("pubdata", p.ergs_per_pubdata_byte as u64), ("heap", p.heap_size as u64), ("aux", p.aux_heap_size as u64),
                ("this_shard", p.this_shard_id as u64), ("caller_shard", p.caller_shard_id as u64), ("code_shard", p.code_shard_id as u64)]),
            HashParse(w) => {
                let f = md.f("hash", "marker");
                let stored = w & !(((U256::one() << f.w) - U256::one()) << f.lo);
                match H::try_create_from_raw(be32(&w)) {
                    Some(h) => get256(&w, md.f("hash", "version")) == U256::from(md.version_byte) && hash_ok(md, &h, &w, &stored),
                    None => get256(&w, md.f("hash", "version")) != U256::from(md.version_byte),
                }
            }
            HashDigest(d, n) => {
                let f = |x| md.f("hash", x);
                let w = U256::from(md.version_byte) << f("version").lo | U256::from(md.at_rest) << f("marker").lo | U256::from(n) << f("len").lo
                    | get256(&d, f("tail"));
                hash_ok(md, &H::from_digest_and_preimage_num_words(be32(&d), n), &w, &w)
            }
            Split(m, pc) => split_pc(m, pc) == (pc / md.ins(m).per, pc % md.ins(m).per),
            Extract(m, w, sub) => {
                let im = md.ins(m);
                let lo = (im.per - 1 - sub) as u32 * im.bits;
                let v = get256(&w, F { lo, w: im.bits });
                extract(m, w, sub) == (v.0[1] as u128) << 64 | v.0[0] as u128
            }
            Wrap(m, x, y) => {
                let k = m.imm_mask();
                wrap(m, x, y) == (x.wrapping_add(y) & k, x.wrapping_sub(y) & k)
            }
            Clip(m, v) => clip(m, v) == v & m.imm_mask(),
            Widen(m, x) => widen(m, x) == x,
        }
    }
}
fn same(a: &Ins, b: &Ins) -> bool {
    vid(&a.variant) == vid(&b.variant) && cond_name(&a.cond) == cond_name(&b.cond) && a.regs == b.regs && a.imm == b.imm
}
fn cond_idx(md: &Model, c: &Condition) -> u64 {
    md.conds.iter().position(|x| cond_name(x) == cond_name(c)).unwrap() as u64
}
pub fn pack_ins(md: &Model, m: M, i: &Ins) -> u128 {
    let f = &md.ins(m).fields;
    let v = [md.code_of[&vid(&i.variant)] as u64, cond_idx(md, &i.cond), i.regs[0] as u64, i.regs[1] as u64, i.regs[2] as u64, i.regs[3] as u64, i.imm[0], i.imm[1]];
    (0..8).fold(0, |a, k| a | (v[k] as u128) << f[k].lo)
}
fn pack(md: &Model, layout: &str, vals: &[(&str, u64)]) -> U256 {
    assert_eq!(vals.len(), md.abi[layout].len());
    vals.iter().fold(U256::zero(), |a, (n, v)| a | U256::from(*v) << md.f(layout, n).lo)
}
fn ptr_is(md: &Model, layout: &str, p: &FatPointer, w: &U256) -> bool {
    let b = |n| low32(get256(w, md.f(layout, n)));
    p.offset == b("offset") && p.memory_page == b("page") && p.start == b("start") && p.length == b("length")
}

/// Any call, for noise.
pub fn random_case(g: &mut Gen, md: &Model) -> Case {
    let m = if g.rng.below(2) == 0 { M::Prod } else { M::Test };
    let b = if m == M::Prod { 16 } else { 32 };
    match g.rng.below(25) {
        0 => Round(m, g.ins(m, md)),
        1 => Reencode(m, g.word(m, md)),
        2 => Decode(m, g.word(m, md)),
        3 => Head(m, g.word(m, md)),
        4 => Encode(m, g.ins(m, md)),
        5 => Canon(m, g.word(m, md)),
        6 => Total(m, g.word(m, md)),
        7 => Mask(m, g.ins(m, md), g.rng.below(2) == 0),
        8 => FatUnpack(g.u256()),
        9 => FatPack(g.pointer()),
        10 => FatCheck(g.pointer(), g.rng.below(2) == 0),
        11 => Far(g.u256()),
        12 => Near(g.u256()),
        13 => Ret(g.u256()),
        14 => Pre(g.u256()),
        15 => Inner(g.u256()),
        16 => InnerPack(PrecompileCallInnerABI {
            input_memory_offset: g.field(32) as u32, input_memory_length: g.field(32) as u32, output_memory_offset: g.field(32) as u32,
            output_memory_length: g.field(32) as u32, memory_page_to_read: g.field(32) as u32, memory_page_to_write: g.field(32) as u32,
            precompile_interpreted_data: g.field(64),
        }),
        17 => MetaPack(VmMetaParameters {
            ergs_per_pubdata_byte: g.field(32) as u32, heap_size: g.field(32) as u32, aux_heap_size: g.field(32) as u32,
            this_shard_id: g.field(8) as u8, caller_shard_id: g.field(8) as u8, code_shard_id: g.field(8) as u8,
        }),
        18 => { let mut w = g.u256(); if g.rng.below(2) == 0 { w.0[3] = w.0[3] & (!0 >> 8) | (md.version_byte as u64) << 56 } HashParse(w) }
        19 => HashDigest(g.u256(), g.field(16) as u16),
        20 => Split(m, g.field(b)),
        21 => Extract(m, g.u256(), g.rng.below(md.ins(m).per)),
        22 => Wrap(m, g.field(b), g.field(b)),
        23 => Clip(m, g.field(64)),
        _ => Widen(m, g.field(b)),
    }
}

/// What one worker has seen.
pub struct Sink<'a> {
    pub md: &'a Model,
    pub counts: BTreeMap<&'static str, u64>,
    pub bad: Vec<Value>,
    pub bad_count: u64,
    sample: BTreeMap<&'static str, Vec<Case>>, // reservoirs by call
    sample_max: usize,
    rng: Rng,
    deadline: Instant,
    ticks: u32,
    pub late: bool,
}
impl<'a> Sink<'a> {
    /// After `budget` seconds the remaining cases are left out (slow code is not wrong code).
    pub fn new(md: &'a Model, seed: u64, sample_max: usize, budget: u64) -> Self {
        Sink { md, counts: BTreeMap::new(), bad: vec![], bad_count: 0, sample: BTreeMap::new(), sample_max, rng: Rng::new(seed),
               deadline: Instant::now() + Duration::from_secs(budget), ticks: 0, late: false }
    }
    pub fn samples(&self) -> Vec<Value> {
        self.sample.values().flatten().map(|c| c.event()).collect()
    }
    pub fn full(&self) -> bool {
        self.late || self.bad.len() >= 5
    }
    pub fn put(&mut self, c: Case) {
        if self.full() {
            return;
        }
        self.ticks = self.ticks.wrapping_add(1);
        if self.ticks % 64 == 0 && Instant::now() > self.deadline {
            self.late = true;
        }
        if self.ticks % 8 == 0 {
            crate::noise::some();
        }
        let n = self.counts.entry(c.kind()).or_default();
        *n += 1;
        if !c.ok(self.md) {
            self.bad_count += 1;
            // an answer that does not repeat depends on something other than the call
            let repeats = !c.ok(self.md);
            let mut e = c.event();
            e["repeats"] = json!(repeats);
            self.bad.push(e);
            return;
        }
        let kept = self.sample.entry(c.kind()).or_default();
        if kept.len() < self.sample_max {
            kept.push(c);
        } else {
            let j = self.rng.below(*n) as usize;
            if j < self.sample_max {
                kept[j] = c;
            }
        }
    }
}


/// All cases of one worker (k of n).
pub fn drive(prop: &str, s: &mut Sink, dict: &[u64], seed: u64, k: u64, n: u64, scale: u64, deep: bool) {
    let md = s.md;
    let mut g = Gen::new(seed ^ (k + 1).wrapping_mul(0x51_7cc1_b727_220a), dict);
    let mine = |i: u64| i % n == k;
    let regs: Vec<u8> = (0..16).collect();
    let imm_pool = |m: M| pool(if m == M::Prod { 16 } else { 32 }, dict, true);
    match prop {
        "C01" | "C02" | "C03" => {
            let modes: &[M] = if prop == "C03" { &[M::Test, M::Prod] } else { &[M::Prod] };
            for &m in modes {
                let round = prop != "C02";
                let layout = prop != "C01";
                let ins = |s: &mut Sink, i: Ins| {
                    if round { s.put(Round(m, i)) }
                    if layout { s.put(Encode(m, i)) }
                };
                let word = |s: &mut Sink, w: u128| {
                    if round { s.put(Reencode(m, w)) }
                    if layout {
                        s.put(Decode(m, w));
                        s.put(Head(m, w));
                        s.put(Canon(m, w));
                    }
                };
                // every variant and condition, registers one pair at a time
                for (c, v) in md.table[..md.assigned].iter().enumerate() {
                    if !mine(c as u64) { continue }
                    for cond in &md.conds {
                        ins(s, Ins { variant: *v, cond: *cond, regs: [0; 4], imm: [0; 2] });
                        for b in 0..=255u8 {
                            ins(s, Ins { variant: *v, cond: *cond, regs: [b & 15, b >> 4, 0, 0], imm: [0, m.imm_mask()] });
                            ins(s, Ins { variant: *v, cond: *cond, regs: [0, 0, b & 15, b >> 4], imm: [m.imm_mask(), 0] });
                        }
                    }
                }
                // every variant and condition with every boundary immediate
                let edge = pool(if m == M::Prod { 16 } else { 32 }, dict, false);
                for (c, v) in md.table[..md.assigned].iter().enumerate() {
                    if !mine(c as u64) { continue }
                    for (q, cond) in md.conds.iter().enumerate() {
                        for (j, e) in edge.iter().enumerate() {
                            let o = edge[(j + c + q) % edge.len()];
                            let r = [(c + j) % 16, (c / 16 + j) % 16, (q + j) % 16, j % 16].map(|x| x as u8);
                            ins(s, Ins { variant: *v, cond: *cond, regs: r, imm: [*e, o] });
                            ins(s, Ins { variant: *v, cond: *cond, regs: [0; 4], imm: [*e, 0] });
                            ins(s, Ins { variant: *v, cond: *cond, regs: [0; 4], imm: [0, *e] });
                        }
                    }
                }
                // every register quadruple
                for q in 0..65536u64 {
                    if !mine(q) { continue }
                    let r = [0, 4, 8, 12].map(|h| regs[(q >> h & 15) as usize]);
                    let v = md.table[(q % md.assigned as u64) as usize];
                    ins(s, Ins { variant: v, cond: md.conds[(q % 8) as usize], regs: r, imm: [q, 65535 - q] });
                }
                // immediates: all values of each, boundary x boundary
                for x in 0..65536u64 {
                    if !mine(x) { continue }
                    let v = md.table[1 + (x % (md.assigned as u64 - 1)) as usize];
                    let hi = if m == M::Test { x << 16 } else { x };
                    ins(s, Ins { variant: v, cond: md.conds[(x % 8) as usize], regs: [1, 2, 3, 4], imm: [x, 0] });
                    ins(s, Ins { variant: v, cond: md.conds[(x % 8) as usize], regs: [5, 6, 7, 8], imm: [m.imm_mask(), hi] });
                    ins(s, Ins { variant: v, cond: Condition::Always, regs: [0; 4], imm: [x, x] });
                }
                let p = imm_pool(m);
                for (i, a) in p.iter().enumerate() {
                    if !mine(i as u64) { continue }
                    for b in &p {
                        let v = md.table[(a.wrapping_mul(31).wrapping_add(*b) % md.assigned as u64) as usize];
                        ins(s, Ins { variant: v, cond: md.conds[(a ^ b) as usize % 8], regs: [0; 4], imm: [*a, *b] });
                        ins(s, Ins { variant: v, cond: Condition::Always, regs: [15; 4], imm: [*a, *b] });
                    }
                }
                // words: all low halves, all register halves, walking bits
                for x in 0..65536u128 {
                    if !mine(x as u64) { continue }
                    word(s, x);
                    word(s, x | m.word_mask() & !0xffff);
                    for sh in (16..m.word_limbs() * 16).step_by(16) {
                        word(s, x << sh | 1);
                    }
                }
                let bits = m.word_limbs() * 16;
                for i in 0..bits {
                    for j in 0..=i {
                        if !mine((i * bits + j) as u64) { continue }
                        for base in [0u128, m.word_mask(), 1, md.ins(m).panic] {
                            word(s, base ^ (1 << i | 1 << j));
                        }
                    }
                }
                if deep {
                    // every low half with every register byte pair, in 2^32 steps
                    for x in 0..1u128 << 32 {
                        if !mine(x as u64) || s.full() { continue }
                        let w = x | (x.wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835) & m.word_mask() & !0xffff_ffff);
                        word(s, w);
                    }
                }
                for _ in 0..scale / modes.len() as u64 / n {
                    if s.full() { break }
                    let i = g.ins(m, md);
                    ins(s, i);
                    let w = g.word(m, md);
                    word(s, w);
                }
            }
            if prop == "C03" {
                // the same instruction in both modes
                for _ in 0..scale / 8 / n {
                    if s.full() { break }
                    let i = g.ins(M::Prod, md);
                    s.put(Round(M::Test, i));
                    s.put(Encode(M::Test, i));
                    s.put(Encode(M::Prod, i));
                }
            }
        }
        "C04" => {
            for m in M::ALL {
                for x in 0..65536u128 {
                    if !mine(x as u64) { continue }
                    for hi in [0u128, u128::MAX, 0xffff_ffff, 0x0123_4567_89ab_cdef_0123_4567_89ab_cdef, 1 << 16, 1 << 127 | 1 << 63] {
                        s.put(Total(m, (x | hi << 16) & m.word_mask()));
                    }
                }
                if deep {
                    for x in 0..1u128 << 32 {
                        if !mine(x as u64) || s.full() { continue }
                        s.put(Total(m, x));
                    }
                }
                for _ in 0..scale / n {
                    if s.full() { break }
                    let w = g.word(m, md);
                    s.put(Total(m, w));
                    let w = ((g.rng.next() as u128) << 64 | g.rng.next() as u128) & m.word_mask();
                    s.put(Total(m, w));
                }
            }
        }
        "C11" => {
            for m in M::ALL {
                for (c, v) in md.table[..md.assigned].iter().enumerate() {
                    if !mine(c as u64) { continue }
                    for (q, cond) in md.conds.iter().enumerate() {
                        for p in [false, true] {
                            for r in 0..16u8 {
                                s.put(Mask(m, Ins { variant: *v, cond: *cond, regs: [r, 15 - r, r ^ 5, 3], imm: [c as u64, q as u64] }, p));
                            }
                            s.put(Mask(m, Ins { variant: *v, cond: *cond, regs: [0; 4], imm: [0; 2] }, p));
                        }
                    }
                }
                for x in 0..65536u64 {
                    if !mine(x) { continue }
                    let v = md.table[(x % md.assigned as u64) as usize];
                    for p in [false, true] {
                        s.put(Mask(m, Ins { variant: v, cond: md.conds[(x % 8) as usize], regs: [1, 2, 3, 4], imm: [x, 65535 - x] }, p));
                        s.put(Mask(m, Ins { variant: v, cond: Condition::Always, regs: [0; 4], imm: [65535 - x, x] }, p));
                    }
                }
                let p = imm_pool(m);
                for (i, a) in p.iter().enumerate() {
                    if !mine(i as u64) { continue }
                    for b in &p {
                        for pn in [false, true] {
                            let v = md.table[(a.wrapping_mul(31).wrapping_add(*b) % md.assigned as u64) as usize];
                            s.put(Mask(m, Ins { variant: v, cond: md.conds[(a ^ b) as usize % 8], regs: [9; 4], imm: [*a, *b] }, pn));
                        }
                    }
                }
                for _ in 0..scale / n {
                    if s.full() { break }
                    let i = g.ins(m, md);
                    s.put(Mask(m, i, false));
                    s.put(Mask(m, i, true));
                }
            }
        }
        "C14" => {
            for_words(s, &mut g, dict, scale, k, n, &|s, w| s.put(FatUnpack(w)));
            for p in pointers(&mut g, dict, scale, k, n, deep) {
                s.put(FatPack(p));
            }
            for _ in 0..scale / n {
                if s.full() { break }
                let p = g.pointer();
                s.put(FatPack(p));
                let hi = [g.field(64), g.field(64)];
                let mut w = pack(md, "fatptr", &[("offset", p.offset as u64), ("page", p.memory_page as u64), ("start", p.start as u64), ("length", p.length as u64)]);
                w.0[2] = hi[0];
                w.0[3] = hi[1];
                s.put(FatUnpack(w));
            }
        }
        "C15" => {
            for p in pointers(&mut g, dict, scale, k, n, deep) {
                s.put(FatCheck(p, false));
                s.put(FatCheck(p, true));
            }
            for _ in 0..scale * 2 / n {
                if s.full() { break }
                let p = g.pointer();
                s.put(FatCheck(p, false));
                s.put(FatCheck(p, true));
            }
        }
        "C16" => {
            for_words(s, &mut g, dict, scale, k, n, &|s, w| {
                s.put(Far(w));
                s.put(Near(w));
                s.put(Ret(w));
            });
            // every pair of the flag bytes
            for x in 0..65536u64 {
                if !mine(x) { continue }
                for sh in [32, 48] {
                    for base in [0, u64::MAX] {
                        let mut w = U256([base; 4]);
                        w.0[3] = (base & !(0xffff << sh)) | x << sh;
                        s.put(Far(w));
                        s.put(Ret(w));
                        s.put(Near(w));
                    }
                }
            }
        }
        "C17" => {
            for_words(s, &mut g, dict, scale, k, n, &|s, w| {
                s.put(Pre(w));
                s.put(Inner(w));
            });
            for _ in 0..scale / n {
                if s.full() { break }
                s.put(InnerPack(PrecompileCallInnerABI {
                    input_memory_offset: g.field(32) as u32, input_memory_length: g.field(32) as u32, output_memory_offset: g.field(32) as u32,
                    output_memory_length: g.field(32) as u32, memory_page_to_read: g.field(32) as u32, memory_page_to_write: g.field(32) as u32,
                    precompile_interpreted_data: g.field(64),
                }));
                s.put(MetaPack(VmMetaParameters {
                    ergs_per_pubdata_byte: g.field(32) as u32, heap_size: g.field(32) as u32, aux_heap_size: g.field(32) as u32,
                    this_shard_id: g.field(8) as u8, caller_shard_id: g.field(8) as u8, code_shard_id: g.field(8) as u8,
                }));
            }
            for x in 0..65536u64 {
                if !mine(x) { continue }
                let (a, b) = (x as u8, (x >> 8) as u8);
                for (t, c, d) in [(a, b, 0), (a, b, 255), (0, a, b), (255, a, b), (a, 0, b), (a, 255, b)] {
                    s.put(MetaPack(VmMetaParameters { ergs_per_pubdata_byte: x as u32, heap_size: 0, aux_heap_size: !0, this_shard_id: t, caller_shard_id: c, code_shard_id: d }));
                }
            }
            let p = pool(32, dict, true);
            for (i, a) in p.iter().enumerate() {
                if !mine(i as u64) { continue }
                for b in &p {
                    for c in [0u32, !0] {
                        for (x, y, z) in [(*a as u32, *b as u32, c), (*a as u32, c, *b as u32), (c, *a as u32, *b as u32)] {
                            s.put(MetaPack(VmMetaParameters { ergs_per_pubdata_byte: x, heap_size: y, aux_heap_size: z, this_shard_id: c as u8, caller_shard_id: 0, code_shard_id: 0 }));
                        }
                    }
                }
            }
        }
        "C18" => {
            for_words(s, &mut g, dict, scale / 2, k, n, &|s, w| {
                s.put(HashParse(w));
                let mut a = w;
                a.0[3] = a.0[3] & (!0 >> 8) | (s.md.version_byte as u64) << 56;
                s.put(HashParse(a));
            });
            // every version x marker, every length
            for x in 0..65536u64 {
                if !mine(x) { continue }
                for tail in [0, 1, !0u64, 0x0123_4567_89ab_cdef] {
                    s.put(HashParse(U256([tail, tail, tail, x << 48 | tail & 0xffff_ffff_ffff])));
                    for mk in [0u64, 1, 2, 255] {
                        s.put(HashParse(U256([tail, tail, tail, 1 << 56 | mk << 48 | x << 32 | tail & 0xffff_ffff])));
                    }
                    s.put(HashDigest(U256([tail; 4]), x as u16));
                }
            }
            for _ in 0..scale / n {
                if s.full() { break }
                let (w, l) = (g.u256(), g.field(16));
                s.put(HashDigest(w, l as u16));
            }
        }
        "C20" => {
            let dicts = pool(32, dict, true);
            let d64 = pool(64, dict, true);
            for m in M::ALL {
                for x in 0..65536u64 {
                    if !mine(x) { continue }
                    s.put(Split(m, x));
                    s.put(Widen(m, x));
                    s.put(Clip(m, x));
                    s.put(Clip(m, x << 16 | 7));
                    s.put(Clip(m, x << 48));
                    s.put(Clip(m, !(x << 32)));
                    if m == M::Test {
                        for y in [x << 16, x << 16 | x, 0xffff_0000 | x, !x & 0xffff_ffff] {
                            s.put(Split(m, y));
                            s.put(Widen(m, y));
                        }
                    }
                    for y in [0u64, 1, 2, 3, 4, 5, 7, 8, 255, 256, 257, 32767, 32768, 32769, 65532, 65533, 65534, 65535, x, 65535 - x, x ^ 1] {
                        s.put(Wrap(m, x, y));
                        s.put(Wrap(m, y, x));
                        if m == M::Test {
                            s.put(Wrap(m, 0xffff_ffff - x, y));
                            s.put(Wrap(m, x << 16 | 0xffff, y << 16 | 1));
                        }
                    }
                }
                for (i, a) in dicts.iter().enumerate() {
                    if !mine(i as u64) { continue }
                    let a = a & m.imm_mask();
                    s.put(Split(m, a));
                    s.put(Widen(m, a));
                    for b in &dicts {
                        s.put(Wrap(m, a, b & m.imm_mask()));
                    }
                }
                for (i, a) in d64.iter().enumerate() {
                    if mine(i as u64) {
                        s.put(Clip(m, *a));
                    }
                }
                if deep {
                    for x in 0..1u64 << 32 {
                        if !mine(x) || s.full() { continue }
                        match m {
                            M::Prod => s.put(Wrap(m, x & 0xffff, x >> 16)),
                            M::Test => { s.put(Split(m, x)); s.put(Widen(m, x)); s.put(Clip(m, x)) }
                        }
                    }
                }
                for sub in 0..md.ins(m).per {
                    for i in 0..256usize {
                        if !mine(i as u64) { continue }
                        for j in 0..=i {
                            let w = U256::one() << i | U256::one() << j;
                            s.put(Extract(m, w, sub));
                            s.put(Extract(m, !w, sub));
                        }
                    }
                }
                for _ in 0..scale / n {
                    if s.full() { break }
                    let (w, sub) = (g.u256(), g.rng.below(md.ins(m).per));
                    s.put(Extract(m, w, sub));
                    let (x, y) = (g.field(32) & m.imm_mask(), g.field(32) & m.imm_mask());
                    s.put(Wrap(m, x, y));
                    s.put(Split(m, x));
                    s.put(Clip(m, g.field(64)));
                }
            }
        }
        other => panic!("harness: no mass replay for {other}"),
    }
}
/// 256-bit words: boundary lanes, walking bits, random.
fn for_words(s: &mut Sink, g: &mut Gen, dict: &[u64], scale: u64, k: u64, n: u64, put: &dyn Fn(&mut Sink, U256)) {
    let p = pool(32, dict, true);
    let mut i = 0u64;
    for lane in 0..8usize {
        for a in &p {
            i += 1;
            if i % n != k { continue }
            for base in [0u64, u64::MAX, 0x0123_4567_89ab_cdef] {
                let mut w = U256([base; 4]);
                let sh = 32 * (lane % 2);
                w.0[lane / 2] = w.0[lane / 2] & !(0xffff_ffff << sh) | a << sh;
                put(s, w);
            }
        }
    }
    for a in 0..256usize {
        if a as u64 % n != k { continue }
        for b in 0..=a {
            let w = U256::one() << a | U256::one() << b;
            put(s, w);
            put(s, !w);
        }
    }
    // all 16-bit limbs
    for x in 0..65536u64 {
        if x % n != k { continue }
        for l in 0..16usize {
            let mut w = U256::zero();
            w.0[l / 4] = x << (16 * (l % 4));
            put(s, w);
        }
    }
    for _ in 0..scale / n {
        if s.full() { break }
        let w = g.u256();
        put(s, w);
    }
}
/// Pointers over boundary products.
fn pointers<'b>(g: &mut Gen, dict: &[u64], _scale: u64, k: u64, n: u64, deep: bool) -> Vec<FatPointer> {
    let base: Vec<u32> = pool(32, dict, deep).iter().map(|x| *x as u32).collect();
    let base: Vec<u32> = if deep { base } else { base.into_iter().filter(|x| x.count_ones() != 31 || *x > 0xffff_ff00 || *x < 16).collect() };
    let mut out = vec![];
    for (i, s) in base.iter().enumerate() {
        if i as u64 % n != k { continue }
        for l in &base {
            let near = |x: u32| [x.wrapping_sub(1), x, x.wrapping_add(1)];
            let mut lens = vec![*l];
            lens.extend(near(0u32.wrapping_sub(*s)));
            for l in lens {
                let mut offs = vec![0, 1, u32::MAX, *s, l ^ 1];
                offs.extend(near(l));
                offs.push(base[g.rng.below(base.len() as u64) as usize]);
                for o in offs {
                    out.push(FatPointer { offset: o, memory_page: g.field(32) as u32, start: *s, length: l });
                }
            }
        }
    }
    out
}

pub fn run(prop: &str, md: &Model, dict: &[u64], seed: u64, scale: u64, deep: bool, threads: u64, sample: usize, budget: u64) -> (Value, Vec<Value>, Vec<Value>) {
    let per = (sample as u64 / threads).max(1) as usize;
    let outs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|k| sc.spawn(move || {
            let mut s = Sink::new(md, seed * 31 + k, per, budget);
            crate::noise::start(seed * 37 + k, dict, md);
            drive(prop, &mut s, dict, seed, k, threads, scale, deep);
            {
                let smp = s.samples();
                (s.counts, s.bad, s.bad_count, smp, s.late)
            }
        })).collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let (mut bad, mut smp, mut nbad, mut cut) = (vec![], vec![], 0, false);
    for (c, b, nb, s, late) in outs {
        cut |= late;
        for (k, v) in c {
            *counts.entry(k).or_default() += v;
        }
        bad.extend(b);
        smp.extend(s);
        nbad += nb;
    }
    let total: u64 = counts.values().sum();
    (json!({"cases": total, "by_call": counts, "mismatches": nbad, "threads": threads, "cut_short": cut}), bad, smp)
}
