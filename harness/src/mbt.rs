//! Stateful binding: small machines whose every decision is taken by the real definitions.
use crate::calls::guard;
use crate::gen::Gen;
use crate::model::Model;
use crate::names::*;
use crate::replay::pack_ins;
use crate::calls::{Ins, M};
use serde_json::{json, Value};
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

// ---- fat pointer sessions ----
#[derive(Clone, Copy, Default)]
pub struct Reg {
    word: U256,
    ptr: bool,
}
#[derive(Clone, Copy, Default)]
pub struct PtrVm {
    regs: [Reg; 2],
}
fn u32s(x: u32) -> Value {
    limbs(x as u128, 2)
}
fn set_ptr(word: U256, p: &FatPointer) -> U256 {
    let low = p.to_u256();
    U256([low.0[0], low.0[1], word.0[2], word.0[3]])
}
impl PtrVm {
    /// One instruction; overflowing address arithmetic panics (and is reported as such).
    pub fn step(&mut self, a: &Value) -> Value {
        let i = a["reg"].as_u64().unwrap() as usize - 1;
        let to = a.get("to").map_or(i, |t| t.as_u64().unwrap() as usize - 1);
        let w = a.get("w").map_or(U256::zero(), from_limbs256);
        let mut vm = *self;
        let r = guard(|| {
            let (mut from, mut n) = (0u32, 0u32);
            let reg = vm.regs[i];
            let big = w >= MAX_OFFSET_FOR_ADD_SUB;
            let d = w.low_u32();
            let mut p = FatPointer::from_u256(reg.word);
            let (out, new) = match a["do"].as_str().unwrap() {
                "create" => {
                    let q = RetABI::from_u256(w).memory_quasi_fat_pointer;
                    if q.validate(true).is_empty() && q.validate_as_slice() {
                        ("ok", Reg { word: q.to_u256(), ptr: true })
                    } else {
                        ("invalid", Reg::default())
                    }
                }
                "forward" => {
                    if !reg.ptr {
                        ("not-a-pointer", Reg::default())
                    } else if p.validate(false).is_empty() && p.validate_as_slice() {
                        p.start = p.start.checked_add(p.offset).expect("address overflow");
                        p.length = p.length.checked_sub(p.offset).expect("length underflow");
                        p.offset = 0;
                        ("ok", Reg { word: p.to_u256(), ptr: true })
                    } else {
                        ("invalid", Reg::default())
                    }
                }
                "pack" => {
                    if !reg.ptr {
                        ("not-a-pointer", reg)
                    } else {
                        ("ok", Reg { word: U256([reg.word.0[0], reg.word.0[1], w.0[2], w.0[3]]), ptr: true })
                    }
                }
                "deref" => {
                    if !reg.ptr {
                        ("not-a-pointer", reg)
                    } else if U256::from(p.offset) > MAX_OFFSET_TO_DEREF || p.offset > MAX_OFFSET_TO_DEREF_LOW_U32 {
                        ("beyond-limit", reg)
                    } else {
                        if p.validate_in_bounds() {
                            from = p.start.checked_add(p.offset).expect("address overflow");
                            n = (p.length - p.offset).min(32);
                        }
                        ("ok", reg)
                    }
                }
                op => {
                    if !reg.ptr {
                        ("not-a-pointer", reg)
                    } else {
                        let new = if big { None } else {
                            match op {
                                "add" => p.offset.checked_add(d).map(|x| p.offset = x),
                                "sub" => p.offset.checked_sub(d).map(|x| p.offset = x),
                                "shrink" => p.length.checked_sub(d).map(|x| p.length = x),
                                _ => panic!("harness: pointer instruction"),
                            }
                        };
                        match new {
                            Some(()) => ("ok", Reg { word: set_ptr(reg.word, &p), ptr: true }),
                            None => ("overflow", reg),
                        }
                    }
                }
            };
            vm.regs[to] = new;
            json!({"out": out, "isPtr": new.ptr, "word": if new.ptr { limbs256(&new.word) } else { limbs256(&U256::zero()) },
                   "from": u32s(from), "n": u32s(n)})
        });
        *self = vm;
        r
    }
}
/// Random sessions, recorded.
pub fn ptr_sessions(g: &mut Gen, count: usize, len: usize) -> Vec<Value> {
    (0..count).map(|_| {
        let mut vm = PtrVm::default();
        let steps: Vec<Value> = (0..len).map(|_| {
            let live: Vec<usize> = (0..2).filter(|i| vm.regs[*i].ptr).collect();
            let i = if live.is_empty() { g.rng.below(2) as usize } else { live[g.rng.below(live.len() as u64) as usize] };
            let raw = vm.regs[i].word;
            let (o, s, l) = (raw.0[0] as u32, raw.0[1] as u32, (raw.0[1] >> 32) as u32);
            let jitter = g.rng.below(5) as u32;
            let near = match g.rng.below(8) {
                0 => o, 1 => l, 2 => l.wrapping_sub(o), 3 => 0u32.wrapping_sub(s), 4 => 0u32.wrapping_sub(o), 5 => s,
                6 => l / 2, _ => g.field(32) as u32,
            };
            let v = if g.rng.below(2) == 0 { near } else { near.wrapping_add(jitter).wrapping_sub(2) };
            let mut operand = U256::from(v);
            if g.rng.below(8) == 0 {
                operand = operand | g.u256() << 32;
            }
            let a = match if live.is_empty() { 0 } else { g.rng.below(11) } {
                0 => {
                    let mut p = g.pointer();
                    if g.rng.below(4) > 0 { p.offset = 0 }
                    if g.rng.below(4) > 0 { p.length = p.length.min(u32::MAX - p.start) }
                    let mut w = p.to_u256();
                    if g.rng.below(3) == 0 { w.0[2] = g.field(64); w.0[3] = g.field(64) }
                    json!({"do": "create", "reg": g.rng.below(2) + 1, "w": limbs256(&w)})
                }
                1 => json!({"do": "forward", "reg": i + 1, "to": g.rng.below(2) + 1}),
                2 => json!({"do": "pack", "reg": i + 1, "w": limbs256(&(g.u256() & !U256::from(u128::MAX)))}),
                3 | 4 => json!({"do": "deref", "reg": i + 1}),
                5 | 6 | 7 => json!({"do": "add", "reg": i + 1, "w": limbs256(&operand)}),
                8 | 9 => json!({"do": "sub", "reg": i + 1, "w": limbs256(&operand)}),
                _ => json!({"do": "shrink", "reg": i + 1, "w": limbs256(&operand)}),
            };
            let r = vm.step(&a);
            json!({"a": a, "r": r})
        }).collect();
        json!({"steps": steps})
    }).collect()
}
/// Behaviours of the specification, replayed: mismatching sessions as recorded from the real code.
pub fn ptr_replay(walks: &[Value]) -> (u64, Vec<Value>) {
    let mut bad = vec![];
    let mut steps = 0;
    for w in walks {
        let mut vm = PtrVm::default();
        let mut rec = vec![];
        let mut differs = false;
        for s in w["steps"].as_array().unwrap() {
            let r = vm.step(&s["a"]);
            differs |= r["k"] != "ok" || r["v"] != s["v"];
            rec.push(json!({"a": s["a"], "r": r}));
            steps += 1;
            if differs { break }
        }
        if differs {
            bad.push(json!({"steps": rec}));
        }
    }
    (steps, bad)
}

// ---- VM front end ----
#[derive(Clone)]
pub struct Frame {
    pc: u16,
    eh: u16,
    ergs: u32,
    addr: u64,
    stat: bool,
    near: bool,
    base: u32,
    heap: u32,
    aux: u32,
}
impl Frame {
    /// Grows a heap to the given number of bytes; false (and no ergs left) when it is not affordable.
    fn grow(&mut self, aux: bool, upto: u32) -> bool {
        let have = if aux { self.aux } else { self.heap };
        let cost = upto.saturating_sub(have).saturating_mul(MEMORY_GROWTH_ERGS_PER_BYTE);
        if cost > self.ergs {
            self.ergs = 0;
            return false;
        }
        self.ergs -= cost;
        if aux { self.aux = have.max(upto) } else { self.heap = have.max(upto) }
        true
    }
    /// Memory named by a call or return word (registers never hold real pointers here).
    fn grow_for(&mut self, mode: Option<bool>, p: &FatPointer) -> bool {
        let Some(aux) = mode else { return false };
        p.validate(true).is_empty() && self.grow(aux, p.start.checked_add(p.length).expect("slice end"))
    }
}
#[derive(Clone)]
pub struct Vm {
    stack: Vec<Frame>,
    pending: bool,
    did: (&'static str, &'static str),
    masked: &'static str,
    paid: u32,
    time: u32,
    pages: u32,
}
type P = DecodedOpcode<8, EncodingModeProduction>;
impl Vm {
    pub fn start(ergs: u32, addr: u64) -> Vm {
        Vm { stack: vec![Frame { pc: 0, eh: INITIAL_FRAME_FORMAL_EH_LOCATION, ergs, addr, stat: false, near: false,
                                 base: BOOTLOADER_BASE_PAGE, heap: BOOTLOADER_MAX_MEMORY, aux: BOOTLOADER_MAX_MEMORY }],
             pending: false, did: ("none", "none"), masked: "no", paid: 0, time: STARTING_TIMESTAMP, pages: STARTING_BASE_PAGE }
    }
    pub fn json(&self) -> Value {
        let stack: Vec<Value> = self.stack.iter().map(|f| json!({"pc": f.pc, "eh": f.eh, "ergs": f.ergs, "addr": limbs(f.addr as u128, 4),
                                                                 "static": f.stat, "near": f.near, "base": f.base,
                                                                 "heap": u32s(f.heap), "aux": u32s(f.aux)})).collect();
        json!({"stack": stack, "pending": self.pending, "did": [self.did.0, self.did.1], "masked": self.masked, "paid": self.paid,
               "time": self.time, "pages": self.pages})
    }
    fn cycle(&mut self, page: &[U256], fl: [bool; 3], regs: &[U256], max_depth: usize) {
        let depth = self.stack.len();
        let mut f = self.stack.pop().expect("harness: halted");
        let word = if self.pending {
            EncodingModeProduction::exception_revert_encoding()
        } else {
            let (sup, sub) = EncodingModeProduction::split_pc(f.pc);
            EncodingModeProduction::integer_representaiton_from_u256(page.get(sup as usize).copied().unwrap_or_default(), sub)
        };
        let (mut d, number): (P, _) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(word);
        let price = OPCODES_PRICES[number.into_usize()];
        let [lt, eq, gt] = fl;
        let runs = match d.condition {
            Condition::Always => true,
            Condition::Lt => lt,
            Condition::Eq => eq,
            Condition::Gt => gt,
            Condition::Ge => gt || eq,
            Condition::Le => lt || eq,
            Condition::Ne => !eq,
            Condition::GtOrLt => gt || lt,
        };
        let calls = matches!(d.variant.opcode, Opcode::NearCall(_) | Opcode::FarCall(_));
        let short = f.ergs < price;
        let fault = short
            || d.variant.is_explicit_panic()
            || (d.variant.requires_kernel_mode() && f.addr >= ADDRESS_UNRESTRICTED_SPACE as u64)
            || (f.stat && !d.variant.can_be_used_in_static_context())
            || (calls && depth >= max_depth);
        self.paid = if short { f.ergs } else { price };
        f.ergs -= self.paid;
        if !self.pending {
            f.pc = AllowedPcOrImm::wrapping_add(f.pc, 1u16);
        }
        self.pending = false;
        self.time += TIME_DELTA_PER_CYCLE;
        if fault {
            d.mask_into_panic();
            self.masked = "panic";
        } else if !runs {
            d.mask_into_nop();
            self.masked = "nop";
        } else {
            self.masked = "no";
        }
        let reg = |i: u8| if i == 0 { U256::zero() } else { regs[i as usize - 1] };
        let src0 = match d.variant.src0_operand_type {
            Operand::RegOnly | Operand::RegOrImm(RegOrImmFlags::UseRegOnly) | Operand::Full(ImmMemHandlerFlags::UseRegOnly) => reg(d.src0_reg_idx),
            Operand::RegOrImm(RegOrImmFlags::UseImm16Only) | Operand::Full(ImmMemHandlerFlags::UseImm16Only) => U256::from(d.imm_0),
            _ => U256::zero(),
        };
        self.did = op_names(&d.variant.opcode);
        match d.variant.opcode {
            Opcode::Jump(_) => {
                f.pc = <u16 as AllowedPcOrImm>::from_u64_clipped(src0.0[0]);
                self.stack.push(f);
            }
            Opcode::NearCall(_) => {
                let asked = NearCallABI::from_u256(src0).ergs_passed;
                let passed = if asked == 0 { f.ergs } else { asked.min(f.ergs) };
                let callee = Frame { pc: d.imm_0, eh: d.imm_1, ergs: passed, addr: f.addr, stat: f.stat, near: true,
                                     base: f.base, heap: f.heap, aux: f.aux };
                f.ergs -= passed;
                self.stack.push(f);
                self.stack.push(callee);
            }
            Opcode::FarCall(_) => {
                let abi = FarCallABI::from_u256(src0);
                let mode = match abi.forwarding_mode {
                    FarCallForwardPageType::UseHeap => Some(false),
                    FarCallForwardPageType::UseAuxHeap => Some(true),
                    FarCallForwardPageType::ForwardFatPointer => None,
                };
                self.pending = !f.grow_for(mode, &abi.memory_quasi_fat_pointer);
                let passed = abi.ergs_passed.min(f.ergs / 64 * 63);
                let callee = Frame { pc: 0, eh: d.imm_0, ergs: passed, addr: reg(d.src1_reg_idx).0[0],
                                     stat: f.stat || d.variant.flags[FAR_CALL_STATIC_FLAG_IDX], near: false,
                                     base: self.pages, heap: NEW_FRAME_MEMORY_STIPEND, aux: NEW_FRAME_MEMORY_STIPEND };
                self.pages += NEW_MEMORY_PAGES_PER_FAR_CALL;
                f.ergs -= passed;
                self.stack.push(f);
                self.stack.push(callee);
            }
            Opcode::Ret(mut how) => {
                if !f.near && !matches!(how, RetOpcode::Panic) {
                    let abi = RetABI::from_u256(src0);
                    let mode = match abi.page_forwarding_mode {
                        RetForwardPageType::UseHeap => Some(false),
                        RetForwardPageType::UseAuxHeap => Some(true),
                        RetForwardPageType::ForwardFatPointer => None,
                    };
                    if !f.grow_for(mode, &abi.memory_quasi_fat_pointer) {
                        how = RetOpcode::Panic;
                    }
                }
                self.did = op_names(&Opcode::Ret(how));
                if let Some(caller) = self.stack.last_mut() {
                    caller.pc = if f.near && d.variant.flags[RET_TO_LABEL_BIT_IDX] { d.imm_0 }
                                else if matches!(how, RetOpcode::Ok) { caller.pc } else { f.eh };
                    if !matches!(how, RetOpcode::Panic) {
                        caller.ergs += f.ergs;
                    }
                    if f.near {
                        caller.heap = f.heap;
                        caller.aux = f.aux;
                    }
                }
            }
            Opcode::UMA(sub) => {
                let aux = match sub {
                    UMAOpcode::HeapRead | UMAOpcode::HeapWrite => Some(false),
                    UMAOpcode::AuxHeapRead | UMAOpcode::AuxHeapWrite => Some(true),
                    UMAOpcode::FatPointerRead => { self.pending = true; None }
                    #[allow(unreachable_patterns)]
                    _ => None,
                };
                if let Some(aux) = aux {
                    self.pending = src0 > MAX_OFFSET_TO_DEREF || src0 > U256::from(MAX_OFFSET_TO_DEREF_LOW_U32)
                        || !f.grow(aux, src0.low_u32().checked_add(32).expect("address overflow"));
                }
                self.stack.push(f);
            }
            _ => self.stack.push(f),
        }
    }
}
/// Runs a session {ergs, addr, page, regs, depth, flags: [[lt,eq,gt]..]} and records every cycle.
pub fn run_session(s: &Value) -> Value {
    let page: Vec<U256> = s["page"].as_array().unwrap().iter().map(from_limbs256).collect();
    let regs: Vec<U256> = s["regs"].as_array().unwrap().iter().map(from_limbs256).collect();
    let depth = s["depth"].as_u64().unwrap() as usize;
    let mut vm = Vm::start(s["ergs"].as_u64().unwrap() as u32, from_limbs(&s["addr"]) as u64);
    let mut out = vec![];
    for f in s["flags"].as_array().unwrap() {
        if vm.stack.is_empty() { break }
        let fl = [0, 1, 2].map(|i| f[i].as_bool().unwrap());
        let r = guard(|| {
            vm.cycle(&page, fl, &regs, depth);
            vm.json()
        });
        let stop = r["k"] != "ok";
        out.push(r);
        if stop { break }
    }
    let mut rec = s.clone();
    rec["obs"] = Value::Array(out);
    rec
}
pub fn machine_replay(walks: &[Value]) -> (u64, Vec<Value>) {
    let mut bad = vec![];
    let mut steps = 0;
    for w in walks {
        let rec = run_session(w);
        let (obs, want) = (rec["obs"].as_array().unwrap(), w["want"].as_array().unwrap());
        steps += obs.len() as u64;
        let same = obs.len() == want.len() && obs.iter().zip(want).all(|(o, x)| o["k"] == "ok" && o["v"] == *x);
        if !same {
            let mut r = rec.clone();
            r.as_object_mut().unwrap().remove("want");
            bad.push(r);
        }
    }
    (steps, bad)
}
fn page_of(words: &[u64]) -> Vec<Value> {
    words.chunks(4).map(|c| {
        let mut b = [0u8; 32];
        for (i, w) in c.iter().enumerate() {
            b[8 * i..8 * i + 8].copy_from_slice(&w.to_be_bytes());
        }
        limbs256(&from_be32(&b))
    }).collect()
}
fn session_regs(g: &mut Gen) -> Vec<Value> {
    (1..16).map(|i| {
        let w = match i {
            1 => U256::from(g.rng.below(400)),                                                       // near call: a few ergs
            2 => U256([0, 0, 0, g.field(32)]),                                                       // far call, clean pointer
            3 => U256([0, 0, 0, 0xffff_ffff]),                                                       // far call: everything
            4 => { let p = g.pointer(); let mut w = p.to_u256(); w.0[3] = g.field(64); w }           // far call: any pointer
            5 => { let mut w = FatPointer { offset: 0, memory_page: 1, start: 5, length: 64 }.to_u256(); w.0[3] = g.field(32) | (g.rng.below(4) << 32); w }
            6 => U256::from(0x8000 + g.rng.below(32)),                                               // system address
            7 => U256::from(0xfffe + g.rng.below(4)),                                                // around the border
            8 => U256::from(0x10000 * (1 + g.rng.below(1000)) + g.rng.below(2)),
            9 => U256([g.rng.next(), 0, 0, 0]),
            10 => U256::from(960 + g.rng.below(200)),                                                // offsets around the free memory
            11 => U256::from((1u64 << 32) - 34 + g.rng.below(4)),                                    // and around the limit
            12 => {                                                                                  // ranges around the free memory
                let mut w = FatPointer { offset: 0, memory_page: 0, start: 900 + g.rng.below(150) as u32, length: g.rng.below(400) as u32 }.to_u256();
                w.0[3] = g.field(32) | (g.rng.below(4) << 32);
                w
            }
            _ => g.u256(),
        };
        limbs256(&w)
    }).collect()
}
fn flags(g: &mut Gen, n: usize) -> Vec<Value> {
    (0..n).map(|_| json!([g.rng.below(2) == 1, g.rng.below(2) == 1, g.rng.below(2) == 1])).collect()
}
/// Random programs, heavy in control flow.
pub fn programs(g: &mut Gen, md: &Model, count: usize, cycles: usize) -> Vec<Value> {
    let control: Vec<OpcodeVariant> = md.table[..md.assigned].iter().filter(|v| matches!(op_names(&v.opcode).0, "Jump" | "NearCall" | "FarCall" | "Ret")).cloned().collect();
    let rights: Vec<OpcodeVariant> = md.table[..md.assigned].iter().filter(|v| matches!(op_names(&v.opcode).0, "Log" | "Context" | "UMA")).cloned().collect();
    (0..count).map(|_| {
        let n = 4 * (1 + g.rng.below(8) as usize);
        let words: Vec<u64> = (0..n).map(|_| {
            if g.rng.below(40) == 0 {
                return g.word(M::Prod, md) as u64;
            }
            let pick = g.rng.below(10);
            let from = match pick { 0..=4 => &control, 5..=6 => &rights, _ => &md.table };
            let v = if pick > 6 { md.table[g.rng.below(md.assigned as u64) as usize] } else { from[g.rng.below(from.len() as u64) as usize] };
            let cond = if g.rng.below(3) > 0 { md.conds[0] } else { md.conds[g.rng.below(8) as usize] };
            let fam = op_names(&v.opcode).0;
            let first: &[u8] = match fam { "FarCall" => &[2, 3, 3, 4, 5, 12], "Ret" => &[0, 0, 12, 12, 5, 4], "UMA" => &[1, 10, 10, 10, 11, 13], _ => &[] };
            let i = Ins { variant: v, cond,
                          regs: [if first.len() > 0 { first[g.rng.below(6) as usize] } else if g.rng.below(2) == 0 { 1 } else { g.field(4) as u8 },
                                 6 + g.rng.below(4) as u8, g.field(4) as u8, g.field(4) as u8],
                          imm: [if g.rng.below(12) == 0 { g.field(16) } else if fam == "UMA" { 960 + g.rng.below(200) } else { g.rng.below(n as u64) }, g.rng.below(n as u64)] };
            pack_ins(md, M::Prod, &i) as u64
        }).collect();
        let ergs = match g.rng.below(4) { 0 => g.rng.below(300), 1 => g.rng.below(5000), 2 => g.rng.below(1 << 20), _ => g.rng.below(2_000_000_000) };
        let addr = match g.rng.below(3) { 0 => 0x8001u128, 1 => 0x10000 + g.rng.below(2) as u128, _ => g.rng.next() as u128 };
        run_session(&json!({"ergs": ergs, "addr": limbs(addr, 4), "page": page_of(&words), "regs": session_regs(g),
                            "depth": 2 + g.rng.below(6), "flags": flags(g, cycles)}))
    }).collect()
}
/// Every code as the only instruction of a frame: kernel or not, static or not, with ergs around its price.
/// Static frames are entered through a static far call that returns to nothing.
pub fn single_cycles(g: &mut Gen, md: &Model) -> Vec<Value> {
    let stat_call = md.table[..md.assigned].iter().find(|v| {
        let n = op_names(&v.opcode);
        n == ("FarCall", "Normal") && v.flags == [true, false]
    }).cloned();
    let far_code = stat_call.map(|v| md.code_of[&crate::model::vid(&v)] as u64);
    let mut out = vec![];
    for code in 0..2048u64 {
        let price = md.price[code as usize] as u64;
        for user in [false, true] {
            let addr: u128 = if user { [0x10000u128, 0x1_0000_0000, 0xffff_ffff_ffff_0000, 0x2_0001][g.rng.below(4) as usize] } else { [0x8001u128, 0xffff, 0, 0x8010][g.rng.below(4) as usize] };
            let fl = json!([[g.rng.below(2) == 1, g.rng.below(2) == 1, g.rng.below(2) == 1], [false, true, false]]);
            for k in 0..3u64 {
                let ergs = if price > 1 << 30 { [0, 5, 2_000_000_000][k as usize] } else { [price - 1, price, price + 1000][k as usize] };
                let cond = if g.rng.below(8) == 0 { g.rng.below(8) } else { 0 };
                let w = code | cond << 13 | (g.rng.below(6) << 16) | ((6 + g.rng.below(4)) << 20) | g.rng.below(16) << 32;
                out.push(run_session(&json!({"ergs": ergs, "addr": limbs(addr, 4), "page": page_of(&[w]), "regs": session_regs(g), "depth": 3,
                                             "flags": [fl[0].clone()]})));
            }
            if let Some(fc) = far_code {
                // word 0: static call to the address in register 14 with the ergs of register 3; the callee starts at 0 again and,
                // by the flags of the second cycle, skips nothing: the page holds the instruction under test at 0 behind a condition
                let call = fc | 1 << 13 | 3 << 16 | 14 << 20; // executed when gt
                let mut regs = session_regs(g);
                regs[13] = limbs256(&U256::from(addr));
                // caller: gt raised at pc 0 -> static call; callee: gt low at pc 0 -> nop, then the instruction at pc 1
                out.push(run_session(&json!({"ergs": 100_000_000, "addr": limbs(addr, 4), "page": page_of(&[call, code | 3 << 16 | 6 << 20]), "regs": regs, "depth": 4,
                                             "flags": [[false, false, true], [false, true, false], [false, true, true]]})));
            }
        }
    }
    out
}
