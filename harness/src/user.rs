//! Implementations of the crate's public traits by a user: families with any history, operands of any shape,
//! hashes of another kind, encoding modes with another size limit.
use crate::calls::*;
use crate::names::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

thread_local! {
    static INTRODUCED: RefCell<Vec<u8>> = RefCell::new(vec![]);
    static LIMIT: Cell<u64> = Cell::new(0);
}

/// The i-th sub-operation of a family; where it was introduced is chosen by the caller.
#[derive(Clone, Copy)]
struct Sub(usize);
impl OpcodeVariantProps for Sub {
    fn all_variants() -> Vec<Self> {
        INTRODUCED.with(|v| (0..v.borrow().len()).map(Sub).collect())
    }
    fn minimal_version(&self) -> ISAVersion {
        INTRODUCED.with(|v| ISAVersion(v.borrow()[self.0]))
    }
    fn max_variant_idx_for_version(_: ISAVersion) -> usize {
        INTRODUCED.with(|v| v.borrow().len().saturating_sub(1))
    }
    fn variant_index(&self) -> usize {
        self.0
    }
    fn from_variant_index_for_version(i: usize, _: &ISAVersion) -> Option<Self> {
        INTRODUCED.with(|v| (i < v.borrow().len()).then_some(Sub(i)))
    }
    fn ergs_price(&self) -> u32 {
        1
    }
}
pub fn ev_user_family(introduced: &[u8], version: u8) -> Value {
    INTRODUCED.with(|v| *v.borrow_mut() = introduced.to_vec());
    let v = ISAVersion(version);
    let n = |l: Vec<Sub>| l.iter().map(|s| s.0).collect::<Vec<_>>();
    event("userFamily", json!({"introduced": introduced, "version": version}), || {
        json!({"available": n(Sub::variants_for_version(v)), "added": n(Sub::variants_added_in_version(v)),
               "isAvailable": Sub::all_variants().iter().map(|s| s.is_available_for_version(v)).collect::<Vec<_>>(),
               "isAdded": Sub::all_variants().iter().map(|s| s.is_added_in_version(v)).collect::<Vec<_>>()})
    })
}

struct Shape(Vec<Operand>, Vec<Operand>);
impl OpcodeProps for Shape {
    fn name(&self) -> &'static str {
        "user"
    }
    fn variants_data(&self, _: ISAVersion) -> Vec<OpcodeVariantData> {
        vec![]
    }
    fn max_variant_idx(&self, _: ISAVersion) -> usize {
        0
    }
    // (odd versions have the operands swapped around: the queries are about the version asked for)
    fn input_operands(&self, v: ISAVersion) -> Vec<Operand> {
        if v.0 % 2 == 0 { self.0.clone() } else { self.1.clone() }
    }
    fn output_operands(&self, v: ISAVersion) -> Vec<Operand> {
        if v.0 % 2 == 0 { self.1.clone() } else { self.0.clone() }
    }
    fn requires_kernel_mode(&self) -> bool {
        false
    }
    fn can_be_used_in_static_context(&self) -> bool {
        false
    }
}
pub fn ev_user_shape(a: &[Operand], b: &[Operand], version: u8) -> Value {
    let v = ISAVersion(version);
    let (ins, outs) = if version % 2 == 0 { (a, b) } else { (b, a) };
    let kinds = |o: &[Operand]| o.iter().map(kind_name).collect::<Vec<_>>();
    event("userShape", json!({"ins": kinds(ins), "outs": kinds(outs)}), || {
        let s: Box<dyn OpcodeProps> = Box::new(Shape(a.to_vec(), b.to_vec()));
        json!({"srcMem": s.can_have_src0_from_mem(v), "dstMem": s.can_write_dst0_into_memory(v)})
    })
}
pub fn shapes(first_for_output: bool) -> Vec<Vec<Operand>> {
    let all: Vec<Operand> = all_modes().into_iter().map(|m| m.1).collect();
    let ok = |o: &Operand| !(first_for_output && matches!(o, Operand::RegOrImm(_)));
    let mut l = vec![vec![]];
    for x in all.iter().filter(|o| ok(o)) {
        l.push(vec![*x]);
        l.extend(all.iter().map(|y| vec![*x, *y]));
    }
    l
}

/// A hash of another kind: version byte 7; byte 1 tells the two forms apart; byte 2 = 255 cannot be written down.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Kind;
impl VersionedHashDef for Kind {
    const VERSION_BYTE: u8 = 7;
    type StorageLayout = [u8; 32];
    fn serialize(mut s: [u8; 32]) -> Option<[u8; 32]> {
        s[1] = 0x11;
        (s[2] != 255).then_some(s)
    }
    fn serialize_to_stored(mut s: [u8; 32]) -> Option<[u8; 32]> {
        s[1] = 0x22;
        (s[2] != 255).then_some(s)
    }
    fn try_deserialize(s: [u8; 32]) -> Option<[u8; 32]> {
        (s[0] == Self::VERSION_BYTE && s[31] != 9).then_some(s)
    }
}
pub fn ev_user_hash(bytes: [u8; 32]) -> Value {
    let opt = |o: Option<[u8; 32]>| match o {
        Some(b) => json!({"some": true, "v": b.to_vec()}),
        None => json!({"some": false}),
    };
    event("userHash", json!({"bytes": bytes.to_vec()}), || match VersionedHashGeneric::<Kind>::try_create_from_raw(bytes) {
        None => json!({"some": false}),
        Some(h) => json!({"some": true, "v": {"layout": h.layout_ref().to_vec(), "ser": opt(h.serialize()), "stored": opt(h.serialize_to_stored())}}),
    })
}

/// Program counters up to a limit chosen by the caller, and a mode which uses them.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct Pc(u64);
impl std::fmt::LowerHex for Pc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerHex::fmt(&self.0, f)
    }
}
impl AllowedPcOrImm for Pc {
    fn from_u64_clipped(v: u64) -> Self {
        Pc(v.min(Self::max().0))
    }
    fn as_u64(self) -> u64 {
        self.0
    }
    fn wrapping_add(self, o: Self) -> Self {
        Pc((self.0 + o.0) % (Self::max().0 + 1))
    }
    fn wrapping_sub(self, o: Self) -> Self {
        Pc((self.0 + Self::max().0 + 1 - o.0) % (Self::max().0 + 1))
    }
    fn max() -> Self {
        Pc(LIMIT.with(|l| l.get()))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Mode;
impl VmEncodingMode<8> for Mode {
    type PcOrImm = Pc;
    type IntegerRepresentation = u64;
    fn nop_encoding() -> u64 {
        3
    }
    fn exception_revert_encoding() -> u64 {
        4
    }
    fn parse_preliminary_variant_and_absolute_number(w: u64) -> (DecodedOpcode<8, Self>, VariantMonotonicNumber) {
        (DecodedOpcode { imm_0: Pc(w), ..Default::default() }, VariantMonotonicNumber(w as usize))
    }
    fn encode_as_integer(o: &DecodedOpcode<8, Self>) -> u64 {
        o.imm_0.0 ^ o.imm_1.0 << 20
    }
    fn encode_as_bytes(o: &DecodedOpcode<8, Self>) -> [u8; 8] {
        (o.imm_0.0 ^ o.imm_1.0 << 24).to_le_bytes()
    }
    fn split_pc(pc: Pc) -> (Pc, Pc) {
        (pc, pc)
    }
    fn integer_representaiton_from_u256(v: U256, _: Pc) -> u64 {
        v.0[0]
    }
    fn is_canonical_encoding(_: u64) -> bool {
        true
    }
}
/// Hashing in a mode of the given limit (the digest comes from the reference).
pub fn ev_user_bytecode(words: &[[u8; 32]], digest: &[u8; 32], limit: u64) -> Value {
    LIMIT.with(|l| l.set(limit));
    event("bytecodeUser", json!({"n": words.len(), "digest": limbs256(&from_be32(digest)), "limit": limit.min(65535)}), || {
        opt_hash(if limit == u32::MAX as u64 { bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(words) }
                 else { bytecode_to_code_hash_for_mode::<8, Mode>(words) })
    })
}
/// Instructions of a user's mode: written by the mode alone, masked without touching its immediates.
pub fn ev_user_mask(x: u64, y: u64, panic: bool) -> Value {
    LIMIT.with(|l| l.set(65535));
    event("userMask", json!({"x": x, "y": y, "panic": panic}), || {
        let mut o = Mode::parse_preliminary_variant_and_absolute_number(x).0;
        o.imm_1 = Pc(y);
        o.condition = Condition::Lt;
        o.src0_reg_idx = 3;
        o.dst1_reg_idx = 7;
        o.variant = if panic { *NOP_OPCODE_VARIANT } else { *PANIC_OPCODE_VARIANT };
        if panic { o.mask_into_panic() } else { o.mask_into_nop() }
        json!({"variant": variant_json(&o.variant), "cond": cond_name(&o.condition), "regs": [o.src0_reg_idx, o.src1_reg_idx, o.dst0_reg_idx, o.dst1_reg_idx],
               "imm": [o.imm_0.0, o.imm_1.0], "int": limbs(o.serialize_as_integer() as u128, 4), "bytes": o.serialize_as_bytes().to_vec()})
    })
}
