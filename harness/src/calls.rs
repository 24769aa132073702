//! One call of the public interface -> one recorded event {"op", "a", "r"}.
use crate::names::*;
use crate::{with_family, with_inner};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

/// What the call did: its value, or a panic.
pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => json!({"k": "ok", "v": v}),
        Err(_) => json!({"k": "panic"}),
    }
}
pub fn event<F: FnOnce() -> Value>(op: &str, a: Value, f: F) -> Value {
    crate::noise::some();
    json!({"op": op, "a": a, "r": guard(f)})
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M {
    Prod,
    Test,
}
impl M {
    pub const ALL: [M; 2] = [M::Prod, M::Test];
    pub fn name(self) -> &'static str {
        match self {
            M::Prod => "prod",
            M::Test => "test",
        }
    }
    pub fn word_limbs(self) -> usize {
        match self {
            M::Prod => 4,
            M::Test => 8,
        }
    }
    pub fn imm_limbs(self) -> usize {
        match self {
            M::Prod => 1,
            M::Test => 2,
        }
    }
    pub fn imm_mask(self) -> u64 {
        match self {
            M::Prod => 0xffff,
            M::Test => 0xffff_ffff,
        }
    }
    pub fn word_mask(self) -> u128 {
        match self {
            M::Prod => u64::MAX as u128,
            M::Test => u128::MAX,
        }
    }
}

/// A decoded instruction, independent of the mode's integer types.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ins {
    pub variant: OpcodeVariant,
    pub cond: Condition,
    pub regs: [u8; 4], // src0 src1 dst0 dst1
    pub imm: [u64; 2],
}
type P = DecodedOpcode<8, EncodingModeProduction>;
type T = DecodedOpcode<16, EncodingModeTesting>;
fn from_p(d: &P) -> Ins {
    Ins { variant: d.variant, cond: d.condition,
          regs: [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx],
          imm: [d.imm_0 as u64, d.imm_1 as u64] }
}
fn from_t(d: &T) -> Ins {
    Ins { variant: d.variant, cond: d.condition,
          regs: [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx],
          imm: [d.imm_0 as u64, d.imm_1 as u64] }
}
pub fn to_p(i: &Ins) -> P {
    DecodedOpcode { variant: i.variant, condition: i.cond, src0_reg_idx: i.regs[0], src1_reg_idx: i.regs[1],
                    dst0_reg_idx: i.regs[2], dst1_reg_idx: i.regs[3], imm_0: i.imm[0] as u16, imm_1: i.imm[1] as u16 }
}
pub fn to_t(i: &Ins) -> T {
    DecodedOpcode { variant: i.variant, condition: i.cond, src0_reg_idx: i.regs[0], src1_reg_idx: i.regs[1],
                    dst0_reg_idx: i.regs[2], dst1_reg_idx: i.regs[3], imm_0: i.imm[0] as u32, imm_1: i.imm[1] as u32 }
}
pub fn dec(m: M, w: u128) -> (Ins, usize) {
    match m {
        M::Prod => {
            let (d, n) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(w as u64);
            (from_p(&d), n.into_usize())
        }
        M::Test => {
            let (d, n) = EncodingModeTesting::parse_preliminary_variant_and_absolute_number(w);
            (from_t(&d), n.into_usize())
        }
    }
}
/// The short form that only decodes variant and condition.
pub fn head(m: M, w: u128) -> (OpcodeVariant, Condition, usize) {
    match m {
        M::Prod => EncodingModeProduction::variant_and_condition_from_u64_word(w as u64),
        M::Test => EncodingModeTesting::variant_and_condition_from_u128_word(w),
    }
}
pub fn enc(m: M, i: &Ins) -> u128 {
    match m {
        M::Prod => to_p(i).serialize_as_integer() as u128,
        M::Test => to_t(i).serialize_as_integer(),
    }
}
/// Big-endian bytes as produced by the code, through both entry points.
pub fn enc_bytes(m: M, i: &Ins) -> (Vec<u8>, Vec<u8>) {
    match m {
        M::Prod => (to_p(i).serialize_as_bytes().to_vec(), EncodingModeProduction::encode_as_bytes(&to_p(i)).to_vec()),
        M::Test => (to_t(i).serialize_as_bytes().to_vec(), EncodingModeTesting::encode_as_bytes(&to_t(i)).to_vec()),
    }
}
pub fn canon(m: M, w: u128) -> bool {
    match m {
        M::Prod => EncodingModeProduction::is_canonical_encoding(w as u64),
        M::Test => EncodingModeTesting::is_canonical_encoding(w),
    }
}
pub fn mask(m: M, i: &Ins, panic: bool) -> Ins {
    match m {
        M::Prod => {
            let mut d = to_p(i);
            if panic { d.mask_into_panic() } else { d.mask_into_nop() }
            from_p(&d)
        }
        M::Test => {
            let mut d = to_t(i);
            if panic { d.mask_into_panic() } else { d.mask_into_nop() }
            from_t(&d)
        }
    }
}
pub fn default_ins(m: M) -> Ins {
    match m {
        M::Prod => from_p(&P::default()),
        M::Test => from_t(&T::default()),
    }
}
pub fn nop_word(m: M) -> u128 {
    match m {
        M::Prod => EncodingModeProduction::nop_encoding() as u128,
        M::Test => EncodingModeTesting::nop_encoding(),
    }
}
pub fn panic_word(m: M) -> u128 {
    match m {
        M::Prod => EncodingModeProduction::exception_revert_encoding() as u128,
        M::Test => EncodingModeTesting::exception_revert_encoding(),
    }
}
pub fn split_pc(m: M, pc: u64) -> (u64, u64) {
    match m {
        M::Prod => { let (a, b) = EncodingModeProduction::split_pc(pc as u16); (a as u64, b as u64) }
        M::Test => { let (a, b) = EncodingModeTesting::split_pc(pc as u32); (a as u64, b as u64) }
    }
}
pub fn extract(m: M, w: U256, sub: u64) -> u128 {
    match m {
        M::Prod => EncodingModeProduction::integer_representaiton_from_u256(w, sub as u16) as u128,
        M::Test => EncodingModeTesting::integer_representaiton_from_u256(w, sub as u32),
    }
}
pub fn wrap(m: M, x: u64, y: u64) -> (u64, u64) {
    match m {
        M::Prod => (<u16 as AllowedPcOrImm>::wrapping_add(x as u16, y as u16) as u64,
                    <u16 as AllowedPcOrImm>::wrapping_sub(x as u16, y as u16) as u64),
        M::Test => (<u32 as AllowedPcOrImm>::wrapping_add(x as u32, y as u32) as u64,
                    <u32 as AllowedPcOrImm>::wrapping_sub(x as u32, y as u32) as u64),
    }
}
pub fn clip(m: M, v: u64) -> u64 {
    match m {
        M::Prod => <u16 as AllowedPcOrImm>::from_u64_clipped(v) as u64,
        M::Test => <u32 as AllowedPcOrImm>::from_u64_clipped(v) as u64,
    }
}
pub fn widen(m: M, x: u64) -> u64 {
    match m {
        M::Prod => <u16 as AllowedPcOrImm>::as_u64(x as u16),
        M::Test => <u32 as AllowedPcOrImm>::as_u64(x as u32),
    }
}
pub fn max_pc(m: M) -> u64 {
    match m {
        M::Prod => <u16 as AllowedPcOrImm>::max() as u64,
        M::Test => <u32 as AllowedPcOrImm>::max() as u64,
    }
}

pub fn ins_json(m: M, i: &Ins) -> Value {
    json!({"variant": variant_json(&i.variant), "cond": cond_name(&i.cond),
           "src0": i.regs[0], "src1": i.regs[1], "dst0": i.regs[2], "dst1": i.regs[3],
           "imm0": limbs(i.imm[0] as u128, m.imm_limbs()), "imm1": limbs(i.imm[1] as u128, m.imm_limbs())})
}
pub fn ins_from(v: &Value) -> Ins {
    Ins { variant: variant_from(&v["variant"]), cond: cond_from(v["cond"].as_str().unwrap()),
          regs: ["src0", "src1", "dst0", "dst1"].map(|f| v[f].as_u64().unwrap() as u8),
          imm: [from_limbs(&v["imm0"]) as u64, from_limbs(&v["imm1"]) as u64] }
}

// ---- instruction words ----
pub fn ev_decode(m: M, w: u128) -> Value {
    event("decode", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || {
        let (i, code) = dec(m, w);
        json!({"ins": ins_json(m, &i), "code": code})
    })
}
pub fn ev_head(m: M, w: u128) -> Value {
    event("head", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || {
        let (v, c, code) = head(m, w);
        json!({"variant": variant_json(&v), "cond": cond_name(&c), "code": code})
    })
}
pub fn ev_encode(m: M, i: &Ins) -> Value {
    event("encode", json!({"mode": m.name(), "ins": ins_json(m, i)}), || {
        let (b, b2) = enc_bytes(m, i);
        json!({"w": limbs(enc(m, i), m.word_limbs()), "bytes": b, "bytes2": b2})
    })
}
/// Encode then decode; the number is the one the lookup map gives.
pub fn ev_round(m: M, i: &Ins) -> Value {
    event("roundtrip", json!({"mode": m.name(), "ins": ins_json(m, i)}), || {
        let w = enc(m, i);
        let (b, b2) = enc_bytes(m, i);
        let be = |b: Vec<u8>| b.iter().fold(0u128, |a, x| a << 8 | *x as u128) == w && b.len() == 2 * m.word_limbs();
        let (back, n) = dec(m, w);
        json!({"ins": ins_json(m, &back), "number": OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&i.variant).map(|x| x.into_usize()) == Some(n),
               "bytes": be(b), "bytes2": be(b2)})
    })
}
/// Decode then encode.
pub fn ev_reencode(m: M, w: u128) -> Value {
    event("reencode", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || json!({"w": limbs(enc(m, &dec(m, w).0), m.word_limbs())}))
}
fn is_invalid(v: &OpcodeVariant) -> bool {
    op_names(&v.opcode).0 == "Invalid" && mode_name(&v.src0_operand_type) == "Reg" && mode_name(&v.dst0_operand_type) == "Reg" && v.flags == [false, false]
}
/// Whether a word is taken for the invalid instruction, by both decoders and all its markings.
pub fn total(m: M, w: u128) -> [bool; 5] {
    let (i, _) = dec(m, w);
    let (v, _, _) = head(m, w);
    [is_invalid(&i.variant), is_invalid(&v), i.variant.is_explicit_panic(), i.variant.ergs_price() == u32::MAX, v.is_explicit_panic()]
}
pub fn ev_total(m: M, w: u128) -> Value {
    event("total", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || json!({"marks": total(m, w).to_vec()}))
}
pub fn ev_word_bytes(m: M, w: u128) -> Value {
    event("wordBytes", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || json!({"bytes": match m {
        M::Prod => AllowedIntegerRepresentation::encode_as_bytes(w as u64).to_vec(),
        M::Test => AllowedIntegerRepresentation::encode_as_bytes(w).to_vec(),
    }}))
}
pub fn ev_canon(m: M, w: u128) -> Value {
    event("canon", json!({"mode": m.name(), "w": limbs(w, m.word_limbs())}), || json!({"yes": canon(m, w)}))
}
pub fn ev_mask(m: M, i: &Ins, panic: bool) -> Value {
    event("mask", json!({"mode": m.name(), "ins": ins_json(m, i), "to": if panic {"panic"} else {"nop"}}), || {
        let r = mask(m, i, panic);
        json!({"ins": ins_json(m, &r), "w": limbs(enc(m, &r), m.word_limbs()), "twice": ins_json(m, &mask(m, &r, panic))})
    })
}
pub fn ev_default(m: M) -> Value {
    event("default", json!({"mode": m.name()}), || {
        let d = default_ins(m);
        json!({"ins": ins_json(m, &d), "w": limbs(enc(m, &d), m.word_limbs()), "variant": variant_json(&OpcodeVariant::default())})
    })
}
pub fn ev_special(m: M) -> Value {
    event("special", json!({"mode": m.name()}), || {
        let (n, p) = (nop_word(m), panic_word(m));
        json!({"nop": limbs(n, m.word_limbs()), "panic": limbs(p, m.word_limbs()),
               "nopIns": ins_json(m, &dec(m, n).0), "panicIns": ins_json(m, &dec(m, p).0)})
    })
}
pub fn ev_special_variants() -> Value {
    event("specialVariants", json!({}), || {
        json!({"nop": variant_json(&NOP_OPCODE_VARIANT), "panic": variant_json(&PANIC_OPCODE_VARIANT),
               "invalid": variant_json(&INVALID_OPCODE_VARIANT),
               "nopBits": limbs(*NOP_BITSPREAD_U64 as u128, 4), "panicBits": limbs(*PANIC_BITSPREAD_U64 as u128, 4)})
    })
}

// ---- tables ----
fn price(p: u32) -> Value {
    limbs(p as u128, 2)
}
pub fn ev_code(code: usize) -> Value {
    event("code", json!({"code": code}), || {
        let v = OPCODES_TABLE[code];
        json!({"variant": variant_json(&v), "bits": limbs(OPCODES_PROPS_INTEGER_BITMASKS[code] as u128, 4),
               "price": price(v.ergs_price()), "listed": price(OPCODES_PRICES[code]),
               "kernel": v.requires_kernel_mode(), "static": v.can_be_used_in_static_context(),
               "panic": v.is_explicit_panic(), "swap": v.swap_operands()})
    })
}
pub fn ev_slot(code: usize) -> Value {
    event("slot", json!({"code": code}), || json!({"variant": variant_json(&OPCODES_TABLE[code])}))
}
pub fn ev_priced(code: usize) -> Value {
    event("priced", json!({"code": code}), || {
        let v = OPCODES_TABLE[code];
        json!({"price": price(v.ergs_price()), "listed": price(OPCODES_PRICES[code]), "op": price(v.opcode.ergs_price())})
    })
}
pub fn ev_lookup(v: &OpcodeVariant) -> Value {
    let opt = |o: Option<usize>| match o {
        Some(n) => json!({"some": true, "v": n}),
        None => json!({"some": false}),
    };
    event("lookup", json!({"variant": variant_json(v)}), || {
        json!({"mono": opt(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(v).map(|n| n.into_usize())),
               "canon": opt(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(v).copied())})
    })
}
/// Queries on any (also non-assigned) variant.
pub fn ev_variant(v: &OpcodeVariant) -> Value {
    event("variant", json!({"variant": variant_json(v)}), || {
        json!({"kernel": v.requires_kernel_mode(), "static": v.can_be_used_in_static_context(),
               "panic": v.is_explicit_panic()})
    })
}
pub fn ev_vprice(v: &OpcodeVariant) -> Value {
    event("vprice", json!({"variant": variant_json(v)}), || json!({"price": price(v.ergs_price()), "op": price(v.opcode.ergs_price())}))
}
pub fn ev_swap(v: &OpcodeVariant) -> Value {
    event("swap", json!({"variant": variant_json(v)}), || json!({"swap": v.swap_operands()}))
}
pub fn every_variant() -> Vec<OpcodeVariant> {
    let mut out = vec![];
    for (_, _, op) in all_ops() {
        for (_, s) in all_modes() {
            for (_, d) in all_modes() {
                for k in 0..4 {
                    out.push(OpcodeVariant { opcode: op, src0_operand_type: s, dst0_operand_type: d, flags: [k & 1 == 1, k & 2 == 2] });
                }
            }
        }
    }
    out
}
/// Freshly synthesised tables: one event per entry (or a single panic event).
pub fn ev_entries(legacy: bool, version: u8, width: usize, stride: usize) -> Vec<Value> {
    let gen = if legacy { "legacy" } else { "new" };
    let table = catch_unwind(|| if legacy {
        synthesize_opcode_decoding_tables_legacy(width, ISAVersion(version))
    } else {
        synthesize_opcode_decoding_tables(width, ISAVersion(version))
    });
    match table {
        Err(_) => vec![json!({"op": "entry", "a": {"version": version, "code": 0, "gen": gen, "width": width}, "r": {"k": "panic"}})],
        Ok(t) => t.iter().enumerate().filter(|(i, _)| i % stride == 0 || *i < 4096).map(|(i, v)| {
            json!({"op": "entry", "a": {"version": version, "code": i, "gen": gen, "width": width},
                   "r": {"k": "ok", "v": {"variant": variant_json(v)}}})
        }).collect(),
    }
}
/// Some entries of one more table.
pub fn ev_entries_at(legacy: bool, version: u8, width: usize, codes: &[usize]) -> Vec<Value> {
    let mut all = ev_entries(legacy, version, width, 1);
    if all.len() == 1 { return all }
    all.truncate(1 << width);
    codes.iter().filter_map(|c| all.get(*c).cloned()).collect()
}
pub fn ev_table_shape(legacy: bool, version: u8, width: usize) -> Value {
    event("tableShape", json!({"version": version, "width": width, "gen": if legacy {"legacy"} else {"new"}}), || {
        let make = |w| if legacy { synthesize_opcode_decoding_tables_legacy(w, ISAVersion(version)) }
                       else { synthesize_opcode_decoding_tables(w, ISAVersion(version)) };
        let t = make(width);
        let base = make(11);
        // position after the last entry that is not the invalid variant
        let assigned = t.iter().rposition(|v| *v != INVALID_OPCODE_VARIANT).map(|p| p + 1).unwrap_or(1);
        let mut seen = std::collections::HashSet::new();
        let dup = t[..assigned].iter().any(|v| !seen.insert(*v));
        json!({"size": t.len(), "first": variant_json(&t[0]), "assigned": assigned,
               "tailInvalid": t[assigned..].iter().all(|v| *v == INVALID_OPCODE_VARIANT),
               "sameAs11": t[..2048.min(t.len())] == base[..], "dup": dup})
    })
}
/// Bit description synthesised for the table of a version.
pub fn ev_bits(version: u8) -> Vec<Value> {
    let r = catch_unwind(|| {
        let t = synthesize_opcode_decoding_tables(11, ISAVersion(version));
        synthesize_bit_decomposition_table(&t, ISAVersion(version))
    });
    match r {
        Err(_) => vec![json!({"op": "bits", "a": {"version": version, "code": 0}, "r": {"k": "panic"}})],
        Ok(b) => b.iter().enumerate().map(|(i, x)| json!({"op": "bits", "a": {"version": version, "code": i},
            "r": {"k": "ok", "v": {"bits": limbs(*x as u128, 4)}}})).collect(),
    }
}
/// Bit description of any list of variants, in any order and with repetitions.
pub fn ev_bits_of(v: &OpcodeVariant, version: u8) -> Value {
    event("bitsOf", json!({"variant": variant_json(v), "version": version}), || {
        let b = synthesize_bit_decomposition_table(&[*v, *v], ISAVersion(version));
        json!({"bits": limbs(b[0] as u128, 4), "again": limbs(b[1] as u128, 4), "n": b.len()})
    })
}
pub fn ev_bits_list(codes: &[usize], version: u8) -> Value {
    event("bitsList", json!({"codes": codes, "version": version}), || {
        let t = synthesize_opcode_decoding_tables(11, ISAVersion(version));
        let l: Vec<OpcodeVariant> = codes.iter().map(|c| t[*c]).collect();
        json!(synthesize_bit_decomposition_table(&l, ISAVersion(version)).iter().map(|b| limbs(*b as u128, 4)).collect::<Vec<_>>())
    })
}
pub fn ev_widths(version: u8) -> Value {
    event("widths", json!({"version": version}), || {
        let v = ISAVersion(version);
        let text = compute_decoding_format(v);
        let numbers: Vec<u64> = text.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        json!({"vars": max_num_variants_for_version(v), "flags": max_num_flags_for_version(v),
               "total": total_description_bits_for_version(v), "rounded": total_description_bits_rounded_for_version(v),
               "aux": total_opcode_description_and_aux_bits_for_version(v), "format": numbers,
               "logical": *NUM_LOGICAL_OPCODES, "ins": *NUM_INPUT_VARIANTS, "outs": *NUM_OUTPUT_VARIANTS})
    })
}

// ---- metadata ----
pub fn ev_op(fam: &str, sub: &str, version: u8, inner: bool) -> Value {
    let op = op_from(fam, sub);
    let v = ISAVersion(version);
    let kinds = |o: Vec<Operand>| Value::Array(o.iter().map(|x| json!(kind_name(x))).collect());
    event("op", json!({"fam": fam, "sub": sub, "version": version, "via": if inner {"inner"} else {"opcode"}}), || {
        if inner {
            with_inner!(&op, s => json!({
                "ins": kinds(OpcodeProps::input_operands(s, v)), "outs": kinds(OpcodeProps::output_operands(s, v)),
                "srcMem": OpcodeProps::can_have_src0_from_mem(s, v), "dstMem": OpcodeProps::can_write_dst0_into_memory(s, v),
                "kernel": OpcodeProps::requires_kernel_mode(s), "static": OpcodeProps::can_be_used_in_static_context(s),
                "price": price(OpcodeVariantProps::ergs_price(s)),
                "famBit": op.variant_idx(), "subIdx": OpcodeVariantProps::variant_index(s)}))
        } else {
            json!({"ins": kinds(op.input_operands(v)), "outs": kinds(op.output_operands(v)),
                   "srcMem": op.can_have_src0_from_mem(v), "dstMem": op.can_write_dst0_into_memory(v),
                   "kernel": op.requires_kernel_mode(), "static": op.can_be_used_in_static_context(),
                   "price": price(op.ergs_price()), "famBit": op.variant_idx(), "subIdx": op.materialize_subvariant_idx()})
        }
    })
}
/// One aspect of an operation, so that each property is judged on its own part.
pub fn ev_op_part(part: &str, fam: &str, sub: &str, version: u8, inner: bool) -> Value {
    let e = ev_op(fam, sub, version, inner);
    let keys: &[&str] = match part {
        "operands" => &["ins", "outs", "srcMem", "dstMem"],
        "rights" => &["kernel", "static"],
        "price" => &["price"],
        "index" => &["famBit", "subIdx"],
        _ => panic!("harness: part"),
    };
    let mut a = e["a"].clone();
    a["part"] = json!(part);
    let r = if e["r"]["k"] == "ok" {
        let o: serde_json::Map<String, Value> = keys.iter().map(|k| (k.to_string(), e["r"]["v"][*k].clone())).collect();
        json!({"k": "ok", "v": o})
    } else {
        e["r"].clone()
    };
    json!({"op": "opPart", "a": a, "r": r})
}
pub const FAMILIES: [&str; 16] = ["Invalid", "Nop", "Add", "Sub", "Mul", "Div", "Jump", "Binop", "Shift", "Ptr",
                                  "NearCall", "Context", "Log", "FarCall", "Ret", "UMA"];
pub fn ev_family(fam: &str, version: u8, dynamic: bool) -> Value {
    let v = ISAVersion(version);
    event("family", json!({"fam": fam, "version": version, "dyn": dynamic}), || {
        with_family!(fam, X => {
            let subs = |l: Vec<X>| Value::Array(l.into_iter().map(|s| json!(op_names(&s.op()).1)).collect());
            let proto = X::all_variants()[0];
            // the same family as found in the list of prototypes, through the trait object
            let (max_idx, data) = if dynamic {
                let p = OPCODE_PROTOTYPES.iter().find(|p| p.name() == OpcodeProps::name(&proto)).expect("prototype");
                (p.max_variant_idx(v), p.variants_data(v))
            } else {
                (OpcodeProps::max_variant_idx(&proto, v), OpcodeProps::variants_data(&proto, v))
            };
            let descr: Vec<Value> = data.iter().map(|d| json!([d.variant_idx, d.num_non_exclusive_flags, d.num_used_immediates])).collect();
            let mut upto = vec![];
            for w in ISAVersion::all_backward_compatible_versions(v) {
                upto.extend(X::variants_added_in_version(w));
            }
            json!({"maxIdx": max_idx, "maxIdxForVersion": X::max_variant_idx_for_version(v), "descr": descr,
                   "all": subs(X::all_variants()), "available": subs(X::variants_for_version(v)),
                   "added": subs(X::variants_added_in_version(v)), "addedUpTo": subs(upto)})
        })
    })
}
/// idx is reported clipped to what TLC can read; larger ones are out of range all the same.
pub fn ev_sub_at(fam: &str, idx: usize, version: u8) -> Value {
    event("subAt", json!({"fam": fam, "idx": idx.min(2147483647), "version": version}), || {
        with_family!(fam, X => match X::from_variant_index_for_version(idx, &ISAVersion(version)) {
            Some(s) => json!({"some": true, "v": {"sub": op_names(&s.op()).1, "idx": s.variant_index()}}),
            None => json!({"some": false}),
        })
    })
}
pub fn ev_proto_at(fam: &str, idx: usize, version: u8) -> Value {
    event("subAt", json!({"fam": fam, "idx": idx, "version": version, "via": "prototype"}), || {
        let p = all_opcode_prototypes().into_iter().find(|p| op_names(p).0 == fam).expect("prototype");
        let o = p.materialize_subvariant_from_prototype(idx, &ISAVersion(version));
        assert_eq!(op_names(&o).0, fam);
        json!({"some": true, "v": {"sub": op_names(&o).1, "idx": o.materialize_subvariant_idx()}})
    })
}
pub fn ev_avail(fam: &str, sub: &str, version: u8) -> Value {
    event("avail", json!({"fam": fam, "sub": sub, "version": version}), || {
        with_inner!(&op_from(fam, sub), s => json!({"available": s.is_available_for_version(ISAVersion(version)),
                                                    "added": s.is_added_in_version(ISAVersion(version))}))
    })
}
pub fn ev_mode(name: &str) -> Value {
    event("mode", json!({"m": name}), || match mode_from(name) {
        Operand::RegOnly => json!({"idx": Operand::RegOnly.variant_idx(), "byte": 0, "mem": false, "dst": true}),
        o @ Operand::RegOrImm(f) => json!({"idx": o.variant_idx(), "byte": f.encoding_byte(), "mem": f.is_memory_used(), "dst": f.is_allowed_for_dst()}),
        o @ Operand::Full(f) => json!({"idx": o.variant_idx(), "byte": f.encoding_byte(), "mem": f.is_memory_used(), "dst": f.is_allowed_for_dst()}),
    })
}
pub fn ev_mode_counts() -> Value {
    event("modeCounts", json!({}), || {
        json!({"full": [ImmMemHandlerFlags::num_variants(), ImmMemHandlerFlags::num_src_variants(), ImmMemHandlerFlags::num_dst_variants()],
               "regimm": [RegOrImmFlags::num_variants(), RegOrImmFlags::num_src_variants(), RegOrImmFlags::num_dst_variants()],
               "fullOrder": ImmMemHandlerFlags::all_variants().iter().map(full_name).collect::<Vec<_>>(),
               "regimmOrder": RegOrImmFlags::all_variants().iter().map(regimm_name).collect::<Vec<_>>()})
    })
}
pub fn ev_versions(version: u8) -> Value {
    event("versions", json!({"version": version}), || {
        json!({"upto": ISAVersion::all_backward_compatible_versions(ISAVersion(version)).iter().map(|v| v.as_index()).collect::<Vec<_>>(),
               "all": ALL_ISA_VERSIONS.iter().map(|v| v.as_index()).collect::<Vec<_>>()})
    })
}
pub fn ev_cond(idx: usize) -> Value {
    event("cond", json!({"idx": idx}), || {
        let c = Condition::materialize_variant(idx);
        json!({"name": cond_name(&c), "idx": c.variant_index(), "number": c as u8, "listed": cond_name(&ALL_CONDITIONS[idx])})
    })
}

// ---- program counters ----
pub fn ev_split(m: M, pc: u64) -> Value {
    let n = m.imm_limbs();
    event("split", json!({"mode": m.name(), "pc": limbs(pc as u128, n)}), || {
        let (a, b) = split_pc(m, pc);
        json!({"parts": [limbs(a as u128, n), limbs(b as u128, n)]})
    })
}
pub fn ev_extract(m: M, w: U256, sub: u64) -> Value {
    event("extract", json!({"mode": m.name(), "word": limbs256(&w), "sub": sub}), || json!({"w": limbs(extract(m, w, sub), m.word_limbs())}))
}
pub fn ev_wrap(m: M, x: u64, y: u64) -> Value {
    let n = m.imm_limbs();
    event("wrap", json!({"mode": m.name(), "x": limbs(x as u128, n), "y": limbs(y as u128, n)}), || {
        let (a, s) = wrap(m, x, y);
        json!({"add": limbs(a as u128, n), "sub": limbs(s as u128, n)})
    })
}
pub fn ev_clip(m: M, v: u64) -> Value {
    event("clip", json!({"mode": m.name(), "v": limbs(v as u128, 4)}), || json!({"x": limbs(clip(m, v) as u128, m.imm_limbs())}))
}
pub fn ev_widen(m: M, x: u64) -> Value {
    event("widen", json!({"mode": m.name(), "x": limbs(x as u128, m.imm_limbs())}), || json!({"v": limbs(widen(m, x) as u128, 4)}))
}
pub fn ev_max(m: M) -> Value {
    event("max", json!({"mode": m.name()}), || json!({"x": limbs(max_pc(m) as u128, m.imm_limbs())}))
}
pub fn ev_u4(byte: u8) -> Value {
    event("u4", json!({"byte": byte}), || { let (l, h) = split_as_u4(byte); json!({"lo": l, "hi": h}) })
}
pub fn ev_merge(lo: u8, hi: u8) -> Value {
    event("merge", json!({"lo": lo, "hi": hi}), || json!({"byte": merge_u4(lo, hi)}))
}

// ---- ABI words ----
fn u32s(x: u32) -> Value {
    limbs(x as u128, 2)
}
pub fn ptr_json(p: &FatPointer) -> Value {
    json!({"offset": u32s(p.offset), "page": u32s(p.memory_page), "start": u32s(p.start), "length": u32s(p.length)})
}
pub fn ev_fat_unpack(w: U256) -> Value {
    event("fatUnpack", json!({"w": limbs256(&w)}), || ptr_json(&FatPointer::from_u256(w)))
}
pub fn ev_fat_pack(p: FatPointer) -> Value {
    event("fatPack", json!({"p": ptr_json(&p)}), || json!({"w": limbs256(&p.to_u256())}))
}
pub fn ev_fat_empty() -> Value {
    event("fatEmpty", json!({}), || json!({"p": ptr_json(&FatPointer::empty()), "w": limbs256(&FatPointer::empty().to_u256())}))
}
pub fn ev_fat_check(p: FatPointer, fresh: bool) -> Value {
    event("fatCheck", json!({"p": ptr_json(&p), "fresh": fresh}), || {
        json!({"bits": p.validate(fresh).bits().min(1 << 30), "inb": p.validate_in_bounds(), "slice": p.validate_as_slice(), "triv": p.is_trivial(),
               "nameOff": FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED.bits(),
               "nameEnd": FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE.bits()})
    })
}
pub fn far_fwd(f: &FarCallForwardPageType) -> &'static str {
    match f {
        FarCallForwardPageType::UseHeap => "UseHeap",
        FarCallForwardPageType::ForwardFatPointer => "ForwardFatPointer",
        FarCallForwardPageType::UseAuxHeap => "UseAuxHeap",
    }
}
pub fn ret_fwd(f: &RetForwardPageType) -> &'static str {
    match f {
        RetForwardPageType::UseHeap => "UseHeap",
        RetForwardPageType::ForwardFatPointer => "ForwardFatPointer",
        RetForwardPageType::UseAuxHeap => "UseAuxHeap",
    }
}
pub fn ev_farcall(w: U256) -> Value {
    event("farcall", json!({"w": limbs256(&w)}), || {
        let f = FarCallABI::from_u256(w);
        let mut v = ptr_json(&f.memory_quasi_fat_pointer);
        v["ergs"] = u32s(f.ergs_passed);
        v["shard"] = json!([f.shard_id]);
        v["fwd"] = json!(far_fwd(&f.forwarding_mode));
        v["ctor"] = json!(f.constructor_call);
        v["sys"] = json!(f.to_system);
        v
    })
}
pub fn ev_nearcall(w: U256) -> Value {
    event("nearcall", json!({"w": limbs256(&w)}), || json!({"ergs": u32s(NearCallABI::from_u256(w).ergs_passed)}))
}
pub fn ev_ret(w: U256) -> Value {
    event("ret", json!({"w": limbs256(&w)}), || {
        let f = RetABI::from_u256(w);
        let mut v = ptr_json(&f.memory_quasi_fat_pointer);
        v["fwd"] = json!(ret_fwd(&f.page_forwarding_mode));
        v
    })
}
pub fn ev_fwd(byte: u8) -> Value {
    event("fwd", json!({"byte": byte}), || {
        let (f, r) = (FarCallForwardPageType::from_u8(byte), RetForwardPageType::from_u8(byte));
        json!({"far": far_fwd(&f), "ret": ret_fwd(&r), "numbers": [f as u8, r as u8]})
    })
}
pub fn ev_pre(w: U256) -> Value {
    event("pre", json!({"w": limbs256(&w)}), || {
        let p = PrecompileCallABI::from_u256(w);
        json!({"in_off": u32s(p.input_memory_offset), "in_len": u32s(p.input_memory_length),
               "out_off": u32s(p.output_memory_offset), "out_len": u32s(p.output_memory_length),
               "data": limbs(p.per_precompile_interpreted as u128, 4)})
    })
}
pub fn inner_json(p: &PrecompileCallInnerABI) -> Value {
    json!({"in_off": u32s(p.input_memory_offset), "in_len": u32s(p.input_memory_length),
           "out_off": u32s(p.output_memory_offset), "out_len": u32s(p.output_memory_length),
           "page_r": u32s(p.memory_page_to_read), "page_w": u32s(p.memory_page_to_write),
           "data": limbs(p.precompile_interpreted_data as u128, 4)})
}
pub fn ev_inner(w: U256) -> Value {
    event("inner", json!({"w": limbs256(&w)}), || inner_json(&PrecompileCallInnerABI::from_u256(w)))
}
pub fn ev_inner_pack(p: PrecompileCallInnerABI) -> Value {
    event("innerPack", json!({"p": inner_json(&p)}), || json!({"w": limbs256(&p.to_u256())}))
}
pub fn meta_json(p: &VmMetaParameters) -> Value {
    json!({"pubdata": u32s(p.ergs_per_pubdata_byte), "heap": u32s(p.heap_size), "aux": u32s(p.aux_heap_size),
           "this_shard": [p.this_shard_id], "caller_shard": [p.caller_shard_id], "code_shard": [p.code_shard_id]})
}
pub fn ev_meta_pack(p: VmMetaParameters) -> Value {
    event("metaPack", json!({"p": meta_json(&p)}), || json!({"w": limbs256(&p.to_u256())}))
}

// ---- code hashes: 32 bytes are the big-endian form of a 256-bit word ----
type H = VersionedHashGeneric<ContractCodeSha256>;
fn tail_limbs(b: &[u8; 28]) -> Value {
    Value::Array((0..14).map(|k| json!(b[26 - 2 * k] as u64 * 256 + b[27 - 2 * k] as u64)).collect())
}
fn hash_json(h: &H) -> Value {
    let l = h.layout_ref();
    json!({"marker": l.extra_marker, "len": l.code_length_in_words, "tail": tail_limbs(&l.partial_hash),
           "ser": limbs256(&from_be32(&h.serialize().expect("serialize"))),
           "stored": limbs256(&from_be32(&h.serialize_to_stored().expect("stored")))})
}
pub fn ev_hash_parse(w: U256) -> Value {
    event("hashParse", json!({"w": limbs256(&w)}), || match H::try_create_from_raw(be32(&w)) {
        Some(h) => json!({"some": true, "v": hash_json(&h)}),
        None => json!({"some": false}),
    })
}
pub fn ev_hash_digest(w: U256, len: u16) -> Value {
    event("hashDigest", json!({"w": limbs256(&w), "len": len}), || hash_json(&H::from_digest_and_preimage_num_words(be32(&w), len)))
}
pub fn opt_hash(r: Result<[u8; 32], ()>) -> Value {
    match r {
        Ok(h) => json!({"some": true, "v": limbs256(&from_be32(&h))}),
        Err(()) => json!({"some": false}),
    }
}
pub fn ev_bytecode(words: &[[u8; 32]], explicit_mode: bool) -> Value {
    event("bytecode", json!({"words": words.iter().map(|w| limbs256(&from_be32(w))).collect::<Vec<_>>(), "explicit": explicit_mode}), || {
        opt_hash(if explicit_mode { bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(words) } else { bytecode_to_code_hash(words) })
    })
}
/// Long code: the digest comes from the reference implementation (itself checked against the specification).
pub fn ev_bytecode_long(words: &[[u8; 32]], digest: &[u8; 32], explicit_mode: bool) -> Value {
    event("bytecodeLong", json!({"n": words.len(), "digest": limbs256(&from_be32(digest)), "explicit": explicit_mode}), || {
        opt_hash(if explicit_mode { bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(words) } else { bytecode_to_code_hash(words) })
    })
}
pub fn ev_published_bits(code: usize) -> Value {
    event("bits", json!({"version": 1, "code": code, "via": "published"}), || json!({"bits": limbs(OPCODES_PROPS_INTEGER_BITMASKS[code] as u128, 4)}))
}
/// Only the rights bits of the description: (kernel, static) of each code, at the published positions.
pub fn ev_bits_part(version: u8) -> Vec<Value> {
    let r = catch_unwind(|| {
        let t = synthesize_opcode_decoding_tables(11, ISAVersion(version));
        let b = synthesize_bit_decomposition_table(&t, ISAVersion(version));
        (t, b)
    });
    let base = total_description_bits_rounded_for_version(ISAVersion(version));
    let bit = |x: u64, i: usize| x >> (base + i) & 1 == 1;
    match r {
        Err(_) => vec![json!({"op": "rightsBits", "a": {"variant": {"fam": "Invalid", "sub": "Invalid"}}, "r": {"k": "panic"}})],
        Ok((t, b)) => t.iter().zip(b.iter()).enumerate().map(|(i, (v, x))| json!({"op": "rightsBits", "a": {"variant": variant_json(v), "code": i, "version": version},
            "r": {"k": "ok", "v": {"kernel": bit(*x, KERNER_MODE_FLAG_IDX), "static": bit(*x, CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX),
                                   "panic": bit(*x, EXPLICIT_PANIC_FLAG_IDX)}}})).collect(),
    }
}
