//! The specification as exported by TLC (Model.tla), and the generic layout arithmetic over it.
use crate::calls::M;
use crate::names::*;
use serde_json::Value;
use std::collections::HashMap;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

#[derive(Clone, Copy)]
pub struct F {
    pub lo: u32,
    pub w: u32,
}
#[derive(Clone)]
pub struct InsModel {
    pub fields: [F; 8], // code cond src0 src1 dst0 dst1 imm0 imm1
    pub dead: u128,
    pub per: u64,
    pub bits: u32,
    pub nop: u128,
    pub panic: u128,
}
#[derive(Clone)]
pub struct PtrClass {
    pub inb: bool,
    pub slice: bool,
    pub triv: bool,
    pub bits: u64, // 1: stale offset, 2: end overflows
}
#[derive(Clone)]
pub struct Model {
    pub raw: Value,
    pub table: Vec<OpcodeVariant>, // all 2048
    pub assigned: usize,
    pub code_of: HashMap<u32, usize>,
    pub bits: Vec<u64>,
    pub price: Vec<u32>,
    pub nop: u32,
    pub panic: u32,
    pub conds: Vec<Condition>,
    pub prod: InsModel,
    pub test: InsModel,
    pub reserved: u128,
    pub abi: HashMap<String, HashMap<String, F>>,
    pub fwd: Vec<String>,
    ptr: HashMap<(u8, bool, bool, bool, bool), PtrClass>,
    pub version_byte: u8,
    pub at_rest: u8,
    pub max_code_words: u64,
}

/// Identity of a variant, by pattern.
pub fn vid(v: &OpcodeVariant) -> u32 {
    ((op_id(&v.opcode) * 16 + mode_id(&v.src0_operand_type)) * 16 + mode_id(&v.dst0_operand_type)) * 4 + v.flags[0] as u32 + 2 * v.flags[1] as u32
}
fn op_id(o: &Opcode) -> u32 {
    match o {
        Opcode::Invalid(InvalidOpcode) => 0,
        Opcode::Nop(NopOpcode) => 1,
        Opcode::Add(AddOpcode::Add) => 2,
        Opcode::Sub(SubOpcode::Sub) => 3,
        Opcode::Mul(MulOpcode) => 4,
        Opcode::Div(DivOpcode) => 5,
        Opcode::Jump(JumpOpcode) => 6,
        Opcode::Binop(BinopOpcode::Xor) => 7,
        Opcode::Binop(BinopOpcode::And) => 8,
        Opcode::Binop(BinopOpcode::Or) => 9,
        Opcode::Shift(ShiftOpcode::Shl) => 10,
        Opcode::Shift(ShiftOpcode::Shr) => 11,
        Opcode::Shift(ShiftOpcode::Rol) => 12,
        Opcode::Shift(ShiftOpcode::Ror) => 13,
        Opcode::Ptr(PtrOpcode::Add) => 14,
        Opcode::Ptr(PtrOpcode::Sub) => 15,
        Opcode::Ptr(PtrOpcode::Pack) => 16,
        Opcode::Ptr(PtrOpcode::Shrink) => 17,
        Opcode::NearCall(NearCallOpcode) => 18,
        Opcode::Context(ContextOpcode::This) => 19,
        Opcode::Context(ContextOpcode::Caller) => 20,
        Opcode::Context(ContextOpcode::CodeAddress) => 21,
        Opcode::Context(ContextOpcode::Meta) => 22,
        Opcode::Context(ContextOpcode::ErgsLeft) => 23,
        Opcode::Context(ContextOpcode::Sp) => 24,
        Opcode::Context(ContextOpcode::GetContextU128) => 25,
        Opcode::Context(ContextOpcode::SetContextU128) => 26,
        Opcode::Context(ContextOpcode::SetErgsPerPubdataByte) => 27,
        Opcode::Context(ContextOpcode::IncrementTxNumber) => 28,
        Opcode::Log(LogOpcode::StorageRead) => 29,
        Opcode::Log(LogOpcode::StorageWrite) => 30,
        Opcode::Log(LogOpcode::ToL1Message) => 31,
        Opcode::Log(LogOpcode::Event) => 32,
        Opcode::Log(LogOpcode::PrecompileCall) => 33,
        Opcode::FarCall(FarCallOpcode::Normal) => 34,
        Opcode::FarCall(FarCallOpcode::Delegate) => 35,
        Opcode::FarCall(FarCallOpcode::Mimic) => 36,
        Opcode::Ret(RetOpcode::Ok) => 37,
        Opcode::Ret(RetOpcode::Revert) => 38,
        Opcode::Ret(RetOpcode::Panic) => 39,
        Opcode::UMA(UMAOpcode::HeapRead) => 40,
        Opcode::UMA(UMAOpcode::HeapWrite) => 41,
        Opcode::UMA(UMAOpcode::AuxHeapRead) => 42,
        Opcode::UMA(UMAOpcode::AuxHeapWrite) => 43,
        Opcode::UMA(UMAOpcode::FatPointerRead) => 44,
    }
}
fn mode_id(o: &Operand) -> u32 {
    match o {
        Operand::RegOnly => 0,
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => 1,
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => 2,
        Operand::Full(ImmMemHandlerFlags::UseRegOnly) => 3,
        Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop) => 4,
        Operand::Full(ImmMemHandlerFlags::UseStackWithOffset) => 5,
        Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack) => 6,
        Operand::Full(ImmMemHandlerFlags::UseImm16Only) => 7,
        Operand::Full(ImmMemHandlerFlags::UseCodePage) => 8,
    }
}
fn field(v: &Value) -> F {
    F { lo: v[0].as_u64().unwrap() as u32, w: v[1].as_u64().unwrap() as u32 }
}
fn layout(v: &Value) -> HashMap<String, F> {
    v.as_object().unwrap().iter().map(|(k, f)| (k.clone(), field(f))).collect()
}
fn bits_of(v: &Value) -> u128 {
    v.as_array().unwrap().iter().fold(0, |a, b| a | 1u128 << b.as_u64().unwrap())
}
fn ins_model(v: &Value) -> InsModel {
    let l = layout(&v["layout"]);
    InsModel {
        fields: ["code", "cond", "src0", "src1", "dst0", "dst1", "imm0", "imm1"].map(|n| l[n]),
        dead: bits_of(&v["dead"]),
        per: v["per"].as_u64().unwrap(),
        bits: v["limbs"].as_u64().unwrap() as u32 * 16,
        nop: from_limbs(&v["nop"]),
        panic: from_limbs(&v["panic"]),
    }
}
pub fn get(w: u128, f: F) -> u64 {
    ((w >> f.lo) & ((1u128 << f.w) - 1)) as u64
}
pub fn get256(w: &U256, f: F) -> U256 {
    (*w >> f.lo) & ((U256::one() << f.w) - U256::one())
}

impl Model {
    pub fn load(path: &str) -> Model {
        let raw: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("model")).expect("model json");
        let mut table = vec![];
        let mut bits = vec![];
        let mut price = vec![];
        let mut code_of = HashMap::new();
        for (i, e) in raw["table"].as_array().unwrap().iter().enumerate() {
            let v = variant_from(&e["x"]);
            code_of.insert(vid(&v), i);
            table.push(v);
            bits.push(from_limbs(&e["bits"]) as u64);
            price.push(from_limbs(&e["price"]) as u32);
        }
        let assigned = table.len();
        let size = raw["size"].as_u64().unwrap() as usize;
        let invalid = variant_from(&raw["invalid"]);
        while table.len() < size {
            table.push(invalid);
            bits.push(bits[0]);
            price.push(price[0]);
        }
        let ptr = raw["ptr"].as_array().unwrap().iter().map(|e| {
            let c = &e["cls"];
            let cmp = match c["cmp"].as_str().unwrap() { "lt" => 0u8, "eq" => 1, _ => 2 };
            let b = |n: &str| c[n].as_bool().unwrap();
            let r = &e["res"];
            let rb = |n: &str| r[n].as_bool().unwrap();
            ((cmp, b("oz"), b("lz"), b("ovf"), b("fresh")),
             PtrClass { inb: rb("inb"), slice: rb("slice"), triv: rb("triv"), bits: r["bits"].as_u64().unwrap() })
        }).collect();
        Model {
            table, assigned, code_of, bits, price, ptr,
            nop: vid(&variant_from(&raw["nop"])),
            panic: vid(&variant_from(&raw["panic"])),
            conds: raw["conditions"].as_array().unwrap().iter().map(|c| cond_from(c.as_str().unwrap())).collect(),
            prod: ins_model(&raw["ins"]["prod"]),
            test: ins_model(&raw["ins"]["test"]),
            reserved: bits_of(&raw["reserved"]),
            abi: raw["abi"].as_object().unwrap().iter().map(|(k, l)| (k.clone(), layout(l))).collect(),
            fwd: raw["fwd"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect(),
            version_byte: raw["versionByte"].as_u64().unwrap() as u8,
            at_rest: raw["atRest"].as_u64().unwrap() as u8,
            max_code_words: raw["maxCodeWords"].as_u64().unwrap(),
            raw,
        }
    }
    pub fn ins(&self, m: M) -> &InsModel {
        match m {
            M::Prod => &self.prod,
            M::Test => &self.test,
        }
    }
    pub fn f(&self, layout: &str, field: &str) -> F {
        self.abi[layout][field]
    }
    pub fn ptr_class(&self, p: &FatPointer, fresh: bool) -> &PtrClass {
        let cmp = match p.offset.cmp(&p.length) {
            std::cmp::Ordering::Less => 0u8,
            std::cmp::Ordering::Equal => 1,
            std::cmp::Ordering::Greater => 2,
        };
        let ovf = p.start as u64 + p.length as u64 > u32::MAX as u64;
        &self.ptr[&(cmp, p.offset == 0, p.length == 0, ovf, fresh)]
    }
}
