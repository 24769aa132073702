//! Explicit mapping between the crate's types and the specification's names.
use serde_json::{json, Value};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

pub const V0: ISAVersion = ISAVersion(0);
pub const V1: ISAVersion = ISAVersion(1);

/// Every operation: (family, sub-operation, value).  The order here carries no meaning.
pub fn all_ops() -> Vec<(&'static str, &'static str, Opcode)> {
    vec![
        ("Invalid", "Invalid", Opcode::Invalid(InvalidOpcode)),
        ("Nop", "Nop", Opcode::Nop(NopOpcode)),
        ("Add", "Add", Opcode::Add(AddOpcode::Add)),
        ("Sub", "Sub", Opcode::Sub(SubOpcode::Sub)),
        ("Mul", "Mul", Opcode::Mul(MulOpcode)),
        ("Div", "Div", Opcode::Div(DivOpcode)),
        ("Jump", "Jump", Opcode::Jump(JumpOpcode)),
        ("Binop", "Xor", Opcode::Binop(BinopOpcode::Xor)),
        ("Binop", "And", Opcode::Binop(BinopOpcode::And)),
        ("Binop", "Or", Opcode::Binop(BinopOpcode::Or)),
        ("Shift", "Shl", Opcode::Shift(ShiftOpcode::Shl)),
        ("Shift", "Shr", Opcode::Shift(ShiftOpcode::Shr)),
        ("Shift", "Rol", Opcode::Shift(ShiftOpcode::Rol)),
        ("Shift", "Ror", Opcode::Shift(ShiftOpcode::Ror)),
        ("Ptr", "Add", Opcode::Ptr(PtrOpcode::Add)),
        ("Ptr", "Sub", Opcode::Ptr(PtrOpcode::Sub)),
        ("Ptr", "Pack", Opcode::Ptr(PtrOpcode::Pack)),
        ("Ptr", "Shrink", Opcode::Ptr(PtrOpcode::Shrink)),
        ("NearCall", "NearCall", Opcode::NearCall(NearCallOpcode)),
        ("Context", "This", Opcode::Context(ContextOpcode::This)),
        ("Context", "Caller", Opcode::Context(ContextOpcode::Caller)),
        ("Context", "CodeAddress", Opcode::Context(ContextOpcode::CodeAddress)),
        ("Context", "Meta", Opcode::Context(ContextOpcode::Meta)),
        ("Context", "ErgsLeft", Opcode::Context(ContextOpcode::ErgsLeft)),
        ("Context", "Sp", Opcode::Context(ContextOpcode::Sp)),
        ("Context", "GetContextU128", Opcode::Context(ContextOpcode::GetContextU128)),
        ("Context", "SetContextU128", Opcode::Context(ContextOpcode::SetContextU128)),
        ("Context", "SetErgsPerPubdataByte", Opcode::Context(ContextOpcode::SetErgsPerPubdataByte)),
        ("Context", "IncrementTxNumber", Opcode::Context(ContextOpcode::IncrementTxNumber)),
        ("Log", "StorageRead", Opcode::Log(LogOpcode::StorageRead)),
        ("Log", "StorageWrite", Opcode::Log(LogOpcode::StorageWrite)),
        ("Log", "ToL1Message", Opcode::Log(LogOpcode::ToL1Message)),
        ("Log", "Event", Opcode::Log(LogOpcode::Event)),
        ("Log", "PrecompileCall", Opcode::Log(LogOpcode::PrecompileCall)),
        ("FarCall", "Normal", Opcode::FarCall(FarCallOpcode::Normal)),
        ("FarCall", "Delegate", Opcode::FarCall(FarCallOpcode::Delegate)),
        ("FarCall", "Mimic", Opcode::FarCall(FarCallOpcode::Mimic)),
        ("Ret", "Ok", Opcode::Ret(RetOpcode::Ok)),
        ("Ret", "Revert", Opcode::Ret(RetOpcode::Revert)),
        ("Ret", "Panic", Opcode::Ret(RetOpcode::Panic)),
        ("UMA", "HeapRead", Opcode::UMA(UMAOpcode::HeapRead)),
        ("UMA", "HeapWrite", Opcode::UMA(UMAOpcode::HeapWrite)),
        ("UMA", "AuxHeapRead", Opcode::UMA(UMAOpcode::AuxHeapRead)),
        ("UMA", "AuxHeapWrite", Opcode::UMA(UMAOpcode::AuxHeapWrite)),
        ("UMA", "FatPointerRead", Opcode::UMA(UMAOpcode::FatPointerRead)),
    ]
}

/// Names of an operation, by pattern (never through the crate's own indices or equality).
pub fn op_names(op: &Opcode) -> (&'static str, &'static str) {
    match op {
        Opcode::Invalid(InvalidOpcode) => ("Invalid", "Invalid"),
        Opcode::Nop(NopOpcode) => ("Nop", "Nop"),
        Opcode::Add(s) => ("Add", match s { AddOpcode::Add => "Add" }),
        Opcode::Sub(s) => ("Sub", match s { SubOpcode::Sub => "Sub" }),
        Opcode::Mul(MulOpcode) => ("Mul", "Mul"),
        Opcode::Div(DivOpcode) => ("Div", "Div"),
        Opcode::Jump(JumpOpcode) => ("Jump", "Jump"),
        Opcode::Binop(s) => ("Binop", match s {
            BinopOpcode::Xor => "Xor",
            BinopOpcode::And => "And",
            BinopOpcode::Or => "Or",
        }),
        Opcode::Shift(s) => ("Shift", match s {
            ShiftOpcode::Shl => "Shl",
            ShiftOpcode::Shr => "Shr",
            ShiftOpcode::Rol => "Rol",
            ShiftOpcode::Ror => "Ror",
        }),
        Opcode::Ptr(s) => ("Ptr", match s {
            PtrOpcode::Add => "Add",
            PtrOpcode::Sub => "Sub",
            PtrOpcode::Pack => "Pack",
            PtrOpcode::Shrink => "Shrink",
        }),
        Opcode::NearCall(NearCallOpcode) => ("NearCall", "NearCall"),
        Opcode::Context(s) => ("Context", match s {
            ContextOpcode::This => "This",
            ContextOpcode::Caller => "Caller",
            ContextOpcode::CodeAddress => "CodeAddress",
            ContextOpcode::Meta => "Meta",
            ContextOpcode::ErgsLeft => "ErgsLeft",
            ContextOpcode::Sp => "Sp",
            ContextOpcode::GetContextU128 => "GetContextU128",
            ContextOpcode::SetContextU128 => "SetContextU128",
            ContextOpcode::SetErgsPerPubdataByte => "SetErgsPerPubdataByte",
            ContextOpcode::IncrementTxNumber => "IncrementTxNumber",
        }),
        Opcode::Log(s) => ("Log", match s {
            LogOpcode::StorageRead => "StorageRead",
            LogOpcode::StorageWrite => "StorageWrite",
            LogOpcode::ToL1Message => "ToL1Message",
            LogOpcode::Event => "Event",
            LogOpcode::PrecompileCall => "PrecompileCall",
        }),
        Opcode::FarCall(s) => ("FarCall", match s {
            FarCallOpcode::Normal => "Normal",
            FarCallOpcode::Delegate => "Delegate",
            FarCallOpcode::Mimic => "Mimic",
        }),
        Opcode::Ret(s) => ("Ret", match s {
            RetOpcode::Ok => "Ok",
            RetOpcode::Revert => "Revert",
            RetOpcode::Panic => "Panic",
        }),
        Opcode::UMA(s) => ("UMA", match s {
            UMAOpcode::HeapRead => "HeapRead",
            UMAOpcode::HeapWrite => "HeapWrite",
            UMAOpcode::AuxHeapRead => "AuxHeapRead",
            UMAOpcode::AuxHeapWrite => "AuxHeapWrite",
            UMAOpcode::FatPointerRead => "FatPointerRead",
        }),
    }
}

pub fn op_from(fam: &str, sub: &str) -> Opcode {
    all_ops().into_iter().find(|(f, s, _)| *f == fam && *s == sub).unwrap_or_else(|| panic!("harness: no op {fam}/{sub}")).2
}

pub fn all_modes() -> Vec<(&'static str, Operand)> {
    vec![
        ("Reg", Operand::RegOnly),
        ("RegImm.Reg", Operand::RegOrImm(RegOrImmFlags::UseRegOnly)),
        ("RegImm.Imm", Operand::RegOrImm(RegOrImmFlags::UseImm16Only)),
        ("Full.Reg", Operand::Full(ImmMemHandlerFlags::UseRegOnly)),
        ("Full.StackPP", Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop)),
        ("Full.StackOff", Operand::Full(ImmMemHandlerFlags::UseStackWithOffset)),
        ("Full.StackAbs", Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack)),
        ("Full.Imm", Operand::Full(ImmMemHandlerFlags::UseImm16Only)),
        ("Full.Code", Operand::Full(ImmMemHandlerFlags::UseCodePage)),
    ]
}
pub fn full_name(f: &ImmMemHandlerFlags) -> &'static str {
    match f {
        ImmMemHandlerFlags::UseRegOnly => "Full.Reg",
        ImmMemHandlerFlags::UseStackWithPushPop => "Full.StackPP",
        ImmMemHandlerFlags::UseStackWithOffset => "Full.StackOff",
        ImmMemHandlerFlags::UseAbsoluteOnStack => "Full.StackAbs",
        ImmMemHandlerFlags::UseImm16Only => "Full.Imm",
        ImmMemHandlerFlags::UseCodePage => "Full.Code",
    }
}
pub fn regimm_name(f: &RegOrImmFlags) -> &'static str {
    match f {
        RegOrImmFlags::UseRegOnly => "RegImm.Reg",
        RegOrImmFlags::UseImm16Only => "RegImm.Imm",
    }
}
pub fn mode_name(o: &Operand) -> &'static str {
    match o {
        Operand::RegOnly => "Reg",
        Operand::RegOrImm(f) => regimm_name(f),
        Operand::Full(f) => full_name(f),
    }
}
/// Operand kind as declared by an operation; declarations carry the register mode as the placeholder.
pub fn kind_name(o: &Operand) -> &'static str {
    match o {
        Operand::RegOnly => "Reg",
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => "RegImm",
        Operand::Full(ImmMemHandlerFlags::UseRegOnly) => "Full",
        other => mode_name(other),
    }
}
pub fn mode_from(s: &str) -> Operand {
    all_modes().into_iter().find(|(n, _)| *n == s).unwrap_or_else(|| panic!("harness: no mode {s}")).1
}

pub fn variant_json(v: &OpcodeVariant) -> Value {
    let (fam, sub) = op_names(&v.opcode);
    json!({"fam": fam, "sub": sub, "src": mode_name(&v.src0_operand_type),
           "dst": mode_name(&v.dst0_operand_type), "flags": [v.flags[0], v.flags[1]]})
}
pub fn variant_from(v: &Value) -> OpcodeVariant {
    OpcodeVariant {
        opcode: op_from(v["fam"].as_str().unwrap(), v["sub"].as_str().unwrap()),
        src0_operand_type: mode_from(v["src"].as_str().unwrap()),
        dst0_operand_type: mode_from(v["dst"].as_str().unwrap()),
        flags: [v["flags"][0].as_bool().unwrap(), v["flags"][1].as_bool().unwrap()],
    }
}

pub const CONDS: [(&str, Condition); 8] = [
    ("Always", Condition::Always),
    ("Gt", Condition::Gt),
    ("Lt", Condition::Lt),
    ("Eq", Condition::Eq),
    ("Ge", Condition::Ge),
    ("Le", Condition::Le),
    ("Ne", Condition::Ne),
    ("GtOrLt", Condition::GtOrLt),
];
pub fn cond_name(c: &Condition) -> &'static str {
    match c {
        Condition::Always => "Always",
        Condition::Gt => "Gt",
        Condition::Lt => "Lt",
        Condition::Eq => "Eq",
        Condition::Ge => "Ge",
        Condition::Le => "Le",
        Condition::Ne => "Ne",
        Condition::GtOrLt => "GtOrLt",
    }
}
pub fn cond_from(s: &str) -> Condition {
    CONDS.iter().find(|(n, _)| *n == s).unwrap_or_else(|| panic!("harness: no condition {s}")).1
}

/// Little-endian 16-bit limbs.
pub fn limbs(x: u128, n: usize) -> Value {
    Value::Array((0..n).map(|i| json!(((x >> (16 * i)) & 0xffff) as u64)).collect())
}
pub fn limbs256(x: &U256) -> Value {
    Value::Array((0..16).map(|i| json!((x.0[i / 4] >> (16 * (i % 4))) & 0xffff)).collect())
}
pub fn from_limbs(v: &Value) -> u128 {
    v.as_array().unwrap().iter().enumerate().fold(0u128, |a, (i, l)| a | ((l.as_u64().unwrap() as u128) << (16 * i)))
}
pub fn from_limbs256(v: &Value) -> U256 {
    let mut r = [0u64; 4];
    for (i, l) in v.as_array().unwrap().iter().enumerate() {
        r[i / 4] |= l.as_u64().unwrap() << (16 * (i % 4));
    }
    U256(r)
}
pub fn be32(x: &U256) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&x.0[3 - i].to_be_bytes());
    }
    out
}
pub fn from_be32(b: &[u8; 32]) -> U256 {
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    U256(r)
}

/// Calls `$body` with `$t` bound to the sub-operation type of a family.
#[macro_export]
macro_rules! with_family {
    ($fam:expr, $t:ident => $body:expr) => {{
        use zkevm_opcode_defs::*;
        match $fam {
            "Invalid" => { type $t = InvalidOpcode; $body }
            "Nop" => { type $t = NopOpcode; $body }
            "Add" => { type $t = AddOpcode; $body }
            "Sub" => { type $t = SubOpcode; $body }
            "Mul" => { type $t = MulOpcode; $body }
            "Div" => { type $t = DivOpcode; $body }
            "Jump" => { type $t = JumpOpcode; $body }
            "Binop" => { type $t = BinopOpcode; $body }
            "Shift" => { type $t = ShiftOpcode; $body }
            "Ptr" => { type $t = PtrOpcode; $body }
            "NearCall" => { type $t = NearCallOpcode; $body }
            "Context" => { type $t = ContextOpcode; $body }
            "Log" => { type $t = LogOpcode; $body }
            "FarCall" => { type $t = FarCallOpcode; $body }
            "Ret" => { type $t = RetOpcode; $body }
            "UMA" => { type $t = UMAOpcode; $body }
            other => panic!("harness: no family {}", other),
        }
    }};
}
/// Calls `$body` with `$s` bound to the inner sub-operation of an `Opcode`.
#[macro_export]
macro_rules! with_inner {
    ($op:expr, $s:ident => $body:expr) => {
        match $op {
            Opcode::Invalid($s) => $body,
            Opcode::Nop($s) => $body,
            Opcode::Add($s) => $body,
            Opcode::Sub($s) => $body,
            Opcode::Mul($s) => $body,
            Opcode::Div($s) => $body,
            Opcode::Jump($s) => $body,
            Opcode::Context($s) => $body,
            Opcode::Shift($s) => $body,
            Opcode::Binop($s) => $body,
            Opcode::Ptr($s) => $body,
            Opcode::NearCall($s) => $body,
            Opcode::Log($s) => $body,
            Opcode::FarCall($s) => $body,
            Opcode::Ret($s) => $body,
            Opcode::UMA($s) => $body,
        }
    };
}
/// The sub-operation types, each wrapped back into an `Opcode`.
pub trait IntoOp: Copy {
    fn op(self) -> Opcode;
}
macro_rules! into_op {
    ($($t:ident => $c:ident),*) => { $(impl IntoOp for $t { fn op(self) -> Opcode { Opcode::$c(self) } })* };
}
into_op!(InvalidOpcode => Invalid, NopOpcode => Nop, AddOpcode => Add, SubOpcode => Sub, MulOpcode => Mul,
         DivOpcode => Div, JumpOpcode => Jump, BinopOpcode => Binop, ShiftOpcode => Shift, PtrOpcode => Ptr,
         NearCallOpcode => NearCall, ContextOpcode => Context, LogOpcode => Log, FarCallOpcode => FarCall,
         RetOpcode => Ret, UMAOpcode => UMA);
