//! Published constants by name.
use crate::calls::event;
use crate::names::*;
use serde_json::{json, Value};
use zkevm_opcode_defs::circuit_prices::*;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

macro_rules! table {
    ($($n:ident),* $(,)?) => { vec![$((stringify!($n), $n as u64)),*] };
}
pub fn scalars() -> Vec<(&'static str, u64)> {
    let mut t = table![
        REGISTERS_COUNT, OPCODES_TABLE_WIDTH, CONDITIONAL_BITS_SHIFT, CONDITIONAL_BITS_WIDTH, MEMORY_GROWTH_ERGS_PER_BYTE,
        VARIANT_AND_CONDITION_ENCODING_BITS, REGISTER_INDEX_ENCODING_BITS, SRC_REGS_SHIFT, DST_REGS_SHIFT, OPCODE_TYPE_BITS,
        NUM_OPCODES, OPCODE_INPUT_VARIANT_FLAGS, OPCODE_OUTPUT_VARIANT_FLAGS, KERNEL_MODE_FLAG_BITS,
        CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS, EXPLICIT_PANIC_FLAG_BITS, KERNER_MODE_FLAG_IDX,
        CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX, EXPLICIT_PANIC_FLAG_IDX, TOTAL_AUX_BITS, NUM_ISA_VERSIONS,
        INITIAL_SP_ON_FAR_CALL, BOOTLOADER_BASE_PAGE, NEW_MEMORY_PAGES_PER_FAR_CALL, STARTING_TIMESTAMP, STARTING_BASE_PAGE,
        TIME_DELTA_PER_CYCLE, MAX_PENDING_CYCLES, LOG2_NUM_ADDRESSABLE_HEAP_BYTES, RICH_ADDRESSING_OPCODE_ERGS,
        AVERAGE_OPCODE_ERGS, STORAGE_READ_IO_PRICE, STORAGE_WRITE_IO_PRICE, EVENT_IO_PRICE, L1_MESSAGE_IO_PRICE,
        CALL_LIKE_ERGS_COST, ERGS_PER_CODE_WORD_DECOMMITTMENT, SET_FLAGS_FLAG_IDX, SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES,
        SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE, FAR_CALL_STATIC_FLAG_IDX, FAR_CALL_SHARD_FLAG_IDX, RET_TO_LABEL_BIT_IDX,
        FIRST_MESSAGE_FLAG_IDX, UMA_INCREMENT_FLAG_IDX, MAX_TX_ERGS_LIMIT, ERGS_PER_CIRCUIT, VM_MAX_STACK_DEPTH,
        INITIAL_FRAME_SUCCESSFUL_EXIT_PC, INITIAL_FRAME_FORMAL_EH_LOCATION, INITIAL_STORAGE_WRITE_PUBDATA_BYTES,
        REPEATED_STORAGE_WRITE_PUBDATA_BYTES, L1_MESSAGE_PUBDATA_BYTES, MAX_PUBDATA_PER_BLOCK, NUM_SPONGES,
        ADDRESS_UNRESTRICTED_SPACE, NEW_FRAME_MEMORY_STIPEND, MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY,
        DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD, MSG_VALUE_SIMULATOR_ADDITIVE_COST, MSG_VALUE_SIMULATOR_MIN_USED_ERGS,
        MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION, MIN_STORAGE_WRITE_COST,
        FAR_CALL_FORWARDING_MODE_BYTE_IDX, FAR_CALL_SHARD_ID_BYTE_IDX, FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX,
        FAR_CALL_SYSTEM_CALL_BYTE_IDX, RET_FORWARDING_MODE_BYTE_IDX,
        UNMAPPED_PAGE, BOOTLOADER_CALLDATA_PAGE, BOOTLOADER_CODE_PAGE, BOOTLOADER_STACK_PAGE, BOOTLOADER_HEAP_PAGE,
        BOOTLOADER_AUX_HEAP_PAGE, STORAGE_AUX_BYTE, EVENT_AUX_BYTE, L1_MESSAGE_AUX_BYTE, PRECOMPILE_AUX_BYTE,
        ADDRESS_ECRECOVER, ADDRESS_SHA256, ADDRESS_RIPEMD160, ADDRESS_IDENTITY, ADDRESS_BOOTLOADER,
        ADDRESS_ACCOUNT_CODE_STORAGE, ADDRESS_NONCE_HOLDER, ADDRESS_KNOWN_CODES_STORAGE, ADDRESS_IMMUTABLE_SIMULATOR,
        ADDRESS_CONTRACT_DEPLOYER, ADDRESS_FORCE_DEPLOYER, ADDRESS_L1_MESSENGER, ADDRESS_MSG_VALUE, ADDRESS_ETH_TOKEN,
        ADDRESS_SYSTEM_CONTEXT, ADDRESS_BOOTLOADER_UTILITIES, ADDRESS_EVENT_WRITER, ADDRESS_KECCAK256,
        KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS, SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS,
        ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS, BOOTLOADER_FORMAL_ADDRESS_LOW, DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW,
        RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER, RET_RESERVED_REGISTER_0, RET_RESERVED_REGISTER_1, RET_RESERVED_REGISTER_2,
        CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER, CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER, CALL_IMPLICIT_PARAMETER_REG_IDX,
        VM_INITIAL_FRAME_ERGS, INVALID_OPCODE_ERGS, BOOTLOADER_MAX_MEMORY, MAX_OFFSET_TO_DEREF_LOW_U32,
    ];
    t.extend(prices());
    t.push(("DEFAULT_ISA_VERSION", DEFAULT_ISA_VERSION.0 as u64));
    t.push(("FAT_POINTER_PACKED_WIDTH", FatPointer::FAT_POINTER_PACKED_WIDTH as u64));
    t.push(("VERSION_BYTE", ContractCodeSha256::VERSION_BYTE as u64));
    t.push(("CODE_AT_REST_MARKER", ContractCodeSha256::CODE_AT_REST_MARKER as u64));
    t.push(("YET_CONSTRUCTED_MARKER", ContractCodeSha256::YET_CONSTRUCTED_MARKER as u64));
    t
}
/// Prices of the committed price file.
pub fn prices() -> Vec<(&'static str, u64)> {
    table![
        VM_CYCLE_COST_IN_ERGS, RAM_PERMUTATION_COST_IN_ERGS, CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS,
        STORAGE_APPLICATION_COST_IN_ERGS, CODE_DECOMMITTER_SORTER_COST_IN_ERGS, LOG_DEMUXER_COST_IN_ERGS,
        STORAGE_SORTER_COST_IN_ERGS, EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS, INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
        REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS, CODE_DECOMMITMENT_SORTER_COST_IN_ERGS, L1_MESSAGE_MIN_COST_IN_ERGS,
        INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS, REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
        STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS, KECCAK256_CIRCUIT_COST_IN_ERGS, SHA256_CIRCUIT_COST_IN_ERGS,
        ECRECOVER_CIRCUIT_COST_IN_ERGS,
    ]
}
pub fn wide() -> Vec<(&'static str, ethereum_types::U256)> {
    vec![("MAX_OFFSET_TO_DEREF", MAX_OFFSET_TO_DEREF), ("MAX_OFFSET_FOR_ADD_SUB", MAX_OFFSET_FOR_ADD_SUB)]
}
macro_rules! address_table {
    ($($n:ident),* $(,)?) => { vec![$((stringify!($n), (|| $n.0) as fn() -> [u8; 20])),*] };
}
fn address_list() -> Vec<(&'static str, fn() -> [u8; 20])> {
    address_table![
        BOOTLOADER_FORMAL_ADDRESS, DEPLOYER_SYSTEM_CONTRACT_ADDRESS, NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS,
        KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS, KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS,
        SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS,
    ]
}
pub fn addresses() -> Vec<(&'static str, [u8; 20])> {
    address_list().into_iter().map(|(n, f)| (n, f())).collect()
}
pub fn addresses_count() -> usize {
    address_list().len()
}
pub fn address(i: usize) -> (&'static str, fn() -> [u8; 20]) {
    address_list()[i]
}
pub fn ev_const(name: &str, v: u64) -> Value {
    event("const", json!({"name": name}), || json!({"v": limbs(v as u128, 4)}))
}
/// Constants, optionally only the named ones.
pub fn events(only: Option<&[&str]>) -> Vec<Value> {
    let mut out = vec![];
    let keep = |n: &str| only.map_or(true, |o| o.contains(&n));
    let mut names = vec![];
    for (n, v) in scalars() {
        names.push(n);
        if keep(n) {
            out.push(ev_const(n, v));
        }
    }
    for (n, v) in wide() {
        names.push(n);
        if keep(n) {
            out.push(event("const256", json!({"name": n}), || json!({"v": limbs256(&v)})));
        }
    }
    if only.is_none() {
        for (n, b) in addresses() {
            out.push(event("addr", json!({"name": n}), || json!({"bytes": b.to_vec()})));
        }
        for (n, r) in [("CALL_SYSTEM_ABI_REGISTERS", CALL_SYSTEM_ABI_REGISTERS), ("CALL_RESERVED_RANGE", CALL_RESERVED_RANGE)] {
            out.push(event("range", json!({"name": n}), || json!({"v": [r.start, r.end]})));
        }
        out.push(event("names", json!({}), || json!({"consts": names, "addresses": addresses().iter().map(|a| a.0).collect::<Vec<_>>()})));
    }
    out
}

/// Prices produced by the generator (text of the file it writes) against the committed ones.
pub fn generated(text: &str) -> Vec<Value> {
    let mut made: std::collections::BTreeMap<String, u64> = Default::default();
    let mut names = vec![];
    let flat = text.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ");
    for item in flat.split(';') {
        let Some(p) = item.find("const ") else { continue };
        let Some((head, val)) = item[p + 6..].split_once('=') else { continue };
        let name = head.split(':').next().unwrap().trim().to_string();
        let digits: String = val.trim().replace('_', "").chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(v) = digits.parse() {
            names.push(name.clone());
            made.insert(name, v);
        }
    }
    let committed = prices();
    let mut out = vec![];
    for (n, c) in &committed {
        out.push(event("generated", json!({"name": n}), || json!({"v": limbs(made[*n] as u128, 4), "committed": limbs(*c as u128, 4)})));
    }
    out.push(event("priceNames", json!({}), || json!({"committed": committed.iter().map(|c| c.0).collect::<Vec<_>>(),
                                                       "generated": names})));
    out
}
