------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Published constants of the protocol, as 64-bit words of four limbs, and  *)
(* what has to be true between them.                                        *)
(***************************************************************************)
EXTENDS Prices, Abi, Counters

N(n) == << n % LB, n \div LB, 0, 0 >>                 \* n < 2^31
U32Max == << LB - 1, LB - 1, 0, 0 >>
Kernel == 32768                                       \* system contracts live from 0x8000

Addresses ==                                          \* low 16 bits of 160-bit addresses
  [ADDRESS_ECRECOVER |-> 1, ADDRESS_SHA256 |-> 2, ADDRESS_RIPEMD160 |-> 3, ADDRESS_IDENTITY |-> 4,
   ADDRESS_BOOTLOADER |-> Kernel + 1, ADDRESS_ACCOUNT_CODE_STORAGE |-> Kernel + 2,
   ADDRESS_NONCE_HOLDER |-> Kernel + 3, ADDRESS_KNOWN_CODES_STORAGE |-> Kernel + 4,
   ADDRESS_IMMUTABLE_SIMULATOR |-> Kernel + 5, ADDRESS_CONTRACT_DEPLOYER |-> Kernel + 6,
   ADDRESS_FORCE_DEPLOYER |-> Kernel + 7, ADDRESS_L1_MESSENGER |-> Kernel + 8,
   ADDRESS_MSG_VALUE |-> Kernel + 9, ADDRESS_ETH_TOKEN |-> Kernel + 10,
   ADDRESS_SYSTEM_CONTEXT |-> Kernel + 11, ADDRESS_BOOTLOADER_UTILITIES |-> Kernel + 12,
   ADDRESS_EVENT_WRITER |-> Kernel + 13, ADDRESS_KECCAK256 |-> Kernel + 16]
\* second names for the same contracts (the "deployer" name predates the split of that contract)
Aliases ==
  [KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS |-> "ADDRESS_KECCAK256",
   SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS |-> "ADDRESS_SHA256",
   ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS |-> "ADDRESS_ECRECOVER",
   BOOTLOADER_FORMAL_ADDRESS_LOW |-> "ADDRESS_BOOTLOADER",
   DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW |-> "ADDRESS_ACCOUNT_CODE_STORAGE"]
\* full-width forms: which low word they extend with zeros
FullWidth ==
  [BOOTLOADER_FORMAL_ADDRESS |-> "ADDRESS_BOOTLOADER",
   DEPLOYER_SYSTEM_CONTRACT_ADDRESS |-> "ADDRESS_ACCOUNT_CODE_STORAGE",
   NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS |-> "ADDRESS_NONCE_HOLDER",
   KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS |-> "ADDRESS_KNOWN_CODES_STORAGE",
   KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS |-> "ADDRESS_KECCAK256",
   SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS |-> "ADDRESS_SHA256",
   ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS |-> "ADDRESS_ECRECOVER"]
AddressBytes(low) == [i \in 1 .. 20 |-> IF i = 19 THEN low \div 256 ELSE IF i = 20 THEN low % 256 ELSE 0]

Pages ==
  [UNMAPPED_PAGE |-> 0, BOOTLOADER_CALLDATA_PAGE |-> 7, BOOTLOADER_CODE_PAGE |-> 8,
   BOOTLOADER_STACK_PAGE |-> 9, BOOTLOADER_HEAP_PAGE |-> 10, BOOTLOADER_AUX_HEAP_PAGE |-> 11]
LogTypes == [STORAGE_AUX_BYTE |-> 0, EVENT_AUX_BYTE |-> 1, L1_MESSAGE_AUX_BYTE |-> 2, PRECOMPILE_AUX_BYTE |-> 3]
CallRegisters ==       \* one-register roles and ranges [from, to) at a far call
  [CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER |-> 0 .. 0, CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER |-> 1 .. 1,
   CALL_SYSTEM_ABI_REGISTERS |-> 2 .. 11, CALL_RESERVED_RANGE |-> 12 .. 13,
   CALL_IMPLICIT_PARAMETER_REG_IDX |-> 14 .. 14]
RetRegisters ==
  [RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER |-> 0, RET_RESERVED_REGISTER_0 |-> 1,
   RET_RESERVED_REGISTER_1 |-> 2, RET_RESERVED_REGISTER_2 |-> 3]

CheapestCall == OpPrice("NearCall", "NearCall")
\* floor((2^32 - 1) / d) for d < 2^15, from the two limbs
DivU32Max(d) ==
  LET qh == (LB - 1) \div d
      rest == ((LB - 1) % d) * LB + (LB - 1)
  IN qh * LB + rest \div d
MaxDepth == DivU32Max(CallSurcharge) + 80

Scalars ==             \* native numbers
  [REGISTERS_COUNT |-> 15, OPCODES_TABLE_WIDTH |-> TableWidth, CONDITIONAL_BITS_SHIFT |-> 13,
   CONDITIONAL_BITS_WIDTH |-> 3, MEMORY_GROWTH_ERGS_PER_BYTE |-> 1,
   VARIANT_AND_CONDITION_ENCODING_BITS |-> 16, REGISTER_INDEX_ENCODING_BITS |-> 4,
   SRC_REGS_SHIFT |-> 16, DST_REGS_SHIFT |-> 24, OPCODE_TYPE_BITS |-> NumFamilies,
   NUM_OPCODES |-> NumFamilies,
   OPCODE_INPUT_VARIANT_FLAGS |-> NumSrcModes, OPCODE_OUTPUT_VARIANT_FLAGS |-> NumDstModes,
   KERNEL_MODE_FLAG_BITS |-> 1, CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS |-> 1, EXPLICIT_PANIC_FLAG_BITS |-> 1,
   KERNER_MODE_FLAG_IDX |-> 0, CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX |-> 1, EXPLICIT_PANIC_FLAG_IDX |-> 2,
   TOTAL_AUX_BITS |-> AuxBits, NUM_ISA_VERSIONS |-> Len(Versions), DEFAULT_ISA_VERSION |-> NewestVersion,
   INITIAL_SP_ON_FAR_CALL |-> 0, BOOTLOADER_BASE_PAGE |-> BootPage, NEW_MEMORY_PAGES_PER_FAR_CALL |-> PagesPerCall,
   STARTING_TIMESTAMP |-> TimeStart, STARTING_BASE_PAGE |-> FirstPage, TIME_DELTA_PER_CYCLE |-> TimeDelta,
   MAX_PENDING_CYCLES |-> 1, LOG2_NUM_ADDRESSABLE_HEAP_BYTES |-> 24,
   RICH_ADDRESSING_OPCODE_ERGS |-> RichAddressing, AVERAGE_OPCODE_ERGS |-> Average,
   STORAGE_READ_IO_PRICE |-> StorageReadIO, STORAGE_WRITE_IO_PRICE |-> StorageWriteIO,
   EVENT_IO_PRICE |-> EventIO, L1_MESSAGE_IO_PRICE |-> L1MessageIO, CALL_LIKE_ERGS_COST |-> CallSurcharge,
   ERGS_PER_CODE_WORD_DECOMMITTMENT |-> UnitPrice.CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS,
   SET_FLAGS_FLAG_IDX |-> SetFlagsIdx, SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES |-> SwapIdxArith,
   SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE |-> SwapIdxPtr,
   FAR_CALL_STATIC_FLAG_IDX |-> 0, FAR_CALL_SHARD_FLAG_IDX |-> 1, RET_TO_LABEL_BIT_IDX |-> 0,
   FIRST_MESSAGE_FLAG_IDX |-> 0, UMA_INCREMENT_FLAG_IDX |-> 0,
   FAT_POINTER_PACKED_WIDTH |-> 128,
   MAX_TX_ERGS_LIMIT |-> MaxTxErgs, ERGS_PER_CIRCUIT |-> ErgsPerCircuit,
   VM_MAX_STACK_DEPTH |-> MaxDepth,
   INITIAL_FRAME_SUCCESSFUL_EXIT_PC |-> 0, INITIAL_FRAME_FORMAL_EH_LOCATION |-> LB - 1,
   INITIAL_STORAGE_WRITE_PUBDATA_BYTES |-> InitialWriteBytes,
   REPEATED_STORAGE_WRITE_PUBDATA_BYTES |-> RepeatedWriteBytes,
   L1_MESSAGE_PUBDATA_BYTES |-> 1 + 1 + 2 + 20 + 32 + 32, MAX_PUBDATA_PER_BLOCK |-> MaxPubdataPerBlock,
   NUM_SPONGES |-> 4, ADDRESS_UNRESTRICTED_SPACE |-> 65536,
   NEW_FRAME_MEMORY_STIPEND |-> Stipend, MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY |-> 4 * 32,
   DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD |-> TransferDecommit,
   MSG_VALUE_SIMULATOR_ADDITIVE_COST |-> TransferAdditive,
   MSG_VALUE_SIMULATOR_MIN_USED_ERGS |-> TransferMinUsed,
   MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION |-> ReentrancyFloor,
   MIN_STORAGE_WRITE_COST |-> MinStorageWrite,
   VERSION_BYTE |-> VersionByte, CODE_AT_REST_MARKER |-> AtRest, YET_CONSTRUCTED_MARKER |-> Constructing]
  @@ ByteIdx @@ CircuitPrices @@ Pages @@ LogTypes @@ Addresses @@ RetRegisters
  @@ [a \in DOMAIN Aliases |-> Addresses[Aliases[a]]]
  @@ [CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER |-> 0, CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER |-> 1,
      CALL_IMPLICIT_PARAMETER_REG_IDX |-> 14]
Wide ==
  [VM_INITIAL_FRAME_ERGS |-> U32Max, INVALID_OPCODE_ERGS |-> U32Max, BOOTLOADER_MAX_MEMORY |-> U32Max,
   MAX_OFFSET_TO_DEREF_LOW_U32 |-> MaxOffset \o << 0, 0 >>,
   MAX_OFFSET_TO_DEREF |-> MaxOffset \o << 0, 0 >>,     \* upper 192 bits are zero
   MAX_OFFSET_FOR_ADD_SUB |-> << 0, 0, 1, 0 >>]
Const == [n \in DOMAIN Scalars |-> N(Scalars[n])] @@ Wide
Ranges == [CALL_SYSTEM_ABI_REGISTERS |-> <<2, 12>>, CALL_RESERVED_RANGE |-> <<12, 14>>]

Injective(f) == \A a, b \in DOMAIN f : a # b => f[a] # f[b]
Coherent ==
  /\ Injective(Pages) /\ Injective(LogTypes) /\ Injective(Addresses) /\ Injective(RetRegisters)
  /\ \A p \in DOMAIN Pages : Pages[p] < Scalars.STARTING_BASE_PAGE
  /\ \A p \in DOMAIN Pages \ {"UNMAPPED_PAGE", "BOOTLOADER_CALLDATA_PAGE"} :
       Pages[p] >= Scalars.BOOTLOADER_BASE_PAGE
       /\ Pages[p] < Scalars.BOOTLOADER_BASE_PAGE + Scalars.NEW_MEMORY_PAGES_PER_FAR_CALL
  /\ \A a \in DOMAIN Addresses : Addresses[a] > 0 /\ Addresses[a] < Scalars.ADDRESS_UNRESTRICTED_SPACE
  /\ {LogTypes[t] : t \in DOMAIN LogTypes} = 0 .. (Cardinality(DOMAIN LogTypes) - 1)
  /\ UNION {CallRegisters[r] : r \in DOMAIN CallRegisters} = 0 .. (Scalars.REGISTERS_COUNT - 1)
  /\ \A r, s \in DOMAIN CallRegisters : r # s => CallRegisters[r] \cap CallRegisters[s] = {}
  /\ \A r \in DOMAIN RetRegisters : RetRegisters[r] < Scalars.REGISTERS_COUNT
  /\ Scalars.REGISTERS_COUNT + 1 = 2 ^ Scalars.REGISTER_INDEX_ENCODING_BITS      \* r0 included
  /\ CheapestCall >= CallSurcharge
  \* the costs Ind_Counters counts with
  /\ StackLimit = MaxDepth /\ CheapestStep = Average /\ CheapestNear = CheapestCall /\ CheapestFar = OpPrice("FarCall", "Normal")
  /\ \A op \in Ops : op[1] # "Invalid" =>
       /\ OpPrice(op[1], op[2]) >= CheapestStep
       /\ op[1] = "NearCall" => OpPrice(op[1], op[2]) >= CheapestNear
       /\ op[1] = "FarCall" => OpPrice(op[1], op[2]) >= CheapestFar
  /\ DivU32Max(CheapestCall) + 1 <= MaxDepth            \* frames affordable with all initial ergs
  /\ StorageWriteFloor
  /\ Scalars.STARTING_TIMESTAMP % Scalars.TIME_DELTA_PER_CYCLE = 0
  /\ Scalars.STARTING_BASE_PAGE % Scalars.NEW_MEMORY_PAGES_PER_FAR_CALL = 0
  /\ Scalars.BOOTLOADER_BASE_PAGE % Scalars.NEW_MEMORY_PAGES_PER_FAR_CALL = 0
=============================================================================
