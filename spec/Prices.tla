------------------------------- MODULE Prices -------------------------------
(***************************************************************************)
(* Circuit capacities -> circuit prices -> instruction prices, in ergs.     *)
(* All numbers here are below 2^31 except the price of the invalid opcode,  *)
(* so prices are exposed as two-limb words.                                 *)
(***************************************************************************)
EXTENDS ISA

ErgsPerCircuit == 80000
MaxTxErgs == 80000000
MaxPubdataPerBlock == 110000
InitialWriteBytes == 64
RepeatedWriteBytes == 40

\* units of work each circuit can take
Capacity ==
  [VM |-> 23000, RAM |-> 260000, CODE_DECOMMITTER |-> 12100, STORAGE_APPLICATION |-> 118,
   KECCAK256 |-> 2050, SHA256 |-> 11500, ECRECOVER |-> 72, DECOMMITTER_SORTER |-> 192500,
   LOG_DEMUXER |-> 101500, STORAGE_SORTER |-> 79000, EVENTS_OR_L1_MESSAGES_SORTER |-> 88000,
   L1_MESSAGES_MERKLIZER |-> 512, INITIAL_WRITES_HASHER |-> 4600, REPEATED_WRITES_HASHER |-> 7400]

\* units of each per-circuit price (a decommitter round outputs two words)
Units ==
  [VM_CYCLE_COST_IN_ERGS |-> Capacity.VM,
   RAM_PERMUTATION_COST_IN_ERGS |-> Capacity.RAM,
   CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS |-> 2 * Capacity.CODE_DECOMMITTER,
   STORAGE_APPLICATION_COST_IN_ERGS |-> Capacity.STORAGE_APPLICATION,
   CODE_DECOMMITTER_SORTER_COST_IN_ERGS |-> Capacity.DECOMMITTER_SORTER,
   LOG_DEMUXER_COST_IN_ERGS |-> Capacity.LOG_DEMUXER,
   STORAGE_SORTER_COST_IN_ERGS |-> Capacity.STORAGE_SORTER,
   EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS |-> Capacity.EVENTS_OR_L1_MESSAGES_SORTER,
   INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS |-> Capacity.INITIAL_WRITES_HASHER,
   REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS |-> Capacity.REPEATED_WRITES_HASHER,
   CODE_DECOMMITMENT_SORTER_COST_IN_ERGS |-> Capacity.DECOMMITTER_SORTER,
   KECCAK256_CIRCUIT_COST_IN_ERGS |-> Capacity.KECCAK256,
   SHA256_CIRCUIT_COST_IN_ERGS |-> Capacity.SHA256,
   ECRECOVER_CIRCUIT_COST_IN_ERGS |-> Capacity.ECRECOVER]

UnitPrice == [n \in DOMAIN Units |-> CeilDiv(ErgsPerCircuit, Units[n])]

\* single-instance circuits: free when the pubdata limit binds first
PubdataFloor(cap, bytes) ==
  IF MaxPubdataPerBlock <= cap * bytes THEN 0 ELSE CeilDiv(MaxTxErgs, cap)
InitialFloor == PubdataFloor(Capacity.INITIAL_WRITES_HASHER, InitialWriteBytes)
RepeatedFloor == PubdataFloor(Capacity.REPEATED_WRITES_HASHER, RepeatedWriteBytes)
MinPrice ==
  [L1_MESSAGE_MIN_COST_IN_ERGS |-> CeilDiv(MaxTxErgs, Capacity.L1_MESSAGES_MERKLIZER),
   INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS |-> InitialFloor,
   REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS |-> RepeatedFloor,
   STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS |-> Max2(InitialFloor, RepeatedFloor)]
CircuitPrices == UnitPrice @@ MinPrice

(* ---- instruction prices ---- *)
VmCycle == UnitPrice.VM_CYCLE_COST_IN_ERGS
RamAccess == UnitPrice.RAM_PERMUTATION_COST_IN_ERGS
DEMUX == UnitPrice.LOG_DEMUXER_COST_IN_ERGS
SSORT == UnitPrice.STORAGE_SORTER_COST_IN_ERGS
ESORT == UnitPrice.EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS
DSORT == UnitPrice.CODE_DECOMMITMENT_SORTER_COST_IN_ERGS

StorageReadIO == 150
StorageWriteIO == 250
EventIO == 25
L1MessageIO == 100
CallSurcharge == 20
RichAddressing == VmCycle + 2 * RamAccess
Average == VmCycle + RamAccess

\* value-transfer simulator: what it adds, what it surely uses
TransferDecommit == 64000
TransferAdditive == 11500 + TransferDecommit
TransferMinUsed == 8000 + TransferDecommit
EthereumStipend == 2300
ReentrancyFloor == Max2(TransferAdditive - TransferMinUsed + 1, EthereumStipend + 1)
MinStorageWrite == Max2(ReentrancyFloor, MinPrice.STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS)

\* price of an executable operation
OpPrice(fam, sub) ==
  CASE fam \in {"Nop", "Jump"} \cup Arith2 \cup WideArith -> RichAddressing
    [] fam \in {"Context", "Ret"} -> Average
    [] fam = "NearCall" -> Average + CallSurcharge
    [] fam = "FarCall" -> 2 * VmCycle + RamAccess + StorageReadIO + CallSurcharge + SSORT + DSORT
    [] fam = "UMA" -> IF sub \in HeapWrites THEN 2 * VmCycle + 5 * RamAccess ELSE VmCycle + 3 * RamAccess
    [] fam = "Log" ->
         CASE sub = "StorageRead" -> StorageReadIO + VmCycle + RamAccess + DEMUX + SSORT
           [] sub = "StorageWrite" ->
                Max2(StorageWriteIO + 2 * VmCycle + RamAccess + 2 * DEMUX + 2 * SSORT, MinStorageWrite)
           [] sub = "ToL1Message" ->
                Max2(L1MessageIO + 2 * VmCycle + RamAccess + 2 * DEMUX + 2 * ESORT, MinPrice.L1_MESSAGE_MIN_COST_IN_ERGS)
           [] sub = "Event" -> EventIO + 2 * VmCycle + RamAccess + 2 * DEMUX + 2 * ESORT
           [] sub = "PrecompileCall" -> VmCycle + RamAccess + DEMUX

PriceOf(x) ==
  IF x.fam = "Invalid" THEN MaxWord(2)
  ELSE LET p == OpPrice(x.fam, x.sub) IN << p % LB, p \div LB >>

(* ---- what the prices must achieve ---- *)
UnitPricesCoverCircuits ==      \* and are the smallest that do
  \A n \in DOMAIN Units :
    /\ UnitPrice[n] * Units[n] >= ErgsPerCircuit
    /\ UnitPrice[n] > 0 => (UnitPrice[n] - 1) * Units[n] < ErgsPerCircuit
FloorsHold ==
  /\ MinPrice.L1_MESSAGE_MIN_COST_IN_ERGS * Capacity.L1_MESSAGES_MERKLIZER >= MaxTxErgs
  /\ (MinPrice.L1_MESSAGE_MIN_COST_IN_ERGS - 1) * Capacity.L1_MESSAGES_MERKLIZER < MaxTxErgs
  /\ \/ InitialFloor = 0 /\ MaxPubdataPerBlock <= Capacity.INITIAL_WRITES_HASHER * InitialWriteBytes
     \/ InitialFloor * Capacity.INITIAL_WRITES_HASHER >= MaxTxErgs
  /\ \/ RepeatedFloor = 0 /\ MaxPubdataPerBlock <= Capacity.REPEATED_WRITES_HASHER * RepeatedWriteBytes
     \/ RepeatedFloor * Capacity.REPEATED_WRITES_HASHER >= MaxTxErgs
  /\ MinPrice.STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS >= InitialFloor
  /\ MinPrice.STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS >= RepeatedFloor
NothingIsFree ==
  \A op \in Ops : op[1] # "Invalid" =>
    /\ OpPrice(op[1], op[2]) >= VmCycle + RamAccess
    /\ op[1] \in {"NearCall", "FarCall"} => OpPrice(op[1], op[2]) >= VmCycle + RamAccess + CallSurcharge
StorageWriteFloor ==
  /\ OpPrice("Log", "StorageWrite") > EthereumStipend
  /\ OpPrice("Log", "StorageWrite") > TransferAdditive - TransferMinUsed
  /\ OpPrice("Log", "ToL1Message") * Capacity.L1_MESSAGES_MERKLIZER >= MaxTxErgs
=============================================================================
