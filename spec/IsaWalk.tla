------------------------------ MODULE IsaWalk ------------------------------
(***************************************************************************)
(* A walk over all 2048 codes of the newest version, checking on each what  *)
(* the tables must satisfy (numbering, upgrades, privileges, operands, bit  *)
(* description, prices).                                                    *)
(***************************************************************************)
EXTENDS Params, Work
VARIABLE code
IInit == code \in {0, 256, 512, 768, 1024, 1280, 1536, 1792}
INext == code % 256 < 255 /\ code' = code + 1
ISpec == IInit /\ [][INext]_code

T1 == Assigned1
T0 == Assigned0
X == VariantAt(NewestVersion, code)
Sizes == NumAssigned0 <= NumAssigned1 /\ NumAssigned1 <= TableSize
ZeroIsInvalid == code = 0 => X = InvalidVariant
OnlyZeroAssignedInvalid == (X = InvalidVariant) <=> (code = 0 \/ code >= NumAssigned1)
Bijective == code < NumAssigned1 => CodeOf(X) = code
UpgradeKeepsMeaning == code < NumAssigned0 => Meaning(X) = Meaning(T0[code + 1])
OperandsLegal ==
  /\ AllowedAsDst(X.dst)
  /\ X.src \in ToSet(ModesOf(First(Ins(X.fam, X.sub, 1)), FALSE))
  /\ X.dst \in ToSet(ModesOf(First(Outs(X.fam, X.sub, 1)), TRUE))
  /\ (UsesMemory(X.src) => SrcFromMem(X.fam, X.sub, 1))
  /\ (UsesMemory(X.dst) => DstToMem(X.fam, X.sub, 1))
  /\ \A i \in 1 .. 2 : i > NumFlags(X.fam, X.sub) => ~X.flags[i]
  /\ Len(Ins(X.fam, X.sub, 1)) <= 2 /\ Len(Outs(X.fam, X.sub, 1)) <= 2
  /\ \A k \in 2 .. Len(Ins(X.fam, X.sub, 1)) : Ins(X.fam, X.sub, 1)[k] = "Reg"
  /\ \A k \in 2 .. Len(Outs(X.fam, X.sub, 1)) : Outs(X.fam, X.sub, 1)[k] = "Reg"
Grp(b) == IF b < SubBase THEN "op" ELSE IF b < FlagBase THEN "sub" ELSE IF b < SrcBase THEN "flag"
          ELSE IF b < DstBase THEN "src" ELSE IF b < DescriptionBits THEN "dst"
          ELSE IF b < RoundedBits THEN "pad" ELSE "aux"
DescriptionShape ==
  LET s == DescriptionSet(X)
      count(g) == Cardinality({b \in s : Grp(b) = g})
  IN /\ count("op") = 1 /\ count("sub") = 1 /\ count("src") = 1 /\ count("dst") = 1 /\ count("pad") = 0
     /\ count("flag") = Cardinality({i \in 1 .. 2 : X.flags[i]})
     /\ \A b \in s : b < TotalBits
AllDescriptions == LET t == TLCEval(Assigned1) IN {DescriptionSet(t[i]) : i \in 1 .. Len(t)}
\* spellings of one register-only source share a description; in one version only one spelling exists
DescriptionsDistinct ==
  code = 0 => Cardinality(AllDescriptions) = NumAssigned1
Widths == DescriptionBits = 38 /\ RoundedBits = 48 /\ TotalBits = 51 /\ Len(GroupWidths) = 5
Privileges ==
  /\ (NeedsKernel(X.fam, X.sub) /\ X.fam \in {"Context", "Log"} /\ X.sub # "PrecompileCall")
       => ~StaticAllowed(X.fam, X.sub)
  /\ X.fam = "Log" /\ X.sub = "StorageWrite" => ~StaticAllowed(X.fam, X.sub) /\ ~NeedsKernel(X.fam, X.sub)
PriceRule ==
  /\ (X = InvalidVariant) = (PriceOf(X) = MaxWord(2))
  /\ X # InvalidVariant => OpPrice(X.fam, X.sub) >= Average
\* the price list pays for the work Ind_Circuits counts
ClassOf(fam, sub) ==
  CASE fam \in {"Context", "Ret"} -> "plain"
    [] fam = "NearCall" -> "near"
    [] fam = "FarCall" -> "far"
    [] fam = "UMA" -> IF sub \in HeapWrites THEN "store" ELSE "load"
    [] fam = "Log" -> (CASE sub = "StorageRead" -> "sload" [] sub = "StorageWrite" -> "sstore" [] sub = "Event" -> "event"
                        [] sub = "ToL1Message" -> "msg" [] sub = "PrecompileCall" -> "pre")
    [] OTHER -> "rich"
WorkIsPriced ==
  /\ \A op \in Ops : op[1] # "Invalid" =>
       \E s \in WorkSteps : s.cls = ClassOf(op[1], op[2]) /\ s.cost = OpPrice(op[1], op[2])
  /\ WordCost = UnitPrice.CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS
  /\ CapVm = Capacity.VM /\ CapRam = Capacity.RAM /\ CapDemux = Capacity.LOG_DEMUXER /\ CapSsort = Capacity.STORAGE_SORTER
  /\ CapEsort = Capacity.EVENTS_OR_L1_MESSAGES_SORTER /\ CapDsort = Capacity.DECOMMITTER_SORTER
  /\ CapWords = 2 * Capacity.CODE_DECOMMITTER /\ CapMsgs = Capacity.L1_MESSAGES_MERKLIZER
  /\ CircuitErgs = ErgsPerCircuit /\ TxErgs = MaxTxErgs
StaticFacts ==
  code = 0 => /\ UnitPricesCoverCircuits /\ FloorsHold /\ NothingIsFree /\ StorageWriteFloor
              /\ Coherent /\ AbiDesignOK /\ WorkIsPriced
NopAndPanicExist == code = 0 => IsVariant(NopVariant) /\ IsVariant(PanicVariant) /\ IsVariant(InvalidVariant)
=============================================================================
