-------------------------------- MODULE ISA --------------------------------
(***************************************************************************)
(* The zkEVM instruction set as data: operation families in protocol order, *)
(* their sub-operations, operand shapes per version, flags and immediates,  *)
(* privileges, and from these the numbering of all variants (the decoding   *)
(* table) and its circuit bit description.  Written from the protocol, not  *)
(* computed from the code: it is the oracle the code is compared with.      *)
(***************************************************************************)
EXTENDS Words, SequencesExt, TLC

Versions == << 0, 1 >>
NewestVersion == 1
TableWidth == 11
TableSize == 2 ^ TableWidth

\* protocol order of the families, circuit bit of each, sub-operations in index order
Families == <<
  [fam |-> "Invalid",  bit |-> 0,  subs |-> <<"Invalid">>],
  [fam |-> "Nop",      bit |-> 1,  subs |-> <<"Nop">>],
  [fam |-> "Add",      bit |-> 2,  subs |-> <<"Add">>],
  [fam |-> "Sub",      bit |-> 3,  subs |-> <<"Sub">>],
  [fam |-> "Mul",      bit |-> 4,  subs |-> <<"Mul">>],
  [fam |-> "Div",      bit |-> 5,  subs |-> <<"Div">>],
  [fam |-> "Jump",     bit |-> 6,  subs |-> <<"Jump">>],
  [fam |-> "Binop",    bit |-> 9,  subs |-> <<"Xor", "And", "Or">>],
  [fam |-> "Shift",    bit |-> 8,  subs |-> <<"Shl", "Shr", "Rol", "Ror">>],
  [fam |-> "Ptr",      bit |-> 10, subs |-> <<"Add", "Sub", "Pack", "Shrink">>],
  [fam |-> "NearCall", bit |-> 11, subs |-> <<"NearCall">>],
  [fam |-> "Context",  bit |-> 7,  subs |-> <<"This", "Caller", "CodeAddress", "Meta", "ErgsLeft",
                                             "Sp", "GetContextU128", "SetContextU128",
                                             "SetErgsPerPubdataByte", "IncrementTxNumber">>],
  [fam |-> "Log",      bit |-> 12, subs |-> <<"StorageRead", "StorageWrite", "ToL1Message", "Event",
                                             "PrecompileCall">>],
  [fam |-> "FarCall",  bit |-> 13, subs |-> <<"Normal", "Delegate", "Mimic">>],
  [fam |-> "Ret",      bit |-> 14, subs |-> <<"Ok", "Revert", "Panic">>],
  [fam |-> "UMA",      bit |-> 15, subs |-> <<"HeapRead", "HeapWrite", "AuxHeapRead", "AuxHeapWrite",
                                             "FatPointerRead">>]
>>
NumFamilies == Len(Families)
FamNames == {Families[i].fam : i \in 1 .. NumFamilies}
FamIdx(fam) == CHOOSE i \in 1 .. NumFamilies : Families[i].fam = fam
SubsOf(fam) == Families[FamIdx(fam)].subs
SubIdx(fam, sub) == (CHOOSE j \in 1 .. Len(SubsOf(fam)) : SubsOf(fam)[j] = sub) - 1
MaxSubIdx(fam) == Len(SubsOf(fam)) - 1
FamBit(fam) == Families[FamIdx(fam)].bit
Ops == UNION {{<<f, SubsOf(f)[j]>> : j \in 1 .. Len(SubsOf(f))} : f \in FamNames}
MaxSubs == Max({Len(Families[i].subs) : i \in 1 .. NumFamilies})

\* every sub-operation exists since version 0
IntroducedIn(fam, sub) == 0
AvailableIn(fam, sub, v) == IntroducedIn(fam, sub) <= v

(* ---- operands ---- *)
FullModes == <<"Full.Reg", "Full.StackPP", "Full.StackOff", "Full.StackAbs", "Full.Imm", "Full.Code">>
RegImmModes == <<"RegImm.Reg", "RegImm.Imm">>
\* index of a mode in its circuit bit group; also the mode's encoding byte
ModeIndex == [m \in {"Reg", "RegImm.Reg", "Full.Reg"} |-> 0] @@
             [m \in {"RegImm.Imm", "Full.Imm"} |-> 4] @@
             ("Full.StackPP" :> 1 @@ "Full.StackOff" :> 2 @@ "Full.StackAbs" :> 3 @@ "Full.Code" :> 5)
AllModes == DOMAIN ModeIndex
UsesMemory(m) == m \in {"Full.StackPP", "Full.StackOff", "Full.StackAbs", "Full.Code"}
AllowedAsDst(m) == m \notin {"Full.Imm", "Full.Code", "RegImm.Imm"}
ModesOf(kind, isDst) ==
  LET all == CASE kind = "Reg" -> <<"Reg">>
               [] kind = "RegImm" -> RegImmModes
               [] kind = "Full" -> FullModes
  IN IF isDst THEN SelectSeq(all, AllowedAsDst) ELSE all

\* operand kinds: sequence of inputs and of outputs
Arith2 == {"Add", "Sub", "Binop", "Shift", "Ptr"}        \* two inputs, one output
WideArith == {"Mul", "Div"}                              \* two inputs, two outputs
HeapReads == {"HeapRead", "AuxHeapRead"}
HeapWrites == {"HeapWrite", "AuxHeapWrite"}
ContextSetters == {"SetContextU128", "SetErgsPerPubdataByte", "IncrementTxNumber"}

Ins(fam, sub, v) ==
  CASE fam = "Invalid" -> << >>
    [] fam \in {"Nop", "Jump"} -> <<"Full">>
    [] fam \in Arith2 \cup WideArith -> <<"Full", "Reg">>
    [] fam = "NearCall" -> <<"Reg">>
    [] fam = "Context" -> IF sub \in {"SetContextU128", "SetErgsPerPubdataByte"} THEN <<"Reg">> ELSE << >>
    [] fam = "Log" -> IF sub \in {"StorageWrite", "Event", "ToL1Message"} THEN <<"Reg", "Reg">> ELSE <<"Reg">>
    [] fam = "FarCall" -> <<"Reg", "Reg">>
    [] fam = "Ret" -> IF sub = "Panic" THEN << >> ELSE <<"Reg">>
    [] fam = "UMA" -> \* since version 1 heap offsets may be immediates
         LET first == IF v >= 1 /\ sub # "FatPointerRead" THEN "RegImm" ELSE "Reg"
         IN IF sub \in HeapWrites THEN <<first, "Reg">> ELSE <<first>>

Outs(fam, sub, v) ==
  CASE fam \in {"Invalid", "Jump", "NearCall", "FarCall", "Ret"} -> << >>
    [] fam \in {"Nop"} \cup Arith2 -> <<"Full">>
    [] fam \in WideArith -> <<"Full", "Reg">>
    [] fam = "Context" -> IF sub \in ContextSetters THEN << >> ELSE <<"Reg">>
    [] fam = "Log" -> IF sub \in {"StorageRead", "PrecompileCall"} THEN <<"Reg">> ELSE << >>
    [] fam = "UMA" -> IF sub \in HeapWrites THEN <<"Reg">> ELSE <<"Reg", "Reg">>

First(kinds) == IF kinds = << >> THEN "Reg" ELSE kinds[1]
SrcFromMem(fam, sub, v) == First(Ins(fam, sub, v)) = "Full"
DstToMem(fam, sub, v) == First(Outs(fam, sub, v)) = "Full"

(* ---- flags and immediates ---- *)
NumFlags(fam, sub) ==
  CASE fam \in {"Invalid", "Nop", "Jump", "NearCall", "Context"} -> 0
    [] fam \in {"Add", "Mul", "Binop", "Ptr", "Ret", "UMA"} -> 1
    [] fam \in {"Sub", "Div", "Shift", "FarCall"} -> 2
    [] fam = "Log" -> IF sub \in {"ToL1Message", "Event"} THEN 1 ELSE 0
MaxFlags == 2
NumImms(fam, sub) ==
  CASE fam \in {"Invalid", "Context", "Log", "UMA"} -> 0
    [] fam \in {"Jump", "FarCall", "Ret"} -> 1
    [] fam \in {"Nop", "NearCall"} \cup Arith2 \cup WideArith -> 2

\* flag positions
SetFlagsIdx == 0
SwapIdxArith == 1
SwapIdxPtr == 0
SwapsOperands(fam, flags) ==
  IF fam \in {"Sub", "Div", "Shift"} THEN flags[SwapIdxArith + 1]
  ELSE IF fam = "Ptr" THEN flags[SwapIdxPtr + 1] ELSE FALSE

(* ---- privileges ---- *)
NeedsKernel(fam, sub) ==
  \/ fam = "Context" /\ sub \in ContextSetters
  \/ fam = "Log" /\ sub \in {"Event", "ToL1Message", "PrecompileCall"}
  \/ fam = "FarCall" /\ sub = "Mimic"
StaticAllowed(fam, sub) ==
  ~ (\/ fam = "Context" /\ sub \in ContextSetters
     \/ fam = "Log" /\ sub \in {"StorageWrite", "Event", "ToL1Message"})
ExplicitPanic(fam) == fam = "Invalid"

(* ---- variants and the numbering of all variants of one version ---- *)
Variant(fam, sub, src, dst, f0, f1) ==
  [fam |-> fam, sub |-> sub, src |-> src, dst |-> dst, flags |-> <<f0, f1>>]
InvalidVariant == Variant("Invalid", "Invalid", "Reg", "Reg", FALSE, FALSE)
NopVariant == Variant("Nop", "Nop", "Full.Reg", "Full.Reg", FALSE, FALSE)
PanicVariant == Variant("Ret", "Panic", "Reg", "Reg", FALSE, FALSE)

FlagChoices(n) ==
  CASE n = 0 -> << <<FALSE, FALSE>> >>
    [] n = 1 -> << <<FALSE, FALSE>>, <<TRUE, FALSE>> >>
    [] n = 2 -> << <<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>> >>

\* all variants of one sub-operation: source mode, then destination mode, then flags
Block(fam, sub, v) ==
  LET srcs == ModesOf(First(Ins(fam, sub, v)), FALSE)
      dsts == ModesOf(First(Outs(fam, sub, v)), TRUE)
      fls  == FlagChoices(NumFlags(fam, sub))
      nd == Len(dsts)
      nf == Len(fls)
  IN [k \in 1 .. (Len(srcs) * nd * nf) |->
        LET i == (k - 1) \div (nd * nf)
            j == ((k - 1) \div nf) % nd
            f == fls[((k - 1) % nf) + 1]
        IN Variant(fam, sub, srcs[i + 1], dsts[j + 1], f[1], f[2])]

\* (fam, sub) pairs in protocol order
OpSeq == FlattenSeq([i \in 1 .. NumFamilies |->
           [j \in 1 .. Len(Families[i].subs) |-> <<Families[i].fam, Families[i].subs[j]>>]])

\* TLC note: heavy constants are computed under LET/TLCEval so that each is built once.
Enumeration(v) ==
  LET ops == TLCEval(OpSeq)
  IN TLCEval(FlattenSeq([i \in 1 .. Len(ops) |-> TLCEval(Block(ops[i][1], ops[i][2], v))]))
Enum0 == Enumeration(0)
Enum1 == Enumeration(1)

\* what a variant means, independent of how a register source is spelled
Meaning(x) == [x EXCEPT !.src = IF @ = "RegImm.Reg" THEN "Reg" ELSE @]

\* One upgrade: codes of version 0 keep their place (respelled as version 1 spells the same
\* meaning), variants with a new meaning follow in the enumeration order of version 1.
Respell(x, v) ==
  [x EXCEPT !.src = IF @ = "Reg" /\ First(Ins(x.fam, x.sub, v)) = "RegImm" THEN "RegImm.Reg" ELSE @]
UpgradeTo1(e0, e1) ==
  LET old == TLCEval({Meaning(e0[i]) : i \in 1 .. Len(e0)})
      new(x) == Meaning(x) \notin old
  IN TLCEval([i \in 1 .. Len(e0) |-> Respell(e0[i], 1)]) \o SelectSeq(e1, new)
\* variants in code order (code = position - 1)
Assigned0 == Enumeration(0)
Assigned1 == LET e0 == TLCEval(Enumeration(0))
                 e1 == TLCEval(Enumeration(1))
             IN TLCEval(UpgradeTo1(e0, e1))
AssignedIn(v) == IF v = 0 THEN Assigned0 ELSE Assigned1
NumAssigned0 == LET t == TLCEval(Assigned0) IN Len(t)
NumAssigned1 == LET t == TLCEval(Assigned1) IN Len(t)
NumAssignedIn(v) == IF v = 0 THEN NumAssigned0 ELSE NumAssigned1

\* decoding table of a version: from code (0-based) to variant
VariantAt(v, code) == IF code < NumAssignedIn(v) THEN AssignedIn(v)[code + 1] ELSE InvalidVariant
IsAssigned(code) == code < NumAssigned1

\* lookups of the newest version: variant -> code, searched within the operation only
CodeMap ==
  LET t == TLCEval(Assigned1)
      where == TLCEval([op \in Ops |-> {i \in 1 .. Len(t) : t[i].fam = op[1] /\ t[i].sub = op[2]}])
  IN TLCEval([x \in {t[i] : i \in 1 .. Len(t)} |->
                (CHOOSE i \in where[<<x.fam, x.sub>>] : t[i] = x) - 1])
CodeOf(x) == CodeMap[x]
IsVariant(x) == x \in DOMAIN CodeMap
NopCode == LET m == TLCEval(CodeMap) IN m[NopVariant]
PanicCode == LET m == TLCEval(CodeMap) IN m[PanicVariant]

(* ---- circuit bit description ---- *)
NumSrcModes == 6
NumDstModes == 4
GroupWidths == <<NumFamilies, MaxSubs, MaxFlags, NumSrcModes, NumDstModes>>
DescriptionBits == NumFamilies + MaxSubs + MaxFlags + NumSrcModes + NumDstModes
RoundedBits == CeilDiv(DescriptionBits, 16) * 16
AuxBits == 3
TotalBits == RoundedBits + AuxBits

SubBase == NumFamilies
FlagBase == SubBase + MaxSubs
SrcBase == FlagBase + MaxFlags
DstBase == SrcBase + NumSrcModes

DescriptionSet(x) ==
  {FamBit(x.fam), SubBase + SubIdx(x.fam, x.sub), SrcBase + ModeIndex[x.src], DstBase + ModeIndex[x.dst]}
  \cup {FlagBase + i - 1 : i \in {j \in 1 .. 2 : x.flags[j]}}
  \cup (IF NeedsKernel(x.fam, x.sub) THEN {RoundedBits} ELSE {})
  \cup (IF StaticAllowed(x.fam, x.sub) THEN {RoundedBits + 1} ELSE {})
  \cup (IF ExplicitPanic(x.fam) THEN {RoundedBits + 2} ELSE {})
Description(x) == BitsToWord(DescriptionSet(x), 4)
=============================================================================
