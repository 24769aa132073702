----------------------------- MODULE MC_Machine -----------------------------
(***************************************************************************)
(* All programs at once: each fetch returns any word of a pool, flags are   *)
(* arbitrary, registers hold a few ABI words.  Program counters are         *)
(* forgotten, which only adds behaviours; so are timestamps and pages, which*)
(* nothing depends on (the trace specifications keep them).                 *)
(***************************************************************************)
EXTENDS Machine
CONSTANTS InitialErgs, MaxDepth

Ins_(v, c, s0, s1, i0, i1) ==
  [variant |-> v, cond |-> c, src0 |-> s0, src1 |-> s1, dst0 |-> 0, dst1 |-> 0, imm0 |-> <<i0>>, imm1 |-> <<i1>>]
V(f, s, a, b) == Variant(f, s, a, b, FALSE, FALSE)
PoolIns ==
  { Ins_(NopVariant, "Always", 0, 0, 0, 0), Ins_(NopVariant, "Lt", 0, 0, 0, 0),
    Ins_(PanicVariant, "Always", 0, 0, 0, 0),
    Ins_(V("Ret", "Ok", "Reg", "Reg"), "Always", 1, 0, 0, 0),
    Ins_(V("Ret", "Ok", "Reg", "Reg"), "Eq", 1, 0, 0, 0),
    Ins_(Variant("Ret", "Revert", "Reg", "Reg", TRUE, FALSE), "Always", 1, 0, 3, 0),
    Ins_(V("NearCall", "NearCall", "Reg", "Reg"), "Always", 1, 0, 1, 2),
    Ins_(V("NearCall", "NearCall", "Reg", "Reg"), "Always", 2, 0, 1, 2),
    Ins_(V("FarCall", "Normal", "Reg", "Reg"), "Always", 3, 4, 1, 0),
    Ins_(Variant("FarCall", "Delegate", "Reg", "Reg", TRUE, FALSE), "Always", 3, 5, 1, 0),
    Ins_(V("FarCall", "Normal", "Reg", "Reg"), "Always", 6, 4, 1, 0),
    Ins_(V("FarCall", "Mimic", "Reg", "Reg"), "Always", 3, 4, 1, 0),
    Ins_(V("Context", "SetContextU128", "Reg", "Reg"), "Always", 0, 0, 0, 0),
    Ins_(V("Log", "StorageRead", "Reg", "Reg"), "Always", 0, 0, 0, 0),
    Ins_(V("Log", "Event", "Reg", "Reg"), "Always", 0, 0, 0, 0),
    Ins_(V("Jump", "Jump", "Full.Imm", "Reg"), "Always", 0, 0, 2, 0),
    Ins_(V("UMA", "HeapWrite", "RegImm.Reg", "Reg"), "Always", 7, 0, 0, 0),
    Ins_(V("UMA", "AuxHeapRead", "RegImm.Reg", "Reg"), "Always", 7, 0, 0, 0),
    Ins_(V("UMA", "HeapRead", "RegImm.Imm", "Reg"), "Always", 0, 0, 1000, 0),
    Ins_(V("UMA", "HeapRead", "RegImm.Reg", "Reg"), "Always", 4, 0, 0, 0),
    Ins_(V("Ret", "Revert", "Reg", "Reg"), "Always", 8, 0, 0, 0),
    Ins_(V("FarCall", "Normal", "Reg", "Reg"), "Always", 9, 4, 1, 0),
    Ins_(InvalidVariant, "Always", 0, 0, 0, 0) }
PoolWords == {Encode("prod", i) : i \in PoolIns} \cup {<<2000, 0, 0, 0>>}
Pool == TLCEval({Decode("prod", w) : w \in PoolWords})
ASSUME PoolIns \subseteq Pool /\ Decode("prod", PanicWord("prod")) = Bare("prod", PanicVariant)
MCRegs ==
  [i \in 1 .. 15 |->
     CASE i = 2 -> <<40, 0>> \o ZeroWord(14)                     \* near call: 40 ergs
       [] i = 3 -> ZeroWord(12) \o <<65535, 65535, 0, 0>>        \* far call: everything
       [] i = 4 -> <<5, 1>> \o ZeroWord(14)                      \* user address
       [] i = 5 -> <<32769>> \o ZeroWord(15)                     \* system address
       [] i = 6 -> <<1>> \o ZeroWord(11) \o <<60, 0, 0, 0>>      \* far call, bad offset
       [] i = 7 -> <<1000>> \o ZeroWord(15)                      \* just beyond the free memory
       [] i = 8 -> ZeroWord(4) \o <<1000, 0, 30, 0>> \o ZeroWord(8)  \* return of a range that has to be paid for
       [] i = 9 -> ZeroWord(4) \o <<1000, 0, 30, 0>> \o ZeroWord(4) \o <<65535, 65535, 2, 0>>   \* call with such a range
       [] OTHER -> ZeroWord(16)]

VARIABLE mach
Forget(x) == [x EXCEPT !.stack = [i \in DOMAIN x.stack |-> [x.stack[i] EXCEPT !.pc = 0, !.eh = 0, !.base = BootPage]],
                       !.time = TimeStart, !.pages = FirstPage]
MInit == \E e \in InitialErgs, a \in {<<32769, 0, 0, 0>>, <<5, 1, 0, 0>>} : mach = Forget(Start(e, a))
MNext == /\ ~Halted(mach)
         /\ \E i \in Pool : \E lt, eq \in IF i.cond = "Always" THEN {FALSE} ELSE BOOLEAN :
              mach' = Forget(CycleOf(mach, i, <<lt, eq, FALSE>>, MCRegs, MaxDepth))
MSpec == MInit /\ [][MNext]_mach
View == <<mach.stack, mach.pending>>

StepSafe(m, n) ==
  /\ NoGain(m, n) /\ Progress(m, n) /\ Allowed(m, n) /\ PaysOrDies(m, n)
  /\ FaultsPanic(m, n) /\ PanicBurns(m, n) /\ MemoryPaid(m, n) /\ ~(m.pending /\ n.pending)
StepOK == [][StepSafe(mach, mach')]_mach
\* the front end refines the bare ergs machine, whose invariants Apalache proves for all amounts
Ergs == INSTANCE Ind_Ergs WITH
  Cheapest <- CheapestStep, CheapestCall <- CheapestNear, DepthLimit <- MaxDepth,
  top <- IF Halted(mach) THEN 0 ELSE Top(mach).ergs,
  rest <- IF Halted(mach) THEN 0 ELSE SumErgs([mach EXCEPT !.stack = Below(mach)]),
  depth <- Len(mach.stack)
ErgsRefined == Ergs!Changes
StateOK == NoDebt(mach) /\ StaticInherited(mach) /\ Len(mach.stack) <= MaxDepth
=============================================================================
