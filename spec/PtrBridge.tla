----------------------------- MODULE PtrBridge -----------------------------
(* The digit machine of Pointers.tla (one digit) refines the integer machine of Ind_Pointers.tla. *)
EXTENDS Pointers
ASSUME D = 1
Value(reg) ==
  [isPtr |-> reg.isPtr, off |-> reg.p.offset[1], start |-> reg.p.start[1], len |-> reg.p.length[1],
   gs |-> reg.gs[1], gl |-> reg.gl[1]]
Ind == INSTANCE Ind_Pointers WITH
  W <- B, ReadLen <- Read, Limit <- B - DerefSlack,
  r <- [i \in Regs |-> Value(regs[i])],
  touched <- [from |-> last.from[1], n |-> last.n[1], gs |-> last.gs[1], gl |-> last.gl[1]]
Refines == Ind!Spec
IndInv == Ind!Inv
=============================================================================
