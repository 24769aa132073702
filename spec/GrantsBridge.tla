---------------------------- MODULE GrantsBridge ----------------------------
(* The frames of Grants.tla (one digit) refine those of Ind_Grants.tla.  Reads leave both alone: PtrBridge relates those. *)
EXTENDS MC_Grants
Live == 1 .. Len(gs_.stack)
Value(reg) ==
  [isPtr |-> reg.isPtr, off |-> reg.p.offset[1], page |-> reg.p.page, start |-> reg.p.start[1], len |-> reg.p.length[1],
   gs |-> reg.gs[1], gl |-> reg.gl[1]]
Empty == [isPtr |-> FALSE, off |-> 0, page |-> 0, start |-> 0, len |-> 0, gs |-> 0, gl |-> 0]
Ind == INSTANCE Ind_Grants WITH
  W <- Base, MaxDepth <- Depth, ReadLen <- 2, Limit <- Base - 3, First <- 1, Next_ <- 3, PerFrame <- 2, Slot <- 0,
  depth <- Len(gs_.stack),
  base <- [i \in 1 .. Depth |-> IF i \in Live THEN gs_.stack[i].base ELSE 0],
  reg <- [i \in 1 .. Depth |-> [k \in {1, 2} |-> IF i \in Live THEN Value(gs_.stack[i].regs[k]) ELSE Empty]],
  pages <- gs_.pages,
  touched <- [page |-> 0, from |-> 0, n |-> 0, gs |-> 0, gl |-> 0]
Refines == Ind!Spec
Still_ == Ind!Frozen
IndInv == Ind!Inv
=============================================================================
