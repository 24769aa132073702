--------------------------- MODULE Ind_Grants32 ---------------------------
(* Ind_Grants with 32-bit words, the real page numbering, and stacks of up to three frames (for Apalache). *)
EXTENDS Ind_Grants, Counters, Apalache
ConstInit == /\ W = 4294967296 /\ MaxDepth = 3 /\ ReadLen = 32 /\ Limit = 4294967263
             /\ First = BootPage /\ Next_ = FirstPage /\ PerFrame = PagesPerCall /\ Slot = 2
\* any state that satisfies Inv
\* @type: () => Bool;
IndInit ==
  /\ depth = Gen(1) /\ base = Gen(3) /\ reg = Gen(3) /\ pages = Gen(1) /\ touched = Gen(1)
  /\ DOMAIN base = Stack /\ DOMAIN reg = Stack /\ \A i \in Stack : DOMAIN reg[i] = Ids
  /\ Inv
=============================================================================
