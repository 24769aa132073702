----------------------------- MODULE MC_Grants -----------------------------
(***************************************************************************)
(* All histories of Grants with one-digit words: at most MaxCalls calls in  *)
(* a history (pages are never reused), any operand words.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Base, Depth, MaxCalls
VARIABLE gs_
G == INSTANCE Grants WITH B <- Base, D <- 1, Read <- 2, DerefSlack <- 3, FirstBase <- 1, NextBase <- 3,
                          PagesPerFrame <- 2, HeapSlot <- 0, AuxSlot <- 1, DepthLimit <- Depth
Dig == {<<k>> : k \in 0 .. (Base - 1)}
Modes_ == {"UseHeap", "UseAuxHeap", "ForwardFatPointer"}
Plain == [offset : Dig, page : {0}, start : Dig, length : Dig]
\* operands: integers at large, and the registers
Operands(s) ==
  {[fwd |-> m, isPtr |-> FALSE, p |-> p, gs |-> <<0>>, gl |-> <<0>>] : m \in {"UseHeap", "UseAuxHeap"}, p \in Plain}
  \cup {[fwd |-> "ForwardFatPointer", isPtr |-> FALSE, p |-> p, gs |-> <<0>>, gl |-> <<0>>] : p \in {[offset |-> <<0>>, page |-> 1, start |-> <<0>>, length |-> <<1>>]}}
  \cup {[fwd |-> m, isPtr |-> r.isPtr, p |-> r.p, gs |-> r.gs, gl |-> r.gl] : m \in Modes_, r \in {G!Last_(s).regs[k] : k \in {1, 2}}}
Actions(s) ==
  {[do |-> d, reg |-> 1, o |-> o] : d \in {"call", "ret"}, o \in Operands(s)}
  \cup {[do |-> d, reg |-> k] : d \in {"copy", "deref"}, k \in {1, 2}}
  \cup {[do |-> "panic", reg |-> 1]}
  \cup {[do |-> d, reg |-> k, d |-> x, big |-> FALSE] : d \in {"add", "sub", "shrink"}, k \in {1}, x \in Dig}
Init == gs_ = G!Begin_
Next == \E a \in Actions(gs_) : gs_.pages <= 3 + 2 * MaxCalls /\ gs_' = G!Move(gs_, a).s
        /\ gs_'.pages <= 3 + 2 * MaxCalls
Spec == Init /\ [][Next]_gs_
WithinGrants == G!WithinGrants(gs_)
Apart == G!Apart(gs_)
NoPeeking == G!NoPeeking(gs_)
Steps == \A a \in Actions(gs_) : /\ a.do = "deref" => G!ReadInGrant(gs_, a)
                                 /\ G!ReturnFrozen(gs_, a) /\ G!OfferNarrows(gs_, a)
=============================================================================
