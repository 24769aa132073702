----------------------------- MODULE GrantWords -----------------------------
(***************************************************************************)
(* Grants at full width, with operands as 256-bit words.  An action names   *)
(* register 1 or 2 (`hi` is the upper half packed into it before a call or  *)
(* return), or register 0: the plain integer `w`.                           *)
(***************************************************************************)
EXTENDS Abi, Counters
GDepth == 6
GW == INSTANCE Grants WITH B <- LB, D <- 2, Read <- 32, DerefSlack <- 33, FirstBase <- BootPage, NextBase <- FirstPage,
                           PagesPerFrame <- PagesPerCall, HeapSlot <- 2, AuxSlot <- 3, DepthLimit <- GDepth
PageLimbs(n) == << n % LB, n \div LB >>
PtrWord(r) ==     \* lower half of the register, zero unless a pointer
  IF r.isPtr THEN SubSeq(PackFatPtr([r.p EXCEPT !.page = PageLimbs(@)]), 1, 8) ELSE ZeroWord(8)
\* forwarding mode as call and return words tell it
FwdOf(a, w) == IF a.do = "call" THEN FarCallOf(w).fwd ELSE RetOf(w).fwd
OperandOf(s, a) ==
  IF a.reg = 0
  THEN [fwd |-> FwdOf(a, a.w), isPtr |-> FALSE, p |-> [FatPtrOf(a.w) EXCEPT !.page = 0], gs |-> <<0, 0>>, gl |-> <<0, 0>>]
  ELSE LET r == GW!Last_(s).regs[a.reg]
       IN [fwd |-> FwdOf(a, PtrWord(r) \o a.hi), isPtr |-> r.isPtr, p |-> r.p, gs |-> r.gs, gl |-> r.gl]
ActionOn(s, a) ==
  CASE a.do \in {"call", "ret"} -> [do |-> a.do, reg |-> 1, o |-> OperandOf(s, a)]
    [] a.do \in {"add", "sub", "shrink"} ->
         [do |-> a.do, reg |-> a.reg, d |-> SubSeq(a.w, 1, 2), big |-> \E k \in 3 .. 16 : a.w[k] # 0]
    [] a.do = "panic" -> [do |-> "panic", reg |-> 1]
    [] OTHER -> [do |-> a.do, reg |-> a.reg]
\* what an observer sees: outcome, depth, pages, the registers of the running frame, bytes touched
SeenAfter(s, act, m) ==
  [out |-> m.out, depth |-> Len(m.s.stack), base |-> GW!Last_(m.s).base, pages |-> m.s.pages,
   ptr |-> [k \in 1 .. 2 |-> GW!Last_(m.s).regs[k].isPtr], word |-> [k \in 1 .. 2 |-> PtrWord(GW!Last_(m.s).regs[k])],
   page |-> IF act.do = "deref" /\ ~IsZero(GW!Touch(s, act).n) THEN GW!Last_(s).regs[act.reg].p.page ELSE 0,
   from |-> IF act.do = "deref" THEN GW!Touch(s, act).from ELSE <<0, 0>>,
   n |-> IF act.do = "deref" THEN GW!Touch(s, act).n ELSE <<0, 0>>]
StepSafe(s, act) ==
  /\ act.do = "deref" => GW!ReadInGrant(s, act)
  /\ GW!ReturnFrozen(s, act) /\ GW!OfferNarrows(s, act)
StateSafe(s) == GW!WithinGrants(s) /\ GW!Apart(s) /\ GW!NoPeeking(s)
=============================================================================
