------------------------------- MODULE Grants -------------------------------
(***************************************************************************)
(* Memory between frames.  A frame owns a heap and an auxiliary heap; all   *)
(* other memory it reaches only through fat pointers handed over by calls   *)
(* (a range of the caller's memory, or what is left of a pointer the caller *)
(* holds) and by returns.  Each frame has two registers: the first receives *)
(* what is handed over, the second survives calls (a stack slot).           *)
(* Numbers are digit sequences as in Pointers; pages are naturals.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS B, D, Read, DerefSlack, FirstBase, NextBase, PagesPerFrame, HeapSlot, AuxSlot, DepthLimit
PT == INSTANCE Pointers WITH regs <- << >>, last <- << >>

\* a register: pointer mark, pointer, and (ghost) the range the owner of the page once handed over
None_ == [isPtr |-> FALSE, p |-> [offset |-> PT!Zero, page |-> 0, start |-> PT!Zero, length |-> PT!Zero], gs |-> PT!Zero, gl |-> PT!Zero]
HeapPage(base) == base + HeapSlot
AuxPage(base) == base + AuxSlot
Frame_(base, r) == [base |-> base, regs |-> <<r, None_>>]
Begin_ == [stack |-> <<Frame_(FirstBase, None_)>>, pages |-> NextBase]
\* the same after k calls that have returned nothing
Later(k) == [Begin_ EXCEPT !.pages = @ + k * PagesPerFrame]
Last_(s) == s.stack[Len(s.stack)]
Owner(s, page) == {i \in DOMAIN s.stack : page \in {HeapPage(s.stack[i].base), AuxPage(s.stack[i].base)}}

\* what a call or return of frame f hands over: the operand o = [fwd, isPtr, p, gs, gl] holds the range; nothing if it is not in order
Offer(f, o, back) ==
  IF o.fwd = "ForwardFatPointer"
  THEN IF ~o.isPtr \/ ~PT!Valid(o.p, FALSE) \/ ~PT!ValidSlice(o.p) \/ (back /\ o.p.page < f.base) THEN None_
       ELSE [isPtr |-> TRUE, gs |-> o.gs, gl |-> o.gl,
             p |-> [o.p EXCEPT !.start = PT!Plus(@, o.p.offset), !.length = PT!Minus(@, o.p.offset), !.offset = PT!Zero]]
  ELSE IF ~PT!Valid(o.p, TRUE) \/ ~PT!ValidSlice(o.p) THEN None_
       ELSE [isPtr |-> TRUE, gs |-> o.p.start, gl |-> o.p.length,
             p |-> [o.p EXCEPT !.page = IF o.fwd = "UseAuxHeap" THEN AuxPage(f.base) ELSE HeapPage(f.base)]]

SetReg(s, i, r) == [s EXCEPT !.stack[Len(s.stack)].regs[i] = r]
Pop_(s) == SubSeq(s.stack, 1, Len(s.stack) - 1)
\* actions: call/ret with operand, panic, arithmetic with digits d, copy
Move(s, a) ==
  LET f == Last_(s)
      r == f.regs[a.reg]
      arith == CASE a.do = "add" -> PT!PtrAdd(r, a.d, a.big)
                 [] a.do = "sub" -> PT!PtrSub(r, a.d, a.big)
                 [] a.do = "shrink" -> PT!PtrShrink(r, a.d, a.big)
                 [] OTHER -> [reg |-> r, out |-> PT!DerefOut(r)]
  IN CASE a.do = "call" ->
            IF Len(s.stack) >= DepthLimit THEN [s |-> s, out |-> "depth"]
            ELSE LET g == Offer(f, a.o, FALSE) IN
                 IF ~g.isPtr THEN [s |-> s, out |-> "invalid"]
                 ELSE [s |-> [s EXCEPT !.stack = Append(@, Frame_(s.pages, g)), !.pages = @ + PagesPerFrame], out |-> "ok"]
       [] a.do \in {"ret", "panic"} ->
            IF Len(s.stack) = 1 THEN [s |-> s, out |-> "bottom"]
            ELSE LET g == IF a.do = "panic" THEN None_ ELSE Offer(f, a.o, TRUE)
                     t == [s EXCEPT !.stack = Pop_(s)]
                 IN [s |-> SetReg(t, 1, g), out |-> IF a.do = "panic" \/ ~g.isPtr THEN "panic" ELSE "ok"]
       [] a.do = "copy" -> [s |-> SetReg(s, 3 - a.reg, r), out |-> "ok"]
       [] a.do = "deref" -> [s |-> s, out |-> PT!DerefOut(r)]
       [] OTHER -> [s |-> SetReg(s, a.reg, arith.reg), out |-> arith.out]

(* ---- what must hold ---- *)
\* a pointer stays within the range its page's owner handed over; a bounded range
Granted(r) ==
  r.isPtr => /\ ~PT!Ovf(r.p.start, r.p.length) /\ ~PT!Ovf(r.gs, r.gl)
             /\ PT!Le_(r.gs, r.p.start) /\ PT!Le_(PT!Plus(r.p.start, r.p.length), PT!Plus(r.gs, r.gl))
WithinGrants(s) == \A i \in DOMAIN s.stack : \A k \in {1, 2} : Granted(s.stack[i].regs[k])
\* pages of live frames are apart, and below the next free one
Apart(s) ==
  /\ \A i, j \in DOMAIN s.stack : i # j => {HeapPage(s.stack[i].base), AuxPage(s.stack[i].base)}
                                            \cap {HeapPage(s.stack[j].base), AuxPage(s.stack[j].base)} = {}
  /\ \A i \in DOMAIN s.stack : s.stack[i].base + PagesPerFrame <= s.pages
\* memory pointed at belongs to a frame below (it was passed down) or to one that is gone (it was returned, and is frozen):
\* nobody holds a pointer into the memory of the frame that runs above it
NoPeeking(s) ==
  \A i \in DOMAIN s.stack : \A k \in {1, 2} :
    LET r == s.stack[i].regs[k] IN r.isPtr => \A j \in Owner(s, r.p.page) : j < i
\* bytes a read touches
Touch(s, a) == PT!Touched(Last_(s).regs[a.reg])
ReadInGrant(s, a) ==
  LET t == Touch(s, a)
      r == Last_(s).regs[a.reg]
  IN ~PT!IsZero(t.n) => /\ ~PT!Ovf(t.from, t.n) /\ PT!Le_(r.gs, t.from)
                        /\ PT!Le_(PT!Plus(t.from, t.n), PT!Plus(r.gs, r.gl))
\* what comes back from a call does not alias memory that may still change
ReturnFrozen(s, a) ==
  a.do = "ret" => LET m == Move(s, a) IN
    m.out = "ok" => Owner(m.s, Last_(m.s).regs[1].p.page) = {}
\* handing a pointer on only narrows it
OfferNarrows(s, a) ==
  a.do \in {"call", "ret"} => LET g == Offer(Last_(s), a.o, a.do = "ret") IN
    g.isPtr /\ a.o.fwd = "ForwardFatPointer" =>
      /\ g.p.page = a.o.p.page /\ PT!Le_(a.o.p.start, g.p.start)
      /\ PT!Le_(PT!Plus(g.p.start, g.p.length), PT!Plus(a.o.p.start, a.o.p.length))
=============================================================================
