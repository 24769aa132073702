------------------------------ MODULE Pointers ------------------------------
(***************************************************************************)
(* Life of fat pointers in VM registers: creation over a heap slice with    *)
(* validation, ptr.add/sub/shrink/pack, forwarding through calls and        *)
(* returns, dereferencing.  Numbers are digit sequences of D digits in base *)
(* B: B = 65536, D = 2 are the real 32-bit words (used for recorded         *)
(* traces), small B and D = 1 make the machine exhaustively explorable.     *)
(* A register also remembers the grant: the slice given at creation.        *)
(***************************************************************************)
EXTENDS Words, TLC
CONSTANTS B, D, Read, DerefSlack     \* bytes per read (32), slack of the deref limit (33)

Zero == [i \in 1 .. D |-> 0]
Num(n) == [i \in 1 .. D |-> (n \div (B ^ (i - 1))) % B]        \* small n
Lt_(a, b) == Lt(a, b, B)
Le_(a, b) == Le(a, b, B)
Plus(a, b) == AddWrap(a, b, B)
Minus(a, b) == SubWrap(a, b, B)
Ovf(a, b) == AddOverflows(a, b, B)
Min_(a, b) == IF Lt_(a, b) THEN a ELSE b
AllOnes == [i \in 1 .. D |-> B - 1]
\* highest offset that may be dereferenced: 2^32 - 33
DerefLimit == Minus(AllOnes, Num(DerefSlack - 1))

(* ---- the checks themselves ---- *)
BadFresh(p, fresh) == fresh /\ ~IsZero(p.offset)
BadEnd(p) == Ovf(p.start, p.length)
ValidateBits(p, fresh) == (IF BadFresh(p, fresh) THEN 1 ELSE 0) + (IF BadEnd(p) THEN 2 ELSE 0)
Valid(p, fresh) == ValidateBits(p, fresh) = 0
InBounds(p) == Lt_(p.offset, p.length)
ValidSlice(p) == Le_(p.offset, p.length)
Trivial(p) == IsZero(p.offset) /\ IsZero(p.length)

EmptyPtr == [offset |-> Zero, page |-> Zero, start |-> Zero, length |-> Zero]
\* a register: pointer mark, components, grant (meaningful when marked), upper half kept by pack
NoReg == [isPtr |-> FALSE, p |-> EmptyPtr, gs |-> Zero, gl |-> Zero]

\* outcome of an instruction: "ok", or the reason it panics
Res(reg, out) == [reg |-> reg, out |-> out]

Create(p) ==          \* far call / return with heap data: must be fresh and not wrap
  IF ~Valid(p, TRUE) \/ ~ValidSlice(p) THEN Res(NoReg, "invalid")
  ELSE Res([isPtr |-> TRUE, p |-> p, gs |-> p.start, gl |-> p.length], "ok")
Forward(r) ==         \* pass an existing pointer on: what is left of its slice
  IF ~r.isPtr THEN Res(NoReg, "not-a-pointer")
  ELSE IF ~Valid(r.p, FALSE) \/ ~ValidSlice(r.p) THEN Res(NoReg, "invalid")
  ELSE Res([r EXCEPT !.p.start = Plus(r.p.start, r.p.offset), !.p.length = Minus(r.p.length, r.p.offset),
                     !.p.offset = Zero], "ok")
\* big: the 256-bit operand does not fit the offset limit
PtrAdd(r, d, big) ==
  IF ~r.isPtr THEN Res(r, "not-a-pointer")
  ELSE IF big \/ Ovf(r.p.offset, d) THEN Res(r, "overflow")
  ELSE Res([r EXCEPT !.p.offset = Plus(@, d)], "ok")
PtrSub(r, d, big) ==
  IF ~r.isPtr THEN Res(r, "not-a-pointer")
  ELSE IF big \/ Lt_(r.p.offset, d) THEN Res(r, "overflow")
  ELSE Res([r EXCEPT !.p.offset = Minus(@, d)], "ok")
PtrShrink(r, d, big) ==
  IF ~r.isPtr THEN Res(r, "not-a-pointer")
  ELSE IF big \/ Lt_(r.p.length, d) THEN Res(r, "overflow")
  ELSE Res([r EXCEPT !.p.length = Minus(@, d)], "ok")
\* pack joins foreign upper bits to the pointer and must leave the pointer alone
PtrPack(r) == IF ~r.isPtr THEN Res(r, "not-a-pointer") ELSE Res(r, "ok")

\* bytes touched by a read: [from, from + n), n = 0 when nothing is accessed
DerefOut(r) ==
  IF ~r.isPtr THEN "not-a-pointer"
  ELSE IF Lt_(DerefLimit, r.p.offset) THEN "beyond-limit" ELSE "ok"
Touched(r) ==
  IF DerefOut(r) # "ok" \/ ~InBounds(r.p) THEN [from |-> Zero, n |-> Zero]
  ELSE [from |-> Plus(r.p.start, r.p.offset), n |-> Min_(Num(Read), Minus(r.p.length, r.p.offset))]

(* ---- the machine: two registers ---- *)
VARIABLES regs, last       \* last: outcome and touched bytes of the last instruction
Regs == {1, 2}
Digits == [1 .. D -> 0 .. (B - 1)]
AllPtrs == [offset : Digits, page : {Zero}, start : Digits, length : Digits]
Idle == [from |-> Zero, n |-> Zero, gs |-> Zero, gl |-> Zero]

PInit == regs = [i \in Regs |-> NoReg] /\ last = Idle
Put(i, res) == regs' = [regs EXCEPT ![i] = res.reg] /\ last' = Idle
PNext ==
  \/ \E i \in Regs, p \in AllPtrs : Put(i, Create(p))
  \/ \E i, j \in Regs : Put(j, Forward(regs[i]))
  \/ \E i \in Regs, d \in Digits, big \in BOOLEAN :
       Put(i, PtrAdd(regs[i], d, big)) \/ Put(i, PtrSub(regs[i], d, big)) \/ Put(i, PtrShrink(regs[i], d, big))
  \/ \E i \in Regs : Put(i, PtrPack(regs[i]))
  \/ \E i \in Regs :
       LET t == Touched(regs[i])
       IN last' = [from |-> t.from, n |-> t.n, gs |-> regs[i].gs, gl |-> regs[i].gl] /\ UNCHANGED regs
PSpec == PInit /\ [][PNext]_<<regs, last>>

(* ---- what must hold ---- *)
\* the slice of a pointer never leaves its grant, and no end wraps
SliceInGrant(r) ==
  r.isPtr => /\ ~Ovf(r.p.start, r.p.length)
             /\ ~Ovf(r.gs, r.gl)
             /\ Le_(r.gs, r.p.start)
             /\ Le_(Plus(r.p.start, r.p.length), Plus(r.gs, r.gl))
GrantRespected == \A i \in Regs : SliceInGrant(regs[i])
DerefInGrant ==
  ~IsZero(last.n) =>
    /\ ~Ovf(last.from, last.n)
    /\ Le_(last.gs, last.from)
    /\ Le_(Plus(last.from, last.n), Plus(last.gs, last.gl))
\* after a permitted dereference the incremented offset still fits a word
IncrementFits ==
  \A i \in Regs : DerefOut(regs[i]) = "ok" => ~Ovf(regs[i].p.offset, Num(Read))
\* forwarding gives a sub-slice of what the forwarded pointer had left
ForwardNarrows ==
  \A i \in Regs :
    LET f == Forward(regs[i])
    IN f.out = "ok" => /\ Le_(regs[i].p.start, f.reg.p.start)
                       /\ Le_(Plus(f.reg.p.start, f.reg.p.length), Plus(regs[i].p.start, regs[i].p.length))
                       /\ IsZero(f.reg.p.offset)
                       /\ ValidSlice(f.reg.p)
OnlyTrivialIsEmpty == \A i \in Regs : Trivial(regs[i].p) => ~InBounds(regs[i].p) /\ ValidSlice(regs[i].p)
=============================================================================
