----------------------------- MODULE PtrSession -----------------------------
(***************************************************************************)
(* One instruction of a pointer session over real 256-bit register words:   *)
(* arguments as recorded or generated, effect by Pointers at B = 65536,     *)
(* D = 2.  Besides the pointer a register keeps the upper half of its word. *)
(***************************************************************************)
EXTENDS Abi, SequencesExt
VARIABLES regs, last, hi      \* hi: upper halves of the two registers
PP == INSTANCE Pointers WITH B <- LB, D <- 2, Read <- 32, DerefSlack <- 33
sv == <<regs, last, hi>>

Zero8 == ZeroWord(8)
Big(d) == \E k \in 3 .. 16 : d[k] # 0          \* operand of 2^32 or more
Low2(d) == SubSeq(d, 1, 2)
\* result of instruction a: new register, new upper half, outcome, bytes touched
Effect(a) ==
  LET i == a.reg
      Out(res, h) == [reg |-> res.reg, hi |-> h, out |-> res.out, touch |-> PP!Idle]
  IN CASE a.do = "create" -> Out(PP!Create(FatPtrOf(a.w)), Zero8)
       [] a.do = "forward" -> Out(PP!Forward(regs[i]), Zero8)
       [] a.do = "add" -> Out(PP!PtrAdd(regs[i], Low2(a.w), Big(a.w)), hi[i])
       [] a.do = "sub" -> Out(PP!PtrSub(regs[i], Low2(a.w), Big(a.w)), hi[i])
       [] a.do = "shrink" -> Out(PP!PtrShrink(regs[i], Low2(a.w), Big(a.w)), hi[i])
       [] a.do = "pack" -> LET r == PP!PtrPack(regs[i])
                           IN Out(r, IF r.out = "ok" THEN SubSeq(a.w, 9, 16) ELSE hi[i])
       [] a.do = "deref" -> LET t == PP!Touched(regs[i])
                            IN [reg |-> regs[i], hi |-> hi[i], out |-> PP!DerefOut(regs[i]),
                                touch |-> [from |-> t.from, n |-> t.n, gs |-> regs[i].gs, gl |-> regs[i].gl]]
Dest(a) == IF a.do = "forward" THEN a.to ELSE a.reg
SInit == regs = [i \in {1, 2} |-> PP!NoReg] /\ last = PP!Idle /\ hi = [i \in {1, 2} |-> Zero8]
Apply(a) ==
  LET e == Effect(a)
  IN /\ regs' = [regs EXCEPT ![Dest(a)] = e.reg]
     /\ hi' = [hi EXCEPT ![Dest(a)] = e.hi]
     /\ last' = e.touch
\* what an observer of the real code sees after the instruction
WordOf(r, h) == IF r.isPtr THEN SubSeq(PackFatPtr(r.p), 1, 8) \o h ELSE ZeroWord(16)
Observable(a) ==
  LET e == Effect(a)
  IN [out |-> e.out, isPtr |-> e.reg.isPtr, word |-> WordOf(e.reg, e.hi), from |-> e.touch.from, n |-> e.touch.n]
Safe == PP!GrantRespected /\ PP!DerefInGrant /\ PP!IncrementFits /\ PP!ForwardNarrows
=============================================================================
