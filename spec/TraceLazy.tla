----------------------------- MODULE TraceLazy -----------------------------
(***************************************************************************)
(* Recorded sessions (fresh processes touching the shared tables in chosen  *)
(* orders) against LazyCells: every call returns, returns the cell's one    *)
(* value, and the session ends with nobody waiting.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
NSes == Len(Log)
Strands == 16
MaxT == 16
VARIABLES ses, at, pend, ok
L == INSTANCE LazyCells WITH Threads <- 1 .. MaxT, Names <- {}
NoOne == [t \in 1 .. MaxT |-> "-"]
TInit == ses \in 1 .. (IF NSes < Strands THEN NSes ELSE Strands) /\ at = 0 /\ pend = NoOne /\ ok = (Log[ses].end = "done")
Steps == Log[ses].steps
Step ==
  /\ ok /\ at < Len(Steps)
  /\ LET e == Steps[at + 1]
     IN IF e.e = "call" THEN
          IF ENABLED L!Call(e.t, e.cell) THEN L!Call(e.t, e.cell) /\ ok' = TRUE ELSE ok' = FALSE /\ pend' = pend
        ELSE
          IF pend[e.t] = e.cell /\ e.same THEN L!Ret(e.t, e.cell) /\ ok' = TRUE ELSE ok' = FALSE /\ pend' = pend
  /\ at' = at + 1 /\ ses' = ses
NextSession ==
  /\ ok /\ at = Len(Steps) /\ pend = NoOne /\ ses + Strands <= NSes
  /\ ses' = ses + Strands /\ at' = 0 /\ pend' = NoOne /\ ok' = (Log[ses + Strands].end = "done")
TNext == Step \/ NextSession
TSpec == TInit /\ [][TNext]_<<ses, at, pend, ok>>
Accepted == ok /\ (at = Len(Steps) => pend = NoOne)
=============================================================================
