---------------------------- MODULE TraceGrants ----------------------------
(***************************************************************************)
(* Recorded histories of calls, returns and pointer use on the real         *)
(* definitions: each log line is [gone |-> calls made before, steps |->       *)
(* sequence of [a, r]].                                                     *)
(***************************************************************************)
EXTENDS GrantWords, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at_, st
StepAt == Log[sess].steps[at_]
TInit == sess \in 1 .. Len(Log) /\ at_ = 1 /\ st = GW!Later(Log[sess].gone)
TNext == /\ at_ <= Len(Log[sess].steps)
         /\ \E act \in {ActionOn(st, StepAt.a)} : st' = GW!Move(st, act).s
         /\ at_' = at_ + 1 /\ UNCHANGED sess
TSpec == TInit /\ [][TNext]_<<sess, at_, st>>
Conforms ==
  at_ <= Len(Log[sess].steps) =>
    /\ StepAt.r.k = "ok"
    /\ \E act \in {ActionOn(st, StepAt.a)} : \E m \in {GW!Move(st, act)} :
         StepAt.r.v = SeenAfter(st, act, m) /\ StepSafe(st, act)
Safe == StateSafe(st)
=============================================================================
