---------------------------- MODULE TraceEffects ----------------------------
(***************************************************************************)
(* Recorded histories of calls, log and context instructions on the real    *)
(* definitions.  Each log line is [mode, addr, gone, late, steps |-> sequence of        *)
(* [a |-> [word, w0, w1, w2], r]].                                          *)
(***************************************************************************)
EXTENDS Effects, Codec, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at_, st
StepAt == Log[sess].steps[at_]
ActOf(a) == [x |-> Decode(Log[sess].mode, a.word).variant, w0 |-> a.w0, w1 |-> a.w1, w2 |-> a.w2]
TInit == sess \in 1 .. Len(Log) /\ at_ = 1 /\ st = Begin(Log[sess].addr, Log[sess].gone, Log[sess].late)
TNext == /\ at_ <= Len(Log[sess].steps) /\ ~Over(st)
         /\ \E a \in {ActOf(StepAt.a)} : st' = Do(st, a)
         /\ at_' = at_ + 1 /\ UNCHANGED sess
TSpec == TInit /\ [][TNext]_<<sess, at_, st>>
Conforms ==
  at_ <= Len(Log[sess].steps) =>
    /\ ~Over(st)
    /\ StepAt.r.k = "ok"
    /\ \E a \in {ActOf(StepAt.a)} : \E t \in {Do(st, a)} : StepAt.r.v = Seen(st, a, t) /\ EffectStep(st, a, t)
Safe == EffectState(st)
=============================================================================
