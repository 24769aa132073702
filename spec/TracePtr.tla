------------------------------ MODULE TracePtr ------------------------------
(***************************************************************************)
(* Recorded pointer sessions of the real code: each log line is one session *)
(* [steps |-> sequence of [a, r]]; the observed results must be those of    *)
(* the specification, and every state reached must be safe.                 *)
(***************************************************************************)
EXTENDS PtrSession, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, pos
TInit == SInit /\ sess \in 1 .. Len(Log) /\ pos = 1
Steps == Log[sess].steps
TNext == /\ pos <= Len(Steps)
         /\ Apply(Steps[pos].a) /\ pos' = pos + 1 /\ UNCHANGED sess
TSpec == TInit /\ [][TNext]_<<sv, sess, pos>>
Conforms == pos <= Len(Steps) => Steps[pos].r.k = "ok" /\ Steps[pos].r.v = Observable(Steps[pos].a)
=============================================================================
