----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Recorded calls of the real code (one JSON object per line) against the   *)
(* oracle.  Calls are independent, so the log is walked from several        *)
(* starting points at once; a call the specification refuses violates       *)
(* Accepted.                                                                *)
(***************************************************************************)
EXTENDS Oracle, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
LogLen == Len(Log)
Strands == 16
VARIABLE tl
TInit == tl \in 1 .. (IF LogLen < Strands THEN LogLen ELSE Strands)
TNext == tl + Strands <= LogLen /\ tl' = tl + Strands
TSpec == TInit /\ [][TNext]_tl
Accepted == Accept(Log[tl])
=============================================================================
