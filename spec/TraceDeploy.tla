---------------------------- MODULE TraceDeploy ----------------------------
(***************************************************************************)
(* Recorded life cycles of contract code: assembled, hashed, bound, called  *)
(* and fetched by the real definitions.  Each log line is one session       *)
(* [mode, steps |-> sequence of [a, r]].                                    *)
(***************************************************************************)
EXTENDS DeployWords, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, at_, st
dvars == <<sess, at_, st>>
StepAt == Log[sess].steps[at_]
\* an instruction is given decoded; the specification encodes it
CodeIn(a) ==
  [mode |-> Log[sess].mode, n |-> a.n, digest |-> a.digest,
   pool |-> TLCEval([k \in 1 .. Len(a.ins) |-> Encode(Log[sess].mode, a.ins[k])])]
ActionOf(a) ==
  CASE a.do = "publish" -> [do |-> "publish", code |-> CodeIn(a)]
    [] a.do = "call" -> [do |-> "call", at |-> a.at, ctor |-> FarCallOf(a.abi).ctor]
    [] OTHER -> a
TInit == sess \in 1 .. Len(Log) /\ at_ = 1 /\ st = DW!Empty
TNext == /\ at_ <= Len(Log[sess].steps)
         /\ \E act \in {ActionOf(StepAt.a)} : st' = DW!Do(st, act)
         /\ at_' = at_ + 1 /\ UNCHANGED sess
TSpec == TInit /\ [][TNext]_dvars
\* a published page holds exactly the given instructions; audited pages are hashed here (SHA-256 in TLC is slow),
\* the digests of the others come from the reference implementation
PageOK(a, page) ==
  a.n <= Small => /\ \E c \in {CodeIn(a)} : page = PageOf(c)
                  /\ a.audit => DigestOf(page) = a.digest
Conforms ==
  at_ <= Len(Log[sess].steps) =>
    /\ StepAt.r.k = "ok"
    /\ StepAt.a.do = "publish" => PageOK(StepAt.a, StepAt.r.v.page)
    /\ \E act \in {ActionOf(StepAt.a)} :
         (IF StepAt.a.do = "publish" THEN StepAt.r.v.hash ELSE StepAt.r.v) = DW!Reply(st, act)
\* accounts and calls keep their meaning along the way (the guarantees of Deploy, cheaply)
Exact == at_ <= Len(Log[sess].steps) =>
  /\ StepAt.a.do = "call" => DW!CallExact(st, ActionOf(StepAt.a))
  /\ StepAt.a.do = "finish" => DW!FinishExact(st, StepAt.a)
=============================================================================
