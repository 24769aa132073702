----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Recorded histories of hash and tree maps keyed by values of the real      *)
(* code: each log line is one session; both maps must answer like the ghost  *)
(* map of KeyedStore, whose keys are the contents the harness put into the   *)
(* key.                                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, pos, ghost
\* the ghost part of KeyedStore; the stores themselves are the real ones
K == INSTANCE KeyedStore WITH Contents <- {}, Buckets <- {}, Copies <- {}, Vals <- {}, hashOf <- <<>>, rankOf <- <<>>,
                              hashed <- <<>>, tree <- <<>>, reply <- <<>>
Steps == Log[sess].steps
\* contents of a line are numbered by their first occurrence in it
NumberIn(c) == CHOOSE n \in 1 .. Len(Steps) : Steps[n].a.key = c /\ \A j \in 1 .. n - 1 : Steps[j].a.key # c
TInit == sess \in 1 .. Len(Log) /\ pos = 1 /\ ghost = [c \in {} |-> 0]
TNext ==
  /\ pos <= Len(Steps) /\ pos' = pos + 1 /\ UNCHANGED sess
  /\ LET a == Steps[pos].a c == NumberIn(a.key)
     IN ghost' = (CASE a.do = "put" -> K!GPut(c, a.val) [] a.do = "del" -> K!GDel(c) [] OTHER -> ghost)
TSpec == TInit /\ [][TNext]_<<sess, pos, ghost>>
Conforms ==
  pos <= Len(Steps) =>
    LET s == Steps[pos] c == NumberIn(s.a.key)
        after == CASE s.a.do = "put" -> DOMAIN ghost \cup {c} [] s.a.do = "del" -> DOMAIN ghost \ {c} [] OTHER -> DOMAIN ghost
    IN /\ s.r.k = "ok"
       /\ s.r.v.hash = K!GGet(c) /\ s.r.v.tree = K!GGet(c)
       /\ s.r.v.size = Cardinality(after) /\ s.r.v.treeSize = Cardinality(after)
=============================================================================
