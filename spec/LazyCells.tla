----------------------------- MODULE LazyCells -----------------------------
(***************************************************************************)
(* The observable side of the shared tables: a thread calls for a cell and  *)
(* later gets its one value.  LazyInit refines this; recorded sessions of   *)
(* the real tables are checked against it by TraceLazy.                     *)
(***************************************************************************)
CONSTANTS Threads, Names
VARIABLE pend
Init == pend = [t \in Threads |-> "-"]
Call(t, c) == pend[t] = "-" /\ pend' = [pend EXCEPT ![t] = c]
Ret(t, c) == pend[t] = c /\ pend' = [pend EXCEPT ![t] = "-"]
Next == \E t \in Threads : \E c \in Names : Call(t, c) \/ Ret(t, c)
Spec == Init /\ [][Next]_pend
=============================================================================
