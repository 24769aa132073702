----------------------------- MODULE MC_Effects -----------------------------
(***************************************************************************)
(* All histories of a few instructions between a privileged and an ordinary *)
(* contract.  `snaps` (ghost) is the meaning of the log when each live      *)
(* frame was entered; `quiet` the meaning when the outermost static frame   *)
(* was.                                                                     *)
(***************************************************************************)
EXTENDS Effects
CONSTANT Cycles
VARIABLES st, snaps, quiet, done
User == <<0, 1, 0, 0>>
System == <<2, 0, 0, 0>>
Val(n) == <<n>> \o ZeroWord(15)
X(fam, sub, a, b) == [fam |-> fam, sub |-> sub, flags |-> <<a, b>>]
A(x, w0, w1) == [x |-> x, w0 |-> w0, w1 |-> w1, w2 |-> <<7, 0, 0, 0>>]
ShardWord == [ZeroWord(16) EXCEPT ![15] = 256 * 3]
Actions == TLCEval(
  {A(X("Log", "StorageWrite", FALSE, FALSE), Val(1), Val(n)) : n \in {1, 2}}
  \cup {A(X("Log", s, TRUE, FALSE), Val(3), Val(4)) : s \in {"Event", "ToL1Message", "PrecompileCall"}}
  \cup {A(X("Context", s, FALSE, FALSE), Val(9), ZeroWord(16)) : s \in {"IncrementTxNumber", "SetErgsPerPubdataByte", "SetContextU128"}}
  \cup {A(X("FarCall", s, b, s = "Normal"), ShardWord, d \o ZeroWord(12)) : s \in {"Normal", "Delegate"}, b \in BOOLEAN, d \in {User, System}}
  \cup {A(X("NearCall", "NearCall", FALSE, FALSE), ZeroWord(16), ZeroWord(16))}
  \cup {A(X("FarCall", "Mimic", FALSE, FALSE), ShardWord, User \o ZeroWord(12))}
  \cup {A(X("Ret", s, FALSE, FALSE), ZeroWord(16), ZeroWord(16)) : s \in {"Ok", "Revert", "Panic"}})
Static(s) == ~Over(s) /\ Me(s).static
Init == \E who \in {User, System} : st = Begin(who, IF who = User THEN 0 ELSE 8000, 0) /\ snaps = << WorldOf(<< >>) >> /\ quiet = Nothing /\ done = 0
Next ==
  /\ done < Cycles /\ ~Over(st) /\ done' = done + 1
  /\ \E a \in Actions : \E t \in {Do(st, a)} :
       /\ st' = t
       /\ snaps' = IF Len(t.stack) > Len(st.stack) THEN Append(snaps, WorldOf(st.log))
                   ELSE IF Len(t.stack) < Len(st.stack) THEN SubSeq(snaps, 1, Len(snaps) - 1) ELSE snaps
       /\ quiet' = IF Static(t) /\ ~Static(st) THEN Just(WorldOf(st.log)) ELSE IF ~Static(t) THEN Nothing ELSE quiet
Spec == Init /\ [][Next]_<<st, snaps, quiet, done>>
StateOK == EffectState(st)
StepOK == \A a \in Actions : Over(st) \/ done = Cycles \/ \E t \in {Do(st, a)} :
  /\ EffectStep(st, a, t)
  \* against the ghost: a failed frame leaves the world as it found it
  /\ Ran(st, a)[1] = "Ret" /\ Ran(st, a)[2] # "Ok" => WorldOf(t.log) = snaps[Len(snaps)]
StaticKept == quiet.some => WorldOf(st.log) = quiet.v
=============================================================================
