----------------------------- MODULE MC_Deploy -----------------------------
(***************************************************************************)
(* All histories (of any length) of Deploy with ideal hashes (records that contain the      *)
(* code), a foreign word and an unknown marker.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Accounts
Codes == {<<1>>, <<2>>, <<1, 2, 1>>, <<1, 2>>}
VARIABLE st
Ideal(c) == [version |-> 1, marker |-> 0, size |-> Len(c), id |-> c]
D == INSTANCE Deploy WITH
  Publishable <- LAMBDA c : Len(c) % 2 = 1, HashOf_ <- Ideal,
  Recognised <- LAMBDA w : w.version = 1, MarkerOf <- LAMBDA w : w.marker, LengthOf <- LAMBDA w : w.size,
  AtRestForm <- LAMBDA w : [w EXCEPT !.marker = 0], MarkedForm <- LAMBDA w, m : [w EXCEPT !.marker = m],
  SizeOf <- LAMBDA c : Len(c), InsAt <- LAMBDA c, pc : IF pc < Len(c) THEN c[pc + 1] ELSE 0
Words == {[Ideal(c) EXCEPT !.marker = m, !.version = v] : c \in Codes, m \in {0, 1, 2}, v \in {0, 1}}
Actions ==
  {[do |-> "publish", code |-> c] : c \in Codes}
  \cup {[do |-> d, at |-> x, word |-> w] : d \in {"begin", "write"}, x \in Accounts, w \in Words}
  \cup {[do |-> "finish", at |-> x] : x \in Accounts}
  \cup {[do |-> "call", at |-> x, ctor |-> b] : x \in Accounts, b \in BOOLEAN}
Init == st = D!Empty
Next == \E a \in Actions : st' = D!Do(st, a)
Spec == Init /\ [][Next]_st
KnownExact == D!KnownExact(st)
AccountsExact == D!AccountsExact(st)
CallsExact == \A a \in Actions : /\ a.do = "call" => D!CallExact(st, a)
                                 /\ a.do = "finish" => D!FinishExact(st, a)
\* what runs is what was published, read instruction by instruction
RunsPublished ==
  st.running.some => \A pc \in 0 .. 4 :
    D!Reply(st, [do |-> "fetch", pc |-> pc]) = D!Just(IF pc < Len(st.running.v) THEN st.running.v[pc + 1] ELSE 0)
=============================================================================
