---------------------------- MODULE Ind_Pointers ----------------------------
(***************************************************************************)
(* The fat-pointer machine of Pointers.tla over plain integers, for words of*)
(* any size W; Apalache checks at W = 2^32 that Inv is inductive (one       *)
(* symbolic step from any state satisfying it), so no history of any length *)
(* leaves a grant.  PtrBridge.tla lets TLC check that the machine of        *)
(* Pointers.tla refines this one.  ReadLen: bytes per access; Limit: highest*)
(* offset that may be dereferenced.                                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  W,
  \* @type: Int;
  ReadLen,
  \* @type: Int;
  Limit

VARIABLES
  \* @type: Int -> { isPtr: Bool, off: Int, start: Int, len: Int, gs: Int, gl: Int };
  r,
  \* @type: { from: Int, n: Int, gs: Int, gl: Int };
  touched
vars == <<r, touched>>

Ids == {1, 2}
Word == 0 .. (W - 1)
Nothing == [from |-> 0, n |-> 0, gs |-> 0, gl |-> 0]
NoPtr == [isPtr |-> FALSE, off |-> 0, start |-> 0, len |-> 0, gs |-> 0, gl |-> 0]
EndFits(s, l) == s + l < W
Smaller(a, b) == IF a < b THEN a ELSE b

Init == r = [i \in Ids |-> NoPtr] /\ touched = Nothing

Create == \E i \in Ids, s \in Word, l \in Word :
  /\ EndFits(s, l)                                   \* fresh: offset zero
  /\ r' = [r EXCEPT ![i] = [isPtr |-> TRUE, off |-> 0, start |-> s, len |-> l, gs |-> s, gl |-> l]]
  /\ touched' = Nothing
Forward == \E i \in Ids, j \in Ids :
  /\ r[i].isPtr /\ EndFits(r[i].start, r[i].len) /\ r[i].off <= r[i].len
  /\ r' = [r EXCEPT ![j] = [isPtr |-> TRUE, off |-> 0, start |-> r[i].start + r[i].off, len |-> r[i].len - r[i].off,
                            gs |-> r[i].gs, gl |-> r[i].gl]]
  /\ touched' = Nothing
Refuse == \E i \in Ids : r' = [r EXCEPT ![i] = NoPtr] /\ touched' = Nothing
Fail == r' = r /\ touched' = Nothing
Add == \E i \in Ids, d \in Word :
  r[i].isPtr /\ r[i].off + d < W /\ r' = [r EXCEPT ![i].off = r[i].off + d] /\ touched' = Nothing
Sub == \E i \in Ids, d \in Word :
  r[i].isPtr /\ d <= r[i].off /\ r' = [r EXCEPT ![i].off = r[i].off - d] /\ touched' = Nothing
Shrink == \E i \in Ids, d \in Word :
  r[i].isPtr /\ d <= r[i].len /\ r' = [r EXCEPT ![i].len = r[i].len - d] /\ touched' = Nothing
Access(i) ==
  IF r[i].off < r[i].len
  THEN [from |-> r[i].start + r[i].off, n |-> Smaller(ReadLen, r[i].len - r[i].off), gs |-> r[i].gs, gl |-> r[i].gl]
  ELSE [from |-> 0, n |-> 0, gs |-> r[i].gs, gl |-> r[i].gl]
Deref == \E i \in Ids :
  /\ r[i].isPtr /\ r[i].off <= Limit
  /\ touched' = Access(i)
  /\ r' = r \/ r' = [r EXCEPT ![i].off = r[i].off + ReadLen]
DerefRefused == \E i \in Ids :
  r' = r /\ touched' = [from |-> 0, n |-> 0, gs |-> r[i].gs, gl |-> r[i].gl]
Next == Create \/ Forward \/ Refuse \/ Fail \/ Add \/ Sub \/ Shrink \/ Deref \/ DerefRefused
Spec == Init /\ [][Next]_vars

TypeOK ==
  /\ \A i \in Ids : /\ r[i].off \in Word /\ r[i].start \in Word /\ r[i].len \in Word
                    /\ r[i].gs \in Word /\ r[i].gl \in Word
  /\ touched.from \in Word /\ touched.n \in Word /\ touched.gs \in Word /\ touched.gl \in Word
SliceInGrant == \A i \in Ids :
  r[i].isPtr => /\ EndFits(r[i].start, r[i].len) /\ EndFits(r[i].gs, r[i].gl)
                /\ r[i].gs <= r[i].start /\ r[i].start + r[i].len <= r[i].gs + r[i].gl
TouchedInGrant ==
  touched.n > 0 => /\ EndFits(touched.from, touched.n) /\ touched.gs <= touched.from
                   /\ touched.from + touched.n <= touched.gs + touched.gl
Inv == TypeOK /\ SliceInGrant /\ TouchedInGrant

\* any state that satisfies Inv
\* @type: () => Bool;
IndInit ==
  /\ \E b1 \in BOOLEAN, b2 \in BOOLEAN : \E o1 \in Int, o2 \in Int, s1 \in Int, s2 \in Int, l1 \in Int, l2 \in Int,
        g1 \in Int, g2 \in Int, h1 \in Int, h2 \in Int :
       r = [i \in Ids |-> IF i = 1 THEN [isPtr |-> b1, off |-> o1, start |-> s1, len |-> l1, gs |-> g1, gl |-> h1]
                          ELSE [isPtr |-> b2, off |-> o2, start |-> s2, len |-> l2, gs |-> g2, gl |-> h2]]
  /\ \E f \in Int, n \in Int, g \in Int, h \in Int : touched = [from |-> f, n |-> n, gs |-> g, gl |-> h]
  /\ Inv
=============================================================================
