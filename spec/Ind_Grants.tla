----------------------------- MODULE Ind_Grants -----------------------------
(***************************************************************************)
(* The frames of Grants.tla over plain integers, for words of any size W and*)
(* stacks up to MaxDepth.  Apalache checks at W = 2^32 that Inv is inductive*)
(* (one symbolic step from any state satisfying it), so no history of calls,*)
(* returns and pointer instructions, however long, breaks the isolation.    *)
(* GrantsBridge lets TLC check that Grants refines this machine.            *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  W,
  \* @type: Int;
  MaxDepth,
  \* @type: Int;
  First,         \* base page of the first frame
  \* @type: Int;
  Next_,         \* first free page
  \* @type: Int;
  PerFrame,
  \* @type: Int;
  Slot,          \* heap; the auxiliary heap is next to it
  \* @type: Int;
  ReadLen,
  \* @type: Int;
  Limit

VARIABLES
  \* @type: Int;
  depth,
  \* @type: Int -> Int;
  base,
  \* @type: Int -> Int -> { isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int };
  reg,
  \* @type: Int;
  pages,
  \* @type: { page: Int, from: Int, n: Int, gs: Int, gl: Int };
  touched
vars == <<depth, base, reg, pages, touched>>

Stack == 1 .. MaxDepth
Ids == {1, 2}
Word == 0 .. (W - 1)
NoPtr == [isPtr |-> FALSE, off |-> 0, page |-> 0, start |-> 0, len |-> 0, gs |-> 0, gl |-> 0]
NoTouch == [page |-> 0, from |-> 0, n |-> 0, gs |-> 0, gl |-> 0]
Bare == [k \in Ids |-> NoPtr]
Smaller(a, b) == IF a < b THEN a ELSE b
Owns(i, p) == p = base[i] + Slot \/ p = base[i] + Slot + 1

Init == /\ depth = 1 /\ base = [i \in Stack |-> IF i = 1 THEN First ELSE 0]
        /\ reg = [i \in Stack |-> Bare] /\ pages = Next_ /\ touched = NoTouch

\* @type: (Int, Int, { isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int }) => Bool;
Put(i, k, x) == reg' = [reg EXCEPT ![i] = [reg[i] EXCEPT ![k] = x]]
\* @type: ({ isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int }) => Bool;
Enter(x) == /\ depth < MaxDepth /\ depth' = depth + 1
            /\ base' = [base EXCEPT ![depth + 1] = pages] /\ pages' = pages + PerFrame
            /\ reg' = [reg EXCEPT ![depth + 1] = [Bare EXCEPT ![1] = x]]
            /\ touched' = NoTouch
\* @type: ({ isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int }) => Bool;
Leave(x) == /\ depth > 1 /\ depth' = depth - 1 /\ base' = [base EXCEPT ![depth] = 0] /\ pages' = pages
            /\ reg' = [reg EXCEPT ![depth] = Bare, ![depth - 1] = [reg[depth - 1] EXCEPT ![1] = x]]
            /\ touched' = NoTouch
Still == UNCHANGED <<depth, base, pages>>
Fresh(s, l, p) == [isPtr |-> TRUE, off |-> 0, page |-> p, start |-> s, len |-> l, gs |-> s, gl |-> l]
\* @type: ({ isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int }) => { isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int };
Left(x) == [x EXCEPT !.off = 0, !.start = x.start + x.off, !.len = x.len - x.off]
\* @type: ({ isPtr: Bool, off: Int, page: Int, start: Int, len: Int, gs: Int, gl: Int }) => Bool;
InOrder(x) == x.isPtr /\ x.start + x.len < W /\ x.off <= x.len

CallFresh == \E s \in Word, l \in Word, a \in {0, 1} : s + l < W /\ Enter(Fresh(s, l, base[depth] + Slot + a))
CallForward == \E k \in Ids : InOrder(reg[depth][k]) /\ Enter(Left(reg[depth][k]))
RetFresh == \E s \in Word, l \in Word, a \in {0, 1} : s + l < W /\ Leave(Fresh(s, l, base[depth] + Slot + a))
RetForward == \E k \in Ids : InOrder(reg[depth][k]) /\ reg[depth][k].page >= base[depth] /\ Leave(Left(reg[depth][k]))
RetNothing == Leave(NoPtr)
Refuse == Still /\ UNCHANGED reg /\ touched' = NoTouch
Copy == \E k \in Ids : Still /\ Put(depth, 3 - k, reg[depth][k]) /\ touched' = NoTouch
Add == \E k \in Ids, d \in Word :
  LET x == reg[depth][k] IN x.isPtr /\ x.off + d < W /\ Still /\ Put(depth, k, [x EXCEPT !.off = x.off + d]) /\ touched' = NoTouch
Sub == \E k \in Ids, d \in Word :
  LET x == reg[depth][k] IN x.isPtr /\ d <= x.off /\ Still /\ Put(depth, k, [x EXCEPT !.off = x.off - d]) /\ touched' = NoTouch
Shrink == \E k \in Ids, d \in Word :
  LET x == reg[depth][k] IN x.isPtr /\ d <= x.len /\ Still /\ Put(depth, k, [x EXCEPT !.len = x.len - d]) /\ touched' = NoTouch
Deref == \E k \in Ids :
  LET x == reg[depth][k] IN
  /\ x.isPtr /\ x.off <= Limit /\ x.off < x.len /\ Still /\ UNCHANGED reg
  /\ touched' = [page |-> x.page, from |-> x.start + x.off, n |-> Smaller(ReadLen, x.len - x.off), gs |-> x.gs, gl |-> x.gl]
Next == CallFresh \/ CallForward \/ RetFresh \/ RetForward \/ RetNothing \/ Refuse \/ Copy \/ Add \/ Sub \/ Shrink \/ Deref
Spec == Init /\ [][Next]_vars

(* ---- isolation ---- *)
Used == {i \in Stack : i <= depth}
TypeOK == /\ depth \in Stack
          /\ \A i \in Stack, k \in Ids :
               LET x == reg[i][k] IN x.off \in Word /\ x.start \in Word /\ x.len \in Word /\ x.gs \in Word /\ x.gl \in Word
          /\ \A i \in Stack : i > depth => base[i] = 0 /\ reg[i] = Bare
Granted == \A i \in Stack, k \in Ids :
  LET x == reg[i][k] IN
  x.isPtr => x.start + x.len < W /\ x.gs + x.gl < W /\ x.gs <= x.start /\ x.start + x.len <= x.gs + x.gl
\* pages of live frames are apart and already taken, and so is every page pointed at
Apart == /\ \A i \in Stack, j \in Stack : i < j /\ j <= depth => base[i] + PerFrame <= base[j]
         /\ \A i \in Stack : i <= depth => base[i] >= First /\ base[i] + PerFrame <= pages
         /\ \A i \in Stack, k \in Ids : reg[i][k].isPtr => reg[i][k].page >= First /\ reg[i][k].page < pages
\* a frame points only to memory of frames below it, or of frames that are gone
NoPeeking == \A i \in Stack, k \in Ids, j \in Stack :
  reg[i][k].isPtr /\ i <= depth /\ i <= j /\ j <= depth => ~Owns(j, reg[i][k].page)
TouchedInGrant ==
  touched.n > 0 => /\ touched.from + touched.n < W + 0 /\ touched.gs <= touched.from
                   /\ touched.from + touched.n <= touched.gs + touched.gl
Inv == TypeOK /\ Granted /\ Apart /\ NoPeeking /\ TouchedInGrant
\* what comes back is frozen: it belongs to no live frame
Frozen == depth' < depth /\ reg'[depth'][1].isPtr =>
  \A i \in Stack : i <= depth' => ~(reg'[depth'][1].page = base'[i] + Slot \/ reg'[depth'][1].page = base'[i] + Slot + 1)
=============================================================================
