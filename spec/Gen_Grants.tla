----------------------------- MODULE Gen_Grants -----------------------------
(***************************************************************************)
(* Behaviours of GrantWords for replay into the real code, biased to the    *)
(* boundaries of the pointers held.  Each finished walk is printed as one   *)
(* JSON line.                                                               *)
(***************************************************************************)
EXTENDS GrantWords, Json
CONSTANT WalkLen
VARIABLES gst, ghist, gone
Die(n) == RandomElement(1 .. (n + 0 * Len(ghist)))
Any16_ == (Die(256) - 1) * 256 + Die(256) - 1
Some32 == {<<0, 0>>, <<1, 0>>, <<31, 0>>, <<32, 0>>, <<33, 0>>, <<65535, 0>>, <<0, 1>>, <<0, 32768>>, <<65535, 32767>>,
           <<65535, 65535>>, <<65503, 65535>>, <<65504, 65535>>}
Around(x) == {x, GW!PT!Plus(x, <<1, 0>>), GW!PT!Minus(x, <<1, 0>>)}
Held == {GW!Last_(gst).regs[k].p : k \in {1, 2}}
Pool_ == Some32 \cup UNION {Around(p.offset) \cup Around(p.length) \cup Around(p.start) \cup Around(GW!PT!Minus(<<0, 0>>, p.start))
                            \cup Around(GW!PT!Minus(p.length, p.offset)) : p \in Held}
V_ == IF Die(8) = 1 THEN <<Any16_, Any16_>> ELSE RandomElement(Pool_)
\* upper half: the forwarding byte sits at bits 96..103 of it
Hi_ == CHOOSE h \in {[k \in 1 .. 8 |-> IF k = 7 THEN x[1] + 256 * x[2] ELSE IF x[3] = 1 THEN 0 ELSE Any16_] :
                     x \in {<<RandomElement({0, 1, 1, 2, 2, 3, 129}), Die(2) - 1, Die(2)>>}} : TRUE
Plain_ ==
  CHOOSE w \in {(IF x[3] = 1 THEN V_ ELSE <<0, 0>>) \o V_ \o x[1] \o (IF GW!PT!Ovf(x[1], x[2]) /\ x[4] # 1 THEN GW!PT!Minus(<<0, 0>>, x[1]) ELSE x[2]) \o Hi_ :
                x \in {<<V_, V_, Die(10), Die(5)>>}} : TRUE
Live == {k \in {1, 2} : GW!Last_(gst).regs[k].isPtr}
R_ == IF Live # {} /\ Die(10) # 1 THEN RandomElement(Live) ELSE Die(2)
Kinds == <<"call", "call", "call", "ret", "ret", "panic", "add", "add", "sub", "shrink", "copy", "deref", "deref", "deref">>
Pick ==
  LET k == IF Live = {} /\ Die(4) # 1 THEN "call" ELSE Kinds[Die(Len(Kinds))]
  IN CASE k \in {"call", "ret"} -> IF Live # {} /\ Die(2) = 1 THEN [do |-> k, reg |-> R_, hi |-> Hi_] ELSE [do |-> k, reg |-> 0, w |-> Plain_]
       [] k = "panic" -> [do |-> k]
       [] k \in {"copy", "deref"} -> [do |-> k, reg |-> R_]
       [] OTHER -> [do |-> k, reg |-> R_, w |-> V_ \o (IF Die(8) = 1 THEN [j \in 1 .. 14 |-> IF j = Die(14) THEN Any16_ ELSE 0] ELSE ZeroWord(14))]
\* calls made before: up to what the ergs of a block could pay for
Gone == {0, 1, 7, 200, 252, 255, 4095, 7935, 7936, 8191, 65535, 1048575, 2096895, 2097151, 8388607, 23000000}
GInit == gone \in Gone /\ gst = GW!Later(gone) /\ ghist = << >>
GNext == /\ Len(ghist) < WalkLen
         /\ \E a \in {TLCEval(Pick)} : \E act \in {ActionOn(gst, a)} : \E m \in {GW!Move(gst, act)} :
              gst' = m.s /\ ghist' = Append(ghist, [a |-> a, v |-> SeenAfter(gst, act, m)])
         /\ UNCHANGED gone
GSpec == GInit /\ [][GNext]_<<gst, ghist, gone>>
Emit == Len(ghist) = WalkLen => PrintT("WALK " \o ToJson([gone |-> gone, steps |-> ghist]))
Safe == StateSafe(gst)
=============================================================================
