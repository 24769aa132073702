---------------------------- MODULE Gen_Effects -----------------------------
(***************************************************************************)
(* Behaviours of Effects for replay into the real code: random variants of  *)
(* the whole set, log, context and call instructions preferred.  Each       *)
(* finished walk is printed as one JSON line.                               *)
(***************************************************************************)
EXTENDS Effects, Codec, Json
CONSTANT WalkLen
VARIABLES gmode, gaddr, gone_, late_, gst, ghist
Die(n) == RandomElement(1 .. (n + 0 * Len(ghist)))
Any16_ == (Die(256) - 1) * 256 + Die(256) - 1
Tbl == Assigned1
Kinds == <<"Log", "Log", "Log", "Context", "Context", "FarCall", "FarCall", "NearCall", "Ret", "Ret">>
CodesOfFam == [f \in {"Log", "Context", "FarCall", "NearCall", "Ret"} |-> {i \in 1 .. Len(Tbl) : Tbl[i].fam = f}]
OkCodes == {i \in CodesOfFam["Ret"] : Tbl[i].sub = "Ok"}
Code_ == CHOOSE c \in {LET k == Kinds[Die(Len(Kinds))] IN
                       IF Die(12) = 1 THEN Die(Len(Tbl))
                       ELSE IF k = "Ret" /\ Len(gst.stack) = 1 THEN RandomElement(CodesOfFam["FarCall"])
                       ELSE IF k = "Ret" /\ Die(2) = 1 THEN RandomElement(OkCodes) ELSE RandomElement(CodesOfFam[k])} : TRUE
\* refused ones less often than they would be drawn
Try_ == CHOOSE c \in {LET k == Code_ IN IF ~MayRun(gst, Tbl[k]) /\ Die(4) # 1 THEN RandomElement(CodesOfFam[IF Die(3) = 1 THEN "Context" ELSE IF Len(gst.stack) < 4 THEN "FarCall" ELSE "Log"]) ELSE k} : TRUE
Some4 == {<<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<32784, 0, 0, 0>>, <<32769, 0, 0, 0>>, <<65535, 0, 0, 0>>, <<0, 1, 0, 0>>, <<2, 1, 0, 0>>, <<1, 0, 0, 1>>}
Addr_ == IF Die(8) = 1 THEN [k \in 1 .. 4 |-> Any16_] ELSE RandomElement(Some4)
Word_ == IF Die(3) # 1 THEN <<Die(3)>> \o ZeroWord(15) ELSE [k \in 1 .. 16 |-> IF Die(3) = 1 THEN Any16_ ELSE 0]
Pick ==
  CHOOSE a \in {[word |-> EncodeWithCode(gmode, x[1] - 1, Rest_), w0 |-> x[2], w1 |-> IF Tbl[x[1]].fam = "FarCall" THEN x[3] \o ZeroWord(12) ELSE x[4], w2 |-> x[5]] :
    Rest_ \in {[cond |-> "Always", src0 |-> 1, src1 |-> 2, dst0 |-> 3, dst1 |-> 4,
                imm0 |-> ZeroWord(ImmLimbs[gmode]), imm1 |-> ZeroWord(ImmLimbs[gmode])]},
    x \in {<<Try_, Word_, Addr_, Word_, Addr_>>}} : TRUE
ActOf(a) == [x |-> Decode(gmode, a.word).variant, w0 |-> a.w0, w1 |-> a.w1, w2 |-> a.w2]
GInit == gmode \in Modes /\ gaddr \in Some4 /\ gone_ \in {0, 7935, RandomElement(1 .. 23000000)} /\ late_ \in {0, RandomElement(1 .. 500000000)} /\ gst = Begin(gaddr, gone_, late_) /\ ghist = << >>
GNext ==
  /\ Len(ghist) < WalkLen /\ ~Over(gst)
  /\ \E a \in {TLCEval(Pick)} : \E act \in {ActOf(a)} : \E t \in {Do(gst, act)} :
       gst' = t /\ ghist' = Append(ghist, [a |-> a, v |-> Seen(gst, act, t)])
  /\ UNCHANGED <<gmode, gaddr, gone_, late_>>
GSpec == GInit /\ [][GNext]_<<gmode, gaddr, gone_, late_, gst, ghist>>
Emit == Len(ghist) = WalkLen \/ Over(gst) => PrintT("WALK " \o ToJson([mode |-> gmode, addr |-> gaddr, gone |-> gone_, late |-> late_, steps |-> ghist]))
Safe == EffectState(gst)
=============================================================================
