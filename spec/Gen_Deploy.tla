----------------------------- MODULE Gen_Deploy -----------------------------
(***************************************************************************)
(* Behaviours of DeployWords for replay into the real code: random          *)
(* instructions are published, bound, called and fetched.  The digest is    *)
(* the specification's own.  Each finished walk is printed as one JSON      *)
(* line.                                                                    *)
(***************************************************************************)
EXTENDS DeployWords, Json
CONSTANT WalkLen
VARIABLES gmode, gst, ghist
gvars == <<gmode, gst, ghist>>
Die(n) == RandomElement(1 .. (n + 0 * Len(ghist)))
Any16_ == (Die(256) - 1) * 256 + Die(256) - 1
Imm_ == [k \in 1 .. ImmLimbs[gmode] |-> RandomElement({0, 1, 65535, Any16_})]
Ins_(j) ==
  [variant |-> VariantAt(NewestVersion, Die(NumAssigned1) - 1), cond |-> Conditions[Die(8)],
   src0 |-> Die(16) - 1, src1 |-> Die(16) - 1, dst0 |-> Die(16) - 1, dst1 |-> Die(16) - 1,
   imm0 |-> Imm_, imm1 |-> Imm_]
\* (sets of one element force a choice to be made once)
Fresh_ ==
  CHOOSE a \in
    {[do |-> "publish", ins |-> l[1], n |-> l[2], digest |-> DigestOf(PageOf([mode |-> gmode, n |-> l[2], pool |-> l[3]])), pool |-> l[3], audit |-> TRUE, explicit |-> l[2] = 1] :
       l \in {<<i, m, TLCEval([k \in 1 .. Len(i) |-> Encode(gmode, i[k])])>> :
              i \in {TLCEval([j \in 1 .. Die(3) |-> TLCEval(Ins_(j))])}, m \in {RandomElement({Die(6), 1, 3})}}} : TRUE
Hashes == DOMAIN gst.known
Word_ ==
  LET w == RandomElement(Hashes)
      k == Die(16)
      v == Any16_
  IN CASE Die(6) = 1 -> WithMarker(w, 1)
       [] Die(6) = 1 -> WithMarker(w, Die(256) - 1)
       [] Die(8) = 1 -> [w EXCEPT ![k] = v]
       [] OTHER -> w
Abi_ == [k \in 1 .. 16 |-> IF k = 16 THEN RandomElement({0, 1, 256, 257, Any16_}) ELSE IF Die(2) = 1 THEN 0 ELSE Any16_]
Kinds == <<"publish", "begin", "begin", "begin", "finish", "finish", "write", "call", "call", "call", "call", "fetch", "fetch", "fetch", "fetch", "fetch">>
Pick ==
  LET any == Kinds[Die(Len(Kinds))]
      k == IF Hashes = {} THEN "publish"
           ELSE IF gst.running.some /\ any = "call" /\ Die(2) = 1 THEN "fetch"
           ELSE IF ~gst.running.some /\ any = "fetch" /\ Die(6) # 1 THEN (IF DOMAIN gst.acct = {} THEN "begin" ELSE "call")
           ELSE any
      x == IF k = "call" /\ DOMAIN gst.acct # {} /\ Die(8) # 1 THEN RandomElement(DOMAIN gst.acct) ELSE Die(2)
  IN CASE k = "publish" -> Fresh_
       [] k \in {"begin", "write"} -> [do |-> k, at |-> x, word |-> Word_]
       [] k = "finish" -> [do |-> k, at |-> x]
       [] k = "call" -> [do |-> k, at |-> x, abi |-> Abi_]
       [] k = "fetch" -> [do |-> k, pc |-> Die(26) - 1]
ActOf(a) ==
  CASE a.do = "publish" -> [do |-> "publish", code |-> [mode |-> gmode, n |-> a.n, digest |-> a.digest, pool |-> a.pool]]
    [] a.do = "call" -> [do |-> "call", at |-> a.at, ctor |-> FarCallOf(a.abi).ctor]
    [] OTHER -> a
GInit == gmode \in Modes /\ gst = DW!Empty /\ ghist = << >>
GNext ==
  /\ Len(ghist) < WalkLen
  /\ \E a \in {TLCEval(Pick)} : \E act \in {ActOf(a)} :
       /\ gst' = DW!Do(gst, act)
       /\ ghist' = Append(ghist, [a |-> a, v |-> DW!Reply(gst, act)])
  /\ UNCHANGED gmode
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(ghist) = WalkLen => PrintT("WALK " \o ToJson([mode |-> gmode, steps |-> ghist]))
Exact == DW!AccountsExact(gst)
Published == \A h \in Hashes : Stored(h) = h /\ HashFields(h).len[1] = gst.known[h].n
=============================================================================
