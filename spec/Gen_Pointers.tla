---------------------------- MODULE Gen_Pointers ----------------------------
(***************************************************************************)
(* Behaviours of the specification for replay into the real code: random    *)
(* walks biased to the boundaries of the current registers.  Each finished  *)
(* walk is printed as one JSON line.                                        *)
(***************************************************************************)
EXTENDS PtrSession, Json, TLCExt
CONSTANT WalkLen
VARIABLE hist
U(a, b) == <<a, b>>
Fixed == {U(0, 0), U(1, 0), U(2, 0), U(31, 0), U(32, 0), U(33, 0), U(65535, 0), U(0, 1), U(0, 32768), U(65535, 32767),
          U(65535, 65535), U(65534, 65535), U(65503, 65535), U(65504, 65535), U(65502, 65535), U(65505, 65535), U(64, 0)}
Near(x) == {x, PP!Plus(x, U(1, 0)), PP!Minus(x, U(1, 0))}
\* values around everything the registers hold, and around the distance to the end of memory
Values ==
  Fixed \cup UNION {Near(regs[i].p.offset) \cup Near(regs[i].p.length) \cup Near(regs[i].p.start)
                    \cup Near(PP!Minus(U(0, 0), regs[i].p.start)) \cup Near(PP!Minus(U(0, 0), regs[i].p.offset))
                    \cup Near(PP!Minus(regs[i].p.length, regs[i].p.offset)) : i \in {1, 2}}
V_ == RandomElement(Values)
\* (every random choice mentions the state, so that it is drawn anew each time)
Die(n) == RandomElement(1 .. n + 0 * Len(hist))
Limb(k) == IF Die(2) = 1 THEN RandomElement({0, 1, 2, 255, 256, 32768, 65535}) ELSE RandomElement(0 .. (65535 + 0 * (k + Len(hist))))
\* an operand: mostly a word, sometimes with something above bit 32
Operand_ ==
  LET at == Die(14)
      v == Limb(at)
  IN V_ \o (IF Die(6) = 1 THEN [k \in 1 .. 14 |-> IF k = at THEN v ELSE 0] ELSE ZeroWord(14))
Fresh_ ==
  LET s == V_
      l == IF Die(3) = 1 THEN RandomElement(Near(PP!Minus(U(0, 0), s)))
           ELSE LET x == V_ IN IF PP!Ovf(s, x) /\ Die(8) # 1 THEN PP!Minus(PP!AllOnes, s) ELSE x
      o == IF Die(8) = 1 THEN V_ ELSE IF Die(16) = 1 THEN l ELSE U(0, 0)
  IN o \o V_ \o s \o l \o (IF Die(3) = 1 THEN [k \in 1 .. 8 |-> Limb(k)] ELSE Zero8)
Kinds == <<"create", "forward", "add", "add", "add", "sub", "sub", "shrink", "pack", "deref", "deref">>
Live == {i \in {1, 2} : regs[i].isPtr}
Pick ==
  LET kind == IF Live = {} /\ Die(6) # 1 THEN "create" ELSE Kinds[Die(Len(Kinds))]
      i == IF kind # "create" /\ Live # {} /\ Die(12) # 1 THEN RandomElement(Live)
           ELSE IF kind = "create" /\ Cardinality(Live) = 1 /\ Die(4) # 1 THEN RandomElement({1, 2} \ Live) ELSE Die(2)
  IN CASE kind = "create" -> [do |-> kind, reg |-> i, w |-> Fresh_]
       [] kind = "forward" -> [do |-> kind, reg |-> i, to |-> IF Die(4) = 1 THEN 3 - i ELSE i]
       [] kind = "deref" -> [do |-> kind, reg |-> i]
       [] kind = "pack" -> [do |-> kind, reg |-> i, w |-> Zero8 \o [k \in 1 .. 8 |-> Limb(k)]]
       [] OTHER -> [do |-> kind, reg |-> i, w |-> Operand_]
GInit == SInit /\ hist = << >>
GNext == /\ Len(hist) < WalkLen
         /\ \E a \in {TLCEval(Pick)} : Apply(a) /\ hist' = Append(hist, [a |-> a, v |-> Observable(a)])
GSpec == GInit /\ [][GNext]_<<sv, hist>>
Emit == Len(hist) = WalkLen => PrintT("WALK " \o ToJson([steps |-> hist]))
=============================================================================
