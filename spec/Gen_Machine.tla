---------------------------- MODULE Gen_Machine ----------------------------
(***************************************************************************)
(* Behaviours of the front end for replay into the real code: a random      *)
(* program (the instructions of the whole set, control flow preferred) run  *)
(* from a random frame.  Each finished walk is printed as one JSON line.    *)
(***************************************************************************)
EXTENDS Machine, Json
CONSTANT WalkLen
VARIABLES gprog, gmach, gprev, gflags, gwant
gv == <<gprog, gmach, gprev, gflags, gwant>>
Tbl == Assigned1
Weights == <<"Jump", "NearCall", "NearCall", "NearCall", "FarCall", "FarCall", "Ret", "UMA", "Context", "Log">>
CodesOfFam == [f \in ToSet(Weights) |-> {i \in 1 .. Len(Tbl) : Tbl[i].fam = f}]
AllCodes == 1 .. Len(Tbl)
\* (the argument only keeps the choices from being drawn once and for all)
D(n, k) == RandomElement(1 .. (n + 0 * k))
Any16(k) == (D(256, k) - 1) * 256 + D(256, k) - 1
Pool32(k) == RandomElement({<<0, 0>>, <<1, 0>>, <<40, 0>>, <<65535, 65535>>, <<0, 1>>, <<65535, 0>>, <<0, 32768>>, <<Any16(k), 0>>})
PickCode(k) == IF D(3, k) # 3 THEN RandomElement(CodesOfFam[Weights[D(Len(Weights), k)]]) ELSE RandomElement(AllCodes)
Favoured == [FarCall |-> <<2, 3, 3, 4, 5, 12>>, Ret |-> <<0, 0, 12, 12, 5, 4>>, UMA |-> <<1, 10, 10, 10, 11, 13>>]
Rest(c, k) ==
  [cond |-> IF D(3, k) = 1 THEN Conditions[D(8, k)] ELSE "Always",
   src0 |-> CASE Tbl[c].fam \in DOMAIN Favoured -> Favoured[Tbl[c].fam][D(6, k)] [] OTHER -> D(16, k) - 1, src1 |-> 5 + D(5, k), dst0 |-> D(16, k) - 1, dst1 |-> 0,
   imm0 |-> <<IF D(12, k) = 1 THEN Any16(k) ELSE IF Tbl[c].fam = "UMA" THEN 960 + D(200, k) ELSE D(16, k) - 1>>, imm1 |-> <<D(16, k) - 1>>]
\* (sets of one element force a choice to be made once)
WordAt(k) ==
  IF D(40, k) = 1 THEN [j \in 1 .. 4 |-> Any16(k + j)]
  ELSE CHOOSE w \in {EncodeWithCode("prod", x[1] - 1, x[2]) : x \in {<<c, Rest(c, k)>> : c \in {PickCode(k)}}} : TRUE
RegAt(i) ==
  CASE i = 1 -> <<D(400, i), 0>> \o ZeroWord(14)
    [] i \in {2, 3} -> ZeroWord(12) \o Pool32(i) \o <<0, 0>>
    [] i = 4 -> Pool32(1) \o Pool32(2) \o Pool32(3) \o Pool32(4) \o ZeroWord(4) \o Pool32(5) \o <<D(3, i), 0>>
    [] i = 5 -> <<0, 0>> \o Pool32(1) \o Pool32(2) \o Pool32(3) \o ZeroWord(4) \o Pool32(4) \o <<D(3, i) - 1, 0>>
    [] i = 6 -> <<32768 + D(30, i)>> \o ZeroWord(15)
    [] i = 7 -> <<65535 - D(2, i) + 1, 0>> \o ZeroWord(14)
    [] i = 8 -> <<D(3, i) - 1, 1>> \o ZeroWord(14)
    [] i = 10 -> <<960 + D(200, i)>> \o ZeroWord(15)
    [] i = 11 -> <<65501 + D(4, i), 65535>> \o ZeroWord(14)
    [] i = 12 -> <<0, 0, 0, 0, 900 + D(150, i), 0, D(400, i) - 1, 0>> \o ZeroWord(4) \o Pool32(i) \o <<D(4, i) - 1, 0>>
    [] OTHER -> [j \in 1 .. 16 |-> IF D(3, i + j) = 1 THEN Any16(i + j) ELSE 0]
MakeProg(k) ==
  LET ws == TLCEval([j \in 1 .. 16 |-> WordAt(j + k)])
  IN [on |-> TRUE, page |-> TLCEval(AssemblePage("prod", ws)), regs |-> TLCEval([i \in 1 .. 15 |-> RegAt(i)]),
      depth |-> 1 + D(5, k),
      ergs |-> RandomElement({D(300, k), D(70, k) * D(70, k), D(1000, k) * D(1000, k), D(2000, k) * D(1000, k) * D(1000, k)}),
      addr |-> RandomElement({<<32769, 0, 0, 0>>, <<0, 1, 0, 0>>, <<65535, 0, 0, 0>>, <<Any16(k), Any16(k + 1), D(2, k) - 1, 0>>})]
\* the program is drawn in the first step, so that every walk has its own
GInit == gprog = [on |-> FALSE] /\ gmach = << >> /\ gprev = << >> /\ gflags = << >> /\ gwant = << >>
Draw == /\ ~gprog.on
        /\ \E k \in {Len(gflags)} : \E p \in {MakeProg(k)} : gprog' = p /\ gmach' = Start(p.ergs, p.addr)
        /\ gprev' = gmach' /\ UNCHANGED <<gflags, gwant>>
Flag == RandomElement({b \in BOOLEAN : Len(gflags) >= 0})
Run == /\ gprog.on /\ ~Halted(gmach) /\ Len(gflags) < WalkLen
       /\ \E f \in {<<Flag, Flag, Flag>>} :
            /\ gflags' = Append(gflags, f)
            /\ gmach' = RunCycle(gmach, gprog.page, f, gprog.regs, gprog.depth)
            /\ gwant' = Append(gwant, gmach')
            /\ gprev' = gmach
       /\ UNCHANGED gprog
GNext == Draw \/ Run
GSpec == GInit /\ [][GNext]_gv
Done == gprog.on /\ (Halted(gmach) \/ Len(gflags) = WalkLen)
Emit == Done => PrintT("WALK " \o ToJson([ergs |-> gprog.ergs, addr |-> gprog.addr, page |-> gprog.page, regs |-> gprog.regs,
                                          depth |-> gprog.depth, flags |-> gflags, want |-> gwant]))
Safe ==
  Len(gflags) > 0 => /\ NoGain(gprev, gmach) /\ Progress(gprev, gmach) /\ Allowed(gprev, gmach) /\ PaysOrDies(gprev, gmach)
                  /\ FaultsPanic(gprev, gmach) /\ PanicBurns(gprev, gmach)
             /\ MemoryPaid(gprev, gmach) /\ Punctual(gprev, gmach)
                  /\ NoDebt(gmach) /\ StaticInherited(gmach) /\ PagesApart(gmach) /\ Len(gmach.stack) <= gprog.depth
=============================================================================
