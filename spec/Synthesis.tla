----------------------------- MODULE Synthesis -----------------------------
(***************************************************************************)
(* How instruction-set upgrades build the decoding table, for any history   *)
(* of upgrades: a small abstract ISA whose operations come and go through   *)
(* the operand-kind widening the protocol allows (register -> register or   *)
(* immediate).  The concrete ISA is the instance in ISA.tla.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS OpNames, MaxVersions, Size

\* shape of an operation in a version: absent, register only, register-or-immediate; with n flags
Shapes == {"absent", "reg", "regimm"}
Widens(a, b) == a = b \/ a = "absent" \/ (a = "reg" /\ b = "regimm")
Variants(op, shape, nf) ==
  LET srcs == CASE shape = "absent" -> << >> [] shape = "reg" -> <<"Reg">> [] shape = "regimm" -> <<"RI.Reg", "RI.Imm">>
  IN [k \in 1 .. (Len(srcs) * nf) |->
        [op |-> op, src |-> srcs[((k - 1) \div nf) + 1], flag |-> (k - 1) % nf]]
Order == SetToSortSeq(OpNames, LAMBDA a, b : a < b)
EnumerationOf(shape) == FlattenSeq([i \in 1 .. Len(Order) |-> Variants(Order[i], shape[Order[i]], 2)])
MeaningOf(x) == [x EXCEPT !.src = IF @ = "RI.Reg" THEN "Reg" ELSE @]

VARIABLES shape, table, version, past
sv == <<shape, table, version, past>>
Meanings(t) == {MeaningOf(t[i]) : i \in 1 .. Len(t)}
SInit ==
  /\ shape \in [OpNames -> {"absent", "reg"}]
  /\ table = EnumerationOf(shape)
  /\ version = 0 /\ past = << >>
Absorbed(t, e) ==
  LET respelled == [i \in 1 .. Len(t) |->
                      LET same == {j \in 1 .. Len(e) : MeaningOf(e[j]) = MeaningOf(t[i])}
                      IN IF same = {} THEN t[i] ELSE e[CHOOSE j \in same : TRUE]]
      fresh == SelectSeq(e, LAMBDA x : MeaningOf(x) \notin Meanings(t))
  IN respelled \o fresh
Upgrade ==
  /\ version < MaxVersions
  /\ \E s \in [OpNames -> Shapes] :
       /\ \A o \in OpNames : Widens(shape[o], s[o])
       /\ Len(Absorbed(table, EnumerationOf(s))) <= Size
       /\ shape' = s
       /\ table' = Absorbed(table, EnumerationOf(s))
  /\ version' = version + 1
  /\ past' = Append(past, table)
SNext == Upgrade \/ (version = MaxVersions /\ UNCHANGED sv)
SSpec == SInit /\ [][SNext]_sv

MeaningKept ==
  \A k \in 1 .. Len(past) : \A i \in 1 .. Len(past[k]) : MeaningOf(table[i]) = MeaningOf(past[k][i])
NoDuplicates == \A i, j \in 1 .. Len(table) : i # j => MeaningOf(table[i]) # MeaningOf(table[j])
Complete ==        \* every variant of the newest version has a code, spelled the newest way
  \A j \in 1 .. Len(EnumerationOf(shape)) : \E i \in 1 .. Len(table) : table[i] = EnumerationOf(shape)[j]
NothingElse == Len(table) = Len(EnumerationOf(shape))
=============================================================================
