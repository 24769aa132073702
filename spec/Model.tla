------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* Exports the specification as data for the replay engine of the harness:  *)
(* the table of variants with description and price, word layouts, dead     *)
(* bits, and the outcome of the pointer checks for every class of inputs.   *)
(***************************************************************************)
EXTENDS Oracle, Json, IOUtils
LayoutList(L) == [f \in DOMAIN L |-> <<L[f].lo, L[f].w>>]
SetSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* pointer checks by class: representatives decide, the harness classifies concrete pointers
Rep(c) ==      \* c: offset vs length, offset zero, end overflows
  [offset |-> IF c.oz THEN <<0, 0>> ELSE <<5, 0>>,
   page |-> <<0, 0>>,
   length |-> CASE c.cmp = "eq" -> IF c.oz THEN <<0, 0>> ELSE <<5, 0>>
                [] c.cmp = "lt" -> <<9, 0>>
                [] c.cmp = "gt" -> <<3, 0>>,
   start |-> IF c.ovf THEN << LB - 1, LB - 1 >> ELSE <<7, 0>>]
Classes == {c \in [cmp : {"lt", "eq", "gt"}, oz : BOOLEAN, ovf : BOOLEAN, fresh : BOOLEAN, lz : BOOLEAN] :
              /\ (c.cmp = "gt" => ~c.oz)
              /\ (c.lz => c.cmp # "lt")
              /\ (c.cmp = "eq" => c.lz = c.oz)
              /\ (c.ovf => ~c.lz)}
RepOf(c) == IF c.lz THEN [Rep(c) EXCEPT !.length = <<0, 0>>] ELSE Rep(c)
ClassList == SetToSeq({[cls |-> c, res |-> CheckX([p |-> RepOf(c), fresh |-> c.fresh])] : c \in Classes})
Export ==
  [table |-> TLCEval(LET t == TLCEval(Assigned1) IN [i \in 1 .. Len(t) |->
                [x |-> t[i], bits |-> Description(t[i]), price |-> PriceOf(t[i]),
                 kernel |-> NeedsKernel(t[i].fam, t[i].sub), static |-> StaticAllowed(t[i].fam, t[i].sub), panics |-> ExplicitPanic(t[i].fam)]]),
   size |-> TableSize, invalid |-> InvalidVariant, nop |-> NopVariant, panic |-> PanicVariant,
   conditions |-> Conditions,
   ins |-> [m \in Modes |-> [layout |-> LayoutList(InsLayout[m]), dead |-> SetSeq(DeadBits(m)),
                             limbs |-> WordLimbs[m], per |-> PerCodeWord[m],
                             nop |-> NopWord(m), panic |-> PanicWord(m)]],
   reserved |-> SetSeq(ReservedBits),
   abi |-> [n \in DOMAIN Layouts |-> LayoutList(Layouts[n])],
   fwd |-> [b \in 1 .. 256 |-> ForwardMode(b - 1)],
   ptr |-> ClassList, versionByte |-> VersionByte, atRest |-> AtRest,
   maxCodeWords |-> LB - 1]
VARIABLE mz
MInit == mz = 0 /\ JsonSerialize(IOEnv.OUT, Export)
MNext == FALSE /\ mz' = mz
=============================================================================
