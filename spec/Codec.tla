------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Instruction words of both encoding modes ("prod": 64-bit, "test":        *)
(* 128-bit), masking, and instruction fetch from 256-bit code words.        *)
(* An instruction is [variant, cond, src0, src1, dst0, dst1, imm0, imm1]    *)
(* with immediates as limb sequences (one limb in prod, two in test).       *)
(***************************************************************************)
EXTENDS ISA

Modes == {"prod", "test"}
Conditions == <<"Always", "Gt", "Lt", "Eq", "Ge", "Le", "Ne", "GtOrLt">>
CondIndex(c) == (CHOOSE i \in 1 .. 8 : Conditions[i] = c) - 1

HeadLayout ==
  [code |-> [lo |-> 0,  w |-> TableWidth], cond |-> [lo |-> 13, w |-> 3],
   src0 |-> [lo |-> 16, w |-> 4], src1 |-> [lo |-> 20, w |-> 4],
   dst0 |-> [lo |-> 24, w |-> 4], dst1 |-> [lo |-> 28, w |-> 4]]
InsLayout ==
  [prod |-> HeadLayout @@ [imm0 |-> [lo |-> 32, w |-> 16], imm1 |-> [lo |-> 48, w |-> 16]],
   test |-> HeadLayout @@ [imm0 |-> [lo |-> 32, w |-> 32], imm1 |-> [lo |-> 64, w |-> 32]]]
ReservedBits == {11, 12}
WordLimbs == [prod |-> 4, test |-> 8]
ImmLimbs == [prod |-> 1, test |-> 2]
PerCodeWord == [prod |-> 4, test |-> 2]
\* bits that carry no information: reserved gap, and the unused top of the testing word
DeadBits(mode) == FreeBits(InsLayout[mode], WordLimbs[mode])

NumberOf(mode, w) == Unpack(InsLayout[mode], w).code[1]

Decode(mode, w) ==
  LET r == Unpack(InsLayout[mode], w)
  IN [variant |-> VariantAt(NewestVersion, r.code[1]), cond |-> Conditions[r.cond[1] + 1],
      src0 |-> r.src0[1], src1 |-> r.src1[1], dst0 |-> r.dst0[1], dst1 |-> r.dst1[1],
      imm0 |-> r.imm0, imm1 |-> r.imm1]

EncodeWithCode(mode, code, ins) ==
  Pack(InsLayout[mode],
       [code |-> <<code>>, cond |-> <<CondIndex(ins.cond)>>,
        src0 |-> <<ins.src0>>, src1 |-> <<ins.src1>>, dst0 |-> <<ins.dst0>>, dst1 |-> <<ins.dst1>>,
        imm0 |-> ins.imm0, imm1 |-> ins.imm1],
       WordLimbs[mode])
Encode(mode, ins) == EncodeWithCode(mode, CodeOf(ins.variant), ins)

Canonical(w) == \A b \in ReservedBits : BitOf(w, b) = 0

\* what re-encoding makes of a word: dead bits cleared, unassigned codes become code 0
Normalise(mode, w) ==
  LET cleared == [k \in 1 .. Len(w) |->
                    w[k] - MapThenSumSet(LAMBDA b : BitOf(w, b) * 2 ^ (b % 16),
                                         {b \in DeadBits(mode) : b \div 16 = k - 1})]
  IN IF IsAssigned(NumberOf(mode, w)) THEN cleared
     ELSE [cleared EXCEPT ![1] = @ - (@ % TableSize)]

ZeroImm(mode) == ZeroWord(ImmLimbs[mode])
Masked(ins, v) ==
  [ins EXCEPT !.variant = v, !.cond = "Always", !.src0 = 0, !.src1 = 0, !.dst0 = 0, !.dst1 = 0]
MaskPanic(ins) == Masked(ins, PanicVariant)
MaskNop(ins) == Masked(ins, NopVariant)
Bare(mode, v) ==
  [variant |-> v, cond |-> "Always", src0 |-> 0, src1 |-> 0, dst0 |-> 0, dst1 |-> 0,
   imm0 |-> ZeroImm(mode), imm1 |-> ZeroImm(mode)]
DefaultIns(mode) == Bare(mode, NopVariant)
NopWord(mode) == Encode(mode, Bare(mode, NopVariant))
PanicWord(mode) == Encode(mode, Bare(mode, PanicVariant))

(* ---- code memory ---- *)
\* pc is a limb sequence (ImmLimbs[mode] limbs); result <<word index limbs, sub-index limbs>>
RECURSIVE ShrLimbs(_, _)
ShrLimbs(a, d) ==
  IF Len(a) = 0 THEN << >>
  ELSE LET hi == IF Len(a) > 1 THEN a[2] ELSE 0
       IN << (a[1] \div d) + (hi % d) * (LB \div d) >> \o ShrLimbs(Tail(a), d)
SplitPc(mode, pc) ==
  << ShrLimbs(pc, PerCodeWord[mode]),
     [k \in 1 .. Len(pc) |-> IF k = 1 THEN pc[1] % PerCodeWord[mode] ELSE 0] >>
\* sub-instruction `sub` of a 256-bit code word; index 0 is the most significant part
Extract(mode, codeWord, sub) ==
  LET n == WordLimbs[mode]
      from == (PerCodeWord[mode] - 1 - sub) * n
  IN SubSeq(codeWord, from + 1, from + n)
\* a code page is the big-endian concatenation of its instruction words
AssemblePage(mode, words) ==
  [i \in 1 .. (Len(words) \div PerCodeWord[mode]) |->
     LET n == WordLimbs[mode]
         k == PerCodeWord[mode]
     IN [l \in 1 .. 16 |-> LET sub == k - 1 - ((l - 1) \div n)
                           IN words[(i - 1) * k + sub + 1][((l - 1) % n) + 1]]]
Fetch(mode, page, pc) ==   \* pc a natural number here
  Extract(mode, page[(pc \div PerCodeWord[mode]) + 1], pc % PerCodeWord[mode])
=============================================================================
