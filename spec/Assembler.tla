----------------------------- MODULE Assembler -----------------------------
(***************************************************************************)
(* An editing session over one instruction word: set any field, flip any    *)
(* bit, mask, re-encode.  Checks that the codec of Codec.tla is lossless,   *)
(* total, and that fields are independent, in both encoding modes.          *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS Steps, CodePool, ImmPool

VARIABLES amode, aword, asteps, aop   \* (TLC: names no constant definition binds)
av == <<amode, aword, asteps, aop>>
FieldNames == DOMAIN HeadLayout \cup {"imm0", "imm1"}
ImmVals(m) == IF m = "prod" THEN {<<i>> : i \in ImmPool} ELSE {<<i, j>> : i, j \in ImmPool}
ValuesOf(m, f) ==
  CASE f = "code" -> {<<c>> : c \in CodePool}
    [] f = "cond" -> {<<c>> : c \in 0 .. 7}
    [] f \in {"imm0", "imm1"} -> ImmVals(m)
    [] OTHER -> {<<0>>, <<1>>, <<8>>, <<15>>}
\* replace one field, keep the rest
PutField(m, w, f, v) ==
  LET l == InsLayout[m][f]
      old == GetField(w, l)
  IN [k \in 1 .. Len(w) |-> w[k] + Contribution(l, v, k) - Contribution(l, old, k)]

AInit == amode \in Modes /\ aword = ZeroWord(WordLimbs[amode]) /\ asteps = 0 /\ aop = "init"
SetField == \E f \in FieldNames : \E v \in ValuesOf(amode, f) : aword' = PutField(amode, aword, f, v) /\ aop' = "set"
Flip == \E b \in 0 .. (16 * WordLimbs[amode] - 1) : aword' = FlipBit(aword, b) /\ aop' = "flip"
Reencode == aword' = Encode(amode, Decode(amode, aword)) /\ aop' = "reencode"
Panic == aword' = Encode(amode, MaskPanic(Decode(amode, aword))) /\ aop' = "panic"
Nop == aword' = Encode(amode, MaskNop(Decode(amode, aword))) /\ aop' = "nop"
ANext == asteps < Steps /\ asteps' = asteps + 1 /\ UNCHANGED amode /\ (SetField \/ Flip \/ Reencode \/ Panic \/ Nop)
ASpec == AInit /\ [][ANext]_av

TypeOK == IsWord(aword, WordLimbs[amode])
TotalDecode == LET d == Decode(amode, aword) IN IsVariant(d.variant) /\ d.src0 \in 0 .. 15 /\ d.dst1 \in 0 .. 15
RoundTrip == Encode(amode, Decode(amode, aword)) = Normalise(amode, aword)
Lossless == (Canonical(aword) /\ IsAssigned(NumberOf(amode, aword)) /\ (amode = "test" => aword[7] = 0 /\ aword[8] = 0))
              => Encode(amode, Decode(amode, aword)) = aword
Stable == LET e == Encode(amode, Decode(amode, aword)) IN Decode(amode, e) = Decode(amode, aword) /\ Canonical(e)
DeadBitsIgnored == \A b \in DeadBits(amode) : Decode(amode, FlipBit(aword, b)) = Decode(amode, aword)
Independent ==     \* flipping a live bit changes only the field it belongs to
  \A f \in FieldNames : \A b \in BitsOf(InsLayout[amode][f]) :
    LET r == Unpack(InsLayout[amode], aword)
        s == Unpack(InsLayout[amode], FlipBit(aword, b))
    IN \A g \in FieldNames : (g # f) = (r[g] = s[g])
UnassignedIsInvalid ==
  ~IsAssigned(NumberOf(amode, aword)) => Decode(amode, aword).variant = InvalidVariant
MasksCanonical ==
  /\ aop = "panic" => Decode(amode, aword) = [Bare(amode, PanicVariant) EXCEPT !.imm0 = Decode(amode, aword).imm0,
                                                                        !.imm1 = Decode(amode, aword).imm1]
  /\ aop = "nop" => Decode(amode, aword) = [Bare(amode, NopVariant) EXCEPT !.imm0 = Decode(amode, aword).imm0,
                                                                    !.imm1 = Decode(amode, aword).imm1]
MaskIdempotent ==
  LET d == Decode(amode, aword) IN MaskPanic(MaskPanic(d)) = MaskPanic(d) /\ MaskNop(MaskNop(d)) = MaskNop(d)
ModesAgree ==      \* the head of the word means the same in both modes
  LET d == Decode(amode, aword)
      p == Decode("prod", SubSeq(aword, 1, 2) \o <<0, 0>>)
  IN d.variant = p.variant /\ d.cond = p.cond /\ d.src0 = p.src0 /\ d.src1 = p.src1
     /\ d.dst0 = p.dst0 /\ d.dst1 = p.dst1
=============================================================================
