------------------------------ MODULE Ind_Codec ------------------------------
(***************************************************************************)
(* The instruction word layouts of Codec.tla over plain integers, for       *)
(* Apalache: RoundTrip holds for every instruction at full width.  Encoding *)
(* is thus injective, and since there are as many instructions as words with*)
(* zero dead bits, it is a bijection between them.                          *)
(***************************************************************************)
EXTENDS Integers

Imm == 65536
BigImm == 4294967296

VARIABLES
  \* @type: Int;
  code,
  \* @type: Int;
  cond,
  \* @type: Int;
  s0,
  \* @type: Int;
  s1,
  \* @type: Int;
  d0,
  \* @type: Int;
  d1,
  \* @type: Int;
  i0,
  \* @type: Int;
  i1,
  \* @type: Bool;
  testing

vars == <<code, cond, s0, s1, d0, d1, i0, i1, testing>>
Low(c, k, a, b, x, y) ==
  c + k * 8192 + a * 65536 + b * 1048576 + x * 16777216 + y * 268435456
EncodeProd == Low(code, cond, s0, s1, d0, d1) + i0 * 4294967296 + i1 * 281474976710656
EncodeTest == Low(code, cond, s0, s1, d0, d1) + i0 * 4294967296 + i1 * 18446744073709551616
Encode == IF testing THEN EncodeTest ELSE EncodeProd

Field(x, base, size) == (x \div base) % size
Code(x) == x % 2048
Reserved(x) == Field(x, 2048, 4)
Cond(x) == Field(x, 8192, 8)
S0(x) == Field(x, 65536, 16)
S1(x) == Field(x, 1048576, 16)
D0(x) == Field(x, 16777216, 16)
D1(x) == Field(x, 268435456, 16)
I0(x) == IF testing THEN Field(x, 4294967296, BigImm) ELSE Field(x, 4294967296, Imm)
I1(x) == IF testing THEN Field(x, 18446744073709551616, BigImm) ELSE Field(x, 281474976710656, Imm)

ImmSize == IF testing THEN BigImm ELSE Imm
WordSize == IF testing THEN 340282366920938463463374607431768211456 ELSE 18446744073709551616
Dead(x) == IF testing THEN x \div 79228162514264337593543950336 ELSE 0

Init ==
  /\ testing \in BOOLEAN
  /\ code \in 0 .. 2047 /\ cond \in 0 .. 7
  /\ s0 \in 0 .. 15 /\ s1 \in 0 .. 15 /\ d0 \in 0 .. 15 /\ d1 \in 0 .. 15
  /\ i0 \in Int /\ i0 >= 0 /\ i0 < ImmSize
  /\ i1 \in Int /\ i1 >= 0 /\ i1 < ImmSize
Next == UNCHANGED vars

RoundTrip ==
  LET x == Encode IN
  /\ x >= 0 /\ x < WordSize
  /\ Reserved(x) = 0 /\ Dead(x) = 0
  /\ Code(x) = code /\ Cond(x) = cond
  /\ S0(x) = s0 /\ S1(x) = s1 /\ D0(x) = d0 /\ D1(x) = d1
  /\ I0(x) = i0 /\ I1(x) = i1
=============================================================================
