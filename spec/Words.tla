------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words for TLC.  TLC's integers are 32-bit, so a word of N bits   *)
(* is a little-endian sequence of 16-bit limbs (N = 16 * Len).  A bit field *)
(* is a record [lo, w]; a layout is a function from field names to fields.  *)
(* Fields wider than 16 bits are limb aligned, narrower ones never straddle *)
(* a limb: WellFormedLayout checks both, so Get/Pack below are exact.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt

LB == 65536                                   \* limb base

NLimbs(f) == (f.w + 15) \div 16
FirstLimb(f) == (f.lo \div 16) + 1
Shift(f) == 2 ^ (f.lo % 16)

BitsOf(f) == f.lo .. (f.lo + f.w - 1)

WellFormedLayout(L, nlimbs) ==
  /\ \A n \in DOMAIN L :
       /\ L[n].w > 0
       /\ L[n].lo + L[n].w <= 16 * nlimbs
       /\ IF L[n].w > 16 THEN L[n].lo % 16 = 0 /\ L[n].w % 16 = 0
          ELSE (L[n].lo % 16) + L[n].w <= 16
  /\ \A m, n \in DOMAIN L : m # n => BitsOf(L[m]) \cap BitsOf(L[n]) = {}

\* bits of a word that belong to no field
FreeBits(L, nlimbs) ==
  (0 .. (16 * nlimbs - 1)) \ UNION {BitsOf(L[n]) : n \in DOMAIN L}

GetField(w, f) ==
  IF f.w > 16 THEN SubSeq(w, FirstLimb(f), FirstLimb(f) + NLimbs(f) - 1)
  ELSE << (w[FirstLimb(f)] \div Shift(f)) % (2 ^ f.w) >>

Unpack(L, w) == [n \in DOMAIN L |-> GetField(w, L[n])]

Contribution(f, v, k) ==
  IF k >= FirstLimb(f) /\ k < FirstLimb(f) + NLimbs(f)
  THEN v[k - FirstLimb(f) + 1] * Shift(f) ELSE 0

Pack(L, v, nlimbs) ==
  [k \in 1 .. nlimbs |->
     LET c(n) == Contribution(L[n], v[n], k)
     IN MapThenSumSet(c, DOMAIN L)]

BitOf(w, i) == (w[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2

FlipBit(w, i) ==
  LET k == (i \div 16) + 1
      b == 2 ^ (i % 16)
  IN [w EXCEPT ![k] = IF BitOf(w, i) = 1 THEN @ - b ELSE @ + b]

\* the word that has exactly the bits of S raised
BitsToWord(S, nlimbs) ==
  [k \in 1 .. nlimbs |->
     LET c(i) == 2 ^ (i % 16)
     IN MapThenSumSet(c, {i \in S : i \div 16 = k - 1})]

ZeroWord(nlimbs) == [k \in 1 .. nlimbs |-> 0]
MaxWord(nlimbs) == [k \in 1 .. nlimbs |-> LB - 1]

IsWord(w, nlimbs) ==
  /\ Len(w) = nlimbs
  /\ \A k \in 1 .. nlimbs : w[k] \in 0 .. (LB - 1)

\* big-endian bytes of a word
ToBytesBE(w) ==
  [i \in 1 .. (2 * Len(w)) |->
     LET limb == w[Len(w) - ((i - 1) \div 2)]
     IN IF i % 2 = 1 THEN limb \div 256 ELSE limb % 256]

FromBytesBE(b) ==
  LET n == Len(b) \div 2
  IN [k \in 1 .. n |-> b[2 * (n - k) + 1] * 256 + b[2 * (n - k) + 2]]

(***************************************************************************)
(* Unsigned arithmetic on little-endian digit sequences of equal length in  *)
(* base B (B = LB for machine words, small B for exhaustive models).        *)
(***************************************************************************)
RECURSIVE AddC(_, _, _, _)
\* digits of a + b + carry, one digit longer than the operands
AddC(a, b, c, B) ==
  IF Len(a) = 0 THEN << c >>
  ELSE LET s == a[1] + b[1] + c
       IN << s % B >> \o AddC(Tail(a), Tail(b), s \div B, B)

RECURSIVE SubB(_, _, _, _)
\* digits of a - b - borrow (wrapping), followed by the final borrow
SubB(a, b, c, B) ==
  IF Len(a) = 0 THEN << c >>
  ELSE LET s == a[1] + B - b[1] - c
       IN << s % B >> \o SubB(Tail(a), Tail(b), IF s >= B THEN 0 ELSE 1, B)

Low(s) == SubSeq(s, 1, Len(s) - 1)
Carry(s) == s[Len(s)]

AddWrap(a, b, B) == Low(AddC(a, b, 0, B))
AddOverflows(a, b, B) == Carry(AddC(a, b, 0, B)) = 1
SubWrap(a, b, B) == Low(SubB(a, b, 0, B))
Lt(a, b, B) == Carry(SubB(a, b, 0, B)) = 1
Le(a, b, B) == ~Lt(b, a, B)
IsZero(a) == \A i \in 1 .. Len(a) : a[i] = 0

Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
=============================================================================
