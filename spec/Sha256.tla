------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* FIPS 180-4 SHA-256, executable in TLC.  A 32-bit word is <<lo, hi>> with *)
(* 16-bit limbs; a message is a sequence of bytes of any length.            *)
(***************************************************************************)
EXTENDS Words, SequencesExt, Bitwise, TLC

XorW(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
AndW(a, b) == << a[1] & b[1], a[2] & b[2] >>
NotW(a) == << LB - 1 - a[1], LB - 1 - a[2] >>
AddW(a, b) ==
  LET lo == a[1] + b[1]
  IN << lo % LB, (a[2] + b[2] + (lo \div LB)) % LB >>
\* rotation and shift right by n, 0 < n < 32
RotSmall(a, n) ==
  IF n = 0 THEN a
  ELSE LET d == 2 ^ n
           m == 2 ^ (16 - n)
       IN << (a[1] \div d) + (a[2] % d) * m, (a[2] \div d) + (a[1] % d) * m >>
Rot(a, n) == IF n >= 16 THEN RotSmall(<< a[2], a[1] >>, n - 16) ELSE RotSmall(a, n)
Shr(a, n) ==
  IF n >= 16 THEN << a[2] \div (2 ^ (n - 16)), 0 >>
  ELSE << (a[1] \div (2 ^ n)) + (a[2] % (2 ^ n)) * (2 ^ (16 - n)), a[2] \div (2 ^ n) >>

K == <<
  <<12184, 17034>>, <<17553, 28983>>, <<64463, 46528>>, <<56229, 59829>>,
  <<49755, 14678>>, <<4593, 23025>>, <<33444, 37439>>, <<24277, 43804>>,
  <<43672, 55303>>, <<23297, 4739>>, <<34238, 9265>>, <<32195, 21772>>,
  <<23924, 29374>>, <<45566, 32990>>, <<1703, 39900>>, <<61812, 49563>>,
  <<27073, 58523>>, <<18310, 61374>>, <<40390, 4033>>, <<41420, 9228>>,
  <<11375, 11753>>, <<33962, 19060>>, <<43484, 23728>>, <<35034, 30457>>,
  <<20818, 38974>>, <<50797, 43057>>, <<10184, 45059>>, <<32711, 48985>>,
  <<3059, 50912>>, <<37191, 54695>>, <<25425, 1738>>, <<10599, 5161>>,
  <<2693, 10167>>, <<8504, 11803>>, <<28156, 19756>>, <<3347, 21304>>,
  <<29524, 25866>>, <<2747, 30314>>, <<51502, 33218>>, <<11397, 37490>>,
  <<59553, 41663>>, <<26187, 43034>>, <<35696, 49739>>, <<20899, 51052>>,
  <<59417, 53650>>, <<1572, 54937>>, <<13701, 62478>>, <<41072, 4202>>,
  <<49430, 6564>>, <<27656, 7735>>, <<30540, 10056>>, <<48309, 13488>>,
  <<3251, 14620>>, <<43594, 20184>>, <<51791, 23452>>, <<28659, 26670>>,
  <<33518, 29839>>, <<25455, 30885>>, <<30740, 33992>>, <<520, 36039>>,
  <<65530, 37054>>, <<27883, 42064>>, <<41975, 48889>>, <<30962, 50801>>
>>
H0 == <<
  <<58983, 27145>>, <<44677, 47975>>, <<62322, 15470>>, <<62778, 42319>>,
  <<21119, 20750>>, <<26764, 39685>>, <<55723, 8067>>, <<52505, 23520>>
>>

Sig0(x) == XorW(XorW(Rot(x, 7), Rot(x, 18)), Shr(x, 3))
Sig1(x) == XorW(XorW(Rot(x, 17), Rot(x, 19)), Shr(x, 10))
Sum0(x) == XorW(XorW(Rot(x, 2), Rot(x, 13)), Rot(x, 22))
Sum1(x) == XorW(XorW(Rot(x, 6), Rot(x, 11)), Rot(x, 25))
Ch(e, f, g) == XorW(AndW(e, f), AndW(NotW(e), g))
Maj(a, b, c) == XorW(XorW(AndW(a, b), AndW(a, c)), AndW(b, c))

Range1(a, n) == [i \in 1 .. n |-> a + i - 1]
\* folds keep TLC's evaluation strict (recursion over lazy arguments is exponential)
Schedule(block) ==
  FoldLeft(LAMBDA w, t : Append(w, AddW(AddW(Sig1(w[t - 2]), w[t - 7]), AddW(Sig0(w[t - 15]), w[t - 16]))),
           block, Range1(17, 48))

RoundStep(s, w, t) ==
  LET t1 == AddW(AddW(AddW(s[8], Sum1(s[5])), AddW(Ch(s[5], s[6], s[7]), K[t])), w[t])
      t2 == AddW(Sum0(s[1]), Maj(s[1], s[2], s[3]))
  IN << AddW(t1, t2), s[1], s[2], s[3], AddW(s[4], t1), s[5], s[6], s[7] >>

Compress(h, block) ==    \* block: 16 words
  LET w == TLCEval(Schedule(block))
      r == FoldLeft(LAMBDA s, t : RoundStep(s, w, t), h, Range1(1, 64))
  IN [i \in 1 .. 8 |-> AddW(h[i], r[i])]

\* padded message as bytes; lengths below 2^27 bytes
Padded(msg) ==
  LET n == Len(msg)
      z == (119 - (n % 64)) % 64
      bits == n * 8
  IN msg \o <<128>> \o [i \in 1 .. z |-> 0]
     \o <<0, 0, 0, 0, bits \div 16777216, (bits \div 65536) % 256, (bits \div 256) % 256, bits % 256>>
BlockAt(p, k) ==
  [i \in 1 .. 16 |->
     LET o == (k - 1) * 64 + (i - 1) * 4
     IN << p[o + 3] * 256 + p[o + 4], p[o + 1] * 256 + p[o + 2] >>]

\* digest as 32 bytes
Digest(msg) ==
  LET p == TLCEval(Padded(msg))
      h == FoldLeft(LAMBDA acc, k : Compress(acc, BlockAt(p, k)), H0, Range1(1, Len(p) \div 64))
  IN [i \in 1 .. 32 |->
        LET w == h[((i - 1) \div 4) + 1]
            limb == IF (i - 1) % 4 < 2 THEN w[2] ELSE w[1]
        IN IF i % 2 = 1 THEN limb \div 256 ELSE limb % 256]
=============================================================================
