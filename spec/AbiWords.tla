------------------------------ MODULE AbiWords ------------------------------
(***************************************************************************)
(* Editing sessions over one 256-bit word seen through every ABI, and the   *)
(* life of a contract code hash: created from a digest, marked as under     *)
(* construction, stored, finished, corrupted.                               *)
(***************************************************************************)
EXTENDS Abi
CONSTANTS Steps, Lanes      \* values tried in a 32-bit lane (limb pairs)

VARIABLES abw, abn
wv == <<abw, abn>>
WInit == abw = ZeroWord(16) /\ abn = 0
SetLane == \E k \in 0 .. 7 : \E v \in Lanes : abw' = [abw EXCEPT ![2 * k + 1] = v[1], ![2 * k + 2] = v[2]]
SetByte == \E k \in {28, 29, 30, 31} : \E v \in {0, 1, 2, 3, 255} :
             abw' = [abw EXCEPT ![(k \div 2) + 1] = IF k % 2 = 0 THEN (@ \div 256) * 256 + v ELSE (@ % 256) + 256 * v]
Flip == \E b \in 0 .. 255 : abw' = FlipBit(abw, b)
WNext == abn < Steps /\ abn' = abn + 1 /\ (SetLane \/ SetByte \/ Flip)
WSpec == WInit /\ [][WNext]_wv

FatPtrOK == LET p == FatPtrOf(abw) IN PackFatPtr(p) = SubSeq(abw, 1, 8) \o ZeroWord(8) /\ FatPtrOf(PackFatPtr(p)) = p
InnerOK == PackInner(InnerOf(abw)) = abw
PrecompileAgrees == LET a == PrecompileOf(abw) b == InnerOf(abw) IN \A f \in DOMAIN a : a[f] = b[f]
CallsAgree ==
  LET c == FarCallOf(abw) r == RetOf(abw) p == FatPtrOf(abw)
  IN /\ \A f \in DOMAIN p : c[f] = p[f] /\ r[f] = p[f]
     /\ c.fwd = r.fwd
     /\ c.fwd \in {"UseHeap", "ForwardFatPointer", "UseAuxHeap"}
OwnBitsOnly ==
  \A name \in DOMAIN Layouts : \A f \in DOMAIN Layouts[name] : \A b \in {0, 31, 32, 63, 64, 127, 128, 191, 192, 223, 224, 239, 240, 255} :
    b \notin BitsOf(Layouts[name][f]) => GetField(abw, Layouts[name][f]) = GetField(FlipBit(abw, b), Layouts[name][f])
\* code hashes
HashOK ==
  HashAccepted(abw) =>
    /\ Pack(HashLayout, HashFields(abw), 16) = abw
    /\ HashAccepted(Stored(abw)) /\ Stored(Stored(abw)) = Stored(abw)
    /\ HashFields(Stored(abw)).len = HashFields(abw).len /\ HashFields(Stored(abw)).tail = HashFields(abw).tail
    /\ Stored(WithMarker(abw, Constructing)) = Stored(WithMarker(abw, AtRest))
FromDigestOK ==
  \A len \in {0, 1, 255, 256, 65535} :
    LET h == HashOfDigest(abw, len)
    IN HashAccepted(h) /\ HashFields(h).len = <<len>> /\ HashFields(h).tail = SubSeq(abw, 1, 14) /\ Stored(h) = h
=============================================================================
