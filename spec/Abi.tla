-------------------------------- MODULE Abi --------------------------------
(***************************************************************************)
(* 256-bit ABI words (16 limbs) and the versioned code hash, as layouts.    *)
(***************************************************************************)
EXTENDS Words, TLC

F(lo, w) == [lo |-> lo, w |-> w]

FatPtrLayout == [offset |-> F(0, 32), page |-> F(32, 32), start |-> F(64, 32), length |-> F(96, 32)]
FarCallLayout == FatPtrLayout @@
  [ergs |-> F(192, 32), fwd |-> F(224, 8), shard |-> F(232, 8), ctor |-> F(240, 8), sys |-> F(248, 8)]
RetLayout == FatPtrLayout @@ [fwd |-> F(224, 8)]
NearCallLayout == [ergs |-> F(0, 32)]
PrecompileLayout ==
  [in_off |-> F(0, 32), in_len |-> F(32, 32), out_off |-> F(64, 32), out_len |-> F(96, 32),
   data |-> F(192, 64)]
PrecompileInnerLayout == PrecompileLayout @@ [page_r |-> F(128, 32), page_w |-> F(160, 32)]
MetaLayout ==
  [pubdata |-> F(0, 32), heap |-> F(64, 32), aux |-> F(96, 32),
   this_shard |-> F(224, 8), caller_shard |-> F(232, 8), code_shard |-> F(240, 8)]
HashLayout ==   \* big-endian 32 bytes: version, marker, length (2), digest tail (28)
  [version |-> F(248, 8), marker |-> F(240, 8), len |-> F(224, 16), tail |-> F(0, 224)]

Layouts ==
  [fatptr |-> FatPtrLayout, farcall |-> FarCallLayout, ret |-> RetLayout, nearcall |-> NearCallLayout,
   precompile |-> PrecompileLayout, inner |-> PrecompileInnerLayout, meta |-> MetaLayout,
   hash |-> HashLayout]

MaxOffset == << LB - 33, LB - 1 >>      \* of a 32-byte access that ends within 32 bits

\* the byte that stands for the mode a byte decodes to
ForwardByte(b) == IF b \in {1, 2} THEN b ELSE 0
ForwardMode(b) == IF b = 1 THEN "ForwardFatPointer" ELSE IF b = 2 THEN "UseAuxHeap" ELSE "UseHeap"

\* positions published as byte indices, little-endian
ByteIdx == [FAR_CALL_FORWARDING_MODE_BYTE_IDX |-> FarCallLayout.fwd.lo \div 8,
            FAR_CALL_SHARD_ID_BYTE_IDX |-> FarCallLayout.shard.lo \div 8,
            FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX |-> FarCallLayout.ctor.lo \div 8,
            FAR_CALL_SYSTEM_CALL_BYTE_IDX |-> FarCallLayout.sys.lo \div 8,
            RET_FORWARDING_MODE_BYTE_IDX |-> RetLayout.fwd.lo \div 8]

FatPtrOf(w) == Unpack(FatPtrLayout, w)
FarCallOf(w) ==
  LET u == Unpack(FarCallLayout, w)
  IN [offset |-> u.offset, page |-> u.page, start |-> u.start, length |-> u.length,
      ergs |-> u.ergs, shard |-> u.shard, fwd |-> ForwardMode(u.fwd[1]),
      ctor |-> u.ctor[1] # 0, sys |-> u.sys[1] # 0]
RetOf(w) ==
  LET u == Unpack(RetLayout, w)
  IN [offset |-> u.offset, page |-> u.page, start |-> u.start, length |-> u.length,
      fwd |-> ForwardMode(u.fwd[1])]
NearCallOf(w) == Unpack(NearCallLayout, w)
PrecompileOf(w) == Unpack(PrecompileLayout, w)
InnerOf(w) == Unpack(PrecompileInnerLayout, w)

PackFatPtr(p) == Pack(FatPtrLayout, p, 16)
PackInner(p) == Pack(PrecompileInnerLayout, p, 16)
PackMeta(p) == Pack(MetaLayout, p, 16)

(* ---- versioned code hash ---- *)
VersionByte == 1
AtRest == 0
Constructing == 1
HashAccepted(w) == GetField(w, HashLayout.version) = <<VersionByte>>
HashFields(w) == Unpack(HashLayout, w)
Stored(w) == Pack(HashLayout, [Unpack(HashLayout, w) EXCEPT !.marker = <<0>>], 16)
WithMarker(w, m) == Pack(HashLayout, [Unpack(HashLayout, w) EXCEPT !.marker = <<m>>], 16)
HashOfDigest(digest, numWords) ==
  Pack(HashLayout, [version |-> <<VersionByte>>, marker |-> <<AtRest>>, len |-> <<numWords>>,
                    tail |-> SubSeq(digest, 1, 14)], 16)

AbiDesignOK ==
  /\ \A n \in DOMAIN Layouts : WellFormedLayout(Layouts[n], 16)
  /\ FreeBits(PrecompileInnerLayout, 16) = {}
  /\ FreeBits(HashLayout, 16) = {}
  /\ FreeBits(FatPtrLayout, 16) = 128 .. 255
  /\ ByteIdx.RET_FORWARDING_MODE_BYTE_IDX = ByteIdx.FAR_CALL_FORWARDING_MODE_BYTE_IDX
=============================================================================
