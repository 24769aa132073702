---------------------------- MODULE DeployWords ----------------------------
(***************************************************************************)
(* Deploy with the real words: code is laid out in 256-bit words and named  *)
(* by its versioned hash.  A code is [mode, n, pool, digest]: n words       *)
(* filled with the instruction words of `pool`, over and over; digest is    *)
(* the SHA-256 digest of the page (computed here when the page is small).   *)
(***************************************************************************)
EXTENDS Codec, Abi, Sha256
Small == 40
SlotsOf(c) == c.n * PerCodeWord[c.mode]
PoolAt(c, k) == c.pool[(k % Len(c.pool)) + 1]
PageOf(c) == AssemblePage(c.mode, [k \in 1 .. SlotsOf(c) |-> PoolAt(c, k - 1)])
DigestOf(page) == FromBytesBE(Digest(FlattenSeq([i \in 1 .. Len(page) |-> ToBytesBE(page[i])])))
CodeHash(c) == HashOfDigest(c.digest, c.n)
DW == INSTANCE Deploy WITH
  Publishable <- LAMBDA c : c.n % 2 = 1 /\ c.n <= LB - 1,
  HashOf_ <- CodeHash,
  Recognised <- HashAccepted,
  MarkerOf <- LAMBDA w : HashFields(w).marker[1],
  LengthOf <- LAMBDA w : HashFields(w).len[1],
  AtRestForm <- Stored, MarkedForm <- WithMarker,
  SizeOf <- LAMBDA c : c.n,
  \* code memory reads as zero beyond the end of the code
  InsAt <- LAMBDA c, pc : Decode(c.mode, IF pc < SlotsOf(c) THEN PoolAt(c, pc) ELSE ZeroWord(WordLimbs[c.mode]))
=============================================================================
