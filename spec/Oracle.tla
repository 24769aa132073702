------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* What the specification says every call of the public interface returns.  *)
(* Expected(op, a) is the result of call `op` with arguments `a`; recorded  *)
(* calls (TraceCalls) are accepted exactly when the result is this one.     *)
(* Words are limb sequences, options are [some |-> ..] records.             *)
(***************************************************************************)
EXTENDS Params, Codec, Sha256

Some(v) == [some |-> TRUE, v |-> v]
None == [some |-> FALSE]
P32 == INSTANCE Pointers WITH B <- LB, D <- 2, Read <- 32, DerefSlack <- 33, regs <- 0, last <- 0

(* ---- instruction words ---- *)
DecodeX(a) == [ins |-> Decode(a.mode, a.w), code |-> NumberOf(a.mode, a.w)]
HeadX(a) == LET d == Decode(a.mode, a.w) IN [variant |-> d.variant, cond |-> d.cond, code |-> NumberOf(a.mode, a.w)]
EncodeX(a) ==
  LET w == Encode(a.mode, a.ins) b == ToBytesBE(w) IN [w |-> w, bytes |-> b, bytes2 |-> b]
RoundTripX(a) == [ins |-> a.ins, number |-> TRUE, bytes |-> TRUE, bytes2 |-> TRUE]
AssignedWord(m, w) == NumberOf(m, w) \in 1 .. NumAssignedIn(NewestVersion) - 1
\* words no instruction encodes to (reserved or dead bits raised, unassigned code) are unconstrained
ReencodeOK(a, v) ==
  AssignedWord(a.mode, a.w) /\ Canonical(a.w) /\ (\A i \in DeadBits(a.mode) : BitOf(a.w, i) = 0) => v.w = a.w
TotalX(a) == LET b == ~AssignedWord(a.mode, a.w) IN [marks |-> <<b, b, b, b, b>>]
MaskX(a) ==
  LET m == IF a.to = "panic" THEN MaskPanic(a.ins) ELSE MaskNop(a.ins)
  IN [ins |-> m, w |-> Encode(a.mode, m), twice |-> m]
DefaultX(a) == [ins |-> DefaultIns(a.mode), w |-> Encode(a.mode, DefaultIns(a.mode)), variant |-> NopVariant]
SpecialX(a) ==
  [nop |-> NopWord(a.mode), panic |-> PanicWord(a.mode),
   nopIns |-> DecodeX([mode |-> a.mode, w |-> NopWord(a.mode)]).ins,
   panicIns |-> DecodeX([mode |-> a.mode, w |-> PanicWord(a.mode)]).ins]
SpecialVariantsX ==
  [nop |-> NopVariant, panic |-> PanicVariant, invalid |-> InvalidVariant,
   nopBits |-> Description(NopVariant), panicBits |-> Description(PanicVariant)]

(* ---- tables ---- *)
CodeX(a) ==
  LET x == VariantAt(NewestVersion, a.code)
  IN [variant |-> x, bits |-> Description(x), price |-> PriceOf(x), listed |-> PriceOf(x),
      kernel |-> NeedsKernel(x.fam, x.sub), static |-> StaticAllowed(x.fam, x.sub),
      panic |-> ExplicitPanic(x.fam), swap |-> SwapsOperands(x.fam, x.flags)]
PricedX(a) == LET p == PriceOf(VariantAt(NewestVersion, a.code)) IN [price |-> p, listed |-> p, op |-> p]
VariantX(a) ==         \* queries on any variant, assigned or not
  [kernel |-> NeedsKernel(a.variant.fam, a.variant.sub), static |-> StaticAllowed(a.variant.fam, a.variant.sub),
   panic |-> ExplicitPanic(a.variant.fam)]
BitsOfX(a) == LET d == Description(a.variant) IN [bits |-> d, again |-> d, n |-> 2]
LookupX(a) ==
  LET r == IF IsVariant(a.variant) THEN Some(CodeOf(a.variant)) ELSE None
  IN [mono |-> r, canon |-> r]
WidthsX ==
  [vars |-> MaxSubs, flags |-> MaxFlags, total |-> DescriptionBits, rounded |-> RoundedBits,
   aux |-> TotalBits, format |-> <<DescriptionBits>> \o GroupWidths,
   logical |-> NumFamilies, ins |-> NumSrcModes, outs |-> NumDstModes]

(* ---- metadata ---- *)
OpX(a) ==
  [ins |-> Ins(a.fam, a.sub, a.version), outs |-> Outs(a.fam, a.sub, a.version),
   srcMem |-> SrcFromMem(a.fam, a.sub, a.version), dstMem |-> DstToMem(a.fam, a.sub, a.version),
   kernel |-> NeedsKernel(a.fam, a.sub), static |-> StaticAllowed(a.fam, a.sub),
   price |-> PriceOf([fam |-> a.fam, sub |-> a.sub]),
   famBit |-> FamBit(a.fam), subIdx |-> SubIdx(a.fam, a.sub)]
OpPartX(a) ==
  CASE a.part = "operands" -> [ins |-> Ins(a.fam, a.sub, a.version), outs |-> Outs(a.fam, a.sub, a.version),
                               srcMem |-> SrcFromMem(a.fam, a.sub, a.version), dstMem |-> DstToMem(a.fam, a.sub, a.version)]
    [] a.part = "rights" -> [kernel |-> NeedsKernel(a.fam, a.sub), static |-> StaticAllowed(a.fam, a.sub)]
    [] a.part = "price" -> [price |-> PriceOf([fam |-> a.fam, sub |-> a.sub])]
    [] a.part = "index" -> [famBit |-> FamBit(a.fam), subIdx |-> SubIdx(a.fam, a.sub)]
SubsAvailable(fam, v) == {s \in ToSet(SubsOf(fam)) : AvailableIn(fam, s, v)}
SubsAdded(fam, v) == {s \in ToSet(SubsOf(fam)) : IntroducedIn(fam, s) = v}
FamOK(a, v) ==      \* lists are compared as sets without repetition
  LET subs == SubsOf(a.fam)
      n == Len(subs)
      Listed(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S
  IN /\ v.maxIdx = n - 1 /\ v.maxIdxForVersion = n - 1
     /\ Listed(v.descr, {<<j - 1, NumFlags(a.fam, subs[j]), NumImms(a.fam, subs[j])>> : j \in 1 .. n})
     /\ Listed(v.all, ToSet(subs))
     /\ Listed(v.available, SubsAvailable(a.fam, a.version))
     /\ Listed(v.added, SubsAdded(a.fam, a.version))
     /\ Listed(v.addedUpTo, UNION {SubsAdded(a.fam, k) : k \in 0 .. a.version})
SubAtX(a) ==
  IF a.idx <= MaxSubIdx(a.fam) THEN Some([sub |-> SubsOf(a.fam)[a.idx + 1], idx |-> a.idx]) ELSE None
AvailX(a) == [available |-> AvailableIn(a.fam, a.sub, a.version), added |-> IntroducedIn(a.fam, a.sub) = a.version]
ModeX(a) ==
  [idx |-> ModeIndex[a.m], byte |-> ModeIndex[a.m], mem |-> UsesMemory(a.m), dst |-> AllowedAsDst(a.m)]
ModeCountsX ==
  [full |-> <<Len(FullModes), Len(FullModes), Len(ModesOf("Full", TRUE))>>,
   regimm |-> <<Len(RegImmModes), Len(RegImmModes), Len(ModesOf("RegImm", TRUE))>>,
   fullOrder |-> FullModes, regimmOrder |-> RegImmModes]
VersionsX(a) == SelectSeq(Versions, LAMBDA v : v <= a.version)
CondX(a) == [name |-> Conditions[a.idx + 1], idx |-> a.idx, number |-> a.idx, listed |-> Conditions[a.idx + 1]]

(* ---- program counters ---- *)
WrapX(a) == [add |-> AddWrap(a.x, a.y, LB), sub |-> SubWrap(a.x, a.y, LB)]
ClipX(a) == SubSeq(a.v, 1, ImmLimbs[a.mode])
WidenX(a) == a.x \o ZeroWord(4 - ImmLimbs[a.mode])

(* ---- ABI words ---- *)
\* the two exceptions are distinct flags whose values are the implementation's choice
CheckOK(a, v) ==
  /\ v.nameOff # v.nameEnd /\ v.nameOff > 0 /\ v.nameEnd > 0
  /\ v.bits = (IF P32!BadFresh(a.p, a.fresh) THEN v.nameOff ELSE 0) + (IF P32!BadEnd(a.p) THEN v.nameEnd ELSE 0)
  /\ v.inb = P32!InBounds(a.p) /\ v.slice = P32!ValidSlice(a.p) /\ v.triv = P32!Trivial(a.p)
CheckX(a) ==
  [bits |-> P32!ValidateBits(a.p, a.fresh), inb |-> P32!InBounds(a.p), slice |-> P32!ValidSlice(a.p),
   triv |-> P32!Trivial(a.p)]
ParsedHash(w) ==
  [marker |-> HashFields(w).marker[1], len |-> HashFields(w).len[1], tail |-> HashFields(w).tail,
   ser |-> w, stored |-> Stored(w)]
HashParseX(a) == IF HashAccepted(a.w) THEN Some(ParsedHash(a.w)) ELSE None
HashDigestX(a) == ParsedHash(HashOfDigest(a.w, a.len))
BytecodeOK(n) == n % 2 = 1 /\ n <= LB - 1
BytecodeX(a) ==        \* words: big-endian 256-bit words of the code
  IF ~BytecodeOK(Len(a.words)) THEN None
  ELSE LET msg == FlattenSeq([i \in 1 .. Len(a.words) |-> ToBytesBE(a.words[i])])
       IN Some(HashOfDigest(FromBytesBE(Digest(msg)), Len(a.words)))
BytecodeLongX(a) == IF BytecodeOK(a.n) THEN Some(HashOfDigest(a.digest, a.n)) ELSE None

(* ---- whole tables and shared values, read one by one ---- *)
WholeTable == TLCEval([c \in 1 .. TableSize |-> VariantAt(NewestVersion, c - 1)])
WholeMap == TLCEval([c \in 1 .. NumAssignedIn(NewestVersion) |-> << c - 1, VariantAt(NewestVersion, c - 1) >>])
LazyX(a) ==
  CASE a.name = "NOP_VARIANT" -> NopVariant
    [] a.name = "PANIC_VARIANT" -> PanicVariant
    [] a.name = "NOP_BITS" -> Description(NopVariant)
    [] a.name = "PANIC_BITS" -> Description(PanicVariant)
    [] a.name = "NUM_LOGICAL" -> NumFamilies
    [] a.name = "NUM_IN" -> NumSrcModes
    [] a.name = "NUM_OUT" -> NumDstModes
WidthX(a) ==
  CASE a.name = "vars" -> MaxSubs
    [] a.name = "flags" -> MaxFlags
    [] a.name = "total" -> DescriptionBits
    [] a.name = "rounded" -> RoundedBits
    [] a.name = "aux" -> TotalBits
    [] a.name = "format" -> 2 * DescriptionBits      \* the total and its five groups

(* ---- values as keys (the laws of KeyedStore, on recorded pairs) ---- *)
Opposite == [lt |-> "gt", gt |-> "lt", eq |-> "eq"]
SameOK(a, v) ==
  LET same == a.x = a.y
      One(c) == Len(c) = 2 /\ c[1] = c[2] /\ c[1] \in DOMAIN Opposite     \* cmp and partial_cmp agree
  IN /\ v.eq = same /\ v.back = same /\ v.ne = ~same /\ v.copy
     /\ same => v.hash /\ v.debug
     /\ a.ordered => One(v.cmp) /\ One(v.cmpBack) /\ (v.cmp[1] = "eq") = same /\ v.cmpBack[1] = Opposite[v.cmp[1]]
TextX(a) ==
  LET same == a.x = a.y
  IN [same |-> same, sameDebug |-> same, sameVariant |-> a.x.variant = a.y.variant,
      regs |-> <<a.x.src0, a.x.src1, a.x.dst0, a.x.dst1>>, imms |-> <<a.x.imm0, a.x.imm1>>]

(* ---- implementations of the public traits by a user ---- *)
UserFamilyX(a) ==      \* provided methods, over the history the user declares
  LET at(i) == a.introduced[i] all == [i \in 1 .. Len(a.introduced) |-> i]
      Pick(P(_)) == LET s == SelectSeq(all, P) IN [i \in 1 .. Len(s) |-> s[i] - 1]
  IN [available |-> Pick(LAMBDA i : at(i) <= a.version), added |-> Pick(LAMBDA i : at(i) = a.version),
      isAvailable |-> [i \in 1 .. Len(all) |-> at(i) <= a.version],
      isAdded |-> [i \in 1 .. Len(all) |-> at(i) = a.version]]
FullKinds == {"Full", "Full.StackPP", "Full.StackOff", "Full.StackAbs", "Full.Imm", "Full.Code"}
UserShapeX(a) == [srcMem |-> First(a.ins) \in FullKinds, dstMem |-> First(a.outs) \in FullKinds]
UserHashX(a) ==        \* the generic hash adds nothing to the kind it is made of
  LET b == a.bytes
      Form(x) == IF b[3] = 255 THEN None ELSE Some([b EXCEPT ![2] = x])
  IN IF b[1] = 7 /\ b[32] # 9 THEN Some([layout |-> b, ser |-> Form(17), stored |-> Form(34)]) ELSE None
BytecodeUserX(a) == IF a.n % 2 = 1 /\ a.n <= a.limit THEN Some(HashOfDigest(a.digest, a.n)) ELSE None
UserMaskX(a) ==        \* masking keeps the immediates; the words are the mode's own (x + 2^20 y and x + 2^24 y, xored)
  [variant |-> IF a.panic THEN PanicVariant ELSE NopVariant, cond |-> Conditions[1], regs |-> <<0, 0, 0, 0>>, imm |-> <<a.x, a.y>>,
   int |-> << a.x, (a.y % 4096) * 16, a.y \div 4096, 0 >>,
   bytes |-> << a.x % 256, a.x \div 256, 0, a.y % 256, a.y \div 256, 0, 0, 0 >>]

Expected(op, a) ==
  CASE op = "decode" -> DecodeX(a)
    [] op = "head" -> HeadX(a)
    [] op = "encode" -> EncodeX(a)
    [] op = "slot" -> [variant |-> VariantAt(NewestVersion, a.code)]
    [] op = "priced" -> PricedX(a)
    [] op = "variant" -> VariantX(a)
    [] op = "rightsBits" -> VariantX(a)
    [] op = "sha" -> [digest |-> FromBytesBE(Digest(FlattenSeq([i \in 1 .. Len(a.words) |-> ToBytesBE(a.words[i])])))]
    [] op = "vprice" -> [price |-> PriceOf(a.variant), op |-> PriceOf(a.variant)]
    [] op = "swap" -> [swap |-> SwapsOperands(a.variant.fam, a.variant.flags)]
    [] op = "bitsOf" -> BitsOfX(a)
    [] op = "opPart" -> OpPartX(a)
    [] op = "roundtrip" -> RoundTripX(a)
    [] op = "total" -> TotalX(a)
    [] op = "wordBytes" -> [bytes |-> ToBytesBE(a.w)]
    [] op = "canon" -> [yes |-> Canonical(a.w)]
    [] op = "mask" -> MaskX(a)
    [] op = "default" -> DefaultX(a)
    [] op = "special" -> SpecialX(a)
    [] op = "specialVariants" -> SpecialVariantsX
    [] op = "code" -> CodeX(a)
    [] op = "lookup" -> LookupX(a)
    [] op = "entry" -> [variant |-> VariantAt(a.version, a.code)]
    [] op = "tableShape" -> [size |-> 2 ^ a.width, first |-> InvalidVariant, assigned |-> NumAssignedIn(a.version),
                             tailInvalid |-> TRUE, sameAs11 |-> TRUE, dup |-> FALSE]
    [] op = "bits" -> [bits |-> Description(VariantAt(a.version, a.code))]
    [] op = "widths" -> WidthsX
    [] op = "op" -> OpX(a)
    [] op = "subAt" -> SubAtX(a)
    [] op = "avail" -> AvailX(a)
    [] op = "mode" -> ModeX(a)
    [] op = "modeCounts" -> ModeCountsX
    [] op = "versions" -> [upto |-> VersionsX(a), all |-> Versions]
    [] op = "cond" -> CondX(a)
    [] op = "split" -> [parts |-> SplitPc(a.mode, a.pc)]
    [] op = "extract" -> [w |-> Extract(a.mode, a.word, a.sub)]
    [] op = "wrap" -> WrapX(a)
    [] op = "clip" -> [x |-> ClipX(a)]
    [] op = "widen" -> [v |-> WidenX(a)]
    [] op = "max" -> [x |-> MaxWord(ImmLimbs[a.mode])]
    [] op = "u4" -> [lo |-> a.byte % 16, hi |-> a.byte \div 16]
    [] op = "merge" -> [byte |-> a.lo + 16 * a.hi]
    [] op = "const" -> [v |-> Const[a.name]]
    [] op = "const256" -> [v |-> Const[a.name] \o ZeroWord(12)]
    [] op = "addr" -> [bytes |-> AddressBytes(Addresses[FullWidth[a.name]])]
    [] op = "range" -> [v |-> Ranges[a.name]]
    [] op = "fatUnpack" -> FatPtrOf(a.w)
    [] op = "fatPack" -> [w |-> PackFatPtr(a.p)]
    [] op = "fatEmpty" -> [p |-> P32!EmptyPtr, w |-> ZeroWord(16)]
    [] op = "farcall" -> FarCallOf(a.w)
    [] op = "nearcall" -> NearCallOf(a.w)
    [] op = "ret" -> RetOf(a.w)
    [] op = "fwd" -> [far |-> ForwardMode(a.byte), ret |-> ForwardMode(a.byte), numbers |-> <<ForwardByte(a.byte), ForwardByte(a.byte)>>]
    [] op = "pre" -> PrecompileOf(a.w)
    [] op = "inner" -> InnerOf(a.w)
    [] op = "innerPack" -> [w |-> PackInner(a.p)]
    [] op = "metaPack" -> [w |-> PackMeta(a.p)]
    [] op = "hashParse" -> HashParseX(a)
    [] op = "hashDigest" -> HashDigestX(a)
    [] op = "bytecode" -> BytecodeX(a)
    [] op = "userFamily" -> UserFamilyX(a)
    [] op = "userShape" -> UserShapeX(a)
    [] op = "userHash" -> UserHashX(a)
    [] op = "bytecodeUser" -> BytecodeUserX(a)
    [] op = "userMask" -> UserMaskX(a)
    [] op = "bytecodeLong" -> BytecodeLongX(a)
    [] op = "wholeTable" -> WholeTable
    [] op = "bitsList" -> [i \in 1 .. Len(a.codes) |-> Description(VariantAt(a.version, a.codes[i]))]
    [] op = "wholeBits" -> [c \in 1 .. TableSize |-> Description(VariantAt(NewestVersion, c - 1))]
    [] op = "wholePrices" -> [c \in 1 .. TableSize |-> PriceOf(VariantAt(NewestVersion, c - 1))]
    [] op = "wholeMap" -> WholeMap
    [] op = "lazy" -> LazyX(a)
    [] op = "width" -> WidthX(a)
    [] op = "text" -> TextX(a)
    [] op = "generated" -> [v |-> N(CircuitPrices[a.name]), committed |-> N(CircuitPrices[a.name])]

Accept(e) ==
  /\ e.r.k = "ok"
  /\ CASE e.op = "family" -> FamOK(e.a, e.r.v)
       [] e.op = "priceNames" -> ToSet(e.r.v.committed) = DOMAIN CircuitPrices
                                 /\ ToSet(e.r.v.generated) = DOMAIN CircuitPrices
                                 /\ Len(e.r.v.generated) = Cardinality(DOMAIN CircuitPrices)     \* each once
       [] e.op = "prototypes" ->      \* one prototype per family, in any order
            /\ Len(e.r.v) = NumFamilies
            /\ ToSet(e.r.v) = {<< Len(Families[i].subs) - 1, Len(Families[i].subs) >> : i \in 1 .. NumFamilies}
       [] e.op = "reencode" -> ReencodeOK(e.a, e.r.v)
       [] e.op = "same" -> SameOK(e.a, e.r.v)
       [] e.op = "sorted" -> e.r.v.ordered
       [] e.op = "fatCheck" -> CheckOK(e.a, e.r.v)
       [] e.op = "names" -> ToSet(e.r.v.consts) = DOMAIN Const /\ ToSet(e.r.v.addresses) = DOMAIN FullWidth
       [] OTHER -> e.r.v = Expected(e.op, e.a)
=============================================================================
