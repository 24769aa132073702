------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* Front end of a VM built on the definitions: fetch, decode, charge,       *)
(* check, mask, and the control-flow instructions over a stack of frames.   *)
(* Registers hold fixed ABI words (regs[1..15], r0 is zero); data           *)
(* instructions only leave an entry in `did`, and heap accesses grow (and   *)
(* pay for) the frame's memory.  Memory operands read zero.  Ergs are       *)
(* natural numbers below 2^31; offsets and memory bounds are two limbs.     *)
(***************************************************************************)
EXTENDS Codec, Prices, Abi, Counters

KernelSpace == 65536          \* addresses below are privileged
StaticFlag == 1               \* positions (1-based) in flags
LabelFlag == 1
RootEh == LB - 1

\* frame: pc, exception handler, ergs, address class, static, local (near-call) frame,
\* first memory page, bytes of heap and auxiliary heap paid for
Frame(pc, eh, ergs, addr, static, near, base, heap, aux) ==
  [pc |-> pc, eh |-> eh, ergs |-> ergs, addr |-> addr, static |-> static, near |-> near,
   base |-> base, heap |-> heap, aux |-> aux]
Fresh == << Stipend, 0 >>
IsKernelAddr(a) == a[2] = 0 /\ a[3] = 0 /\ a[4] = 0      \* four-limb (64-bit) address

\* machine: stack of frames (top last), pending exception, last executed operation
Start(ergs, addr) ==
  [stack |-> << Frame(0, RootEh, ergs, addr, FALSE, FALSE, BootPage, MaxWord(2), MaxWord(2)) >>, pending |-> FALSE,
   did |-> <<"none", "none">>, masked |-> "no", paid |-> 0, time |-> TimeStart, pages |-> FirstPage]
Halted(m) == m.stack = << >>
Top(m) == m.stack[Len(m.stack)]
Below(m) == SubSeq(m.stack, 1, Len(m.stack) - 1)
SumErgs(m) == MapThenSumSet(LAMBDA i : m.stack[i].ergs, DOMAIN m.stack)
Measure(m) == SumErgs(m) + Len(m.stack)

\* flags: <<lt, eq, gt>>
CondHolds(c, fl) ==
  CASE c = "Always" -> TRUE
    [] c = "Lt" -> fl[1] [] c = "Eq" -> fl[2] [] c = "Gt" -> fl[3]
    [] c = "Ge" -> fl[3] \/ fl[2] [] c = "Le" -> fl[1] \/ fl[2]
    [] c = "Ne" -> ~fl[2] [] c = "GtOrLt" -> fl[3] \/ fl[1]

NatPrice(x) == IF x.fam = "Invalid" THEN 2147483647 ELSE OpPrice(x.fam, x.sub)
Affordable(x, ergs) == x.fam # "Invalid" /\ NatPrice(x) <= ergs

Reg(regs, i) == IF i = 0 THEN ZeroWord(16) ELSE regs[i]
Src0Value(ins, regs) ==
  IF ins.variant.src \in {"Reg", "RegImm.Reg", "Full.Reg"} THEN Reg(regs, ins.src0)
  ELSE IF ins.variant.src \in {"Full.Imm", "RegImm.Imm"}
       THEN << ins.imm0[1] >> \o ZeroWord(15) ELSE ZeroWord(16)

\* a u32 (two limbs) clipped to the native bound cap
Clip(u, cap) == IF u[2] >= 32768 THEN cap ELSE IF u[1] + u[2] * LB > cap THEN cap ELSE u[1] + u[2] * LB

\* why an instruction must not run
Fault(ins, frame, depth, maxDepth) ==
  LET x == ins.variant IN
  IF ~Affordable(x, frame.ergs) THEN "ergs"
  ELSE IF ExplicitPanic(x.fam) THEN "invalid"
  ELSE IF NeedsKernel(x.fam, x.sub) /\ ~IsKernelAddr(frame.addr) THEN "kernel"
  ELSE IF frame.static /\ ~StaticAllowed(x.fam, x.sub) THEN "static"
  ELSE IF x.fam \in {"NearCall", "FarCall"} /\ depth >= maxDepth THEN "depth"
  ELSE "none"

\* pointers of call and return words (registers never hold real pointers): only ranges of own memory, from their start
BadForward(abi) ==
  abi.fwd = "ForwardFatPointer"
  \/ ~IsZero(abi.offset) \/ AddOverflows(abi.start, abi.length, LB)

\* frame f with `which` memory grown to `upto` bytes, at one erg per byte; unaffordable growth burns the frame's ergs
GrowthPrice(have, upto) ==
  IF Le(upto, have, LB) THEN 0 ELSE Clip(SubWrap(upto, have, LB), 2147483647)
Grow(f, which, upto) ==
  LET cost == GrowthPrice(f[which], upto)
  IN IF cost > f.ergs THEN [ok |-> FALSE, f |-> [f EXCEPT !.ergs = 0]]
     ELSE [ok |-> TRUE, f |-> [f EXCEPT !.ergs = @ - cost, ![which] = IF Le(upto, @, LB) THEN @ ELSE upto]]
\* memory named by a call or return word
GrowFor(f, abi) ==
  IF BadForward(abi) THEN [ok |-> FALSE, f |-> f]
  ELSE Grow(f, IF abi.fwd = "UseHeap" THEN "heap" ELSE "aux", AddWrap(abi.start, abi.length, LB))

\* leave the current frame; ergs only come back from orderly returns, local frames share the memory of their caller
Leave(m, ins, f, how) ==
  IF Len(m.stack) = 1 THEN [m EXCEPT !.stack = << >>, !.did = <<"Ret", how>>]
  ELSE LET caller == m.stack[Len(m.stack) - 1]
           toLabel == f.near /\ ins.variant.flags[LabelFlag]
           pc == IF toLabel THEN ins.imm0[1]
                 ELSE IF how = "Ok" THEN caller.pc ELSE f.eh
           back == IF how = "Panic" THEN 0 ELSE f.ergs
           ret == [caller EXCEPT !.pc = pc, !.ergs = @ + back,
                                 !.heap = IF f.near THEN f.heap ELSE @, !.aux = IF f.near THEN f.aux ELSE @]
       IN [m EXCEPT !.stack = Append(SubSeq(@, 1, Len(@) - 2), ret), !.did = <<"Ret", how>>]
\* a far frame returns a range of its own memory, or panics
Return(m, ins, f, how, regs) ==
  IF f.near \/ how = "Panic" THEN Leave(m, ins, f, how)
  ELSE LET g == GrowFor(f, RetOf(Src0Value(ins, regs)))
       IN Leave(m, ins, g.f, IF g.ok THEN how ELSE "Panic")

EnterNear(m, ins, f, regs) ==
  LET asked == NearCallOf(Src0Value(ins, regs)).ergs
      passed == IF IsZero(asked) THEN f.ergs ELSE Clip(asked, f.ergs)
  IN [m EXCEPT !.stack = Append(Append(Below(m), [f EXCEPT !.ergs = @ - passed]),
        Frame(ins.imm0[1], ins.imm1[1], passed, f.addr, f.static, TRUE, f.base, f.heap, f.aux))]

EnterFar(m, ins, f, regs) ==
  LET abi == FarCallOf(Src0Value(ins, regs))
      dest == SubSeq(Reg(regs, ins.src1), 1, 4)
      g == GrowFor(f, abi)
      passed == Clip(abi.ergs, (g.f.ergs \div 64) * 63)
  IN [m EXCEPT !.stack = Append(Append(Below(m), [g.f EXCEPT !.ergs = @ - passed]),
                                Frame(0, ins.imm0[1], passed, dest,
                                      f.static \/ ins.variant.flags[StaticFlag], FALSE, m.pages, Fresh, Fresh)),
               !.pending = ~g.ok, !.pages = @ + PagesPerCall]

\* heap accesses; a failing one ends the frame in the next cycle (registers never hold real pointers)
HeapOf(sub) == CASE sub \in {"HeapRead", "HeapWrite"} -> "heap" [] sub \in {"AuxHeapRead", "AuxHeapWrite"} -> "aux" [] OTHER -> "none"
Access(m, ins, f, regs) ==
  LET at == Src0Value(ins, regs)
      beyond == ~IsZero(SubSeq(at, 3, 16)) \/ Lt(MaxOffset, SubSeq(at, 1, 2), LB)
      g == IF HeapOf(ins.variant.sub) = "none" THEN [ok |-> ins.variant.sub # "FatPointerRead", f |-> f]
           ELSE IF beyond THEN [ok |-> FALSE, f |-> f]
           ELSE Grow(f, HeapOf(ins.variant.sub), AddWrap(SubSeq(at, 1, 2), <<32, 0>>, LB))
  IN [m EXCEPT !.stack[Len(m.stack)] = g.f, !.pending = ~g.ok]

Execute(m, ins, f, regs) ==      \* f: current frame, already charged and with the next pc
  LET x == ins.variant
      here == [m EXCEPT !.stack = Append(Below(m), f), !.did = <<x.fam, x.sub>>]
  IN CASE x.fam = "Jump" ->
            [here EXCEPT !.stack[Len(m.stack)].pc = Src0Value(ins, regs)[1]]
       [] x.fam = "NearCall" -> EnterNear(here, ins, f, regs)
       [] x.fam = "FarCall" -> EnterFar(here, ins, f, regs)
       [] x.fam = "Ret" -> Return(here, ins, f, x.sub, regs)
       [] x.fam = "UMA" -> Access(here, ins, f, regs)
       [] OTHER -> here

\* one cycle; `fetched` is the instruction the fetch finds when no exception is pending
CycleOf(m, fetched, fl, regs, maxDepth) ==
  LET f == Top(m)
      ins == IF m.pending THEN Bare("prod", PanicVariant) ELSE fetched
      fault == Fault(ins, f, Len(m.stack), maxDepth)
      masked == IF fault # "none" THEN MaskPanic(ins)
                ELSE IF ~CondHolds(ins.cond, fl) THEN MaskNop(ins) ELSE ins
      ergs == IF fault = "ergs" THEN 0 ELSE f.ergs - NatPrice(ins.variant)
      pc == IF m.pending THEN f.pc ELSE (f.pc + 1) % LB
      charged == [f EXCEPT !.ergs = ergs, !.pc = pc]
      how == IF fault # "none" THEN "panic" ELSE IF ~CondHolds(ins.cond, fl) THEN "nop" ELSE "no"
  IN Execute([m EXCEPT !.pending = FALSE, !.masked = how, !.paid = f.ergs - ergs, !.time = @ + TimeDelta], masked, charged, regs)

Cycle(m, word, fl, regs, maxDepth) == CycleOf(m, Decode("prod", word), fl, regs, maxDepth)
FetchWord(page, pc) ==      \* page: sequence of 256-bit words, zero beyond its end
  IF pc \div 4 >= Len(page) THEN ZeroWord(4) ELSE Fetch("prod", page, pc)
RunCycle(m, page, fl, regs, maxDepth) == Cycle(m, FetchWord(page, Top(m).pc), fl, regs, maxDepth)

(* ---- what must hold of one cycle m -> n ---- *)
NoGain(m, n) == SumErgs(n) <= SumErgs(m)
Progress(m, n) == Measure(n) < Measure(m)
NoDebt(n) == \A i \in DOMAIN n.stack : n.stack[i].ergs >= 0
StaticInherited(n) ==
  \A i \in DOMAIN n.stack : i > 1 => (n.stack[i - 1].static => n.stack[i].static)
\* what was executed was allowed in the frame that executed it
Allowed(m, n) ==
  LET f == Top(m) IN
  /\ NeedsKernel(n.did[1], n.did[2]) => IsKernelAddr(f.addr)
  /\ f.static => StaticAllowed(n.did[1], n.did[2])
  /\ n.did[1] # "Invalid"
PaysOrDies(m, n) == n.paid >= Average \/ n.masked = "panic"
FaultsPanic(m, n) == n.masked = "panic" => n.did = <<"Ret", "Panic">> /\ Len(n.stack) = Len(m.stack) - 1
\* memory beyond the free start is paid for, byte by byte
MemoryPaid(m, n) ==
  Len(n.stack) = Len(m.stack) =>
    LET i == Len(m.stack)
        before == m.stack[i]
        after == n.stack[i]
    IN /\ Le(before.heap, after.heap, LB) /\ Le(before.aux, after.aux, LB)
       /\ before.ergs - after.ergs = n.paid + GrowthPrice(before.heap, after.heap) + GrowthPrice(before.aux, after.aux)
          \/ after.ergs = 0
\* exceptions are taken in the next cycle, timestamps advance, far calls get pages nobody has
Punctual(m, n) == ~(m.pending /\ n.pending) /\ n.time = m.time + TimeDelta
PagesApart(n) ==
  \A i \in DOMAIN n.stack :
    /\ n.stack[i].base + PagesPerCall <= n.pages
    /\ i > 1 => IF n.stack[i].near THEN n.stack[i].base = n.stack[i - 1].base
                ELSE n.stack[i].base >= n.stack[i - 1].base + PagesPerCall
\* a popped frame that panicked gives nothing back
PanicBurns(m, n) ==
  n.did = <<"Ret", "Panic">> /\ Len(n.stack) > 0 => Top(n).ergs = m.stack[Len(m.stack) - 1].ergs
=============================================================================
