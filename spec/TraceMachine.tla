---------------------------- MODULE TraceMachine ----------------------------
(***************************************************************************)
(* Recorded sessions of a front end built on the real definitions: every    *)
(* cycle must be the specification's, and every step must be safe.          *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sess, pos, mach, prev
TInit == /\ sess \in 1 .. Len(Log) /\ pos = 1
         /\ mach = Start(Log[sess].ergs, Log[sess].addr) /\ prev = mach
After(m, s, k) == RunCycle(m, s.page, s.flags[k], s.regs, s.depth)
TNext == /\ ~Halted(mach) /\ pos <= Len(Log[sess].obs)
         /\ mach' = After(mach, Log[sess], pos) /\ prev' = mach
         /\ pos' = pos + 1 /\ UNCHANGED sess
TSpec == TInit /\ [][TNext]_<<sess, pos, mach, prev>>
Conforms ==
  /\ pos > 1 => Log[sess].obs[pos - 1].k = "ok" /\ Log[sess].obs[pos - 1].v = mach
  \* the recording is over only when the machine halted or the flags ran out
  /\ (pos > Len(Log[sess].obs)) => Halted(mach) \/ pos > Len(Log[sess].flags)
  /\ (Halted(mach) => pos > Len(Log[sess].obs))
StepSafe ==
  pos > 1 => /\ NoGain(prev, mach) /\ Progress(prev, mach) /\ Allowed(prev, mach) /\ PaysOrDies(prev, mach)
             /\ FaultsPanic(prev, mach) /\ PanicBurns(prev, mach)
             /\ MemoryPaid(prev, mach) /\ Punctual(prev, mach)
StateSafe == NoDebt(mach) /\ StaticInherited(mach) /\ PagesApart(mach) /\ Len(mach.stack) <= Log[sess].depth
=============================================================================
