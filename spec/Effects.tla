------------------------------ MODULE Effects ------------------------------
(***************************************************************************)
(* What a run leaves behind: storage accesses, events, L1 messages and      *)
(* precompile requests, collected in one log with timestamps and log types, *)
(* rolled back with the frames that made them; and who a frame is (its      *)
(* address, caller, code and shards), which decides what it may do.         *)
(* An action is a decoded variant `x` with its operand values: w0, w1 (16   *)
(* limbs) and w2, the caller a mimic call pretends to be (4 limbs).         *)
(* Conditions hold, ergs suffice and memory ranges are proper here: those   *)
(* are the concerns of Machine and Grants.                                  *)
(***************************************************************************)
EXTENDS Abi, ISA, Counters
EffectDepth == 5
KernelBound == 65536            \* addresses below are privileged
LogStorage == 0
LogEvent == 1
LogMessage == 2
LogPrecompile == 3
HeapAt == 2                     \* heap of a frame, among its pages
StaticAt == 1                   \* positions (from 1) of flags
ShardAt == 2
FirstAt == 1
CircuitOf(a) ==                 \* precompile circuits by address (four limbs)
  IF a = <<32784, 0, 0, 0>> THEN "keccak" ELSE IF a = <<2, 0, 0, 0>> THEN "sha" ELSE IF a = <<1, 0, 0, 0>> THEN "ecrecover" ELSE "none"
Privileged(a) == a[2] = 0 /\ a[3] = 0 /\ a[4] = 0
Nothing == [some |-> FALSE]
Just(v) == [some |-> TRUE, v |-> v]
Low4(w) == SubSeq(w, 1, 4)
WideAddr(a) == a \o ZeroWord(12)

\* shards: <<this, caller, code>>; from: records made before the frame was entered
Root(addr) == [this |-> addr, caller |-> ZeroWord(4), code |-> addr, shards |-> <<0, 0, 0>>, static |-> FALSE,
               base |-> BootPage, ctx |-> ZeroWord(8), from |-> 0, near |-> FALSE]
\* `gone` calls and `late` cycles happened before, and left no trace but time and pages
Begin(addr, gone, late) ==
               [stack |-> << [Root(addr) EXCEPT !.base = IF gone = 0 THEN @ ELSE FirstPage + PagesPerCall * (gone - 1)] >>,
                time |-> TimeStart + TimeDelta * late, pages |-> FirstPage + PagesPerCall * gone, tx |-> 0, price |-> <<0, 0>>,
                ctx |-> ZeroWord(8), log |-> << >>]
Over(s) == s.stack = << >>
Me(s) == s.stack[Len(s.stack)]

MayRun(s, x) ==
  /\ ~ExplicitPanic(x.fam)
  /\ NeedsKernel(x.fam, x.sub) => Privileged(Me(s).this)
  /\ Me(s).static => StaticAllowed(x.fam, x.sub)
  /\ x.fam \in {"FarCall", "NearCall"} => Len(s.stack) < EffectDepth
\* what runs in place of x
Ran(s, a) == IF MayRun(s, a.x) THEN <<a.x.fam, a.x.sub>> ELSE <<"Ret", "Panic">>

\* reads and precompile requests were made whatever becomes of the frame
CanRollBack(r) == r.rw /\ r.type # LogPrecompile
SlotOf(r) == <<r.shard, r.addr, r.key>>
\* live writes to a slot, the last of them counts
StoredIn(log, slot) ==
  LET ws == {i \in DOMAIN log : log[i].live /\ log[i].type = LogStorage /\ log[i].rw /\ SlotOf(log[i]) = slot}
  IN IF ws = {} THEN ZeroWord(16) ELSE log[CHOOSE i \in ws : \A j \in ws : j <= i].value

Record(s, a) ==
  LET f == Me(s)
      sub == a.x.sub
      base == [type |-> CASE sub \in {"StorageRead", "StorageWrite"} -> LogStorage [] sub = "Event" -> LogEvent
                          [] sub = "ToL1Message" -> LogMessage [] OTHER -> LogPrecompile,
               time |-> s.time, addr |-> f.this, shard |-> f.shards[1], tx |-> s.tx, rw |-> sub # "StorageRead",
               first |-> sub \in {"Event", "ToL1Message"} /\ a.x.flags[FirstAt], key |-> a.w0, value |-> a.w1, circuit |-> "none", live |-> TRUE]
      own == << (f.base + HeapAt) % LB, (f.base + HeapAt) \div LB >>
  IN CASE sub = "StorageRead" -> [base EXCEPT !.value = StoredIn(s.log, <<f.shards[1], f.this, a.w0>>)]
       [] sub = "PrecompileCall" ->
            LET p == PrecompileOf(a.w0)
            IN [base EXCEPT !.key = PackInner([k \in DOMAIN PrecompileInnerLayout |-> IF k \in {"page_r", "page_w"} THEN own ELSE p[k]]),
                            !.value = ZeroWord(16), !.circuit = CircuitOf(f.this)]
       [] OTHER -> base

\* leaving a frame; failures take its writes, events and messages back, and those of the frames it called
Leave(s, how) ==
  LET f == Me(s) IN
  [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.ctx = IF f.near THEN @ ELSE ZeroWord(8),
            !.log = IF how = "Ok" THEN @ ELSE [i \in DOMAIN @ |-> IF i > f.from /\ CanRollBack(@[i]) THEN [@[i] EXCEPT !.live = FALSE] ELSE @[i]]]

Enter(s, a) ==
  LET f == Me(s)
      abi == FarCallOf(a.w0)
      to == Low4(a.w1)
      shard == IF a.x.flags[ShardAt] THEN abi.shard[1] ELSE f.shards[1]
      keeps == a.x.sub = "Delegate"
  IN [s EXCEPT !.stack = Append(@, [this |-> IF keeps THEN f.this ELSE to,
                                    caller |-> IF keeps THEN f.caller ELSE IF a.x.sub = "Mimic" THEN a.w2 ELSE f.this,
                                    code |-> to,
                                    shards |-> IF keeps THEN <<f.shards[1], f.shards[2], shard>> ELSE <<shard, f.shards[1], shard>>,
                                    static |-> f.static \/ a.x.flags[StaticAt], base |-> s.pages,
                                    ctx |-> IF keeps THEN f.ctx ELSE s.ctx, from |-> Len(s.log), near |-> FALSE]),
               !.pages = @ + PagesPerCall, !.ctx = ZeroWord(8)]

\* a near call is a frame of the same contract, in the same memory, that can fail alone
EnterNear(s) == [s EXCEPT !.stack = Append(@, [Me(s) EXCEPT !.from = Len(s.log), !.near = TRUE])]

\* the state after one cycle
Do(s, a) ==
  LET ran == Ran(s, a)
      t == CASE ran[1] = "Ret" -> Leave(s, ran[2])
             [] ran[1] = "FarCall" -> Enter(s, a)
             [] ran[1] = "NearCall" -> EnterNear(s)
             [] ran[1] = "Log" -> [s EXCEPT !.log = Append(@, Record(s, a))]
             [] ran = <<"Context", "IncrementTxNumber">> -> [s EXCEPT !.tx = @ + 1]
             [] ran = <<"Context", "SetErgsPerPubdataByte">> -> [s EXCEPT !.price = SubSeq(a.w0, 1, 2)]
             [] ran = <<"Context", "SetContextU128">> -> [s EXCEPT !.ctx = SubSeq(a.w0, 1, 8)]
             [] OTHER -> s
  IN [t EXCEPT !.time = @ + TimeDelta]
MetaWord(s) ==
  PackMeta([pubdata |-> s.price, heap |-> <<Stipend, 0>>, aux |-> <<Stipend, 0>>, this_shard |-> << Me(s).shards[1] >>,
            caller_shard |-> << Me(s).shards[2] >>, code_shard |-> << Me(s).shards[3] >>])
\* the value an instruction answers with
Answer(s, a) ==
  LET ran == Ran(s, a) IN
  CASE ran = <<"Context", "This">> -> Just(WideAddr(Me(s).this))
    [] ran = <<"Context", "Caller">> -> Just(WideAddr(Me(s).caller))
    [] ran = <<"Context", "CodeAddress">> -> Just(WideAddr(Me(s).code))
    [] ran = <<"Context", "Meta">> -> Just(MetaWord(s))
    [] ran = <<"Context", "GetContextU128">> -> Just(Me(s).ctx \o ZeroWord(8))
    [] ran = <<"Log", "StorageRead">> -> Just(Record(s, a).value)
    \* what a callee is told: constructor call, and system call if it is privileged itself
    [] ran[1] = "FarCall" -> Just(<<IF FarCallOf(a.w0).ctor THEN 1 ELSE 0,
                                    IF FarCallOf(a.w0).sys /\ Privileged(Me(Enter(s, a)).this) THEN 1 ELSE 0>> \o ZeroWord(14))
    [] OTHER -> Nothing
LiveOf(log, type) == Cardinality({i \in DOMAIN log : log[i].live /\ log[i].type = type})
\* what an observer sees after a cycle: what ran, its answer, the time, depth, who runs, its record, live records by type
Seen(s, a, t) ==
  [ran |-> Ran(s, a), answer |-> Answer(s, a), time |-> t.time, depth |-> Len(t.stack), pages |-> t.pages,
   record |-> IF Len(t.log) > Len(s.log) THEN Just(t.log[Len(t.log)]) ELSE Nothing,
   live |-> <<LiveOf(t.log, LogStorage), LiveOf(t.log, LogEvent), LiveOf(t.log, LogMessage), LiveOf(t.log, LogPrecompile)>>]

(* ---- what the log means, and what must hold ---- *)
Slots(log) == {SlotOf(log[i]) : i \in {j \in DOMAIN log : log[j].live /\ log[j].type = LogStorage /\ log[j].rw}}
Others(log) == LET keep == SelectSeq(log, LAMBDA r : r.live /\ r.type \in {LogEvent, LogMessage})
               IN [i \in DOMAIN keep |-> <<keep[i].type, keep[i].addr, keep[i].shard, keep[i].first, keep[i].key, keep[i].value>>]
WorldOf(log) == [store |-> [x \in Slots(log) |-> StoredIn(log, x)], others |-> Others(log)]
\* orderly returns keep everything, failures go back to where the frame was entered
RollsBack(s, a, t) ==
  LET ran == Ran(s, a) IN
  ran[1] = "Ret" => WorldOf(t.log) = IF ran[2] = "Ok" THEN WorldOf(s.log) ELSE WorldOf(SubSeq(s.log, 1, Me(s).from))
\* a static frame, and whatever it calls, leaves the world alone
StaticQuiet(s, a, t) == Me(s).static /\ Ran(s, a)[1] # "Ret" =>
  WorldOf(t.log) = WorldOf(s.log) /\ t.tx = s.tx /\ t.price = s.price /\ (Ran(s, a)[1] # "FarCall" => t.ctx = s.ctx)
\* privileged effects come from privileged frames
FromKernel(s, a, t) ==
  \/ Privileged(Me(s).this)
  \/ /\ t.tx = s.tx /\ t.price = s.price
     /\ Len(t.log) > Len(s.log) => t.log[Len(t.log)].type = LogStorage
     /\ Len(t.stack) > Len(s.stack) => Me(t).caller \in {Me(s).this, Me(s).caller}
\* records say who made them and when
Attributed(s, a, t) ==
  Len(t.log) > Len(s.log) =>
    LET r == t.log[Len(t.log)] IN
    r.addr = Me(s).this /\ r.shard = Me(s).shards[1] /\ r.tx = s.tx /\ r.time = s.time
\* addresses and shards only change as the kind of call says
Identity(s, a, t) ==
  Len(t.stack) > Len(s.stack) =>
    /\ Me(t).static \/ ~Me(s).static
    /\ IF Me(t).near THEN [Me(t) EXCEPT !.from = Me(s).from, !.near = Me(s).near] = Me(s) /\ t.ctx = s.ctx
       ELSE IF a.x.sub = "Delegate" THEN Me(t).this = Me(s).this /\ Me(t).caller = Me(s).caller /\ Me(t).shards[1] = Me(s).shards[1]
       ELSE Me(t).this = Me(t).code /\ Me(t).shards[1] = Me(t).shards[3] /\ Me(t).shards[2] = Me(s).shards[1]
EffectStep(s, a, t) ==
  RollsBack(s, a, t) /\ StaticQuiet(s, a, t) /\ FromKernel(s, a, t) /\ Attributed(s, a, t) /\ Identity(s, a, t)
EffectState(s) ==
  /\ \A i \in DOMAIN s.log : \A j \in DOMAIN s.log : i < j => s.log[i].time < s.log[j].time
  /\ \A i \in DOMAIN s.stack : \A j \in DOMAIN s.stack : i < j =>
       /\ s.stack[i].from <= s.stack[j].from
       /\ s.stack[i].static => s.stack[j].static
       /\ IF \A k \in i + 1 .. j : s.stack[k].near THEN s.stack[i].base = s.stack[j].base /\ s.stack[i].this = s.stack[j].this
          ELSE s.stack[i].base + PagesPerCall <= s.stack[j].base
  \* requests name pages of the frame that makes them, which nobody else has
  /\ \A i \in DOMAIN s.log : s.log[i].type = LogPrecompile => Privileged(s.log[i].addr) /\ GetField(s.log[i].key, PrecompileInnerLayout.page_r) = GetField(s.log[i].key, PrecompileInnerLayout.page_w)
=============================================================================
