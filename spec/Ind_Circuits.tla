---------------------------- MODULE Ind_Circuits ----------------------------
(***************************************************************************)
(* The ledger of a whole block: ergs spent and work done, for any programs, *)
(* in any order, of any length.  Apalache: WInv is inductive; it implies    *)
(* that every circuit which gets filled was paid for (Paid), also when all  *)
(* kinds are counted together (PaidTogether), and that a transaction cannot *)
(* send more messages than one merklizer takes (OneMerklizer).              *)
(***************************************************************************)
EXTENDS Work
VARIABLES
  \* @type: Int;
  spent,
  \* @type: Int;
  vm,
  \* @type: Int;
  ram,
  \* @type: Int;
  demux,
  \* @type: Int;
  ssort,
  \* @type: Int;
  esort,
  \* @type: Int;
  dsort,
  \* @type: Int;
  words,
  \* @type: Int;
  msgs
Init == spent = 0 /\ vm = 0 /\ ram = 0 /\ demux = 0 /\ ssort = 0 /\ esort = 0 /\ dsort = 0 /\ words = 0 /\ msgs = 0
Run == \E s \in WorkSteps : \E extra \in Int :          \* extra: ergs paid on top (memory growth, precompiles, burnt)
  /\ extra >= 0
  /\ spent' = spent + s.cost + extra
  /\ vm' = vm + s.vm /\ ram' = ram + s.ram /\ demux' = demux + s.demux
  /\ ssort' = ssort + s.ssort /\ esort' = esort + s.esort /\ dsort' = dsort + s.dsort
  /\ msgs' = IF s.cls = "msg" THEN msgs + 1 ELSE msgs
  /\ UNCHANGED words
Fetch == \E n \in Int : n >= 0 /\ words' = words + n /\ spent' = spent + WordCost * n
                        /\ UNCHANGED <<vm, ram, demux, ssort, esort, dsort, msgs>>
Next == Run \/ Fetch

\* ergs per unit, in millionths, rounded up
Rate(cap) == (CircuitErgs * 1000000 + cap - 1) \div cap
NonNegative == vm >= 0 /\ ram >= 0 /\ demux >= 0 /\ ssort >= 0 /\ esort >= 0 /\ dsort >= 0 /\ words >= 0 /\ msgs >= 0 /\ spent >= 0
PaidTogether ==
  Rate(CapVm) * vm + Rate(CapRam) * ram + Rate(CapDemux) * demux + Rate(CapSsort) * ssort + Rate(CapEsort) * esort
    + Rate(CapDsort) * dsort + Rate(CapWords) * words <= 1000000 * spent
Messages == (TxErgs \div CapMsgs) * msgs <= spent
WInv == NonNegative /\ PaidTogether /\ Messages
IndInit == /\ spent \in Int /\ vm \in Int /\ ram \in Int /\ demux \in Int /\ ssort \in Int /\ esort \in Int /\ dsort \in Int
           /\ words \in Int /\ msgs \in Int /\ WInv
\* filled circuits of each kind never exceed what was paid
Pays(units, cap) == units * CircuitErgs <= spent * cap
Paid == /\ Pays(vm, CapVm) /\ Pays(ram, CapRam) /\ Pays(demux, CapDemux) /\ Pays(ssort, CapSsort) /\ Pays(esort, CapEsort)
        /\ Pays(dsort, CapDsort) /\ Pays(words, CapWords)
OneMerklizer == spent <= TxErgs => msgs <= CapMsgs
Safe == Paid /\ OneMerklizer
=============================================================================
