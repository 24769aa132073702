-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* What each class of instruction makes the prover do: units of work for    *)
(* the circuits, next to what it costs.  Small numbers, shared by the TLC   *)
(* models (IsaWalk checks cost and capacities against the price list) and   *)
(* the symbolic Ind_Circuits.  Memory work counts the opcode fetch and      *)
(* every operand; storage writes, events and messages are logged twice      *)
(* (forward and for a rollback).                                            *)
(***************************************************************************)
EXTENDS Integers
\* @typeAlias: step = {cls: Str, cost: Int, vm: Int, ram: Int, demux: Int, ssort: Int, esort: Int, dsort: Int};
work_aliases == TRUE

\* @type: Set($step);
WorkSteps == {
  [cls |-> "rich",   cost |-> 6,      vm |-> 1, ram |-> 3, demux |-> 0, ssort |-> 0, esort |-> 0, dsort |-> 0],
  [cls |-> "plain",  cost |-> 5,      vm |-> 1, ram |-> 1, demux |-> 0, ssort |-> 0, esort |-> 0, dsort |-> 0],
  [cls |-> "near",   cost |-> 25,     vm |-> 1, ram |-> 1, demux |-> 0, ssort |-> 0, esort |-> 0, dsort |-> 0],
  [cls |-> "far",    cost |-> 182,    vm |-> 2, ram |-> 1, demux |-> 1, ssort |-> 1, esort |-> 0, dsort |-> 1],
  [cls |-> "load",   cost |-> 7,      vm |-> 1, ram |-> 3, demux |-> 0, ssort |-> 0, esort |-> 0, dsort |-> 0],
  [cls |-> "store",  cost |-> 13,     vm |-> 2, ram |-> 5, demux |-> 0, ssort |-> 0, esort |-> 0, dsort |-> 0],
  [cls |-> "sload",  cost |-> 158,    vm |-> 1, ram |-> 1, demux |-> 1, ssort |-> 1, esort |-> 0, dsort |-> 0],
  [cls |-> "sstore", cost |-> 3501,   vm |-> 2, ram |-> 1, demux |-> 2, ssort |-> 2, esort |-> 0, dsort |-> 0],
  [cls |-> "event",  cost |-> 38,     vm |-> 2, ram |-> 1, demux |-> 2, ssort |-> 0, esort |-> 2, dsort |-> 0],
  [cls |-> "msg",    cost |-> 156250, vm |-> 2, ram |-> 1, demux |-> 2, ssort |-> 0, esort |-> 2, dsort |-> 0],
  [cls |-> "pre",    cost |-> 6,      vm |-> 1, ram |-> 1, demux |-> 1, ssort |-> 0, esort |-> 0, dsort |-> 0] }
WordCost == 4                      \* per word of code fetched by a far call
CapVm == 23000
CapRam == 260000
CapDemux == 101500
CapSsort == 79000
CapEsort == 88000
CapDsort == 192500
CapWords == 24200
CapMsgs == 512
CircuitErgs == 80000
TxErgs == 80000000
=============================================================================
