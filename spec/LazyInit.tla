------------------------------ MODULE LazyInit ------------------------------
(***************************************************************************)
(* Shared lazily initialised tables.  A cell is computed by the first       *)
(* thread that touches it, while later touchers block; computing a cell     *)
(* touches the cells it depends on.  Each thread runs a stack of cells.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxTouches

Deps ==
  [OPCODES_TABLE |-> {}, PROTOTYPES |-> {}, NUM_IN |-> {}, NUM_OUT |-> {},
   NUM_LOGICAL |-> {"PROTOTYPES"},
   BITMASKS |-> {"OPCODES_TABLE", "NUM_LOGICAL", "NUM_IN", "NUM_OUT"},
   MONOTONIC |-> {"OPCODES_TABLE"}, CANONICAL |-> {"OPCODES_TABLE"}, PRICES |-> {"OPCODES_TABLE"},
   NOP_VARIANT |-> {"CANONICAL"}, PANIC_VARIANT |-> {"CANONICAL"},
   NOP_BITS |-> {"CANONICAL", "NOP_VARIANT", "BITMASKS"},
   PANIC_BITS |-> {"CANONICAL", "PANIC_VARIANT", "BITMASKS"}]
Cells == DOMAIN Deps
\* longest chain below a cell; well defined exactly when Deps is acyclic
RECURSIVE Below(_, _)
Below(c, fuel) ==
  IF fuel = 0 THEN {"cycle"} ELSE Deps[c] \cup UNION {Below(d, fuel - 1) : d \in Deps[c]}
Acyclic == \A c \in Cells : c \notin Below(c, 6) /\ "cycle" \notin Below(c, Cardinality(Cells))

VARIABLES cell,      \* state of each cell: empty / running (with owner) / done with its value
          stack,     \* per thread: cells being computed or waited for, top last
          touches,   \* per thread: reads it still wants to make
          seen       \* values read so far, per cell
vars == <<cell, stack, touches, seen>>

Empty == [st |-> "empty", owner |-> 0, val |-> 0]
\* the value of a cell is the set of cells it was computed from: the same for every order
Value(c) == Below(c, 6)

Init ==
  /\ cell = [c \in Cells |-> Empty]
  /\ stack = [t \in Threads |-> << >>]
  /\ touches = [t \in Threads |-> MaxTouches]
  /\ seen = [c \in Cells |-> {}]

Top(t) == stack[t][Len(stack[t])]
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)

Touch(t) ==                       \* an idle thread reads any cell
  /\ stack[t] = << >> /\ touches[t] > 0
  /\ \E c \in Cells : stack' = [stack EXCEPT ![t] = <<c>>]
  /\ touches' = [touches EXCEPT ![t] = @ - 1]
  /\ UNCHANGED <<cell, seen>>
Begin(t) ==                       \* first toucher takes the cell
  /\ stack[t] # << >> /\ cell[Top(t)].st = "empty"
  /\ cell' = [cell EXCEPT ![Top(t)] = [st |-> "running", owner |-> t, val |-> 0]]
  /\ UNCHANGED <<stack, touches, seen>>
Need(t) ==                        \* its computation touches a cell that is not ready
  /\ stack[t] # << >> /\ cell[Top(t)].st = "running" /\ cell[Top(t)].owner = t
  /\ \E d \in Deps[Top(t)] : cell[d].st # "done" /\ stack' = [stack EXCEPT ![t] = Append(@, d)]
  /\ UNCHANGED <<cell, touches, seen>>
Finish(t) ==
  /\ stack[t] # << >> /\ cell[Top(t)].st = "running" /\ cell[Top(t)].owner = t
  /\ \A d \in Deps[Top(t)] : cell[d].st = "done"
  /\ cell' = [cell EXCEPT ![Top(t)] =
                [st |-> "done", owner |-> t, val |-> Deps[Top(t)] \cup UNION {cell[d].val : d \in Deps[Top(t)]}]]
  /\ UNCHANGED <<stack, touches, seen>>
Return(t) ==                      \* a ready cell is read and control goes back
  /\ stack[t] # << >> /\ cell[Top(t)].st = "done"
  /\ seen' = [seen EXCEPT ![Top(t)] = @ \cup {cell[Top(t)].val}]
  /\ stack' = [stack EXCEPT ![t] = Pop(t)]
  /\ UNCHANGED <<cell, touches>>

Step(t) == Begin(t) \/ Need(t) \/ Finish(t) \/ Return(t)
Quiet == \A t \in Threads : stack[t] = << >> /\ touches[t] = 0
Next == (\E t \in Threads : Touch(t) \/ Step(t)) \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ WF_vars(Touch(t))

OneValue == \A c \in Cells : \A v \in seen[c] : v = Value(c)
SingleOwner ==
  \A c \in Cells : cell[c].st = "running" => \E i \in 1 .. Len(stack[cell[c].owner]) : stack[cell[c].owner][i] = c
NeverUndone == [][\A c \in Cells : cell[c].st = "done" => cell'[c] = cell[c]]_vars
Completes == <>Quiet
\* seen from outside, a touch is a call that returns: the interface of LazyCells
Outer == INSTANCE LazyCells WITH pend <- [t \in Threads |-> IF stack[t] = << >> THEN "-" ELSE stack[t][1]], Names <- Cells
RefinesCells == Outer!Spec
=============================================================================
