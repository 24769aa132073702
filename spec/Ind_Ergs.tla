------------------------------ MODULE Ind_Ergs ------------------------------
(***************************************************************************)
(* Ergs of the VM front end, with nothing left of instructions but what they*)
(* pay and whether they call or return.  Amounts are unbounded integers;    *)
(* Apalache checks that Inv is inductive and Decreases holds of every step, *)
(* so ergs are never gained and every run ends.  MC_Machine checks with TLC *)
(* that the front end refines this machine.  Cheapest: lowest price of an   *)
(* executable instruction, CheapestCall: of a call; top: ergs of the        *)
(* running frame; rest: of all frames below.                                *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS
  \* @type: Int;
  Cheapest,
  \* @type: Int;
  CheapestCall,
  \* @type: Int;
  DepthLimit
VARIABLES
  \* @type: Int;
  top,
  \* @type: Int;
  rest,
  \* @type: Int;
  depth
\* @type: () => <<Int, Int, Int>>;
vars == <<top, rest, depth>>

Init == top \in Int /\ top >= 0 /\ rest = 0 /\ depth = 1
\* (the amounts chosen by a step are written in terms of what it leaves)
Leaves == top' \in Int /\ rest' \in Int /\ top' >= 0 /\ rest' >= 0
Plain == Leaves /\ top' <= top - Cheapest /\ rest' = rest /\ depth' = depth
\* the caller pays at least CheapestCall, the callee gets top'
Enter == /\ depth < DepthLimit /\ depth' = depth + 1
         /\ Leaves /\ top' + rest' <= top + rest - CheapestCall /\ rest' >= rest
\* the frame below still had rest - rest', the frame handed back at most what it had
Back == /\ depth > 1 /\ depth' = depth - 1
        /\ Leaves /\ rest' <= rest /\ top' >= rest - rest' /\ top' <= rest - rest' + top
        /\ depth = 2 => rest' = 0
End == depth = 1 /\ top' = 0 /\ rest' = 0 /\ depth' = 0
Next == depth > 0 /\ (Plain \/ Enter \/ Back \/ End)

Inv == /\ top >= 0 /\ rest >= 0 /\ depth >= 0 /\ depth <= DepthLimit
       /\ depth <= 1 => rest = 0
       /\ depth = 0 => top = 0

IndInit == top \in Int /\ rest \in Int /\ depth \in Int /\ Inv
Changes == [][Next]_vars
NoGainStep == top' + rest' <= top + rest
Decreases == NoGainStep /\ top' + rest' + depth' < top + rest + depth
ConstInit == Cheapest \in Int /\ Cheapest >= 2 /\ CheapestCall \in Int /\ CheapestCall >= Cheapest /\ DepthLimit \in Int /\ DepthLimit >= 1
=============================================================================
