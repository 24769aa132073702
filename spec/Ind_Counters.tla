---------------------------- MODULE Ind_Counters ----------------------------
(***************************************************************************)
(* The machine of Ind_Ergs with what it counts.  Starting with the largest  *)
(* amount of ergs a frame can hold, no run overflows a 32-bit timestamp or  *)
(* page number, and no run needs the stack limit: Inv is inductive and      *)
(* implies Fits (Apalache).  Params checks the costs of Counters against    *)
(* the price list.                                                          *)
(***************************************************************************)
EXTENDS Ind_Ergs, Counters
VARIABLES
  \* @type: Int;
  plain,     \* steps that neither call nor return
  \* @type: Int;
  near,
  \* @type: Int;
  far,
  \* @type: Int;
  pops,      \* returns, orderly or not; the failing ones cost nothing
  \* @type: Int;
  spent
Initial == 4294967295
Two32 == 4294967296

CInit == top = Initial /\ rest = 0 /\ depth = 1 /\ plain = 0 /\ near = 0 /\ far = 0 /\ pops = 0 /\ spent = 0
Spend == spent' = spent + (top + rest) - (top' + rest')
CPlain == Plain /\ Spend /\ plain' = plain + 1 /\ UNCHANGED <<near, far, pops>>
CNear == Enter /\ Spend /\ near' = near + 1 /\ UNCHANGED <<plain, far, pops>>
CFar == Enter /\ top' + rest' <= top + rest - CheapestFar /\ Spend /\ far' = far + 1 /\ UNCHANGED <<plain, near, pops>>
CPop == (Back \/ End) /\ Spend /\ pops' = pops + 1 /\ UNCHANGED <<plain, near, far>>
CNext == depth > 0 /\ (CPlain \/ CNear \/ CFar \/ CPop)

CInv == /\ Inv
        /\ plain >= 0 /\ near >= 0 /\ far >= 0 /\ pops >= 0
        /\ spent + top + rest = Initial
        /\ spent >= CheapestStep * plain + CheapestNear * near + CheapestFar * far
        /\ pops + depth = near + far + 1
Time == TimeStart + TimeDelta * (plain + near + far + pops)
Pages == FirstPage + PagesPerCall * far
Fits == Time + TimeDelta <= Two32 /\ Pages + PagesPerCall <= Two32 /\ depth <= StackLimit
CIndInit == /\ top \in Int /\ rest \in Int /\ depth \in Int /\ plain \in Int /\ near \in Int /\ far \in Int
            /\ pops \in Int /\ spent \in Int /\ CInv
\* no stack limit but one that is out of reach
CConstInit == Cheapest = CheapestStep /\ CheapestCall = CheapestNear /\ DepthLimit = Two32
=============================================================================
