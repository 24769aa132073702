------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* What the VM counts in 32 bits (timestamps, memory pages, stack depth)    *)
(* and what a step costs at least.  Small numbers, shared by the TLC models *)
(* and the symbolic ones; Params ties them to the published constants and   *)
(* to the price list.                                                       *)
(***************************************************************************)
TimeStart == 1024
TimeDelta == 4
BootPage == 8
FirstPage == 2048
PagesPerCall == 8
Stipend == 1024                    \* free bytes of each heap of a new frame
StackLimit == 214748444
CheapestStep == 5
CheapestNear == 25
CheapestFar == 182
=============================================================================
