--------------------------- MODULE Ind_Pointers32 ---------------------------
EXTENDS Ind_Pointers
ConstInit == W = 4294967296 /\ ReadLen = 32 /\ Limit = 4294967263
=============================================================================
