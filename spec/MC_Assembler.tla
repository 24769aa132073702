---------------------------- MODULE MC_Assembler ----------------------------
EXTENDS Assembler
=============================================================================
