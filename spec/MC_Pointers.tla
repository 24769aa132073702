---------------------------- MODULE MC_Pointers ----------------------------
EXTENDS Pointers
\* register contents only matter up to the page, which never changes
=============================================================================
