--------------------------- MODULE MC_CodeMemory ---------------------------
EXTENDS CodeMemory
MCPool == [prod |-> {<<1, 0, 0, 0>>, <<24, 515, 7, 9>>, <<65535, 65535, 65535, 65535>>},
           test |-> {<<1, 0, 0, 0, 0, 0, 0, 0>>, <<24, 515, 7, 9, 1, 2, 3, 4>>, <<24, 515, 7, 9, 1, 2, 0, 0>>}]
=============================================================================
