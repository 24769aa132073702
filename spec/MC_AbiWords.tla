---------------------------- MODULE MC_AbiWords ----------------------------
EXTENDS AbiWords
MCLanes == {<<0, 0>>, <<1, 0>>, <<0, 32768>>, <<65535, 65535>>, <<0, 256>>}
=============================================================================
