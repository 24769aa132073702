----------------------------- MODULE CodeMemory -----------------------------
(***************************************************************************)
(* Laying instructions out in code words and stepping a program counter.    *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS Pool, MaxWords     \* distinct instruction words by mode, code words per page

VARIABLES cmode, listing, cpage, cpc, clast
cv == <<cmode, listing, cpage, cpc, clast>>
CInit == cmode \in Modes /\ listing = << >> /\ cpage = << >> /\ cpc = 0 /\ clast = << >>
Capacity_ == MaxWords * PerCodeWord[cmode]
Emit == /\ Len(listing) < Capacity_ /\ cpage = << >>
        /\ \E w \in Pool[cmode] : listing' = Append(listing, w)
        /\ UNCHANGED <<cmode, cpage, cpc, clast>>
Seal == /\ cpage = << >> /\ Len(listing) > 0 /\ Len(listing) % PerCodeWord[cmode] = 0
        /\ cpage' = AssemblePage(cmode, listing) /\ UNCHANGED <<cmode, listing, cpc, clast>>
Step == /\ cpage # << >> /\ cpc < Len(listing)
        /\ clast' = Fetch(cmode, cpage, cpc) /\ cpc' = cpc + 1 /\ UNCHANGED <<cmode, listing, cpage>>
CNext == Emit \/ Seal \/ Step
CSpec == CInit /\ [][CNext]_cv
FetchIsListing == cpc > 0 => clast = listing[cpc]
SplitExact ==
  LET p == IF cmode = "prod" THEN <<cpc>> ELSE <<cpc, 0>>
      s == SplitPc(cmode, p)
  IN s[1][1] * PerCodeWord[cmode] + s[2][1] = cpc
=============================================================================
