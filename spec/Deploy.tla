------------------------------- MODULE Deploy -------------------------------
(***************************************************************************)
(* Life of contract code: published under its hash, bound to an account     *)
(* while its constructor runs, at rest afterwards, overwritten, called.     *)
(* Everything about hashes is a parameter: MC_Deploy uses ideal ones,       *)
(* DeployWords the real words.  Do(s, a) is the state after action `a`,     *)
(* Reply(s, a) its answer.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS
  Publishable(_), HashOf_(_),          \* of a code
  Recognised(_), MarkerOf(_), LengthOf(_), AtRestForm(_), MarkedForm(_, _),   \* of a word in an account
  SizeOf(_), InsAt(_, _)               \* of a code: number of words, instruction at a program counter
Resting == 0
Building == 1
Nothing == [some |-> FALSE]
Just(v) == [some |-> TRUE, v |-> v]

\* known: published codes by hash; acct: words in accounts; running: code called last;
\* meant (ghost): the code each account was given
Empty == [known |-> << >>, acct |-> << >>, running |-> Nothing, meant |-> << >>]
With(f, k, v) == (k :> v) @@ f
CodeFor(s, w) == IF Recognised(w) /\ AtRestForm(w) \in DOMAIN s.known THEN Just(s.known[AtRestForm(w)]) ELSE Nothing

MayBegin(s, a) == a.at \notin DOMAIN s.acct /\ a.word \in DOMAIN s.known /\ Recognised(a.word) /\ MarkerOf(a.word) = Resting
MayFinish(s, a) == a.at \in DOMAIN s.acct /\ Recognised(s.acct[a.at]) /\ MarkerOf(s.acct[a.at]) = Building
Outcome(s, a) ==
  IF a.at \notin DOMAIN s.acct THEN "empty"
  ELSE LET w == s.acct[a.at] IN
       IF ~Recognised(w) THEN "foreign"
       ELSE IF MarkerOf(w) # (IF a.ctor THEN Building ELSE Resting) THEN "refused"
       ELSE IF ~CodeFor(s, w).some THEN "unknown"
       ELSE "run"

Do(s, a) ==
  CASE a.do = "publish" ->     \* (one hash, one code: publishing it again changes nothing, however it was listed)
         IF Publishable(a.code) /\ HashOf_(a.code) \notin DOMAIN s.known THEN [s EXCEPT !.known = With(@, HashOf_(a.code), a.code)] ELSE s
    [] a.do = "begin" ->
         IF MayBegin(s, a)
         THEN [s EXCEPT !.acct = With(@, a.at, MarkedForm(a.word, Building)), !.meant = With(@, a.at, Just(s.known[a.word]))] ELSE s
    [] a.do = "finish" -> IF MayFinish(s, a) THEN [s EXCEPT !.acct[a.at] = AtRestForm(@)] ELSE s
    [] a.do = "write" ->      \* any word, as an upgrade would
         [s EXCEPT !.acct = With(@, a.at, a.word), !.meant = With(@, a.at, CodeFor(s, a.word))]
    [] a.do = "call" -> [s EXCEPT !.running = IF Outcome(s, a) = "run" THEN CodeFor(s, s.acct[a.at]) ELSE Nothing]
    [] a.do = "fetch" -> s
Reply(s, a) ==
  CASE a.do = "publish" -> IF Publishable(a.code) THEN Just(HashOf_(a.code)) ELSE Nothing
    [] a.do = "begin" -> IF MayBegin(s, a) THEN Just(MarkedForm(a.word, Building)) ELSE Nothing
    [] a.do = "finish" -> IF MayFinish(s, a) THEN Just(AtRestForm(s.acct[a.at])) ELSE Nothing
    [] a.do = "write" -> Nothing
    [] a.do = "call" ->
         [out |-> Outcome(s, a),
          size |-> IF Outcome(s, a) = "run" THEN LengthOf(s.acct[a.at]) ELSE 0]
    [] a.do = "fetch" -> IF s.running.some THEN Just(InsAt(s.running.v, a.pc)) ELSE Nothing

(* ---- what the life cycle guarantees ---- *)
\* published codes are found under their own hash, and accounts declare the size of the code they were given
KnownExact(s) == \A h \in DOMAIN s.known : HashOf_(s.known[h]) = h /\ MarkerOf(h) = Resting /\ LengthOf(h) = SizeOf(s.known[h])
AccountsExact(s) ==
  \A x \in DOMAIN s.acct : s.meant[x].some =>
    /\ CodeFor(s, s.acct[x]) = s.meant[x]
    /\ LengthOf(s.acct[x]) = SizeOf(s.meant[x].v)
\* of a call: what runs is what the account was given, and constructors run exactly while it is being built
CallExact(s, a) ==
  Outcome(s, a) = "run" =>
    /\ s.meant[a.at].some => Do(s, a).running = s.meant[a.at]
    /\ a.ctor = (MarkerOf(s.acct[a.at]) = Building)
\* finishing changes neither code nor size
FinishExact(s, a) ==
  MayFinish(s, a) => LET t == Do(s, a) IN CodeFor(t, t.acct[a.at]) = CodeFor(s, s.acct[a.at])
                                          /\ LengthOf(t.acct[a.at]) = LengthOf(s.acct[a.at])
=============================================================================
