----------------------------- MODULE KeyedStore -----------------------------
(***************************************************************************)
(* Why a value of the instruction set may serve as a key.  A hashed store    *)
(* looks a key up in the bucket of its hash, by equality; an ordered store   *)
(* descends by comparison.  Both behave like the plain map `ghost` exactly   *)
(* when equality is identity of contents, equal keys hash alike, and the     *)
(* comparison is one total order whose ties are the equal keys.  Keys are    *)
(* pairs <<contents, copy>>: two copies of the same contents are different   *)
(* objects.  Hash and rank are chosen arbitrarily among the lawful ones.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Contents, Buckets, Copies, Vals
Keys == Contents \X Copies
VARIABLES hashOf, rankOf,      \* the lawful choice of this behaviour
          hashed, tree, ghost, reply
kv == <<hashOf, rankOf, hashed, tree, ghost, reply>>

(* ---- what the crate promises about its keys ---- *)
Same(k, j) == k[1] = j[1]
HashK(k) == hashOf[k[1]]
Cmp(k, j) == IF rankOf[k[1]] < rankOf[j[1]] THEN "lt" ELSE IF rankOf[k[1]] > rankOf[j[1]] THEN "gt" ELSE "eq"
Opposite == [lt |-> "gt", gt |-> "lt", eq |-> "eq"]
Lawful ==
  \A k, j \in Keys :
    /\ Same(k, j) => HashK(k) = HashK(j)
    /\ (Cmp(k, j) = "eq") = Same(k, j)
    /\ Cmp(j, k) = Opposite[Cmp(k, j)]
    /\ \A i \in Keys : Cmp(k, j) = "lt" /\ Cmp(j, i) = "lt" => Cmp(k, i) = "lt"

(* ---- the two stores ---- *)
\* hashed: bucket -> sequence of <<key, value>>
HFind(k) == {n \in 1 .. Len(hashed[HashK(k)]) : Same(hashed[HashK(k)][n][1], k)}
HGet(k) == LET f == HFind(k) IN IF f = {} THEN <<>> ELSE <<hashed[HashK(k)][CHOOSE n \in f : TRUE][2]>>
HPut(k, v) ==
  LET b == HashK(k) f == HFind(k)
  IN [hashed EXCEPT ![b] = IF f = {} THEN Append(@, <<k, v>>) ELSE [@ EXCEPT ![CHOOSE n \in f : TRUE] = <<k, v>>]]
HDel(k) ==
  LET b == HashK(k) f == HFind(k)
  IN IF f = {} THEN hashed
     ELSE LET n == CHOOSE n \in f : TRUE
          IN [hashed EXCEPT ![b] = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]
\* tree: a sequence kept in ascending order; binary search by comparison only
RECURSIVE Search(_, _, _)
Search(k, lo, hi) ==          \* first position whose key is not below k, or hi + 1
  IF lo > hi THEN lo
  ELSE LET mid == (lo + hi) \div 2
       IN IF Cmp(tree[mid][1], k) = "lt" THEN Search(k, mid + 1, hi) ELSE Search(k, lo, mid - 1)
At(k) == Search(k, 1, Len(tree))
Hit(k) == At(k) <= Len(tree) /\ Cmp(tree[At(k)][1], k) = "eq"
TGet(k) == IF Hit(k) THEN <<tree[At(k)][2]>> ELSE <<>>
TPut(k, v) ==
  IF Hit(k) THEN [tree EXCEPT ![At(k)] = <<k, v>>]
  ELSE SubSeq(tree, 1, At(k) - 1) \o << <<k, v>> >> \o SubSeq(tree, At(k), Len(tree))
TDel(k) == IF Hit(k) THEN SubSeq(tree, 1, At(k) - 1) \o SubSeq(tree, At(k) + 1, Len(tree)) ELSE tree
\* ghost: contents -> value
GGet(c) == IF c \in DOMAIN ghost THEN <<ghost[c]>> ELSE <<>>
GPut(c, v) == [x \in DOMAIN ghost \cup {c} |-> IF x = c THEN v ELSE ghost[x]]
GDel(c) == [x \in DOMAIN ghost \ {c} |-> ghost[x]]

KInit ==
  /\ hashOf \in [Contents -> Buckets]
  /\ rankOf \in {f \in [Contents -> 1 .. Cardinality(Contents)] : \A c, d \in Contents : c # d => f[c] # f[d]}
  /\ hashed = [b \in Buckets |-> <<>>] /\ tree = <<>> /\ ghost = [c \in {} |-> 0] /\ reply = <<>>
Do(do, k, v) ==
  /\ reply' = <<HGet(k), TGet(k), GGet(k[1])>>
  /\ hashed' = (IF do = "put" THEN HPut(k, v) ELSE IF do = "del" THEN HDel(k) ELSE hashed)
  /\ tree' = (IF do = "put" THEN TPut(k, v) ELSE IF do = "del" THEN TDel(k) ELSE tree)
  /\ ghost' = (IF do = "put" THEN GPut(k[1], v) ELSE IF do = "del" THEN GDel(k[1]) ELSE ghost)
  /\ UNCHANGED <<hashOf, rankOf>>
KNext == \E do \in {"put", "get", "del"}, k \in Keys, v \in Vals : Do(do, k, v)
KSpec == KInit /\ [][KNext]_kv

(* ---- a store keyed by these values is a map of contents ---- *)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN Len(hashed[b]) + Total(S \ {b})
Exact == reply = <<>> \/ (reply[1] = reply[3] /\ reply[2] = reply[3])
Faithful == \A k \in Keys : HGet(k) = GGet(k[1]) /\ TGet(k) = GGet(k[1])
NoStray == Total(Buckets) = Cardinality(DOMAIN ghost) /\ Len(tree) = Cardinality(DOMAIN ghost)
Ascending == \A n \in 2 .. Len(tree) : Cmp(tree[n - 1][1], tree[n][1]) = "lt"
=============================================================================
