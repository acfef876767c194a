----------------------------- MODULE DetoxHash -----------------------------
(***************************************************************************)
(* The table in memory: an array of rows, a row for key k being kept at    *)
(* position k mod Length when that is free or holds k already, and         *)
(* otherwise in the first place, searched from the start, that is free or  *)
(* holds k.  Does it behave like a map?  map is the map it should be.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Length, Keys, Values
VARIABLES rows, used, map, refused
vars == <<rows, used, map, refused>>
Idx == 0..(Length - 1)
Free == [key |-> 0, data |-> ""]
Hash(k) == k % Length
Fits(i, k) == rows[i].key = 0 \/ rows[i].key = k
Least(S) == IF S = {} THEN Length ELSE CHOOSE i \in S : \A j \in S : i <= j
Place(k) == IF Fits(Hash(k), k) THEN Hash(k) ELSE Least({i \in Idx : Fits(i, k)})
Find(k) == IF rows[Hash(k)].key = k THEN Hash(k) ELSE Least({i \in Idx : rows[i].key = k})
Get(k) == IF Find(k) = Length THEN "none" ELSE rows[Find(k)].data

Init == rows = [i \in Idx |-> Free] /\ used = 0 /\ map = <<>> /\ refused = FALSE
PutRow(k, v) ==
  LET i == Place(k) IN
  IF i = Length THEN /\ refused' = TRUE /\ UNCHANGED <<rows, used, map>>
  ELSE /\ rows' = [rows EXCEPT ![i] = [key |-> k, data |-> v]]
       /\ used' = used + (IF rows[i].key = k THEN 0 ELSE 1)
       /\ map' = (k :> v) @@ map
       /\ UNCHANGED refused
Next == \E k \in Keys, v \in Values : PutRow(k, v)
Spec == Init /\ [][Next]_vars

MapOf(k) == IF k \in DOMAIN map THEN map[k] ELSE "none"
Refines == \A k \in Keys : Get(k) = MapOf(k)
UsedRight == used = Cardinality(DOMAIN map) /\ used = Cardinality({i \in Idx : rows[i].key # 0})
\* no row is ever refused while a place is free, or for a key already there
FullOnly == [][refused' /\ ~refused => used = Length]_vars
NoDuplicates == \A i, j \in Idx : i # j /\ rows[i].key # 0 => rows[i].key # rows[j].key
\* moving everything to a table of another size keeps the map (as when builtin tables are loaded)
=============================================================================
