---------------------------- MODULE GenCapacity -----------------------------
(***************************************************************************)
(* Names that use up what is reserved, generated from the memory model, to *)
(* be replayed into the real program.  One line per table and filter.      *)
(***************************************************************************)
EXTENDS DetoxCapacity, Json
Xs(n) == [i \in 1..n |-> 120]
Euro == 8364
RowSets == {<<>>, (65 :> Xs(0)) @@ (233 :> Xs(0)) @@ (Euro :> Xs(0)), (65 :> Xs(1)) @@ (192 :> Xs(1)), (65 :> Xs(2)) @@ (128 :> Xs(1)), (233 :> Xs(14)) @@ (Euro :> Xs(12)) @@ (65 :> Xs(13)),
            (65 :> Xs(64)) @@ (233 :> Xs(65)) @@ (Euro :> Xs(63)), (Euro :> Xs(500)) @@ (255 :> Xs(499)) @@ (95 :> Xs(498)), (1114111 :> Xs(3))}
Tables == {[rows |-> r, hasdef |-> d # -1, def |-> IF d = -1 THEN <<>> ELSE Xs(d)] : r \in RowSets, d \in {-1, 1, 2, 13, 14, 100}}
TableKinds == {"safe", "iso8859_1", "utf_8"}
Filters == {[k |-> k, t |-> t] : k \in TableKinds, t \in Tables}
Plain == {[k |-> "lower"], [k |-> "uncgi"], [k |-> "wipeup", rt |-> TRUE], [k |-> "wipeup", rt |-> FALSE]} \cup {[k |-> "max_length", n |-> n] : n \in {0, 1, 2, 5, 10, 250, 255, 256, 300}}
Units == {<<65>>, <<95>>, <<66>>, <<233>>, <<128>>, <<255>>, <<192>>, <<192, 128>>, <<195, 169>>, <<226, 130, 172>>, <<240, 128, 128, 128>>, <<244, 143, 191, 191>>, <<244, 144, 128, 128>>, <<252, 128, 128, 128, 128, 128>>, <<253, 191, 191, 191, 191, 191>>,
          <<37, 52, 49>>, <<37>>, <<37, 52>>, <<37, 48, 48>>, <<46>>, <<46, 97>>, <<45>>, <<43>>}
Tails == {<<>>, <<37>>, <<37, 52>>, <<226, 130>>, <<252>>, <<46, 97>>, <<95>>}
Times(u, n) == [i \in 1..(n * Len(u)) |-> u[((i - 1) % Len(u)) + 1]]
Names(all) == {Times(u, n) \o t : u \in Units, n \in {1, 2, 7, 30}, t \in IF all THEN Tails ELSE {<<>>, <<226, 130>>}}
              \cup {Times(u, 240 \div Len(u)) : u \in Units}
Row2(r) == [k |-> r, v |-> 0]
Case(f) ==
  LET ns == {x \in Names(f.k \notin TableKinds) : ~Protected(x)}
      most(x) == Len(Apply(f, x))
  IN [f |-> f.k, n |-> IF f.k = "max_length" THEN f.n ELSE IF f.k = "wipeup" /\ f.rt THEN 1 ELSE 0,
      rows |-> IF f.k \in TableKinds THEN {[k |-> r, n |-> Len(f.t.rows[r])] : r \in DOMAIN f.t.rows} ELSE {},
      def |-> IF f.k \in TableKinds /\ f.t.hasdef THEN Len(f.t.def) ELSE -1,
      names |-> {[s |-> x, out |-> most(x), tight |-> most(x) + 1 = Reserve(f, Len(x))] : x \in ns}]
VARIABLE f
Init == f \in Filters \cup Plain
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Emit == PrintT("CASE " \o ToJson(Case(f)))
=============================================================================
