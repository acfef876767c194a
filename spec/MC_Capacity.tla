---------------------------- MODULE MC_Capacity -----------------------------
(***************************************************************************)
(* Every name over Alphabet up to MaxLen, every table of a family that has *)
(* short, empty and long rows and defaults, every filter: the machine never *)
(* writes beyond what is reserved nor reads beyond the name.               *)
(***************************************************************************)
EXTENDS DetoxCapacity
CONSTANTS Alphabet, MaxLen
VARIABLES s, f, pos, rd, wr
vars == <<s, f, pos, rd, wr>>

BytesAlpha == {37, 52, 65, 95, 128, 192, 195, 226, 240, 252, 255}
Xs(n) == [i \in 1..n |-> 120]
RowSets == {<<>>, (65 :> Xs(0)), (65 :> Xs(1)) @@ (192 :> Xs(0)), (65 :> Xs(3)) @@ (128 :> Xs(2)), (192 :> Xs(14)), (0 :> Xs(1)) @@ (65 :> Xs(2)), (95 :> Xs(20)) @@ (255 :> Xs(1))}
AllTables == {[rows |-> r, hasdef |-> d # -1, def |-> IF d = -1 THEN <<>> ELSE Xs(d)] : r \in RowSets, d \in {-1, 1, 2, 5}}
Filters == {[k |-> k, t |-> t] : k \in {"safe", "iso8859_1", "utf_8"}, t \in AllTables}
           \cup {[k |-> "lower"], [k |-> "uncgi"], [k |-> "wipeup", rt |-> TRUE], [k |-> "wipeup", rt |-> FALSE]}
           \cup {[k |-> "max_length", n |-> n] : n \in 0..5}

Init == s = <<>> /\ f \in Filters /\ pos = 0 /\ rd = 0 /\ wr = 0
Grow == pos = 0 /\ Len(s) < MaxLen /\ (\E b \in Alphabet : s' = Append(s, b)) /\ UNCHANGED <<f, pos, rd, wr>>
Begin == pos = 0 /\ s # <<>> /\ pos' = 1 /\ UNCHANGED <<s, f, rd, wr>>
Step == /\ pos >= 1 /\ pos <= Len(s)
        /\ LET u == Unit(f, s, pos) IN pos' = u.at /\ rd' = Max2(rd, u.rd) /\ wr' = wr + u.out
        /\ UNCHANGED <<s, f>>
Next == Grow \/ Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Fits == wr + 1 <= Reserve(f, Len(s))
InName == rd <= Len(s) + 1 /\ pos <= Len(s) + 1
\* the whole result fits too, and the machine agrees with the function
Result == pos = 0 => LET o == Apply(f, s) IN Len(o) + 1 <= Reserve(f, Len(s)) /\ Len(o) <= Need(f, Len(s))
Agrees == (pos > Len(s) /\ f.k \in {"safe", "iso8859_1", "utf_8", "lower"}) => wr = Len(Apply(f, s))
Ends == pos >= 1 ~> pos > Len(s)
=============================================================================
