------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Large tables: rows are given in file order as <<value, translation>>,   *)
(* probes as code points with what the program printed for each.           *)
(***************************************************************************)
EXTENDS DetoxBytes, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id
\* the last row for each value that was asked for; <<0>> if there is none
Wrong == LET ks == {R.probes[x].k : x \in 1..Len(R.probes)}
             m == FoldLeft(LAMBDA a, r : IF r.k \in ks THEN [a EXCEPT ![r.k] = <<1, r.v>>] ELSE a,
                           [k \in ks |-> <<0, <<>>>>], R.rows)
         IN {x \in 1..Len(R.probes) :
               R.probes[x].o # (IF m[R.probes[x].k][1] = 1 THEN m[R.probes[x].k][2]
                                ELSE IF R.hasdef THEN R.def ELSE R.probes[x].i)}
ASSUME TLCSet(1, {})
Note == LET w == IF R.ok THEN Wrong ELSE {} IN
        (R.ok /\ w = {})
        \/ /\ TLCSet(1, TLCGet(1) \cup {R.id})
           /\ Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, ok |-> TRUE, wrong |-> {R.probes[x] : x \in w}]))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
