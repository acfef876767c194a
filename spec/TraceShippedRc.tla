--------------------------- MODULE TraceShippedRc ---------------------------
(* The shipped detoxrc (a record with its text) says what is compiled in.  *)
EXTENDS DetoxConfig, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id
Bare(ss) == [i \in 1..Len(ss) |-> [name |-> ss[i].name, filters |-> ss[i].filters]]
C == ParseConfig(R.text)
Same == C.ok /\ Bare(C.seqs) = Bare(BuiltinConfig.seqs) /\ C.ign = BuiltinConfig.ign
ASSUME TLCSet(1, {})
Note == Same \/ /\ TLCSet(1, TLCGet(1) \cup {R.id})
                /\ Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, ok |-> C.ok, seqs |-> Bare(C.seqs), ign |-> C.ign]))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
