---------------------------- MODULE TraceShipped ----------------------------
(***************************************************************************)
(* The builtin tables, the files they are shipped as, and the tables of    *)
(* this specification are one and the same.  A record has name, text (the  *)
(* shipped file), cleaner, and probes [i, b, f]: an input, what the real   *)
(* program made of it with the builtin table, and with the file.           *)
(***************************************************************************)
EXTENDS DetoxTableFile, DetoxFilters, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id

FileTable == ParseTable(R.text, B("C"))
Clean(t, s) == CASE R.cleaner = "safe" -> Safe(t, s)
                 [] R.cleaner = "iso8859_1" -> Iso(t, s)
                 [] OTHER -> Utf8(t, s)
\* the file means this table
SameMeaning == FileTable.ok /\ FileTable.t = Builtin(B(R.name))
Wrong == {x \in 1..Len(R.probes) : LET p == R.probes[x] IN p.b # p.f \/ p.b # Clean(Builtin(B(R.name)), p.i)}
ASSUME TLCSet(1, {})
Differing == LET t == FileTable.t  u == Builtin(B(R.name)) IN
             {k \in DOMAIN t.rows \cup DOMAIN u.rows : ~(Has(t, k) /\ Has(u, k) /\ Row(t, k) = Row(u, k))}
Note == LET w == Wrong IN
        (SameMeaning /\ w = {})
        \/ /\ TLCSet(1, TLCGet(1) \cup {R.id})
           /\ Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, meaning |-> SameMeaning, keys |-> Differing,
                   wrong |-> {[i |-> R.probes[x].i, b |-> R.probes[x].b, f |-> R.probes[x].f,
                               want |-> Clean(Builtin(B(R.name)), R.probes[x].i)] : x \in w}]))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
