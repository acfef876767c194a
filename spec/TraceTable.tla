----------------------------- MODULE TraceTable -----------------------------
(***************************************************************************)
(* Tables as the real program loaded them.  A record has text (the file),  *)
(* lcall, lcctype, lang (environment), ok (was the file accepted), cleaner *)
(* ("safe", "iso8859_1" or "utf_8"), and probes: pairs of an input byte    *)
(* string and what the program made of it with that table.                 *)
(* With tool = "gen" the table went through generate-builtin-table first.  *)
(***************************************************************************)
EXTENDS DetoxTableFile, DetoxFilters, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
Locales == {B("C.utf8"), B("en_US.utf8"), B("de_DE.utf8"), B("C.UTF-8"), B("en_US.UTF-8"), B("de_DE.UTF-8")}

VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id

Loaded == ParseTable(R.text, Ctype(R.lcall, R.lcctype, R.lang, Locales))
Clean(t, s) == CASE R.cleaner = "safe" -> Safe(t, s)
                 [] R.cleaner = "iso8859_1" -> Iso(t, s)
                 [] OTHER -> Utf8(t, s)
Wrong(L) == {x \in 1..Len(R.probes) : R.probes[x].o # Clean(L.t, R.probes[x].i)}
ASSUME TLCSet(1, {})
Note == LET L == Loaded IN
        LET w == IF L.ok THEN Wrong(L) ELSE {} IN
        (R.ok = L.ok /\ w = {})
        \/ /\ TLCSet(1, TLCGet(1) \cup {R.id})
           /\ Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, ok |-> L.ok,
                   wrong |-> {[i |-> R.probes[x].i, o |-> R.probes[x].o, want |-> Clean(L.t, R.probes[x].i)] : x \in w}]))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
