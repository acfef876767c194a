---------------------------- MODULE TraceEscape -----------------------------
(* What the real escape-utf-8 wrote.  kind "text": in, out.                 *)
(* kind "map": out[x] is what it made of code point from + x - 1 alone.     *)
EXTENDS DetoxEscape, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id
Whole(s) == LET p == Pieces(s) IN Cat([i \in 1..Len(p) |-> EscapeText(p[i])])
Right == R.exit = 0 /\ R.sig = 0 /\
         IF R.kind = "map" THEN \A x \in 1..Len(R.outs) : R.outs[x] = EscapeOf(R.from + x - 1)
         ELSE R.out = Whole(R.in)
Want == IF R.kind = "text" THEN Whole(R.in)
        ELSE LET w == {x \in 1..Len(R.outs) : R.outs[x] # EscapeOf(R.from + x - 1)} IN
             IF w = {} THEN <<>> ELSE LET x == CHOOSE x \in w : \A y \in w : x <= y IN B("code point ") \o Dec(R.from + x - 1) \o B(" became ") \o R.outs[x] \o B(" not ") \o EscapeOf(R.from + x - 1)
ASSUME TLCSet(1, {})
Note == Right \/ (TLCSet(1, TLCGet(1) \cup {R.id}) /\ (Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, want |-> Want]))))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
