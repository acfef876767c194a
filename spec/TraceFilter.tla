---------------------------- MODULE TraceFilter ----------------------------
(***************************************************************************)
(* Names that the real program cleaned, checked one by one.                *)
(* A record has s (which sequence), m ("line" for inline mode, "file" for *)
(* a rename), in, out, w (was a max_length warning printed: 0, 1; 2 if     *)
(* not known), out2 (what cleaning out again gave, <<>> if not done) and   *)
(* ask: the promises to check ("fun": out is exactly the specified value). *)
(***************************************************************************)
EXTENDS DetoxProps, Json, IOUtils
CONSTANT SeqList

Recs == ndJsonDeserialize(IOEnv.TRACE)
SeqsRaw == ndJsonDeserialize(IOEnv.SEQS)
Diagnose == IOEnv.DIAG = "1"
TableVal(j) == IF j.b # "" THEN Builtin(B(j.b))
               ELSE LET ks == [x \in 1..Len(j.rows) |-> j.rows[x].k] IN
                    [rows |-> [k \in {ks[x] : x \in 1..Len(ks)} |-> j.rows[CHOOSE x \in 1..Len(ks) : ks[x] = k].v],
                     hasdef |-> j.hasdef, def |-> j.def]
FilterOf(j) == CASE j.k \in {"safe", "iso8859_1", "utf_8"} -> [k |-> j.k, t |-> TableVal(j.t)]
                 [] j.k = "wipeup" -> [k |-> j.k, rt |-> j.rt]
                 [] j.k = "max_length" -> [k |-> j.k, n |-> j.n]
                 [] OTHER -> [k |-> j.k]
Seqs == [x \in 1..Len(SeqsRaw) |-> [y \in 1..Len(SeqsRaw[x].f) |-> FilterOf(SeqsRaw[x].f[y])]]

VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id

\* no file can have this name (or, the only one there is, already has it)
Unusable(s) == s = <<>> \/ FirstPos(s, SLASH) # 0 \/ Protected(s) \/ Len(s) > 255
Expected == LET o == CleanName(SeqList[R.s], R.in) IN
            IF R.m = "file" /\ Unusable(o) THEN R.in ELSE o
Warns == \* does any max_length in the sequence give up?
  LET F(a, f) == [s |-> Apply(f, a.s), w |-> a.w \/ (f.k = "max_length" /\ MaxLengthGivesUp(f.n, a.s))]
  IN FoldLeft(F, [s |-> R.in, w |-> FALSE], SeqList[R.s]).w
\* left alone on purpose: . and .. and names that would become unusable as files
Settled == R.out = R.in /\ (Protected(R.in) \/ (R.m = "file" /\ Unusable(CleanName(SeqList[R.s], R.in))))
Holds(q) ==
  CASE q = "fun"  -> R.out = Expected
    [] q = "shell" -> (Settled \/ ShellSafe(R.out)) /\ (ShellSafe(R.in) => R.out = R.in)
    [] q = "shell+" -> Settled \/ ShellSafe(R.out)
    [] q = "high" -> HighKept(R.in, R.out) \/ Settled
    [] q = "twice" -> R.out2 = R.out
    [] q = "warn" -> R.w = 2 \/ (R.w = 1) = Warns
    [] q = "wipeup" -> WipeupMeans(SeqList[R.s][1].rt, R.in, R.out) \/ Settled
    [] q = "uncgi" -> CgiMeans(R.in, R.out) \/ Settled
    [] q = "max" -> MaxMeans(SeqList[R.s][1].n, R.in, R.out) \/ Settled
    [] q = "lower" -> LowerMeans(R.in, R.out) \/ Settled
    [] q = "utf" -> UtfMeans(SeqList[R.s][1].t, R.in, R.out) \/ Settled
    [] q = "latin" -> LatinMeans(R.in, R.out) \/ Settled
    [] q = "legacy" -> LegacyMeans(R.in, R.out) \/ Settled
    [] OTHER -> FALSE
Good == \A x \in 1..Len(R.ask) : Holds(R.ask[x])

ASSUME TLCSet(1, {})
Note == Good \/ /\ TLCSet(1, TLCGet(1) \cup {R.id})
                /\ Diagnose => PrintT("DIAG " \o ToJson([tid |-> R.id, expected |-> Expected,
                                     broken |-> {R.ask[x] : x \in {y \in 1..Len(R.ask) : ~Holds(R.ask[y])}}]))
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
