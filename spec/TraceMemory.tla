---------------------------- MODULE TraceMemory -----------------------------
(***************************************************************************)
(* Runs of instrumented programs.  A run is acceptable if it ends by       *)
(* itself, with one of the exit codes the program has, and if what came    *)
(* out for n bytes of input is within what the memory model allows (need). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
Diagnose == IOEnv.DIAG = "1"
VARIABLES id
R == Recs[id]
Init == id \in 1..Len(Recs)
Next == UNCHANGED id
Spec == Init /\ [][Next]_id
Codes == [detox |-> {0, 1, 2}, check_table |-> {0, 1, 255}, generate_builtin_table |-> {0, 1, 255}, escape_utf_8 |-> {0}]
\* 2 is how the scanner ends if the configuration file cannot be read (a directory)
Terminated == R.sig = 0 /\ R.exit \in Codes[R.prog]
Within == \A x \in 1..Len(R.sizes) : R.sizes[x].o <= R.sizes[x].need
ASSUME TLCSet(1, {})
Note == (Terminated /\ Within) \/ TLCSet(1, TLCGet(1) \cup {R.id})
Result == PrintT("RESULT " \o ToJson([n |-> Len(Recs), rejected |-> TLCGet(1)]))
=============================================================================
