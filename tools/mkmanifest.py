#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "bin"))
import check
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
WALK = ("TLA+: the run over a tree is the state machine DetoxWalk, model-checked with TLC for the property (MC_Walk); traces of file-system calls recorded from the real program "
        "on generated trees are checked with TLC to be behaviours of DetoxWalk that satisfy the property (TraceWalk)")
FILT = ("TLA+: filters are operators of DetoxFilters; the property is model-checked with TLC over all short names (MC_Filters), and results of the real program on enumerated and random names "
        "are checked with TLC against the operators and the property (TraceFilter)")
TAB = "TLA+: DetoxTableFile defines what a table file means, DetoxHash the table in memory (model-checked with TLC); the real program's translations under generated tables are checked with TLC against it (TraceTable)"
CONF = "TLA+: DetoxConfig defines lexer, grammar, layering, selection and dump of configurations; runs of the real program on generated configurations are checked with TLC against it (TraceProgram)"
INL = "TLA+: DetoxInline is the state machine of inline mode, model-checked with TLC (MC_Inline); streams processed by the real program are checked with TLC against it (TraceProgram)"
T = {}
for p in props:
    n = int(p[1:])
    T[p] = WALK if n <= 10 else FILT if n <= 18 else TAB
T["C21"] = "TLA+: DetoxHash is the state machine of a table in memory (rows put, looked up), model-checked with TLC; tables of up to tens of thousands of rows loaded by the real program are looked up and the answers checked with TLC against the map the rows denote (TraceMap)"
T["C22"] = "TLA+: DetoxTables/DetoxConfig give the meaning of the tables and sequences shipped in the repository; what the program's built-in copies and the shipped files do is checked with TLC to be the same and to be that (TraceShipped, TraceShippedRc, TraceProgram)"
T["C19"] = "TLA+: DetoxCapacity models the space a filter reserves and uses, model-checked with TLC; worst cases of the model and the specification-generated corpora of all other checks are replayed into an ASan/UBSan build of the real program"
for p in ("C24", "C25", "C26", "C27", "C28", "C29"): T[p] = CONF
for p in ("C30", "C31", "C32"): T[p] = INL
T["C33"] = "TLA+: DetoxCli defines how a command line is read (getopt_long as a state machine); outcomes of the real program for enumerated and random command lines are checked with TLC against it (TraceProgram)"
T["C34"] = "TLA+: DetoxTableFile gives the meaning of a table file; the C source the real generator emits is compiled into the program and its translations are checked with TLC against that meaning (TraceTable)"
T["C35"] = "TLA+: DetoxEscape defines the escape and its inverse (model-checked with TLC); outputs of the real tool are checked with TLC against it (TraceEscape)"
T["C36"] = ("TLA+: DetoxWalk, DetoxProgram and DetoxInline say what happens when a listing, a stream, a configuration or a table breaks off, or stdout takes no more (DetoxWalk model-checked with TLC); "
            "runs of the real program with such failures injected at generated points are checked with TLC against them (TraceWalk, TraceProgram)")
T["C37"] = ("TLA+: DetoxWalk with a run that may stop after any step and be started again, model-checked with TLC (MCw_C37); the real program is killed at generated and at all points, "
            "started again, and its traces are checked with TLC to be behaviours of DetoxWalk that end with what an uninterrupted run leaves (TraceWalk)")
T["C38"] = ("TLA+: DetoxWalk with the moves of other programs as steps of an environment, model-checked with TLC (MCw_C38, MCw_C38v); the shim makes such moves while the real program works, "
            "and the interleaved traces are checked with TLC against the specification (TraceWalk)")
NOTE = {
 "walk": "models: exhaustive within small scopes (trees of a few entries, names over representative bytes); implementation: bounded by the generated trees and fault points, all accepted runs are exact behaviours of the specification",
 "filt": "models: exhaustive over all names up to a length bound over representative alphabets; implementation: exact agreement of output bytes with the specification on every enumerated or random name",
}
NOTE["tab"] = "models: exhaustive over all short histories of rows and lookups; implementation: exact agreement on enumerated and random table files, every probe checked"
NOTE["conf"] = "models: exhaustive over all short token sequences, layers and arguments; implementation: exact agreement of output, messages and exit status on enumerated and random configurations, streams and command lines"
NOTE["mem"] = "model: exhaustive over all short names and small tables; implementation: sanitizer builds (address, undefined behaviour), bounded by the inputs that are run"
def note(p):
    n = int(p[1:])
    return NOTE["walk" if n <= 10 or n >= 37 else "filt" if n <= 18 or n == 35 else "mem" if n == 19 else "tab" if n <= 23 or n == 34 else "conf"]
have, miss = [], []
for p in props:
    try: check.find(p); have.append(p)
    except SystemExit: miss.append(p)
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": p, "reason": "check not built yet"} for p in miss]}
old = os.path.join(V, "MANIFEST.json")
for p in have:
    m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                        "technique": T[p], "level": "model_checking", "level_note": note(p)})
json.dump(m, open(old, "w"), indent=1)
open(old, "a").write("\n")
