----------------------------- MODULE TraceWalk -----------------------------
(***************************************************************************)
(* Is what a real run of detox did a behaviour of DetoxWalk?               *)
(*                                                                         *)
(* Every line of the trace file is one run: the configuration, the tree    *)
(* before, the calls that change the file system in order (ev), all of     *)
(* stdout and stderr, the exit status and the tree afterwards.  A run is   *)
(* accepted if some behaviour of the specification makes exactly these     *)
(* calls, writes exactly these bytes and ends in exactly this tree.        *)
(* ri, oi, ei count what has been explained so far.                        *)
(***************************************************************************)
EXTENDS DetoxWalk, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)
SeqsRaw == ndJsonDeserialize(IOEnv.SEQS)
Diagnose == IOEnv.DIAG = "1"

------------------------------------------------------------------------------
\* filters as written in the SEQS file
TableOf(j) == IF j.b # "" THEN Builtin(B(j.b))
              ELSE [rows |-> [k \in {j.rows[x].k : x \in 1..Len(j.rows)} |->
                                 (CHOOSE x \in 1..Len(j.rows) : j.rows[x].k = k) \* keys are unique here
                             ],
                    hasdef |-> j.hasdef, def |-> j.def]
TableVal(j) == IF j.b # "" THEN Builtin(B(j.b))
               ELSE LET t == TableOf(j) IN [t EXCEPT !.rows = [k \in DOMAIN t.rows |-> j.rows[t.rows[k]].v]]
FilterOf(j) == CASE j.k \in {"safe", "iso8859_1", "utf_8"} -> [k |-> j.k, t |-> TableVal(j.t)]
                 [] j.k = "wipeup" -> [k |-> j.k, rt |-> j.rt]
                 [] j.k = "max_length" -> [k |-> j.k, n |-> j.n]
                 [] OTHER -> [k |-> j.k]
Seqs == [x \in 1..Len(SeqsRaw) |-> [y \in 1..Len(SeqsRaw[x].f) |-> FilterOf(SeqsRaw[x].f[y])]]

EntOf(l) == [k \in {<<l[x].d, l[x].n>> : x \in 1..Len(l)} |->
               l[CHOOSE x \in 1..Len(l) : l[x].d = k[1] /\ l[x].n = k[2]].i]
CfgOf(T) == [obj |-> T.obj, args |-> T.args, cwd |-> T.cwd, seq |-> T.seq,
             ign |-> {T.ign[x] : x \in 1..Len(T.ign)}, r |-> T.r, n |-> T.n, v |-> T.v, sp |-> T.sp,
             ci |-> T.ci, odf |-> T.odf, rdf |-> T.rdf, nox |-> T.nox, nol |-> T.nol, env |-> T.env, van |-> \E x \in 1..Len(T.ev) : T.ev[x].k = "vanish", abs |-> T.abs, root |-> T.root]

VARIABLES tid, ri, oi, ei
tvars == <<tid, ri, oi, ei>>
T == Runs[tid]

WalkInit == /\ tid \in 1..Len(Runs)
         /\ ri = 0 /\ oi = 0 /\ ei = 0
         /\ StartState(CfgOf(Runs[tid]), EntOf(Runs[tid].ent))

Take(buf, at, txt) == at + Len(txt) <= Len(buf) /\ SubSeq(buf, at + 1, at + Len(txt)) = txt
\* T.wlim >= 0: stdout has room for that many bytes only, so what was written is the beginning
TakeOut(txt) ==
  IF T.wlim < 0 /\ ~T.killed THEN Take(T.out, oi, txt)
  ELSE LET n == Min2(Len(txt), Len(T.out) - oi) IN n <= 0 \/ SubSeq(T.out, oi + 1, oi + n) = SubSeq(txt, 1, n)
OutLost == T.wlim >= 0 /\ oi > T.wlim
\* T.killed: detox was ended from outside; of its output, what it had not yet handed over is missing, and it may have announced what it did not get to
Coming == {Announce(t) : t \in {x \in agenda : x.k = "file"}}
OutDone == IF T.killed THEN oi >= Len(T.out) \/ \E c \in Coming : Len(T.out) - oi <= Len(c) /\ From(T.out, oi + 1) = SubSeq(c, 1, Len(T.out) - oi)
           ELSE IF OutLost THEN Len(T.out) <= T.wlim ELSE oi = Len(T.out)
LastLine(s) == s # <<>> /\ FirstPos(s, LF) = Len(s)
ErrDone == IF OutLost THEN LastLine(From(T.err, ei + 1)) ELSE ei = Len(T.err)
EndExit == IF OutLost THEN 1 ELSE ExitStatus
NextErr == IF ri < Len(T.ev) THEN {T.ev[ri + 1].e} \ {""} ELSE {}
Observed == /\ IF sys'.k = "none" THEN ri' = ri
               ELSE /\ ri < Len(T.ev) /\ T.ev[ri + 1] = sys' /\ ri' = ri + 1
            /\ TakeOut(out') /\ oi' = oi + Len(out')
            /\ Take(T.err, ei, err') /\ ei' = ei + Len(err')
            /\ tid' = tid
\* what could explain the next observation (only a shortcut: the steps left out call something else or write something else)
Plausible(t) == \/ t.k = "file" /\ ri < Len(T.ev) /\ T.ev[ri + 1].k = "rename" /\ T.ev[ri + 1].n = t.n /\ T.ev[ri + 1].d \in {t.d, 0}
                \/ t.k = "env"
                \/ ei < Len(T.err)
                \/ cfg.n /\ t.k = "file" /\ TakeOut(t.path) /\ (T.killed => oi < Len(T.out) \/ (t.desc /\ ei < Len(T.err)))
\* what other programs did meanwhile
Others == /\ cfg.van
          /\ \/ ri < Len(T.ev) /\ T.ev[ri + 1].k = "vanish" /\ Vanish(T.ev[ri + 1])
             \/ PassOver
             \/ \E t \in agenda : Plausible(t) /\ RenameGone(t)
TNext == mode = "run" /\ (StartArg \/ (\E t \in agenda : Plausible(t) /\ Deal(t, NextErr)) \/ Others \/ Finished) /\ Observed
TSpec == WalkInit /\ [][TNext]_<<vars, tvars>>

\* in a second run, T.settled are the entries the first run renamed: they must stay
SettledPairs == {<<T.settled[x].d, T.settled[x].i>> : x \in 1..Len(T.settled)}
Again == \E x \in 1..Len(T.ev) : /\ <<T.ev[x].d, T.ev[x].n>> \in {<<T.ent[y].d, T.ent[y].n>> : y \in 1..Len(T.ent)}
                                 /\ <<T.ev[x].d, EntOf(T.ent)[<<T.ev[x].d, T.ev[x].n>>]>> \in SettledPairs

Consumed == ri = Len(T.ev) /\ OutDone /\ ErrDone
Accept == /\ (T.settled = <<>> \/ ~Again)
          /\ IF T.killed THEN T.sig = 9 ELSE mode \in {"done", "dead"} /\ T.exit = EndExit /\ T.sig = 0
          /\ Consumed
          /\ EntOf(T.fin) = ent /\ T.changed = <<>>
          /\ (T.goal = <<>> \/ EntOf(T.goal) = ent)

ASSUME TLCSet(1, {})
Note == Accept => TLCSet(1, TLCGet(1) \cup {tid})

\* the design's own invariants, evaluated along every explained run
NoLoss == IF T.env = <<>> /\ ~cfg.van
          THEN {<<k[1], ent[k]>> : k \in DOMAIN ent} = {<<T.ent[x].d, T.ent[x].i>> : x \in 1..Len(T.ent)}
          ELSE {ent[k] : k \in DOMAIN ent} = {T.ent[x].i : x \in 1..Len(T.ent)} /\ Cardinality(DOMAIN ent) = Len(T.ent)
DryInert == cfg.n => sys.k \in {"none", "env", "vanish"}

------------------------------------------------------------------------------
\* why a run is rejected: labels for a state that cannot go on
E == T.ev[ri + 1]
EvTask == {t \in agenda : t.k = "file" /\ t.d = E.d /\ t.n = E.n}
HasSrc == <<E.d, E.n>> \in DOMAIN ent
SrcObj == ent[<<E.d, E.n>>]
DstObj == IF E.d2 = 0 THEN 0 ELSE Lookup(ent, E.d2, E.n2)
Pending == {t \in agenda : t.k = "file"}
EvLabels ==
  IF ri >= Len(T.ev) THEN {}
  ELSE IF E.k # "rename" THEN {"mutation"}
  ELSE UNION {
    IF cfg.n THEN {"dry"} ELSE {},
    IF E.d = 0 \/ E.d2 = 0 THEN {"outside"} ELSE {},
    IF E.d # E.d2 THEN {"moved"} ELSE {},
    IF DstObj # 0 /\ (~HasSrc \/ DstObj # SrcObj) THEN {"clobber"} ELSE {},
    IF ~HasSrc THEN {"ghost"}
    ELSE IF EvTask # {} THEN
         LET t == CHOOSE t \in EvTask : TRUE IN
         UNION { IF E.n2 # NewName(t.n) THEN {"wrongname"} ELSE {},
                 IF Verdict(t) = "invalid" THEN {"invalid"} ELSE {},
                 IF Verdict(t) \in {"blocked", "unsure"} THEN {"shouldblock"} ELSE {},
                 IF E.n2 = NewName(t.n) /\ Verdict(t) = "rename" THEN {"report"} ELSE {} }
    ELSE UNION { IF Skip(E.n) THEN {"hidden"} ELSE {},
                 IF Type(SrcObj) \notin {"d", "f"} /\ ~cfg.sp THEN {"special"} ELSE {},
                 IF <<E.d, SrcObj>> \in done THEN {"twice"} ELSE {},
                 IF NewName(E.n) = E.n THEN {"wrongname"} ELSE {},
                 {"untasked"} } }
Labels == EvLabels
   \cup (IF ri >= Len(T.ev) /\ \E t \in Pending : ~cfg.n /\ Verdict(t) = "rename" THEN {"missed"} ELSE {})
   \cup (IF ri >= Len(T.ev) /\ \E t \in Pending : cfg.n \/ Verdict(t) # "rename" THEN {"silent"} ELSE {})
   \cup (IF ri >= Len(T.ev) /\ \E t \in agenda : t.k \in {"open", "read", "look"} THEN {"silent"} ELSE {})
   \cup (IF ri >= Len(T.ev) /\ agenda = {} /\ argi < Len(cfg.args) THEN {"args"} ELSE {})
   \cup (IF mode \in {"done", "dead"} /\ ~(OutDone /\ ErrDone) THEN {"report"} ELSE {})
   \cup (IF mode \in {"done", "dead"} /\ (T.exit # EndExit \/ T.sig # 0) THEN {"exit"} ELSE {})
   \cup (IF (mode \in {"done", "dead"} \/ T.killed) /\ ri = Len(T.ev) /\ EntOf(T.fin) # ent THEN {"final"} ELSE {})
   \cup (IF mode \in {"done", "dead"} /\ T.goal # <<>> /\ EntOf(T.goal) # ent THEN {"goal"} ELSE {})
   \cup (IF T.settled # <<>> /\ Again THEN {"again"} ELSE {})
   \cup (IF T.changed # <<>> THEN {"changed"} ELSE {})
Stuck == IF mode = "run" THEN ~ENABLED TNext ELSE ~Accept
Explain == (Diagnose /\ Stuck) =>
   PrintT("DIAG " \o ToJson([tid |-> T.id, ri |-> ri, oi |-> oi, ei |-> ei, argi |-> argi, mode |-> mode,
                             labels |-> Labels,
                             agenda |-> {[path |-> t.path, k |-> t.k, v |-> IF t.k = "file" THEN Verdict(t) ELSE ""] : t \in agenda}]))

Result == PrintT("RESULT " \o ToJson([n |-> Len(Runs), accepted |-> {Runs[x].id : x \in TLCGet(1)}]))
=============================================================================
