---------------------------- MODULE TraceProgram ----------------------------
(***************************************************************************)
(* Complete runs of the real program: command line, environment,           *)
(* configuration and table files, standard input, and a tree of files; and *)
(* everything it wrote, every change it made.  A run is accepted if it is  *)
(* what DetoxProgram says, continued by DetoxInline or DetoxWalk.          *)
(***************************************************************************)
EXTENDS DetoxInline, DetoxProgram, TraceWalk

Known == {B("C.utf8"), B("en_US.utf8"), B("de_DE.utf8")}
WorldOf(R) == [inlinebin |-> R.inlinebin, argv |-> R.argv, posix |-> R.posix, files |-> {R.files[x] : x \in 1..Len(R.files)},
               home |-> R.home, xdg |-> R.xdg, dseq |-> R.dseq, ctype |-> Ctype(R.lcall, <<>>, <<>>, Known),
               sysconf |-> B("/dsys/etc"), datadir |-> B("/dsys/share")]
Plan == [x \in 1..Len(Runs) |-> Start(WorldOf(Runs[x]))]
PlanSeqs == [x \in 1..Len(Runs) |-> Plan[x].fs]
P == Plan[tid]

PCfg(x) == LET R == Runs[x]  o == Plan[x].o
               working == Plan[x].stop = "" /\ ~o.inline IN
           [obj |-> R.obj, args |-> IF working THEN o.files ELSE <<>>, cwd |-> R.cwd, seq |-> x,
            ign |-> {Plan[x].ign[y] : y \in 1..Len(Plan[x].ign)}, r |-> o.r, n |-> o.n, v |-> o.v, sp |-> o.sp,
            ci |-> R.ci, odf |-> R.odf, rdf |-> R.rdf, nox |-> <<>>, nol |-> <<>>, env |-> <<>>, van |-> FALSE, abs |-> R.abs, root |-> R.root]
ProgInit == /\ tid \in 1..Len(Runs) /\ ri = 0 /\ ei = 0
            /\ oi = IF Take(Runs[tid].out, 0, Plan[tid].said) THEN Len(Plan[tid].said) ELSE 0
            /\ StartState(PCfg(tid), EntOf(Runs[tid].ent))
ProgSpec == ProgInit /\ [][TNext]_<<vars, tvars>>

------------------------------------------------------------------------------
HasPart(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
UsageText(R) == StartsWith(R.out, IF R.inlinebin THEN B("usage: inline-detox ") ELSE B("usage: detox ")) /\ EndsWith(R.out, <<LF>>)
HelpText(R) == /\ UsageText(R)
               /\ \A x \in {"-f configfile", "-h", "-L", "-s sequence", "-v", "-V"} : HasPart(R.out, T1 \o B(x))
               /\ ~R.inlinebin => \A x \in {"-n", "-r"} : HasPart(R.out, T1 \o B(x))

\* R.rfail: what could only be read up to some point (i: the object, 0 for stdin; k bytes), p of which were used
BrokenData(R, i) == \E x \in 1..Len(R.rfail) : R.rfail[x].i = i
BrokenErr(R, i) == R.rfail[CHOOSE x \in 1..Len(R.rfail) : R.rfail[x].i = i].e
\* how much of what was read may have been used: all of it, or without some of the last line
LastLF(s) == LastPos(s, LF)
UsedParts(R) == IF R.rfail = <<>> THEN {0}
                ELSE LET f == R.rfail[1]
                         s == SubSeq(IF f.i = 0 THEN R.stdin ELSE R.data[f.i], 1, f.k)
                     IN LastLF(s)..Len(s)

InlineArg(R, a, p) ==   \* [out, err] of one file argument
  LET r == Resolve(EntOf(R.ent), a)
      f == Deref(EntOf(R.ent), r, LinkMax)
      i == f.i
  IN IF ~r.ok THEN [out |-> <<>>, err |-> Line(a \o B(": ") \o Strerror(r.why))]
     ELSE IF Type(r.i) = "d" THEN [out |-> <<>>, err |-> Line(a \o B(": is a directory"))]
     ELSE IF ~f.ok THEN [out |-> <<>>, err |-> Line(a \o B(": ") \o Strerror(f.why))]
     ELSE IF i \in {R.noread[x] : x \in 1..Len(R.noread)} THEN [out |-> <<>>, err |-> Line(a \o B(": Permission denied"))]
     ELSE IF Type(i) = "d" THEN [out |-> <<>>, err |-> Line(a \o B(": ") \o Strerror("EISDIR"))]
     ELSE IF Type(i) # "f" THEN [out |-> <<>>, err |-> <<>>]
     ELSE IF BrokenData(R, i) THEN [out |-> InlineOut(P.fs, SubSeq(R.data[i], 1, p)), err |-> Line(a \o B(": ") \o Strerror(BrokenErr(R, i)))]
     ELSE [out |-> InlineOut(P.fs, R.data[i]), err |-> <<>>]
InlineWhole(R, p) ==
  IF P.o.files = <<>>
  THEN IF BrokenData(R, 0) THEN [out |-> InlineOut(P.fs, SubSeq(R.stdin, 1, p)), err |-> Line(B("stdin: ") \o Strerror(BrokenErr(R, 0)))]
       ELSE [out |-> InlineOut(P.fs, R.stdin), err |-> <<>>]
  ELSE LET one == [x \in 1..Len(P.o.files) |-> InlineArg(R, P.o.files[x], p)] IN
       [out |-> Cat([x \in 1..Len(one) |-> one[x].out]), err |-> Cat([x \in 1..Len(one) |-> one[x].err])]

\* out and err are what should be written; R.wlim >= 0: stdout has room for that many bytes only
Lost(R, o) == R.wlim >= 0 /\ Len(o) > R.wlim
Wrote(R, o, e) == IF Lost(R, o) THEN /\ Len(R.out) <= R.wlim /\ StartsWith(o, R.out)
                                     /\ StartsWith(R.err, e) /\ LastLine(From(R.err, Len(e) + 1))
                  ELSE R.out = o /\ R.err = e
\* stdout of which only the kind is known
Cut(R) == R.wlim = 0
\* what was written, for runs that do not work on a tree
Told(R) ==
  CASE Cut(R) /\ P.stop \in {"help", "usage", "nofiles"} -> R.out = <<>> /\ R.err # <<>>
    [] P.stop = "help" -> HelpText(R) /\ R.err = <<>>
    [] P.stop = "version" -> Wrote(R, Line(R.version), <<>>)
    [] P.stop = "unread" -> R.err # <<>> /\ StartsWith(R.out, P.said)
    [] P.stop = "usage" -> UsageText(R)
    [] P.stop = "nofiles" -> UsageText(R)
    [] P.stop = "list" -> Wrote(R, P.said \o P.text, <<>>)
    [] P.stop = "parse" -> StartsWith(R.err, P.why)
    [] P.stop \in {"open", "sequence"} -> R.err = Line(P.why) /\ R.out = P.said
    [] P.stop = "table" -> EndsWith(R.err, Line(P.why)) /\ R.out = P.said
    [] OTHER -> \E p \in UsedParts(R) : LET w == InlineWhole(R, p)  o == P.said \o w.out IN
                                             Wrote(R, o, w.err) /\ R.exit = (IF Lost(R, o) THEN 1 ELSE 0)
OutMissing(R) ==
  CASE P.stop \in {"help", "usage", "nofiles"} -> Cut(R)
    [] P.stop = "version" -> Lost(R, Line(R.version))
    [] P.stop = "list" -> Lost(R, P.said \o P.text)
    [] OTHER -> FALSE
ExitOK(R) == CASE P.stop = "unread" -> R.exit # 0
               [] P.stop = "" /\ P.o.inline -> R.exit \in {0, 1}   \* see Told
               [] OutMissing(R) -> R.exit = 1
               [] OTHER -> R.exit = StartExit(P.stop)
Untouched(R) == R.ev = <<>> /\ EntOf(R.fin) = EntOf(R.ent) /\ R.changed = <<>>
Working == P.stop = "" /\ ~P.o.inline
PAccept == IF Working THEN Accept
           ELSE mode = "done" /\ Told(T) /\ Untouched(T) /\ ExitOK(T) /\ T.sig = 0
PNote == PAccept => TLCSet(1, TLCGet(1) \cup {tid})

\* what is wrong with a run that is not accepted
POut == CASE P.stop = "list" -> P.said \o P.text
          [] P.stop = "" /\ P.o.inline -> P.said \o InlineWhole(T, 0).out
          [] OTHER -> <<>>
PLabels == IF Working THEN Labels
           ELSE UNION { IF ~Told(T) THEN {"told"} ELSE {}, IF ~Untouched(T) THEN {"touched"} ELSE {},
                        IF ~ExitOK(T) \/ T.sig # 0 THEN {"exit"} ELSE {} }
PStuck == IF mode = "run" THEN Working /\ ~ENABLED TNext ELSE ~PAccept
PExplain == (Diagnose /\ PStuck) =>
   PrintT("DIAG " \o ToJson([tid |-> T.id, stop |-> P.stop, why |-> P.why, want |-> POut, labels |-> PLabels, files |-> P.o.files,
                             ri |-> ri, oi |-> oi, ei |-> ei]))
=============================================================================
