------------------------------ MODULE DetoxCli ------------------------------
(***************************************************************************)
(* The command line.  A machine that takes one argument at a time; args is *)
(* everything after the program name.  It stops early at -h, -V and at     *)
(* anything that is not an option (st.stop), in the order in which they    *)
(* are written.  want is the option letter whose argument comes next.      *)
(* With POSIXLY_CORRECT in the environment options end at the first file.  *)
(***************************************************************************)
EXTENDS DetoxBytes

LongNames == {"dry-run", "help", "verbose", "inline", "recursive", "special"}
LongBytes == [n \in LongNames |-> B(n)]
LongMeans(n) == CASE n = "dry-run" -> "n" [] n = "help" -> "h" [] n = "verbose" -> "v"
                  [] n = "inline" -> "inline" [] n = "recursive" -> "r" [] OTHER -> "special"

CliInit(inlinebin) == [stop |-> "", f |-> <<>>, s |-> <<>>, L |-> FALSE, n |-> FALSE, r |-> FALSE, v |-> FALSE,
                       sp |-> FALSE, inline |-> inlinebin, files |-> <<>>, want |-> "", over |-> FALSE]
Flag(st, o) ==
  CASE o = "h" -> [st EXCEPT !.stop = "help"]
    [] o = "V" -> [st EXCEPT !.stop = "version"]
    [] o = "L" -> [st EXCEPT !.L = TRUE]
    [] o = "n" -> [st EXCEPT !.n = TRUE]
    [] o = "r" -> [st EXCEPT !.r = TRUE]
    [] o = "v" -> [st EXCEPT !.v = TRUE]
    [] o = "inline" -> [st EXCEPT !.inline = TRUE]
    [] o = "special" -> [st EXCEPT !.sp = TRUE]
    [] OTHER -> [st EXCEPT !.stop = "usage"]
WithArg(st, o, a) == IF o = "s" THEN [st EXCEPT !.s = <<a>>, !.want = ""] ELSE [st EXCEPT !.f = <<a>>, !.want = ""]

FlagLetters == {"h", "V", "L", "n", "r", "v"}
LetterOf(b) == LET m == {l \in FlagLetters \cup {"s", "f"} : B(l) = <<b>>} IN IF m = {} THEN "?" ELSE CHOOSE l \in m : TRUE
\* a cluster of letters; -s and -f take what is left of it, or the next argument
RECURSIVE Cluster(_, _)
Cluster(st, c) ==
  IF c = <<>> \/ st.stop # "" THEN st
  ELSE LET l == LetterOf(c[1]) IN
       IF l \in {"s", "f"} THEN IF Len(c) > 1 THEN WithArg(st, l, Tail(c)) ELSE [st EXCEPT !.want = l]
       ELSE Cluster(Flag(st, l), Tail(c))

Long(st, w) ==   \* w: what follows "--", not empty
  LET eq   == FirstPos(w, 61)
      name == IF eq = 0 THEN w ELSE SubSeq(w, 1, eq - 1)
      m    == {n \in LongNames : StartsWith(LongBytes[n], name)}
  IN IF Cardinality(m) # 1 \/ eq # 0 THEN [st EXCEPT !.stop = "usage"]
     ELSE Flag(st, LongMeans(CHOOSE n \in m : TRUE))

CliStep(posix, st, a) ==
  IF st.stop # "" THEN st
  ELSE IF st.want # "" THEN WithArg(st, st.want, a)
  ELSE IF st.over \/ Len(a) < 2 \/ a[1] # DASH THEN [st EXCEPT !.files = Append(@, a), !.over = @ \/ posix]
  ELSE IF a = <<DASH, DASH>> THEN [st EXCEPT !.over = TRUE]
  ELSE IF a[2] = DASH THEN Long(st, From(a, 3))
  ELSE Cluster(st, Tail(a))

Cli(inlinebin, args, posix) ==
  LET st == FoldLeft(LAMBDA s, a : CliStep(posix, s, a), CliInit(inlinebin), args) IN
  IF st.stop # "" THEN st
  ELSE IF st.want # "" THEN [st EXCEPT !.stop = "usage"]
  ELSE IF ~st.L /\ ~st.inline /\ st.files = <<>> THEN [st EXCEPT !.stop = "nofiles"]
  ELSE st
=============================================================================
