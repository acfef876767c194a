------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* The command-line machine under all argument lists over a small set of   *)
(* arguments: st is its state after args.                                  *)
(***************************************************************************)
EXTENDS DetoxCli
CONSTANTS MaxArgs
VARIABLES args, posix, inl, st
vars == <<args, posix, inl, st>>

Words == {"-r", "-n", "-v", "-L", "-s", "-f", "-V", "-h", "-z", "-", "--", "a", "x",
          "-rn", "-nr", "-rs", "-sx", "-fa", "-Lhr", "--inline", "--i", "--dry-run", "--d", "--r", "--special", "--s=", "--v", "--ver", "--verbose=1", "--nope", "--h"}
W == {B(w) : w \in Words}
Init == args = <<>> /\ posix \in BOOLEAN /\ inl \in BOOLEAN /\ st = CliInit(inl)
Next == Len(args) < MaxArgs /\ \E w \in W : args' = Append(args, w) /\ st' = CliStep(posix, st, w) /\ UNCHANGED <<posix, inl>>
Spec == Init /\ [][Next]_vars

R(a) == Cli(inl, a, posix)
IsSub(a, b) == \* a is a subsequence of b
  LET F[i \in 0..Len(a), j \in 0..Len(b)] == IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE ELSE F[i, j-1] \/ (a[i] = b[j] /\ F[i-1, j-1]) IN F[Len(a), Len(b)]

\* the machine is what Cli computes
Machine == LET r == R(args) IN (st.stop # "" => r.stop = st.stop) /\ (st.stop = "" /\ r.stop = "" => r = st)
\* files are arguments, in their order; nothing else is dropped or invented
FilesInOrder == IsSub(st.files, args)
\* a help or version request or a mistake ends it, whatever follows
Final == st.stop # "" => \A w \in W : CliStep(posix, st, w) = st
\* nothing an argument does is undone by a later flag
Keeps == st.stop = "" => \A w \in {B("-r"), B("-n"), B("-v"), B("-L"), B("--special"), B("--inline")} : st.want = "" =>
            LET t == CliStep(posix, st, w) IN /\ (st.r => t.r) /\ (st.n => t.n) /\ (st.v => t.v) /\ (st.L => t.L) /\ (st.sp => t.sp) /\ (st.inline => t.inline)
                                               /\ t.s = st.s /\ t.f = st.f
\* two flags, or a flag and a file, may change places
Independent == {B("-r"), B("-n"), B("-v"), B("-L"), B("--inline"), B("--special"), B("--d"), B("-rn"), B("-sx"), B("-fa")}
Swap == \A x \in 1..(Len(args) - 1) :
           LET a == args[x]  b == args[x + 1]
               before == FoldLeft(LAMBDA s, w : CliStep(posix, s, w), CliInit(inl), SubSeq(args, 1, x - 1))
           IN (before.want = "" /\ ~before.over /\ a \in Independent /\ (b \in Independent \/ (b \in {B("a"), B("x"), B("-")} /\ ~posix)))
              => R(args) = R(SubSeq(args, 1, x - 1) \o <<b, a>> \o SubSeq(args, x + 2, Len(args)))
\* spellings of the same thing
Alike == <<<<"-rn">>, <<"-r", "-n">>, <<"-nr">>, <<"--r", "--d">>, <<"--recursive", "-n">>, <<"--dry-run", "--rec">>>>
Args2 == <<<<"-sx">>, <<"-s", "x">>, <<"-s", "a", "-sx">>>>
Args3 == <<<<"-rs", "x">>, <<"-r", "-sx">>, <<"-rsx">>>>
Args4 == <<<<"-v">>, <<"--v">>, <<"--verbose">>, <<"-vv">>, <<"-v", "--verb">>>>
Args5 == <<<<"-hr">>, <<"-h", "-z">>, <<"--help", "--nope">>, <<"--h", "a">>, <<"-hs">>>>
Bs(q) == [i \in 1..Len(q) |-> B(q[i])]
SameIn(groups) == \A i, j \in 1..Len(groups) : R(args \o Bs(groups[i])).stop = R(args \o Bs(groups[j])).stop /\ (R(args \o Bs(groups[i])).stop = "" => R(args \o Bs(groups[i])) = R(args \o Bs(groups[j])))
Spelling == Len(args) < 2 /\ st.want = "" /\ ~st.over => SameIn(Alike) /\ SameIn(Args2) /\ SameIn(Args3) /\ SameIn(Args4) /\ SameIn(Args5)
\* after "--" everything is a file
DashDash == (st.over /\ st.stop = "" /\ st.want = "") => \A w \in W : CliStep(posix, st, w).files = Append(st.files, w)
=============================================================================
