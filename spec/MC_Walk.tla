------------------------------- MODULE MC_Walk -------------------------------
(* Exhaustive check of DetoxWalk over all small worlds: every tree made of   *)
(* a directory "t t" with up to MaxEntries entries from Names, every type,   *)
(* the options, argument lists, sequences and failures below.                *)
EXTENDS DetoxWalk
CONSTANTS MaxEntries, Names, Args, Seqs, Types, Odfs, Rdfs, Noxs, Nols, Errnos, Cis, Vs, Envs, Vans, Restarts

NamesAll == {B("a b"), B("a_b"), B("a  b"), B(".h h"), B("i g"), B("%2541"), B("%41"), B("A B"), B("__"), B("a%2Fb")}
NamesCollide == {B("a b"), B("a_b"), B("a  b"), B("A B")}
NamesHidden == {B("a b"), B(".h h"), B("i g"), B("i_g"), B("__")}
NamesCgi == {B("%2541"), B("%41"), B("A"), B("a%2Fb"), B("a b")}
NamesBreak == {B("a b"), B("c d"), B("a_b"), B(".h h")}
NamesWit == {B("a b"), B("a_b"), B(".h h"), B("A%2Fb")}
ArgsWit == { <<B("t t/.h h"), B("nope"), B("t t")>> }
ArgsAll == { <<B("t t")>>, <<B("t t/")>>, <<B("t t"), B("t t")>>, <<B("t t"), B("t_t")>>,
          <<B("t t/.h h"), B("nope"), B("t t")>>, <<B("t t/a b/../i g"), B("./t t/.")>>,
          <<B("t t/a b"), B("t t/a_b/x y")>> }
ArgsDir == { <<B("t t")>> }
ArgsTwo == { <<B("t t"), B("t_t")>>, <<B("nope"), B("t t")>> }
ArgsFile == { <<B("t t/.h h"), B("nope"), B("t t/i g")>>, <<B("t t/a b"), B("t t")>>, <<B("t t/a b/../i g"), B("./t t/.")>>, <<B("t t/")>> }
SeqList_ == << SeqDefault, <<fUncgi>>, <<fLower>> >>
DF == {"d", "f"}
DFL == {"d", "f", "l"}
NoErr == {}
SomeErr == {"EACCES"}
NoOdf == {<<>>}
WitOdf == {<<>>, <<[i |-> 3, e |-> "EMFILE"]>>}
SomeOdf == {<<>>, <<[i |-> 2, e |-> "EACCES"]>>, <<[i |-> 3, e |-> "EACCES"]>>, <<[i |-> 3, e |-> "EMFILE"]>>}
NoNox == {<<>>}
SomeNox == {<<>>, <<2>>, <<3>>}
NoNol == {<<>>}
SomeNol == {<<>>} \cup {<<[n |-> x, e |-> "EIO"]>> : x \in {B("a_b"), B("a b"), B("t_t"), B("t t"), B("x_y")}}
NoRdf == {<<>>}
SomeRdf == {<<[i |-> d, e |-> "EIO", seen |-> s]>> : d \in {2, 3}, s \in {<<>>, <<B("a b")>>, <<B("x y")>>, <<B("a b"), B("c d")>>}}
NoCi == {FALSE}
Op(d, n, d2, n2) == [d |-> d, n |-> B(n), d2 |-> d2, n2 |-> B(n2)]
NoEnv == {<<>>}
\* directory 0 is where other programs put what they take away, and where they have what they bring: a file "p" and a symlink "q"
SomeEnv == {<<>>} \cup {<<[i |-> d, ops |-> o]>> : d \in {1, 2}, o \in {
   <<Op(2, "a b", 0, "x")>>, <<Op(0, "p", 2, "a_b")>>, <<Op(0, "p", 2, "new  x")>>, <<Op(2, "a b", 2, "z z")>>,
   <<Op(2, "a b", 0, "x"), Op(0, "q", 2, "a b")>>, <<Op(2, "a b", 0, "x"), Op(2, "c d", 2, "a b")>>, <<Op(2, "a_b", 0, "x")>> }}
ArgsDot == { <<B(".")>> }
ArgsHere == { <<B(".")>>, <<B("t t")>> }
NamesOthers == {B("a b"), B("a_b"), B("c d"), B("e")}

\* objects: 1 cwd, 2 "t t", 3..5 entries of 2, 6..8 what is inside 3..5 if they are directories
ObjRec(ty, hl, par) == [t |-> ty, nl |-> hl, c |-> 0, to |-> IF ty = "l" THEN B("../t t") ELSE <<>>, par |-> par]
World(ns, ty, inside, hard) ==
  [ obj |-> << ObjRec("d", 2, 1), ObjRec("d", 2, 1) >>
            \o [j \in 1..Len(ns) |-> ObjRec(ty[j], IF hard /\ ty[j] = "f" THEN 2 ELSE 1, 2)]
            \o [j \in 1..Len(ns) |-> ObjRec("f", 1, 2 + j)]
            \o (IF Envs = NoEnv THEN <<>> ELSE << ObjRec("f", 1, 1), ObjRec("l", 1, 1) >>),
    ent |-> [k \in {<<1, B("t t")>>} \cup (IF Envs = NoEnv THEN {} ELSE {<<0, B("p")>>, <<0, B("q")>>}) \cup {<<2, ns[j]>> : j \in 1..Len(ns)}
                   \cup {<<2 + j, B("x y")>> : j \in {x \in 1..Len(ns) : ty[x] = "d" /\ inside}}
             |-> IF k[1] = 0 THEN 2 * Len(ns) + (IF k[2] = B("p") THEN 3 ELSE 4)
                 ELSE IF k[1] = 1 THEN 2
                 ELSE IF k[1] = 2 THEN 2 + (CHOOSE j \in 1..Len(ns) : ns[j] = k[2])
                 ELSE k[1] + Len(ns)] ]
\* sets of names as sequences, in some fixed order
RECURSIVE Pick(_)
Pick(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Pick(S \ {x})
NameSeqs == {Pick(S) : S \in {T \in SUBSET Names : Cardinality(T) \in 1..MaxEntries}}

Init ==
  \E ns \in NameSeqs : \E ty \in [1..Len(ns) -> Types] :
  \E a \in Args, sq \in Seqs, r, n, sp \in BOOLEAN, v \in Vs, odf \in Odfs, rdf \in Rdfs, nox \in Noxs, nol \in Nols, ci \in Cis, hard \in BOOLEAN, env \in Envs, van \in Vans :
    LET w == World(ns, ty, TRUE, hard) IN
    /\ (ci => \A i, j \in 1..Len(ns) : i # j => ~EqNoCase(ns[i], ns[j]))
    /\ (hard => "f" \in {ty[j] : j \in 1..Len(ns)})
    /\ (sp => "l" \in Types)
    /\ (nox # <<>> => odf = <<>> /\ rdf = <<>>)
    /\ StartState([obj |-> w.obj, args |-> a, cwd |-> 1, seq |-> sq, ign |-> {B("i g")},
                   r |-> r, n |-> n, v |-> v, sp |-> sp, ci |-> ci, odf |-> odf, rdf |-> rdf, nox |-> nox, nol |-> nol,
                   env |-> env, van |-> van,
                   abs |-> B("/w"), root |-> 1, e0 |-> w.ent], w.ent)
Away == {[d |-> k[1], n |-> k[2], d2 |-> 0, n2 |-> <<k[1]>> \o k[2]] : k \in {x \in DOMAIN ent : x[1] # 0}}
Next == \/ Step(Errnos)
        \/ Restarts /\ StartAgain
        \/ (\E o \in Away : Vanish(o)) \/ PassOver \/ (\E t \in agenda : RenameGone(t))
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Named(d, o) ==   \* was this entry an argument (so that the skip rules do not protect it)?
  \E j \in 1..Len(cfg.args) : LET r == Resolve(cfg.e0, cfg.args[j]) IN r.ok /\ r.d = d /\ r.i = o

NameNow(d, o) == (CHOOSE k \in DOMAIN ent : k[1] = d /\ ent[k] = o)[2]
NameThen(d, o) == (CHOOSE k \in DOMAIN cfg.e0 : k[1] = d /\ cfg.e0[k] = o)[2]
Pairs(e) == {<<k[1], e[k]>> : k \in DOMAIN e}

TypeOK == /\ mode \in {"run", "dead", "done"} /\ argi \in 0..Len(cfg.args)
          /\ \A t \in agenda : t.k \in {"file", "open", "read", "look", "env"}
\* C01
NothingLost == /\ Pairs(ent) = Pairs(cfg.e0)
               /\ Cardinality(DOMAIN ent) = Cardinality(DOMAIN cfg.e0)
NoClobber == [][sys'.k = "rename" /\ sys'.e = "" =>
                  LET o == Lookup(ent, sys'.d2, sys'.n2) IN o = 0 \/ o = Lookup(ent, sys'.d, sys'.n)]_vars
\* C02
DryInert == cfg.n => ent = cfg.e0 /\ sys.k = "none"
\* C03
NamesCleaned == \A p \in Pairs(ent) :
   LET a == NameThen(p[1], p[2])  b == NameNow(p[1], p[2]) IN
   b # a => \/ b = NewName(a)
            \/ Len(cfg.args) > 1 /\ (b = NewName(NewName(a)) \/ b = NewName(NewName(NewName(a))))
SameDirectory == sys.k = "rename" => sys.d = sys.d2 /\ FirstPos(sys.n2, SLASH) = 0 /\ sys.n2 # <<>>
\* C04
SkippedUntouched == \A p \in Pairs(ent) :
   Skip(NameThen(p[1], p[2])) /\ ~Named(p[1], p[2]) => NameNow(p[1], p[2]) = NameThen(p[1], p[2])
\* C05
SpecialUntouched == ~cfg.sp => \A p \in Pairs(ent) :
   Type(p[2]) \notin {"d", "f"} => NameNow(p[1], p[2]) = NameThen(p[1], p[2])
\* C06, C08: at the end of a run over the one argument "t t", without failures
Complete == (mode = "done" /\ cfg.args = <<B("t t")>> /\ cfg.odf = <<>> /\ cfg.rdf = <<>> /\ cfg.nox = <<>> /\ cfg.nol = <<>> /\ Errnos = {} /\ ~cfg.n) =>
   \A p \in Pairs(ent) :
     LET a == NameThen(p[1], p[2])  b == NameNow(p[1], p[2])
         depth == IF p[1] = 1 THEN 0 ELSE IF p[1] = 2 THEN 1 ELSE 2
         skip == IF p[1] <= 2 THEN Skip(a) /\ p[1] = 2
                 ELSE Skip(NameThen(2, p[1]))
         elig == ~skip /\ (Type(p[2]) \in {"d", "f"} \/ cfg.sp) /\ (depth <= 1 \/ cfg.r)
     IN IF elig THEN \/ b = NewName(a)
                     \/ Invalid_(FileTask(a, p[1], a, p[2], FALSE))
                     \* a file with several links is not renamed to a case variant of its own name
                     \/ b = a /\ cfg.ci /\ cfg.obj[p[2]].nl > 1 /\ SameName(a, NewName(a))
                     \/ b = a /\ \E k \in DOMAIN cfg.e0 : k[1] = p[1] /\ cfg.e0[k] # p[2]
                                      /\ (SameName(k[2], NewName(a)) \/ SameName(NewName(k[2]), NewName(a)))
        ELSE b = a
\* C37: however often detox was stopped and started again, in the end everything in the current directory is as after one run
\* C38: whatever other programs do meanwhile, nothing is lost, and what they leave alone is cleaned as ever
StillThere == /\ {ent[k] : k \in DOMAIN ent} = {cfg.e0[k] : k \in DOMAIN cfg.e0}
              /\ Cardinality(DOMAIN ent) = Cardinality(DOMAIN cfg.e0)
Touched(e0, d, o) == <<d, o>> \notin Pairs(ent)
             \/ \E x \in 1..Len(cfg.env) : \E y \in 1..Len(cfg.env[x].ops) : cfg.env[x].ops[y].d = d /\ cfg.env[x].ops[y].n = NameThen(d, o)
Brought(d, n) == \E x \in 1..Len(cfg.env) : \E y \in 1..Len(cfg.env[x].ops) : cfg.env[x].ops[y].d2 = d /\ cfg.env[x].ops[y].n2 = n
OnlyCleaned == \A p \in Pairs(cfg.e0) : p[1] # 0 /\ ~Touched(cfg.e0, p[1], p[2]) =>
   LET a == NameThen(p[1], p[2])  b == NameNow(p[1], p[2]) IN b \in {a, NewName(a)}
Converged == (mode = "done" /\ cfg.args \in ArgsHere /\ Errnos = {} /\ ~cfg.n /\ (Restarts => cfg.args \in ArgsDot)) =>
   \A p \in Pairs(cfg.e0) : (p[1] # 0 /\ ~Touched(cfg.e0, p[1], p[2])) =>
     LET a == NameThen(p[1], p[2])  b == NameNow(p[1], p[2])
         depth == (IF p[1] = 1 THEN 0 ELSE IF p[1] = 2 THEN 1 ELSE 2) + (IF cfg.args \in ArgsDot THEN 1 ELSE 0)
         skip == IF p[1] <= 2 THEN Skip(a) ELSE Skip(NameThen(2, p[1]))
         above == (p[1] = 1) \/ (~Touched(cfg.e0, 1, 2) /\ (p[1] = 2 \/ ~Touched(cfg.e0, 2, p[1])))
     IN IF ~skip /\ (Type(p[2]) \in {"d", "f"} \/ cfg.sp) /\ (depth <= 1 \/ cfg.r) /\ above
        THEN \/ b = NewName(a) \/ Invalid_(FileTask(a, p[1], a, p[2], FALSE))
             \/ (b = a /\ (Brought(p[1], NewName(a)) \/ \E k \in DOMAIN cfg.e0 : k[1] = p[1] /\ cfg.e0[k] # p[2] /\ NewName(a) \in {k[2], NewName(k[2])}))
        ELSE b = a \/ ~above
\* whatever is not renamed although its name would change is accounted for
RefusalTold == [][\A t \in agenda : t.k = "file" /\ t \notin agenda' => sys'.k = "rename" \/ err' # <<>> \/ (cfg.n /\ out' # <<>>)]_vars
\* C36: a listing that breaks off says so, and what was listed is dealt with as ever
BreakTold == [][\A t \in agenda : t.k \in {"open", "read", "look"} /\ t \notin agenda' => err' # <<>>]_vars
ListedDone == (mode = "done" /\ cfg.args = <<B("t t")>> /\ cfg.rdf # <<>> /\ ~cfg.n) =>
   \A p \in Pairs(ent) : p[1] = 2 /\ BreaksOff(2) =>
     LET a == NameThen(p[1], p[2])  b == NameNow(p[1], p[2])
         seen == \E x \in 1..Len(Break(2).seen) : Break(2).seen[x] = a
     IN IF ~seen THEN b = a
        ELSE Skip(a) \/ (Type(p[2]) \notin {"d", "f"} /\ ~cfg.sp) \/ b = NewName(a)
             \/ \E k \in DOMAIN cfg.e0 : k[1] = 2 /\ cfg.e0[k] # p[2] /\ (k[2] = NewName(a) \/ NewName(k[2]) = NewName(a))
\* C07: within one argument, an entry that was dealt with is never touched again
OnceOnly == \A t \in agenda : t.k = "file" => <<t.d, t.i>> \notin done
OnceStep == [][sys'.k = "rename" => <<sys'.d, Lookup(ent, sys'.d, sys'.n)>> \notin done]_vars
\* C08
DeadMeansDead == [][mode = "dead" => UNCHANGED vars]_vars
\* C09: a second run finds nothing to do (default sequence, nothing blocked or failed)
Stable == (mode = "done" /\ cfg.args = <<B("t t")>> /\ cfg.seq \in {1, 3} /\ cfg.odf = <<>> /\ cfg.rdf = <<>> /\ cfg.nox = <<>> /\ cfg.nol = <<>> /\ Errnos = {} /\ ~cfg.n) =>
   LET again == Expand(ent, B("t_t"), 2) IN
   \A t \in again : Verdict(t) # "rename"

\* C10: what a step prints is one line about what it does, and nothing else
LFs(x) == Cardinality({i \in 1..Len(x) : x[i] = LF})
OneLine(x) == x = <<>> \/ (LFs(x) = 1 /\ x[Len(x)] = LF)
Reported ==
  /\ OneLine(out) /\ OneLine(err)
  /\ (~cfg.v /\ ~cfg.n => out = <<>>)
  /\ (sys.k = "rename" =>
        /\ (cfg.v <=> out # <<>>)
        /\ (sys.e = "" <=> err = <<>>)
        /\ (cfg.v => LET l == SubSeq(out, 1, Len(out) - 1) IN
               \E i \in 1..Len(l) : /\ SubSeq(l, i, i + 3) = B(" -> ")
                                    /\ BaseName(SubSeq(l, 1, i - 1)) = sys.n /\ BaseName(From(l, i + 4)) = sys.n2
                                    /\ DirPart(SubSeq(l, 1, i - 1)) = DirPart(From(l, i + 4))))
\* a change of the directory tree is never silent under -v, and only renames change it
Announced == [][ent' # ent => sys'.k \in {"env", "vanish"} \/ (sys'.k = "rename" /\ sys'.e = "" /\ (cfg.v => out' # <<>>))]_vars
\* C02: with no collisions possible a dry run announces exactly the final state of the real run, one level deep
DryTells == (mode = "done" /\ cfg.n) => ent = cfg.e0

\* situations that must be reachable for the checks above to mean anything
Situations == <<
  sys.k = "rename" /\ sys.e = "",
  sys.k = "rename" /\ sys.e # "",
  \E t \in agenda : t.k = "file" /\ Verdict(t) = "blocked",
  \E t \in agenda : t.k = "file" /\ Verdict(t) = "invalid",
  \E t \in agenda : t.k = "open",
  mode = "dead", mode = "done" /\ ent # cfg.e0, mode = "done" /\ cfg.n,
  \E t \in agenda : t.k = "file" /\ Type(t.i) = "l",
  \E t \in agenda : t.k = "file" /\ t.d > 2,
  argi > 1 /\ agenda # {},
  \E t \in agenda : t.k = "file" /\ Skip(t.n),
  \E t \in agenda : t.k = "file" /\ cfg.obj[t.i].nl > 1 /\ Type(t.i) = "f",
  \E t \in agenda : t.k = "file" /\ cfg.ci /\ SameName(t.n, NewName(t.n)) >>
ASSUME TLCSet(1, {})
Witness == /\ TLCSet(1, TLCGet(1) \cup {i \in 1..Len(Situations) : Situations[i]})
           /\ (TLCGet(1) = 1..14 => TLCSet("exit", TRUE))
AllSeen == TLCGet(1) = 1..14 \/ (PrintT(<<"MISSING", (1..14) \ TLCGet(1)>>) /\ FALSE)
\* every run comes to an end
Ends == <>(mode \in {"done", "dead"})
Fair == Spec /\ WF_vars(Next)
=============================================================================
