----------------------------- MODULE DetoxWalk -----------------------------
(***************************************************************************)
(* detox working on files: the argument loop, directory traversal and      *)
(* renaming, over an abstract file system.                                 *)
(*                                                                         *)
(* File system.  Objects are numbered 1..Len(cfg.obj); obj[i] is           *)
(*    t   "d" directory, "f" regular file, "l" symlink, "o" anything else  *)
(*    nl  number of hard links        c  identity of the contents          *)
(*    to  for "l": the path in the link                                    *)
(*    par for "d": the parent directory                                    *)
(* ent maps <<directory, name>> to the object of that name.  Only ent      *)
(* changes while detox runs; objects never do.                             *)
(*                                                                         *)
(* A run is configured by cfg: args (byte strings), cwd, seq (see below),  *)
(* ign (set of ignored names), r, n, v, sp (-r -n -v --special), ci (the   *)
(* file system looks names up without regard to case), odf (directories    *)
(* that cannot be opened, with the errno name), rdf (directories whose      *)
(* listing breaks off: errno name and the names seen until then), nox       *)
(* (directories whose entries cannot be looked up), nol (names that cannot   *)
(* be looked up: name and errno name), env (what other programs *)
(* may do to a directory just after it was listed), van (whether they take  *)
(* entries away at any time), abs/root (an absolute path *)
(* prefix and the directory it denotes).                                   *)
(*                                                                         *)
(* agenda is the set of things still to be done for the current argument.  *)
(* The order in which it is worked off is free, except that what is inside *)
(* a directory only becomes known once that directory itself is dealt with.*)
(* Entries whose name would not change cause no observable step.           *)
(***************************************************************************)
EXTENDS DetoxFilters

CONSTANT SeqList   \* the filter sequences runs may use; cfg.seq is an index into it

VARIABLES cfg,      \* configuration of the run (never changes)
          ent,      \* directory entries
          argi,     \* number of arguments started
          agenda,   \* what remains to be done for argument argi
          mode,     \* "run", "dead" (gave up: out of descriptors), "done"
          sys,      \* the system call made by the last step
          out, err, \* what the last step wrote to stdout and stderr
          done      \* <<directory, object>> pairs dealt with for this argument
vars == <<cfg, ent, argi, agenda, mode, sys, out, err, done>>

NoSys == [k |-> "none"]
NLb == <<LF>>
Strerror(e) ==
  CASE e = "ENOENT"  -> B("No such file or directory")
    [] e = "ENOTDIR" -> B("Not a directory")
    [] e = "EACCES"  -> B("Permission denied")
    [] e = "EMFILE"  -> B("Too many open files")
    [] e = "ENFILE"  -> B("Too many open files in system")
    [] e = "EPERM"   -> B("Operation not permitted")
    [] e = "EXDEV"   -> B("Invalid cross-device link")
    [] e = "EIO"     -> B("Input/output error")
    [] e = "ENOSPC"  -> B("No space left on device")
    [] e = "EROFS"   -> B("Read-only file system")
    [] e = "EBUSY"   -> B("Device or resource busy")
    [] e = "EEXIST"  -> B("File exists")
    [] e = "ENOTEMPTY" -> B("Directory not empty")
    [] e = "ENOMEM"  -> B("Cannot allocate memory")
    [] e = "ELOOP"   -> B("Too many levels of symbolic links")
    [] e = "ENAMETOOLONG" -> B("File name too long")
    [] e = "EISDIR"  -> B("Is a directory")
    [] e = "EBADF"   -> B("Bad file descriptor")
    [] e = "EFBIG"   -> B("File too large")
    [] e = "EOVERFLOW" -> B("Value too large for defined data type")
    [] OTHER -> B("?")

------------------------------------------------------------------------------
(* Looking things up *)
Type(i) == cfg.obj[i].t
Children(e, d) == {k \in DOMAIN e : k[1] = d}
SameName(a, b) == IF cfg.ci THEN EqNoCase(a, b) ELSE a = b
\* the object found under name n in directory d; 0 if there is none
Lookup(e, d, n) ==
  IF n = <<>> \/ n = <<DOT>> THEN d
  ELSE IF n = <<DOT, DOT>> THEN cfg.obj[d].par
  ELSE IF <<d, n>> \in DOMAIN e THEN e[<<d, n>>]
  ELSE LET m == {k \in Children(e, d) : SameName(k[2], n)}
       IN IF m = {} THEN 0 ELSE e[CHOOSE k \in m : TRUE]
\* under which name the entry is stored (matters if names are looked up without case)
Stored(e, d, n) == IF <<d, n>> \in DOMAIN e THEN n
                   ELSE (CHOOSE k \in Children(e, d) : SameName(k[2], n))[2]

RECURSIVE SplitAt(_, _, _)
SplitAt(s, cur, acc) == IF s = <<>> THEN Append(acc, cur)
                        ELSE IF s[1] = SLASH THEN SplitAt(Tail(s), <<>>, Append(acc, cur))
                        ELSE SplitAt(Tail(s), Append(cur, s[1]), acc)
Components(p) == SelectSeq(SplitAt(p, <<>>, <<>>), LAMBDA c : c # <<>>)
BaseName(p) == From(p, LastPos(p, SLASH) + 1)
DirPart(p) == SubSeq(p, 1, LastPos(p, SLASH))

Fail(e) == [ok |-> FALSE, why |-> e, d |-> 0, n |-> <<>>, i |-> 0]
Found(d, n, i) == [ok |-> TRUE, why |-> "", d |-> d, n |-> n, i |-> i]
NoSearch(d) == \E j \in 1..Len(cfg.nox) : cfg.nox[j] = d
\* names of which the system will not say whether and what they are
LookErr(n) == IF \E j \in 1..Len(cfg.nol) : cfg.nol[j].n = n THEN cfg.nol[CHOOSE j \in 1..Len(cfg.nol) : cfg.nol[j].n = n].e ELSE ""
NameMax == 255
PathMax == 4096
LinkMax == 40
RECURSIVE Walk(_, _, _, _, _)
\* resolve components cs from directory d, not following a final link unless a slash comes after it; n links still to follow
Walk(e, d, cs, slash, n) ==
  IF cs = <<>> THEN Found(d, <<DOT>>, d)
  ELSE IF NoSearch(d) THEN Fail("EACCES")
  ELSE LET c == Head(cs)
           i == Lookup(e, d, c)
       IN IF Len(c) > NameMax THEN Fail("ENAMETOOLONG")
          ELSE IF Len(cs) = 1 /\ n = LinkMax /\ LookErr(c) # "" THEN Fail(LookErr(c))
          ELSE IF i = 0 THEN Fail("ENOENT")
          ELSE IF Len(cs) = 1 /\ ~slash THEN Found(d, c, i)
          ELSE IF Type(i) = "d" THEN IF Len(cs) = 1 THEN Found(d, c, i) ELSE Walk(e, i, Tail(cs), slash, n)
          ELSE IF Type(i) # "l" THEN Fail("ENOTDIR")
          ELSE IF n = 0 THEN Fail("ELOOP")
          ELSE LET to == cfg.obj[i].to
                   abs == to[1] = SLASH
                   sub == Components(IF abs THEN From(to, Len(cfg.abs) + 1) ELSE to)
                   r == Walk(e, IF abs THEN cfg.root ELSE d, sub \o Tail(cs), slash \/ Len(cs) = 1, n - 1)
               IN IF abs /\ ~StartsWith(to, cfg.abs) THEN Fail("ENOENT")
                  ELSE IF Len(cs) = 1 /\ r.ok THEN Found(d, c, r.i) ELSE r
\* what is found, after following a link
RECURSIVE Deref(_, _, _)
Deref(e, r, n) ==
  IF ~r.ok \/ Type(r.i) # "l" THEN r
  ELSE IF n = 0 THEN Fail("ELOOP")
  ELSE LET to == cfg.obj[r.i].to
           abs == to[1] = SLASH
       IN IF abs /\ ~StartsWith(to, cfg.abs) THEN Fail("ENOENT")
          ELSE Deref(e, Walk(e, IF abs THEN cfg.root ELSE r.d, Components(IF abs THEN From(to, Len(cfg.abs) + 1) ELSE to), EndsWith(to, <<SLASH>>), n - 1), n - 1)
Resolve(e, p) ==
  IF p = <<>> THEN Fail("ENOENT")
  ELSE IF Len(p) >= PathMax THEN Fail("ENAMETOOLONG")
  ELSE IF p[1] = SLASH
       THEN IF StartsWith(p, cfg.abs) THEN Walk(e, cfg.root, Components(From(p, Len(cfg.abs) + 1)), EndsWith(p, <<SLASH>>), LinkMax)
            ELSE Fail("ENOENT")
       ELSE Walk(e, cfg.cwd, Components(p), EndsWith(p, <<SLASH>>), LinkMax)

------------------------------------------------------------------------------
(* What there is to do *)
Skip(n) == n[1] = DOT \/ n \in cfg.ign
NewName(n) == IF n = <<>> THEN n ELSE CleanName(SeqList[cfg.seq], n)
CannotOpen(i) == \E j \in 1..Len(cfg.odf) : cfg.odf[j].i = i
OpenErr(i) == cfg.odf[CHOOSE j \in 1..Len(cfg.odf) : cfg.odf[j].i = i].e
BreaksOff(i) == \E j \in 1..Len(cfg.rdf) : cfg.rdf[j].i = i
Break(i) == cfg.rdf[CHOOSE j \in 1..Len(cfg.rdf) : cfg.rdf[j].i = i]
Listed(e, i) == IF BreaksOff(i) THEN {k \in Children(e, i) : \E x \in 1..Len(Break(i).seen) : Break(i).seen[x] = k[2]} ELSE Children(e, i)

FileTask(p, d, n, i, desc) == [k |-> "file", path |-> p, d |-> d, n |-> n, i |-> i, desc |-> desc]
OpenTask(p, i) == [k |-> "open", path |-> p, d |-> 0, n |-> <<>>, i |-> i, desc |-> FALSE]
LookTask(q, i) == [k |-> "look", path |-> q, d |-> 0, n |-> <<>>, i |-> i, desc |-> FALSE]
\* why entry q of directory i cannot be examined
EntryErr(q, i) == IF NoSearch(i) THEN "EACCES" ELSE IF Len(q) >= PathMax THEN "ENAMETOOLONG" ELSE LookErr(BaseName(q))
EnvTask(p, i) == [k |-> "env", path |-> p, d |-> 0, n |-> <<>>, i |-> i, desc |-> FALSE]
\* other programs change directory i just after it was listed
Disturbed(i) == \E j \in 1..Len(cfg.env) : cfg.env[j].i = i
EnvOps(i) == cfg.env[CHOOSE j \in 1..Len(cfg.env) : cfg.env[j].i = i].ops
MoveEnt(e, o) == IF <<o.d, o.n>> \in DOMAIN e /\ <<o.d2, o.n2>> \notin DOMAIN e
                 THEN [k \in (DOMAIN e \ {<<o.d, o.n>>}) \cup {<<o.d2, o.n2>>} |-> IF k = <<o.d2, o.n2>> THEN e[<<o.d, o.n>>] ELSE e[k]]
                 ELSE e
RECURSIVE MoveAll(_, _)
MoveAll(e, ops) == IF ops = <<>> THEN e ELSE MoveAll(MoveEnt(e, ops[1]), Tail(ops))
ReadTask(p, i) == [k |-> "read", path |-> p, d |-> 0, n |-> <<>>, i |-> i, desc |-> FALSE]

RECURSIVE Enter(_, _, _, _, _, _), Expand(_, _, _), Entries(_, _, _, _)
\* an entry to be cleaned: if its name stays, go straight to what is inside
Enter(e, p, d, n, i, desc) ==
  IF NewName(n) = n THEN (IF desc THEN Expand(e, p, i) ELSE {})
  ELSE {FileTask(p, d, n, i, desc)}
\* the contents of directory i, reached as p
Expand(e, p, i) ==
  IF CannotOpen(i) THEN {OpenTask(p, i)}
  ELSE IF Disturbed(i) THEN {EnvTask(p, i)}
  ELSE (IF BreaksOff(i) THEN {ReadTask(p, i)} ELSE {}) \cup Entries(e, p, i, Listed(e, i))
\* the listed entries ks of directory i, those that are still there being what they are in e
Entries(e, p, i, ks) ==
  UNION {LET n == k[2]  o == e[k]  q == p \o <<SLASH>> \o n IN
         IF EntryErr(q, i) # "" THEN {LookTask(q, i)}
         ELSE IF Type(o) = "d" THEN Enter(e, q, i, n, o, cfg.r)
         ELSE IF Type(o) = "f" \/ cfg.sp THEN Enter(e, q, i, n, o, FALSE)
         ELSE {}
         : k \in {x \in ks : ~Skip(x[2]) /\ x \in DOMAIN e}}

\* an argument, already resolved to r
ArgTasks(e, a, r) ==
  LET b == BaseName(a) IN
  IF Type(r.i) = "d" THEN (IF b = <<>> \/ Protected(b) THEN Expand(e, a, r.i)
                           ELSE Enter(e, a, r.d, b, r.i, TRUE))
  ELSE IF Type(r.i) = "f" \/ cfg.sp THEN Enter(e, a, r.d, b, r.i, FALSE)
  ELSE {}

------------------------------------------------------------------------------
(* What becomes of one entry *)
NewPath(t) == DirPart(t.path) \o NewName(t.n)
Invalid_(t) == LET m == NewName(t.n) IN m = <<>> \/ FirstPos(m, SLASH) # 0
Taken(t) == LET o == Lookup(ent, t.d, NewName(t.n)) IN
            o # 0 /\ (o # t.i \/ cfg.obj[t.i].nl > 1)
\* why it cannot be told whether the new name is free
NewErr(t) == IF Len(NewName(t.n)) > NameMax \/ Len(NewPath(t)) >= PathMax THEN "ENAMETOOLONG" ELSE LookErr(NewName(t.n))
Verdict(t) == IF Invalid_(t) THEN "invalid" ELSE IF NewErr(t) # "" THEN "unsure" ELSE IF Taken(t) THEN "blocked" ELSE "rename"

Gone(t) == LET r == Resolve(ent, t.path) IN ~r.ok \/ r.i # t.i
There(t) == cfg.van => ~Gone(t)

Announce(t) == t.path \o B(" -> ") \o NewPath(t) \o NLb
Complain(t, why) == B("Cannot rename ") \o t.path \o B(" to ") \o NewPath(t) \o B(": ") \o why \o NLb

Inside(e, t, p) == IF t.desc THEN Expand(e, p, t.i) ELSE {}

Finish(t, e, p) == /\ agenda' = (agenda \ {t}) \cup Inside(e, t, p)
                   /\ done' = done \cup {<<t.d, t.i>>}

------------------------------------------------------------------------------
(* Actions *)
StartArg ==
  /\ mode = "run" /\ agenda = {} /\ argi < Len(cfg.args)
  /\ argi' = argi + 1
  /\ LET a == cfg.args[argi + 1]
         r == Resolve(ent, a)
     IN /\ out' = IF cfg.v THEN B("Scanning: ") \o a \o NLb ELSE <<>>
        /\ err' = IF r.ok THEN <<>> ELSE a \o B(": ") \o Strerror(r.why) \o NLb
        /\ agenda' = IF r.ok THEN ArgTasks(ent, a, r) ELSE {}
  /\ sys' = NoSys /\ done' = {}
  /\ UNCHANGED <<cfg, ent, mode>>

\* the cleaned name is unusable, belongs to something else, or might
Refuse(t) ==
  /\ mode = "run" /\ t.k = "file" /\ There(t) /\ Verdict(t) # "rename"
  /\ err' = Complain(t, IF Verdict(t) = "invalid" THEN B("invalid filename") ELSE IF Verdict(t) = "unsure" THEN Strerror(NewErr(t)) ELSE B("file already exists"))
  /\ out' = <<>> /\ sys' = NoSys
  /\ Finish(t, ent, t.path)
  /\ UNCHANGED <<cfg, ent, argi, mode>>

WouldRename(t) ==
  /\ mode = "run" /\ t.k = "file" /\ cfg.n /\ There(t) /\ Verdict(t) = "rename"
  /\ out' = Announce(t) /\ err' = <<>> /\ sys' = NoSys
  /\ Finish(t, ent, t.path)
  /\ UNCHANGED <<cfg, ent, argi, mode>>

Moved(t) == LET old == <<t.d, Stored(ent, t.d, t.n)>>
                new == <<t.d, NewName(t.n)>>
            IN [k \in (DOMAIN ent \ {old}) \cup {new} |-> IF k = new THEN t.i ELSE ent[k]]
SysRename(t, e) == [k |-> "rename", d |-> t.d, n |-> t.n, d2 |-> t.d, n2 |-> NewName(t.n), e |-> e]

Rename(t) ==
  /\ mode = "run" /\ t.k = "file" /\ ~cfg.n /\ There(t) /\ Verdict(t) = "rename"
  /\ out' = IF cfg.v THEN Announce(t) ELSE <<>>
  /\ err' = <<>> /\ sys' = SysRename(t, "")
  /\ ent' = Moved(t)
  /\ Finish(t, ent', NewPath(t))
  /\ UNCHANGED <<cfg, argi, mode>>

\* the system refuses (permissions, name too long, disk full, ...)
RenameFails(t, e) ==
  /\ mode = "run" /\ t.k = "file" /\ ~cfg.n /\ Verdict(t) = "rename" /\ e # ""
  /\ out' = IF cfg.v THEN Announce(t) ELSE <<>>
  /\ err' = Complain(t, Strerror(e)) /\ sys' = SysRename(t, e)
  /\ Finish(t, ent, t.path)
  /\ UNCHANGED <<cfg, ent, argi, mode>>

OpenFails(t) ==
  /\ mode = "run" /\ t.k = "open"
  /\ err' = B("unable to parse: ") \o Strerror(OpenErr(t.i)) \o NLb
  /\ out' = <<>> /\ sys' = NoSys
  /\ IF OpenErr(t.i) = "EMFILE"
     THEN mode' = "dead" /\ agenda' = {} /\ done' = done
     ELSE mode' = mode /\ agenda' = agenda \ {t} /\ done' = done
  /\ UNCHANGED <<cfg, ent, argi>>

\* the listing of a directory broke off: what was listed is worked on all the same
ReadFails(t) ==
  /\ mode = "run" /\ t.k = "read"
  /\ err' = B("unable to parse: ") \o Strerror(Break(t.i).e) \o NLb
  /\ out' = <<>> /\ sys' = NoSys
  /\ agenda' = agenda \ {t}
  /\ UNCHANGED <<cfg, ent, argi, mode, done>>

\* an entry of a directory that cannot be examined
LookFails(t) ==
  /\ mode = "run" /\ t.k = "look"
  /\ err' = t.path \o B(": ") \o Strerror(EntryErr(t.path, t.i)) \o NLb
  /\ out' = <<>> /\ sys' = NoSys
  /\ agenda' = agenda \ {t}
  /\ UNCHANGED <<cfg, ent, argi, mode, done>>

\* directory t.i is listed, other programs change it, and only then its entries are looked at
EnvChanges(t) ==
  /\ mode = "run" /\ t.k = "env"
  /\ ent' = MoveAll(ent, EnvOps(t.i))
  /\ agenda' = (agenda \ {t}) \cup Entries(ent', t.path, t.i, Listed(ent, t.i))
  /\ sys' = [k |-> "env", d |-> t.i, n |-> <<>>, d2 |-> 0, n2 |-> <<>>, e |-> ""]
  /\ out' = <<>> /\ err' = <<>>
  /\ UNCHANGED <<cfg, argi, mode, done>>
\* ... or do not
EnvRests(t) ==
  /\ mode = "run" /\ t.k = "env"
  /\ agenda' = (agenda \ {t}) \cup Entries(ent, t.path, t.i, Listed(ent, t.i))
  /\ sys' = NoSys /\ out' = <<>> /\ err' = <<>>
  /\ UNCHANGED <<cfg, ent, argi, mode, done>>

\* at any time other programs take an entry away; a directory may just have been about to be listed
Vanish(o) ==
  /\ mode = "run" /\ cfg.van /\ <<o.d, o.n>> \in DOMAIN ent
  /\ ent' = MoveEnt(ent, o)
  /\ sys' = [k |-> "vanish", d |-> o.d, n |-> o.n, d2 |-> o.d2, n2 |-> o.n2, e |-> ""]
  /\ out' = <<>>
  /\ err' \in {<<>>} \cup (IF Type(ent[<<o.d, o.n>>]) = "d" THEN {B("unable to parse: ") \o Strerror("ENOENT") \o NLb} ELSE {})
  /\ UNCHANGED <<cfg, argi, agenda, mode, done>>
\* what vanished before it was looked at is passed over (when is of no consequence) ...
PassOver ==
  /\ mode = "run" /\ cfg.van /\ agenda # {} /\ \A t \in agenda : Gone(t)
  /\ agenda' = {}
  /\ sys' = NoSys /\ out' = <<>> /\ err' = <<>>
  /\ UNCHANGED <<cfg, ent, argi, mode, done>>
\* ... and what vanished after that cannot be renamed any more
RenameGone(t) ==
  /\ mode = "run" /\ t.k = "file" /\ cfg.van /\ ~cfg.n /\ Gone(t)
  /\ out' = IF cfg.v THEN Announce(t) ELSE <<>>
  /\ err' = Complain(t, Strerror("ENOENT"))
  /\ LET r == Resolve(ent, IF DirPart(t.path) = <<>> THEN B(".") ELSE DirPart(t.path))
     IN sys' = [k |-> "rename", d |-> IF r.ok THEN t.d ELSE 0, n |-> t.n, d2 |-> IF r.ok THEN t.d ELSE 0, n2 |-> NewName(t.n), e |-> "ENOENT"]
  /\ agenda' = agenda \ {t} /\ done' = done \cup {<<t.d, t.i>>}
  /\ UNCHANGED <<cfg, ent, argi, mode>>
\* detox ends at any point and is started again
StartAgain ==
  /\ mode = "run" /\ argi > 0
  /\ argi' = 0 /\ agenda' = {} /\ done' = {}
  /\ sys' = NoSys /\ out' = <<>> /\ err' = <<>>
  /\ UNCHANGED <<cfg, ent, mode>>

Finished ==
  /\ mode = "run" /\ agenda = {} /\ argi = Len(cfg.args)
  /\ mode' = "done" /\ out' = <<>> /\ err' = <<>> /\ sys' = NoSys
  /\ UNCHANGED <<cfg, ent, argi, agenda, done>>

ExitStatus == IF mode = "dead" THEN 1 ELSE 0

StartState(c, e0) ==
  /\ cfg = c /\ ent = e0 /\ argi = 0 /\ agenda = {} /\ mode = "run"
  /\ sys = NoSys /\ out = <<>> /\ err = <<>> /\ done = {}

Deal(t, errnos) == Refuse(t) \/ WouldRename(t) \/ Rename(t) \/ OpenFails(t) \/ ReadFails(t) \/ LookFails(t)
                   \/ EnvChanges(t) \/ EnvRests(t)
                   \/ \E e \in errnos : RenameFails(t, e)
Step(errnos) == StartArg \/ (\E t \in agenda : Deal(t, errnos)) \/ Finished

=============================================================================
