----------------------------- MODULE DetoxConfig -----------------------------
(***************************************************************************)
(* Configuration: from the text of detoxrc files to sequences of filters.  *)
(*                                                                         *)
(*   Tokens(text)       the lexical analysis                               *)
(*   ParseConfig(text)  the grammar, as a machine that takes one token at  *)
(*                      a time; [ok, seqs, ign]                            *)
(*   LoadConfig(...)    which files count, and how they are combined       *)
(*   Choose(...)        which sequence is used                             *)
(*   Dump(...)          what -L prints                                     *)
(*   LoadTables(...)    the translation tables of the chosen sequence      *)
(*                                                                         *)
(* A sequence is [name, src, filters]; a filter is a record with k, the    *)
(* kind, and tab ("" none given, "b" builtin, "f" file), arg (name of the  *)
(* builtin or file), n (length), rt (remove_trailing).                     *)
(* Files are a set of [p, t]: a path as the program would write it, and    *)
(* the text found there.  A path that is not in it cannot be read.         *)
(***************************************************************************)
EXTENDS DetoxTableFile

------------------------------------------------------------------------------
(* Lexical analysis *)
Keywords == {"builtin", "filename", "ignore", "iso8859_1", "length", "lower", "max_length", "remove_trailing",
             "safe", "sequence", "uncgi", "utf_8", "wipeup"}
KeywordBytes == [k \in Keywords |-> B(k)]
Tok(k, v) == [k |-> k, v |-> v]
IsWordByte(b) == IsAlnum(b) \/ b = UNDERSCORE
WordTok(w) == LET l == LowerAll(w)
                  m == {k \in Keywords : KeywordBytes[k] = l}
              IN IF m # {} THEN Tok(CHOOSE k \in m : TRUE, <<>>) ELSE Tok("id", w)
\* numbers are taken modulo nothing: texts with values of 2^31 and above are outside the model
NumTok(d) == Tok("num", FoldLeft(LAMBDA a, b : 10 * a + (b - 48), 0, d))

(* The lexer as a machine over bytes.  mode: "" between tokens, "c" in a    *)
(* comment, "q" in a quoted string, "w" in a word, "n" in a number.  A      *)
(* quoted string ends with its line; a quote that is never closed, not even *)
(* by the end of the line, is not a token at all.                           *)
Flush(st) == IF st.mode = "w" THEN [st EXCEPT !.mode = "", !.cur = <<>>, !.out = Append(@, WordTok(st.cur))]
             ELSE IF st.mode = "n" THEN [st EXCEPT !.mode = "", !.cur = <<>>, !.out = Append(@, NumTok(st.cur))]
             ELSE st
Between(st, b) ==
  IF b = HASH THEN [st EXCEPT !.mode = "c"]
  ELSE IF b = DQUOTE THEN [st EXCEPT !.mode = "q", !.cur = <<>>]
  ELSE IF IsAlpha(b) THEN [st EXCEPT !.mode = "w", !.cur = <<b>>]
  ELSE IF IsDigit(b) THEN [st EXCEPT !.mode = "n", !.cur = <<b>>]
  ELSE IF b = SEMI THEN [st EXCEPT !.out = Append(@, Tok(";", <<>>))]
  ELSE IF b = LBRACE THEN [st EXCEPT !.out = Append(@, Tok("{", <<>>))]
  ELSE IF b = RBRACE THEN [st EXCEPT !.out = Append(@, Tok("}", <<>>))]
  ELSE st
LexByte(st, b) ==
  CASE st.mode = "c" -> IF b = LF THEN [st EXCEPT !.mode = ""] ELSE st
    [] st.mode = "q" -> IF b = DQUOTE THEN [st EXCEPT !.mode = "", !.cur = <<>>, !.out = Append(@, Tok("str", CStr(st.cur)))]
                        ELSE IF b = LF THEN [st EXCEPT !.mode = "", !.cur = <<>>, !.out = Append(@, Tok("str", CStr(Append(st.cur, LF)))), !.open = @ + 1]
                        ELSE [st EXCEPT !.cur = Append(@, b)]
    [] st.mode = "w" /\ IsWordByte(b) -> [st EXCEPT !.cur = Append(@, b)]
    [] st.mode = "n" /\ IsDigit(b) -> [st EXCEPT !.cur = Append(@, b)]
    [] OTHER -> Between(Flush(st), b)
LexInit == [mode |-> "", cur |-> <<>>, out |-> <<>>, open |-> 0]
RECURSIVE LexText(_, _)
LexText(st, s) ==
  LET e == Flush(FoldLeft(LexByte, st, s)) IN
  IF e.mode # "q" THEN e
  ELSE LexText([e EXCEPT !.mode = "", !.cur = <<>>], e.cur)   \* as if the quote were not there
Lexed(text) == LexText(LexInit, text)
Tokens(text) == Lexed(text).out
IsString(t) == t.k \in {"str", "id"}

------------------------------------------------------------------------------
(* The grammar *)
TableKinds == {"safe", "iso8859_1", "utf_8"}
Filter(k) == [k |-> k, tab |-> "", arg |-> <<>>, n |-> 0, rt |-> FALSE]

PInit == [at |-> "top", ok |-> TRUE, seqs |-> <<>>, ign |-> <<>>, name |-> <<>>, fs |-> <<>>, f |-> Filter("")]
Go(st, where) == [st EXCEPT !.at = where]
Bad(st) == [st EXCEPT !.ok = FALSE]
Need(st, t, k, where) == IF t.k = k THEN Go(st, where) ELSE Bad(st)

\* the sequence is complete: it takes the place of an earlier one of the same name
AddSeq(seqs, name, src, fs) ==
  LET old == {i \in 1..Len(seqs) : seqs[i].name = name}
      new == [name |-> name, src |-> src, filters |-> fs]
  IN IF old = {} THEN Append(seqs, new)
     ELSE [i \in 1..Len(seqs) |-> IF i \in old THEN new ELSE seqs[i]]

PStep(st, t) ==
  IF ~st.ok THEN st ELSE
  CASE st.at = "top" -> IF t.k = "sequence" THEN Go(st, "name") ELSE IF t.k = "ignore" THEN Go(st, "ign{") ELSE Bad(st)
    \* sequence NAME { filter; ... };
    [] st.at = "name" -> IF IsString(t) THEN [st EXCEPT !.at = "seq{", !.name = t.v] ELSE Bad(st)
    [] st.at = "seq{" -> IF t.k = "{" THEN [st EXCEPT !.at = "filter", !.fs = <<>>] ELSE Bad(st)
    [] st.at = "filter" ->
         IF t.k \in {"uncgi", "lower"} THEN [st EXCEPT !.at = "filter;", !.f = Filter(t.k)]
         ELSE IF t.k \in TableKinds \cup {"wipeup", "max_length"} THEN [st EXCEPT !.at = "block?", !.f = Filter(t.k)]
         ELSE IF t.k = "}" /\ st.fs # <<>> THEN Go(st, "seq;")
         ELSE Bad(st)
    [] st.at = "filter;" -> IF t.k = ";" THEN [st EXCEPT !.at = "filter", !.fs = Append(@, st.f)] ELSE Bad(st)
    [] st.at = "seq;" -> IF t.k = ";" THEN [st EXCEPT !.at = "top", !.seqs = AddSeq(@, st.name, <<>>, st.fs)] ELSE Bad(st)
    \* the optional block of a filter
    [] st.at = "block?" -> IF t.k = "{" THEN Go(st, "block")
                           ELSE IF t.k = ";" THEN [st EXCEPT !.at = "filter", !.fs = Append(@, st.f)] ELSE Bad(st)
    [] st.at = "block" ->
         IF t.k = "}" THEN Go(st, "filter;")
         ELSE IF st.f.k \in TableKinds /\ t.k = "builtin" THEN [st EXCEPT !.at = "table", !.f.tab = "b"]
         ELSE IF st.f.k \in TableKinds /\ t.k = "filename" THEN [st EXCEPT !.at = "table", !.f.tab = "f"]
         ELSE IF st.f.k = "wipeup" /\ t.k = "remove_trailing" THEN [st EXCEPT !.at = "block;", !.f.rt = TRUE]
         ELSE IF st.f.k = "max_length" /\ t.k = "length" THEN Go(st, "length")
         ELSE Bad(st)
    [] st.at = "table" -> IF IsString(t) THEN [st EXCEPT !.at = "block;", !.f.arg = t.v] ELSE Bad(st)
    [] st.at = "length" -> IF t.k = "num" THEN [st EXCEPT !.at = "block;", !.f.n = t.v] ELSE Bad(st)
    [] st.at = "block;" -> Need(st, t, ";", "block}")
    [] st.at = "block}" -> Need(st, t, "}", "filter;")
    \* ignore { filename NAME; ... };
    [] st.at = "ign{" -> Need(st, t, "{", "ign1")
    [] st.at \in {"ign1", "ign"} -> IF t.k = "filename" THEN Go(st, "ignname")
                                    ELSE IF t.k = "}" /\ st.at = "ign" THEN Go(st, "ign;") ELSE Bad(st)
    [] st.at = "ignname" -> IF IsString(t) THEN [st EXCEPT !.at = "ignname;", !.ign = Append(@, t.v)] ELSE Bad(st)
    [] st.at = "ignname;" -> Need(st, t, ";", "ign")
    [] st.at = "ign;" -> Need(st, t, ";", "top")

ParseConfig(text) ==
  LET L  == Lexed(text)
      st == FoldLeft(PStep, PInit, L.out)
  IN [ok |-> st.ok /\ st.at = "top", seqs |-> st.seqs, ign |-> st.ign, open |-> L.open]

------------------------------------------------------------------------------
(* Which files count *)
Present(files, p) == \E f \in files : f.p = p
TextAt(files, p) == (CHOOSE f \in files : f.p = p).t
\* the first of the paths that can be read, if any, as a sequence of length 0 or 1
FirstOf(files, ps) == LET c == {i \in 1..Len(ps) : Present(files, ps[i])} IN
                      IF c = {} THEN <<>> ELSE <<ps[CHOOSE i \in c : \A j \in c : i <= j]>>
\* the text of a file that can be opened but not read to its end
Unread == <<256>>
IfPresent(files, ps) == SelectSeq(ps, LAMBDA p : Present(files, p))

SystemConfigs(sysconf) == << sysconf \o B("/detoxrc"), B("/etc/detoxrc"), B("/usr/local/etc/detoxrc") >>
\* home, xdg: <<>> or <<value>> of the environment variables
Sources(files, sysconf, home, xdg) ==
  FirstOf(files, SystemConfigs(sysconf))
  \o (IF home = <<>> THEN <<>> ELSE IfPresent(files, <<home[1] \o B("/.detoxrc")>>))
  \o (IF xdg = <<>> THEN <<>> ELSE IfPresent(files, <<xdg[1] \o B("/detox/detoxrc")>>))

\* Files add to what came before: sequences are replaced by name or appended, ignored names add up.
\* said is what the reader prints about strings that the end of the line cut off.
NoConfig == [ok |-> TRUE, seqs |-> <<>>, ign |-> <<>>, bad |-> <<>>, said |-> <<>>]
Merge(c, p, text) ==
  IF ~c.ok THEN c ELSE
  LET r == ParseConfig(text)
      said == c.said \o Cat([i \in 1..r.open |-> B("Unterminated character string") \o <<LF>>])
  IN IF ~r.ok THEN [c EXCEPT !.ok = FALSE, !.bad = p]
     ELSE [c EXCEPT !.seqs = FoldLeft(LAMBDA acc, s : AddSeq(acc, s.name, p, s.filters), @, r.seqs),
                    !.ign = @ \o r.ign, !.said = said]
LoadAll(files, ps) == FoldLeft(LAMBDA c, p : Merge(c, p, TextAt(files, p)), NoConfig, ps)

(* The configuration that is compiled in *)
FB(k, name) == [Filter(k) EXCEPT !.tab = "b", !.arg = B(name)]
TidyUp == << FB("safe", "safe"), [Filter("wipeup") EXCEPT !.rt = TRUE] >>
BuiltinSource == B("built-in config file")
BSeq(name, fs) == [name |-> B(name), src |-> BuiltinSource, filters |-> fs]
BuiltinConfig ==
  [ok |-> TRUE, bad |-> <<>>, said |-> <<>>, ign |-> << B("{arch}") >>,
   seqs |-> << BSeq("default", TidyUp),
               BSeq("iso8859_1", <<FB("iso8859_1", "iso8859_1")>> \o TidyUp),
               BSeq("iso8859_1-legacy", <<FB("iso8859_1", "cp1252"), FB("iso8859_1", "iso8859_1")>> \o TidyUp),
               BSeq("utf_8", <<FB("utf_8", "unicode")>> \o TidyUp),
               BSeq("uncgi", <<Filter("uncgi")>> \o TidyUp),
               BSeq("lower", <<FB("safe", "safe"), Filter("lower"), [Filter("wipeup") EXCEPT !.rt = TRUE]>>),
               BSeq("iso8859_1-only", <<FB("iso8859_1", "iso8859_1")>>),
               BSeq("cp1252-only", <<FB("iso8859_1", "cp1252")>>),
               BSeq("utf_8-only", <<FB("utf_8", "unicode")>>),
               BSeq("uncgi-only", <<Filter("uncgi")>>),
               BSeq("lower-only", <<Filter("lower")>>) >>]

\* the configuration files that are read
ConfigFiles(files, sysconf, f, home, xdg) ==
  IF f # <<>> THEN IF Present(files, f[1]) THEN f ELSE <<>> ELSE Sources(files, sysconf, home, xdg)
\* f: <<>> or <<path>> of the -f option
LoadConfig(files, sysconf, f, home, xdg) ==
  IF f # <<>> THEN IF Present(files, f[1]) THEN LoadAll(files, f) ELSE [NoConfig EXCEPT !.ok = FALSE]
  ELSE LET ps == Sources(files, sysconf, home, xdg) IN
       IF ps = <<>> THEN BuiltinConfig ELSE LoadAll(files, ps)

------------------------------------------------------------------------------
(* Which sequence is used: 0 if there is none *)
Position(seqs, name) == IF \E i \in 1..Len(seqs) : seqs[i].name = name
                        THEN CHOOSE i \in 1..Len(seqs) : seqs[i].name = name ELSE 0
\* asked: <<>> or <<name>>
Choose(seqs, asked) ==
  IF asked # <<>> THEN Position(seqs, asked[1])
  ELSE LET d == Position(seqs, B("default")) IN
       IF d # 0 THEN d ELSE IF seqs = <<>> THEN 0 ELSE 1

------------------------------------------------------------------------------
(* What -L prints *)
Line(s) == s \o <<LF>>
T1 == <<TAB>>
T2 == <<TAB, TAB>>
Star(i, c) == IF i = c THEN B(" (*)") ELSE <<>>
KindName(k) == IF k = "max_length" THEN B("max length") ELSE B(k)
DumpFilter(f) ==
  Line(T1 \o B("cleaner: ") \o KindName(f.k))
  \o (IF f.k = "wipeup" THEN Line(T2 \o B("remove trailing: ") \o (IF f.rt THEN B("yes") ELSE B("no"))) ELSE <<>>)
  \o (IF f.k = "max_length" THEN Line(T2 \o B("length: ") \o Dec(f.n)) ELSE <<>>)
  \o (IF f.tab = "b" THEN Line(T2 \o B("builtin table: ") \o f.arg)
      ELSE IF f.tab = "f" THEN Line(T2 \o B("translation table: ") \o f.arg) ELSE <<>>)
DumpSeq(s, i, c, verbose) ==
  IF ~verbose THEN Line(T1 \o s.name \o Star(i, c))
  ELSE (IF i > 1 THEN <<LF>> ELSE <<>>)
       \o Line(B("sequence name: ") \o s.name \o Star(i, c))
       \o Line(T1 \o B("source file: ") \o s.src)
       \o Cat([j \in 1..Len(s.filters) |-> DumpFilter(s.filters[j])])
Dump(c, chosen, verbose) ==
  (IF verbose THEN <<>> ELSE Line(B("available sequences:")))
  \o Cat([i \in 1..Len(c.seqs) |-> DumpSeq(c.seqs[i], i, chosen, verbose)])
  \o (IF c.ign = <<>> THEN <<>>
      ELSE <<LF>> \o Line(B("files to ignore:")) \o Cat([i \in 1..Len(c.ign) |-> Line(T1 \o c.ign[i])]))

------------------------------------------------------------------------------
TableAt(files, p, ctype) ==
  IF ~Present(files, p) \/ TextAt(files, p) = Unread THEN [ok |-> FALSE, t |-> EmptyTable] ELSE ParseTable(TextAt(files, p), ctype)
(* Tables: which one a filter uses, and whether there is one *)
Missing(why) == [ok |-> FALSE, t |-> EmptyTable, why |-> why]
Using(t) == [ok |-> TRUE, t |-> t, why |-> <<>>]
InstalledName(k) == CASE k = "safe" -> B("safe.tbl") [] k = "utf_8" -> B("unicode.tbl") [] OTHER -> B("iso8859_1.tbl")
OwnBuiltin(k) == CASE k = "safe" -> SafeTable [] k = "utf_8" -> UnicodeTable [] OTHER -> IsoTable
DataDirs(datadir) == << datadir \o B("/detox/"), B("/usr/share/detox/"), B("/usr/local/share/detox/") >>
\* the first installed table that can be read and is usable
RECURSIVE Search(_, _, _, _)
Search(files, ps, ctype, fallback) ==
  IF ps = <<>> THEN Using(fallback)
  ELSE IF ~Present(files, Head(ps)) THEN Search(files, Tail(ps), ctype, fallback)
  ELSE LET r == TableAt(files, Head(ps), ctype) IN
       IF r.ok THEN Using(r.t) ELSE Search(files, Tail(ps), ctype, fallback)
TableFor(files, datadir, f, ctype) ==
  CASE f.tab = "b" -> IF f.arg \in BuiltinNames THEN Using(Builtin(f.arg))
                      ELSE Missing(B("detox: unable to locate builtin table \"") \o f.arg \o B("\""))
    [] f.tab = "f" -> LET r == TableAt(files, f.arg, ctype) IN
                      IF r.ok THEN Using(r.t) ELSE Missing(B("detox: unable to parse file: \"") \o f.arg \o B("\""))
    [] OTHER -> LET ds == DataDirs(datadir) IN
                Search(files, [i \in 1..Len(ds) |-> ds[i] \o InstalledName(f.k)], ctype, OwnBuiltin(f.k))

\* the filters in the form DetoxFilters runs them; [ok, fs, why]
LoadTables(files, datadir, fs, ctype) ==
  LET one(f) == IF f.k \in TableKinds THEN TableFor(files, datadir, f, ctype) ELSE Using(EmptyTable)
      got == [i \in 1..Len(fs) |-> one(fs[i])]
      bad == {i \in 1..Len(fs) : ~got[i].ok}
  IN IF bad # {} THEN [ok |-> FALSE, fs |-> <<>>, why |-> got[CHOOSE i \in bad : \A j \in bad : i <= j].why]
     ELSE [ok |-> TRUE, why |-> <<>>,
           fs |-> [i \in 1..Len(fs) |->
                     IF fs[i].k \in TableKinds THEN [k |-> fs[i].k, t |-> got[i].t]
                     ELSE IF fs[i].k = "wipeup" THEN [k |-> "wipeup", rt |-> fs[i].rt]
                     ELSE IF fs[i].k = "max_length" THEN [k |-> "max_length", n |-> fs[i].n]
                     ELSE [k |-> fs[i].k]]]
=============================================================================
