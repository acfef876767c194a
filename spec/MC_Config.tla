------------------------------ MODULE MC_Config ------------------------------
(***************************************************************************)
(* Laws of configurations, for all small ones.  pair is two configuration  *)
(* files; style says how they are spelled (keyword case, quotes, white     *)
(* space and comments).                                                    *)
(***************************************************************************)
EXTENDS DetoxConfig
CONSTANTS Names, MaxFilters, MaxSeqs, Styles, Igns
VARIABLES pair, style
vars == <<pair, style>>

FilterPool == { Filter("lower"), [Filter("wipeup") EXCEPT !.rt = TRUE], [Filter("max_length") EXCEPT !.n = 12],
                FB("safe", "safe"), [Filter("utf_8") EXCEPT !.tab = "f", !.arg = B("x.tbl")], Filter("iso8859_1") }
SmallFilters == UNION {[1..n -> FilterPool] : n \in 1..MaxFilters}
SeqPool == {[name |-> B(n), src |-> <<>>, filters |-> f] : n \in Names, f \in SmallFilters}
Distinct(ss) == \A i, j \in 1..Len(ss) : i # j => ss[i].name # ss[j].name
Configs == {c \in [seqs : {s \in UNION {[1..n -> SeqPool] : n \in 0..MaxSeqs} : Distinct(s)}, ign : UNION {[1..n -> {B("CVS")}] : n \in 0..Igns}] : TRUE}

Init == pair \in Configs \X Configs /\ style \in Styles
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the second file plays no part
SpecOne == pair \in Configs \X {[seqs |-> <<>>, ign |-> <<>>]} /\ style \in Styles /\ [][Next]_vars
\* fewer filters, more sequences
FewConfigs == {c \in Configs : \A i \in 1..Len(c.seqs) : c.seqs[i].filters[1].k \in {"lower", "wipeup"}}
SpecFew == pair \in FewConfigs \X FewConfigs /\ style \in Styles /\ [][Next]_vars

------------------------------------------------------------------------------
(* Writing a configuration down *)
UpAll(s) == [i \in 1..Len(s) |-> IF IsLower(s[i]) THEN s[i] - 32 ELSE s[i]]
Kw(k) == IF style = "loud" THEN UpAll(B(k)) ELSE B(k)
Gap == CASE style = "tight" -> <<SP>> [] style = "noisy" -> B("  # a comment; with { stuff \" ") \o <<LF, TAB>> [] OTHER -> <<LF>>
Str(s) == IF style \in {"tight", "loud"} /\ \A i \in 1..Len(s) : IsAlpha(s[i]) THEN s ELSE <<DQUOTE>> \o s \o <<DQUOTE>>
Q(s) == <<DQUOTE>> \o s \o <<DQUOTE>>
Opt(f) == CASE f.tab = "b" -> Kw("builtin") \o <<SP>> \o Q(f.arg) \o B(";")
            [] f.tab = "f" -> Kw("filename") \o <<SP>> \o Q(f.arg) \o B(";")
            [] f.rt -> Kw("remove_trailing") \o B(";")
            [] f.n > 0 -> Kw("length") \o <<SP>> \o Dec(f.n) \o B(";")
            [] OTHER -> <<>>
WFilter(f) == Kw(f.k) \o (IF Opt(f) = <<>> THEN <<>> ELSE Gap \o B("{") \o Opt(f) \o Gap \o B("}")) \o B(";") \o Gap
WSeq(s) == Kw("sequence") \o Gap \o Str(s.name) \o B("{") \o Cat([i \in 1..Len(s.filters) |-> WFilter(s.filters[i])]) \o B("}") \o Gap \o B(";") \o Gap
WIgn(g) == IF g = <<>> THEN <<>> ELSE Kw("ignore") \o B("{") \o Cat([i \in 1..Len(g) |-> Kw("filename") \o Gap \o Str(g[i]) \o B(";")]) \o B("};") \o Gap
Written(c) == Gap \o Cat([i \in 1..Len(c.seqs) |-> WSeq(c.seqs[i])]) \o WIgn(c.ign)

------------------------------------------------------------------------------
(* Laws *)
Bare(ss) == [i \in 1..Len(ss) |-> [name |-> ss[i].name, filters |-> ss[i].filters]]
RoundTrip == LET r == ParseConfig(Written(pair[1])) IN r.ok /\ Bare(r.seqs) = Bare(pair[1].seqs) /\ r.ign = pair[1].ign
\* leaving out any one token gives something that is refused
Drop(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
NoTokenIsIdle == LET ts == Tokens(Written(pair[1])) IN
                 \A i \in 1..Len(ts) : LET st == FoldLeft(PStep, PInit, Drop(ts, i)) IN ~(st.ok /\ st.at = "top")

F1 == [p |-> B("one"), t |-> Written(pair[1])]
F2 == [p |-> B("two"), t |-> Written(pair[2])]
Both == LoadAll({F1, F2}, <<B("one"), B("two")>>)
Defines(c, n) == \E i \in 1..Len(c.seqs) : c.seqs[i].name = n
FiltersOf(c, n) == (CHOOSE s \in {c.seqs[i] : i \in 1..Len(c.seqs)} : s.name = n).filters
AllNames == {B(n) : n \in Names}
Layers ==
  /\ Both.ok /\ Both.ign = pair[1].ign \o pair[2].ign /\ Distinct(Both.seqs)
  /\ \A n \in AllNames : Defines(Both, n) <=> (Defines(pair[1], n) \/ Defines(pair[2], n))
  /\ \A i \in 1..Len(Both.seqs) : LET s == Both.seqs[i] IN
       IF Defines(pair[2], s.name) THEN s.filters = FiltersOf(pair[2], s.name) /\ s.src = B("two")
       ELSE s.filters = FiltersOf(pair[1], s.name) /\ s.src = B("one")
  \* first the sequences of the first file, in its order
  /\ \A i \in 1..Len(pair[1].seqs) : Both.seqs[i].name = pair[1].seqs[i].name
Chosen ==
  LET seqs == Both.seqs IN
  /\ \A n \in AllNames : Choose(seqs, <<n>>) # 0 <=> Defines(Both, n)
  /\ \A n \in AllNames : Choose(seqs, <<n>>) # 0 => seqs[Choose(seqs, <<n>>)].name = n
  /\ Choose(seqs, <<>>) = 0 <=> seqs = <<>>
  /\ Choose(seqs, <<>>) # 0 => \/ seqs[Choose(seqs, <<>>)].name = B("default")
                               \/ ~Defines(Both, B("default")) /\ Choose(seqs, <<>>) = 1
\* the list marks exactly one sequence, the chosen one
Marks(s) == Cardinality({i \in 1..(Len(s) - 3) : SubSeq(s, i, i + 3) = B(" (*)")})
Marked == \A v \in BOOLEAN : Marks(Dump(Both, Choose(Both.seqs, <<>>), v)) = (IF Both.seqs = <<>> THEN 0 ELSE 1)
\* whether -f is used or the files are found: same result for a single file
Exclusive == LET files == {F1, [p |-> B("/etc/detoxrc"), t |-> F2.t]} IN
             /\ Bare(LoadConfig(files, B("/x"), <<B("one")>>, <<>>, <<>>).seqs) = Bare(pair[1].seqs)
             /\ Bare(LoadConfig(files, B("/x"), <<>>, <<>>, <<>>).seqs) = Bare(pair[2].seqs)
             /\ ~LoadConfig(files, B("/x"), <<B("none")>>, <<>>, <<>>).ok
             /\ LoadConfig({}, B("/x"), <<>>, <<B("h")>>, <<B("c")>>) = BuiltinConfig
=============================================================================
