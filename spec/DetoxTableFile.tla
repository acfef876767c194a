----------------------------- MODULE DetoxTableFile ---------------------------
(***************************************************************************)
(* Translation table files: from text to table.                            *)
(*                                                                         *)
(* A file is read line by line (a line longer than 1023 bytes counts as    *)
(* several).  The reader is a machine with two states, outside and inside  *)
(* a start/end block; each line is one step.                               *)
(*                                                                         *)
(* Values of 2^31 and above are outside the model.                         *)
(***************************************************************************)
EXTENDS DetoxTables

LineMax == 1023

\* the pieces fgets() delivers
LineStep(st, b) == LET c == Append(st.cur, b) IN
                   IF b = LF \/ Len(c) = LineMax THEN [out |-> Append(st.out, c), cur |-> <<>>]
                   ELSE [st EXCEPT !.cur = c]
Lines(s) == LET st == FoldLeft(LineStep, [out |-> <<>>, cur |-> <<>>], s) IN
            IF st.cur = <<>> THEN st.out ELSE Append(st.out, st.cur)

\* s without leading white space
LTrim(s) == LET p == {i \in 1..Len(s) : ~IsSpace(s[i])} IN
            IF p = {} THEN <<>> ELSE From(s, CHOOSE i \in p : \A j \in p : i <= j)
\* the first word of s (which must not start with white space) and what follows it, white space skipped
WordLen(s) == LET p == {i \in 1..Len(s) : IsSpace(s[i])} IN
              IF p = {} THEN Len(s) ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
Word(s) == SubSeq(s, 1, WordLen(s))
After(s) == LTrim(From(s, WordLen(s) + 1))

PrefixNoCase(w, kw) == Len(w) >= Len(kw) /\ EqNoCase(SubSeq(w, 1, Len(kw)), kw)

\* the value that starts s: up to the closing quote, or a bare word
UpTo(s, q) == LET p == FirstPos(s, q) IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
Value(s) == IF s[1] = DQUOTE THEN UpTo(Tail(s), DQUOTE)
            ELSE IF s[1] = SQUOTE THEN UpTo(Tail(s), SQUOTE)
            ELSE Word(s)

------------------------------------------------------------------------------
(* Numbers: optional sign, then 0x hex, 0 octal or decimal digits          *)
DigitSet(base) == IF base = 8 THEN 48..55 ELSE IF base = 10 THEN 48..57 ELSE (48..57) \cup (65..70) \cup (97..102)
DigitsLen(s, base) == LET p == {i \in 1..Len(s) : s[i] \notin DigitSet(base)} IN
                      IF p = {} THEN Len(s) ELSE (CHOOSE i \in p : \A j \in p : i <= j) - 1
NumVal(s, base) == FoldLeft(LAMBDA a, b : base * a + HexVal(b), 0, s)
Number(s) ==   \* s without leading space: [ok, v, rest]
  LET neg  == s # <<>> /\ s[1] = DASH
      sg   == IF s # <<>> /\ s[1] \in {DASH, PLUS} THEN 1 ELSE 0
      d    == From(s, sg + 1)
      hex  == Len(d) >= 2 /\ d[1] = 48 /\ d[2] \in {88, 120}
      body == IF hex THEN From(d, 3) ELSE d
      base == IF hex THEN 16 ELSE IF d # <<>> /\ d[1] = 48 THEN 8 ELSE 10
      n    == DigitsLen(body, base)
      v    == NumVal(SubSeq(body, 1, n), base)
  IN [ok |-> n > 0, v |-> IF neg THEN 0 - v ELSE v, rest |-> LTrim(From(body, n + 1))]

------------------------------------------------------------------------------
(* The machine.  bad: a row for value 0 was found, the file is refused.    *)
TabInit(ctype) == [t |-> EmptyTable, in |-> FALSE, bad |-> FALSE, ctype |-> ctype]

LangMatches(lang, ctype) == PrefixNoCase(ctype, lang)

OutsideLine(st, l) ==
  LET s == LTrim(l) IN
  IF s = <<>> THEN st
  ELSE LET w == Word(s)  r == After(s) IN
    IF PrefixNoCase(w, B("start"))
    THEN IF r = <<>> THEN [st EXCEPT !.in = TRUE]
         ELSE LET v == Value(r)
                  lang == IF v = <<>> THEN w ELSE v
              IN IF LangMatches(lang, st.ctype) THEN [st EXCEPT !.in = TRUE] ELSE st
    ELSE IF PrefixNoCase(w, B("default"))
    THEN [st EXCEPT !.t = SetDefault(@, IF r = <<>> THEN <<>> ELSE Value(r))]
    ELSE st

InsideLine(st, l) ==
  LET s == LTrim(l)  num == Number(s) IN
  IF num.ok /\ num.v >= 0
  THEN IF num.rest = <<>> THEN st
       ELSE IF num.v = 0 THEN [st EXCEPT !.bad = TRUE]
       ELSE [st EXCEPT !.t = Put(@, num.v, Value(num.rest))]
  ELSE IF s # <<>> /\ EqNoCase(Word(s), B("end")) THEN [st EXCEPT !.in = FALSE] ELSE st

TLine(st, raw) ==
  LET l == CStr(raw) IN
  IF st.bad \/ (l # <<>> /\ l[1] = HASH) THEN st
  ELSE IF st.in THEN InsideLine(st, l) ELSE OutsideLine(st, l)

ParseTable(text, ctype) ==
  LET st == FoldLeft(TLine, TabInit(ctype), Lines(text)) IN [ok |-> ~st.bad, t |-> st.t]

------------------------------------------------------------------------------
(* The locale name the environment asks for *)
FirstSet(ss) == IF \E i \in 1..Len(ss) : ss[i] # <<>>
                THEN ss[CHOOSE i \in 1..Len(ss) : ss[i] # <<>> /\ \A j \in 1..(i-1) : ss[j] = <<>>]
                ELSE B("C")
Ctype(lcall, lcctype, lang, available) ==
  LET n == FirstSet(<<lcall, lcctype, lang>>) IN
  IF n \in {B("C"), B("POSIX")} THEN B("C")
  ELSE IF n \in available THEN n ELSE <<>>   \* setlocale() fails
=============================================================================
