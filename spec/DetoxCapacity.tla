--------------------------- MODULE DetoxCapacity ----------------------------
(***************************************************************************)
(* Memory.  A filter reads a NUL-terminated name and writes into space     *)
(* that is reserved before it starts.  Here a filter run is a machine that *)
(* consumes the name one unit at a time; rd is the farthest position it    *)
(* has looked at (Len(s) + 1 is the terminating NUL), wr how many bytes it *)
(* has written.  Reserve is how much the program sets aside.               *)
(***************************************************************************)
EXTENDS DetoxFilters

\* the longest thing a table can put in the place of a character, at least one byte
Longest(t) == LET l == {Len(t.rows[k]) : k \in DOMAIN t.rows} \cup {1} IN CHOOSE m \in l : \A x \in l : x <= m
Expansion(t) == IF t.hasdef THEN Max2(Longest(t), Len(t.def)) ELSE Longest(t)
Reserve(f, n) ==
  CASE f.k \in {"safe", "iso8859_1"} -> n * Expansion(f.t) + 1
    [] f.k = "utf_8" -> n * Max2(Expansion(f.t), Len(HiddenNull)) + 1
    [] f.k = "max_length" -> Max2(Limit(f.n), n) + 1
    [] OTHER -> n + 1

\* one step at position p of s: [at |-> next position, rd |-> looked at, out |-> bytes written]
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
OneByte(s, p, o) == [at |-> p + 1, rd |-> p, out |-> Len(o)]
CgiUnit(s, p) ==
  IF s[p] # PERCENT THEN OneByte(s, p, <<0>>)
  ELSE IF ~IsHex(At(s, p + 1)) THEN [at |-> p + 1, rd |-> p + 1, out |-> 1]
  ELSE IF ~IsHex(At(s, p + 2)) THEN [at |-> p + 1, rd |-> p + 2, out |-> 1]
  ELSE [at |-> p + 3, rd |-> p + 2, out |-> 1]
UtfUnit(t, s, p) ==
  LET w == Width(s[p])
      c == {k \in 1..(w - 1) : \A j \in 1..k : IsCont(At(s, p + j))}
      have == Cardinality(c) + 1
  IN IF w = 0 THEN [at |-> p + 1, rd |-> p, out |-> 1]
     ELSE IF have < w THEN [at |-> p + have, rd |-> p + have, out |-> 1]
     ELSE [at |-> p + w, rd |-> p + w - 1, out |-> Len(Utf8(t, SubSeq(s, p, p + w - 1)))]
Unit(f, s, p) ==
  CASE f.k = "safe" -> OneByte(s, p, SafeByte(f.t, s[p]))
    [] f.k = "iso8859_1" -> OneByte(s, p, IsoByte(f.t, s[p]))
    [] f.k = "lower" -> OneByte(s, p, <<0>>)
    [] f.k = "uncgi" -> CgiUnit(s, p)
    [] f.k = "utf_8" -> UtfUnit(f.t, s, p)
    [] f.k = "wipeup" -> [at |-> p + 1, rd |-> p, out |-> 0]      \* written when the run is over, see Wrote
    [] OTHER -> OneByte(s, p, <<0>>)

\* the most a filter can write for n bytes of input
Need(f, n) ==
  CASE f.k \in {"safe", "iso8859_1"} -> n * Expansion(f.t)
    [] f.k = "utf_8" -> n * Max2(Expansion(f.t), Len(HiddenNull))
    [] OTHER -> n
RECURSIVE NeedSeq(_, _)
NeedSeq(fs, n) == IF fs = <<>> THEN n ELSE NeedSeq(Tail(fs), Need(Head(fs), n))
=============================================================================
