----------------------------- MODULE DetoxProps -----------------------------
(***************************************************************************)
(* What is promised about the filters, said without reference to how they  *)
(* work: predicates on what goes in and what comes out.  They are checked  *)
(* of the specification's functions (MC_Filters) and of what the real      *)
(* program produced (TraceFilter).                                         *)
(***************************************************************************)
EXTENDS DetoxFilters

Bytes(s) == {s[i] : i \in 1..Len(s)}
Sub(s, P(_)) == SelectSeq(s, P)
IsHigh(b) == b >= 128

\* C11
Awkward == (1..32) \cup {127} \cup CodesOf("!\"$&'()*/:;<>?@[\\]`{|}")
NoAwkward(s) == \A b \in Bytes(s) : b \notin Awkward
NoRuns(rt, s) == \A i \in 1..(Len(s) - 1) : ~(s[i] \in SepSet(rt) /\ s[i + 1] \in SepSet(rt))
NoLead(s) == s = <<>> \/ s[1] \notin LeadJunk
ShellSafe(s) == NoAwkward(s) /\ NoLead(s) /\ NoRuns(TRUE, s)
HighKept(s, o) == Sub(s, IsHigh) = Sub(o, IsHigh)

\* C12: s cut into maximal runs of separators and single other bytes
RECURSIVE Blocks(_, _, _)
Blocks(rt, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \notin SepSet(rt) THEN << <<s[i]>> >> \o Blocks(rt, s, i + 1)
  ELSE LET e == CHOOSE e \in i..Len(s) : /\ \A j \in i..e : s[j] \in SepSet(rt)
                                         /\ (e = Len(s) \/ s[e + 1] \notin SepSet(rt))
       IN << SubSeq(s, i, e) >> \o Blocks(rt, s, e + 1)
RunByte(r) == IF DOT \in Bytes(r) /\ Bytes(r) \subseteq SepSet(TRUE) THEN DOT
              ELSE IF DASH \in Bytes(r) /\ Bytes(r) \subseteq SepSet(TRUE) THEN DASH
              ELSE r[1]
LeadLen(s) == CHOOSE n \in 0..Len(s) : /\ \A i \in 1..n : s[i] \in LeadJunk
                                       /\ (n = Len(s) \/ s[n + 1] \notin LeadJunk)
WipeupMeans(rt, s, o) ==
  LET b == Blocks(rt, From(s, LeadLen(s) + 1), 1) IN
  o = [i \in 1..Len(b) |-> IF Len(b[i]) = 1 THEN b[i][1] ELSE RunByte(b[i])]

\* C13: the positions where escapes start, by the left-to-right rule
RECURSIVE CgiFrom(_, _)
CgiFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = PERCENT /\ i + 2 <= Len(s) /\ IsHex(s[i + 1]) /\ IsHex(s[i + 2])
       THEN << 16 * HexVal(s[i + 1]) + HexVal(s[i + 2]) >> \o CgiFrom(s, i + 3)
  ELSE << IF s[i] = PLUS THEN SP ELSE s[i] >> \o CgiFrom(s, i + 1)
CgiMeans(s, o) == o = CStr(CgiFrom(s, 1))

\* C14
MaxMeans(n, s, o) ==
  LET m == Limit(n) IN
  IF Len(s) <= m THEN o = s
  ELSE \/ /\ Len(o) = m
          /\ \E p \in 0..m : o = SubSeq(s, 1, p) \o From(s, Len(s) - (m - p) + 1)
          /\ LET e == ExtStart(s) IN e # 0 => EndsWith(o, From(s, e))
       \/ o = s /\ MaxLengthGivesUp(n, s)

\* C15
LowerMeans(s, o) == Len(o) = Len(s) /\ \A i \in 1..Len(s) :
   o[i] = IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]

\* C16: a decomposition of s into characters, by longest well-formed prefix
RECURSIVE CharsFrom(_, _)
CharsFrom(s, i) ==   \* sequence of [v, raw, bad]
  IF i > Len(s) THEN <<>>
  ELSE LET w == Width(s[i])
           good == w # 0 /\ i + w - 1 <= Len(s) /\ \A j \in (i + 1)..(i + w - 1) : IsCont(s[j])
           have == IF w = 0 THEN 1
                   ELSE IF good THEN w
                   ELSE CHOOSE n \in 1..w : /\ \A j \in (i + 1)..(i + n - 1) : j <= Len(s) /\ IsCont(s[j])
                                            /\ (i + n > Len(s) \/ ~IsCont(s[i + n]))
           val == IF ~good THEN 0
                  ELSE FoldLeft(LAMBDA a, b : 64 * a + (b - 128), LeadBits(s[i]), SubSeq(s, i + 1, i + w - 1))
       IN << [v |-> val, raw |-> SubSeq(s, i, i + have - 1), bad |-> ~good] >> \o CharsFrom(s, i + have)
UtfMeans(t, s, o) ==
  LET c == CharsFrom(s, 1) IN
  o = Cat([i \in 1..Len(c) |->
        IF c[i].bad THEN B("_")
        ELSE IF c[i].v = 0 THEN B("_hidden_null_")
        ELSE IF Has(t, c[i].v) THEN Row(t, c[i].v)
        ELSE IF c[i].v > MaxCodePoint THEN B("_")
        ELSE IF t.hasdef THEN t.def ELSE c[i].raw])
WellFormed(s) == \A i \in 1..Len(CharsFrom(s, 1)) : ~CharsFrom(s, 1)[i].bad

\* C17: what a Latin-1 / CP-1252 byte denotes
LatinMeans(s, o) == o = Cat([i \in 1..Len(s) |->
   IF s[i] < 128 THEN <<s[i]>> ELSE IF s[i] < 160 THEN B("_")
   ELSE IF s[i] = 160 THEN <<SP>> ELSE IF s[i] = 173 THEN B("-") ELSE Enc(s[i])])

\* the legacy sequence: each byte read as CP-1252, else as Latin-1, once, then made safe
LegacyByte(b) == IF b < 128 THEN <<b>> ELSE IF Has(CpTable, b) THEN Row(CpTable, b) ELSE IsoByte(IsoTable, b)
LegacyMeans(s, o) == o = RunSeq(SeqDefault, Cat([i \in 1..Len(s) |-> LegacyByte(s[i])]))
=============================================================================
