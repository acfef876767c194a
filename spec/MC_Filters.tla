----------------------------- MODULE MC_Filters -----------------------------
(* Every string over Alphabet up to MaxLen, fed to the filters of the       *)
(* specification, which are checked against the promises of DetoxProps.     *)
EXTENDS DetoxProps
CONSTANTS Alphabet, MaxLen, Limits
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s

AllBytes == 1..255
SepAlpha == CodesOf("a.-_#")
CgiAlpha == CodesOf("%41+g0F")
DotAlpha == CodesOf("ab.")
CapAlpha == CodesOf("@AZ[`az{") \cup {192, 193, 225}
UtfAlpha == {65, 127, 128, 160, 192, 195, 226, 233, 240, 244, 252, 255}
ShellAlpha == CodesOf(" &a-_.#(") \cup {10, 195, 160, 128}
ComposeAlpha == CodesOf(" %2B+_-a") \cup {128, 195, 228}
NoLimits == {}
SmallLimits == 1..7

TestTable == [rows |-> (65 :> B("xy")) @@ (8352 :> <<>>) @@ (224 :> B("-")) @@ (1114111 :> B("M")) @@ (1114112 :> B("N")), hasdef |-> FALSE, def |-> <<>>]
TestTableD == [TestTable EXCEPT !.hasdef = TRUE, !.def = B("??")]

WipeupOk == /\ \A rt \in BOOLEAN : LET o == Wipeup(rt, s) IN
               /\ WipeupMeans(rt, s, o) /\ NoLead(o) /\ NoRuns(rt, o)
               /\ Wipeup(rt, o) = o /\ Len(o) <= Len(s)
CgiOk == CgiMeans(s, Uncgi(s)) /\ Len(Uncgi(s)) <= Len(s)
MaxOk == \A n \in Limits : LET o == MaxLength(n, s) IN
            /\ MaxMeans(n, s, o) /\ MaxLength(n, o) = o
            /\ (Len(o) <= Limit(n) \/ MaxLengthGivesUp(n, s))
LowerOk == LowerMeans(s, Lower(s)) /\ Lower(Lower(s)) = Lower(s)
UtfOk == \A t \in {UnicodeTable, TestTable, TestTableD} : UtfMeans(t, s, Utf8(t, s))
UtfKeeps == WellFormed(s) /\ (\A b \in Bytes(s) : b >= 128) => Utf8(EmptyTable, s) = s \/ \E i \in 1..Len(CharsFrom(s, 1)) :
               CharsFrom(s, 1)[i].v = 0 \/ CharsFrom(s, 1)[i].v > MaxCodePoint
LatinOk == LatinMeans(s, Iso(IsoTable, s))
ShellOk == /\ \A q \in {SeqDefault, SeqLower, SeqUtf8, SeqUncgi, SeqIso} : ShellSafe(RunSeq(q, s))
           /\ \A q \in {SeqDefault, SeqUtf8, SeqUncgi, SeqIso} :
                 ShellSafe(s) /\ (\A b \in Bytes(s) : b < 128 /\ b \notin {PERCENT, PLUS}) => RunSeq(q, s) = s
           /\ HighKept(s, RunSeq(SeqDefault, s))
TwiceOk == \A q \in {SeqDefault, SeqLower, SeqUtf8} : LET o == RunSeq(q, s) IN RunSeq(q, o) = o
\* the order of the filters of a sequence matters, one filter at a time
ComposeOk == \A q \in {SeqLegacy, SeqUncgi, SeqLower} : \A i \in 0..Len(q) :
                RunSeq(SubSeq(q, i + 1, Len(q)), RunSeq(SubSeq(q, 1, i), s)) = RunSeq(q, s)
=============================================================================
