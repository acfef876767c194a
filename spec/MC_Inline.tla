----------------------------- MODULE MC_Inline ------------------------------
(***************************************************************************)
(* The reader of inline mode as a machine: a stream is written by the      *)
(* environment (phase "grow"), then read piece by piece.  All streams over *)
(* Alphabet up to MaxLen, with a small buffer.                             *)
(***************************************************************************)
EXTENDS DetoxInline
CONSTANTS Alphabet, MaxLen
VARIABLES s, phase, pos, out
vars == <<s, phase, pos, out>>

Utfs == {65, LF, 46, 128, 195, 226, 240, 255}
Wides == {65, 128, 224, 240, 248, 252}
Lines3 == {65, 46, LF, 32, 95, 37}

Seq0 == <<fSafe, fUtf>>
Init == s = <<>> /\ phase = "grow" /\ pos = 1 /\ out = <<>>
Grow == phase = "grow" /\ Len(s) < MaxLen /\ (\E b \in Alphabet : s' = Append(s, b)) /\ UNCHANGED <<phase, pos, out>>
Begin == phase = "grow" /\ phase' = "read" /\ UNCHANGED <<s, pos, out>>
Read == /\ phase = "read" /\ pos <= Len(s)
        /\ LET e == PieceEnd(s, pos) IN pos' = e + 1 /\ out' = out \o CleanPiece(Seq0, SubSeq(s, pos, e))
        /\ UNCHANGED <<s, phase>>
Next == Grow \/ Begin \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

\* the lines of a stream, each with its newline
RECURSIVE LinesFrom(_, _, _)
LinesFrom(t, from, acc) ==
  IF from > Len(t) THEN acc
  ELSE LET c == {i \in from..Len(t) : t[i] = LF}
           e == IF c = {} THEN Len(t) ELSE CHOOSE i \in c : \A j \in c : i <= j
       IN LinesFrom(t, e + 1, Append(acc, SubSeq(t, from, e)))
LinesOf(t) == LinesFrom(t, 1, <<>>)
Whole(q, t) == LET l == LinesOf(t) IN Cat([i \in 1..Len(l) |-> CleanPiece(q, l[i])])
Count(t) == Cardinality({i \in 1..Len(t) : t[i] = LF})

\* a well-formed character occupies t[p..p + w - 1]
Chars(t) == {p \in 1..Len(t) : t[p] >= 192 /\ WidthOf(t[p]) # 0 /\ p + WidthOf(t[p]) - 1 <= Len(t)
                               /\ \A k \in 1..(WidthOf(t[p]) - 1) : IsCont(t[p + k])}
Once == phase = "read" /\ pos = 1
Ends == LET p == Pieces(s) IN {Len(Cat(SubSeq(p, 1, k))) : k \in 1..Len(p)}

\* nothing is lost, duplicated or reordered
Covers == Once => Cat(Pieces(s)) = s
\* a piece is a line, or a full buffer of one
Shape == Once => LET p == Pieces(s) IN \A i \in 1..Len(p) :
           /\ p[i] # <<>> /\ \A j \in 1..(Len(p[i]) - 1) : p[i][j] # LF
           /\ p[i][Len(p[i])] = LF \/ i = Len(p) \/ Len(p[i]) >= BufLimit
           /\ Len(p[i]) <= BufLimit + 6
NoSplit == Once => \A e \in Ends : \A p \in Chars(s) : ~(p <= e /\ e < p + WidthOf(s[p]) - 1)
\* short lines are pieces
LineWise == Once => LET l == LinesOf(s) IN (\A i \in 1..Len(l) : Len(l[i]) <= BufLimit) => Pieces(s) = l
\* with filters that look at one character at a time cutting makes no difference
PerChar == Once => \A q \in {<<fSafe>>, <<fLower>>, <<fIso>>, <<fUtf>>, <<fUtf, fSafe>>} : InlineOut(q, s) = Whole(q, s)
LinesKept == Once => \A q \in {SeqDefault, SeqUtf8, SeqUncgi, SeqIso, SeqLower} :
               Count(InlineOut(q, s)) = Count(s) /\ (EndsWith(s, <<LF>>) => EndsWith(InlineOut(q, s), <<LF>>))
Dots == Once => \A q \in {SeqDefault, <<fSafe, fWipe(FALSE)>>} : LET l == LinesOf(s)  o == LinesOf(InlineOut(q, s)) IN
          (\A i \in 1..Len(l) : Len(l[i]) <= BufLimit) => \A i \in 1..Len(l) : Protected(Body(l[i])) => (i <= Len(o) /\ o[i] = l[i])
\* the machine computes InlineOut
Sofar == phase = "read" => out = InlineOut(Seq0, SubSeq(s, 1, pos - 1)) \/ pos <= Len(s)
Final == phase = "read" /\ pos > Len(s) => out = InlineOut(Seq0, s)
Finishes == phase = "read" ~> pos > Len(s)
=============================================================================
