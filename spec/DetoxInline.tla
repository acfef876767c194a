---------------------------- MODULE DetoxInline ----------------------------
(***************************************************************************)
(* Inline mode: a stream is cut into pieces, every piece is cleaned by     *)
(* itself.  A piece is a line, or what fits into the buffer of a longer    *)
(* line, completed if that ends inside a UTF-8 character.                  *)
(* Streams with NUL bytes are outside the model.                           *)
(***************************************************************************)
EXTENDS DetoxFilters
CONSTANT BufLimit       \* bytes read at a time: 1007

WidthOf(b) == IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4
              ELSE IF b \in 248..251 THEN 5 ELSE IF b \in 252..253 THEN 6 ELSE 0
LookBack == 6

\* where the last character of s[from..to] begins, looking back over continuation bytes
RECURSIVE BeginOf(_, _, _, _)
BeginOf(s, from, at, to) == IF at > from /\ IsCont(s[at]) /\ to + 1 - at < LookBack THEN BeginOf(s, from, at - 1, to) ELSE at
\* how many continuation bytes follow position p, at most n
RECURSIVE ContFrom(_, _, _)
ContFrom(s, p, n) == IF n <= 0 \/ p > Len(s) \/ ~IsCont(s[p]) THEN 0 ELSE 1 + ContFrom(s, p + 1, n - 1)

\* end of the piece that was read as s[from..to] and has no newline.
\* A byte 0xFF cannot be put back, so it stays.
Completed(s, from, to) ==
  LET b    == BeginOf(s, from, to, to)
      w    == IF IsStart(s[b]) THEN WidthOf(s[b]) ELSE 0
      have == to - b + 1
      more == ContFrom(s, to + 1, w - have)
      next == to + more + 1
  IN IF w <= have THEN to
     ELSE IF more < w - have /\ next <= Len(s) /\ s[next] = 255 THEN next
     ELSE to + more
\* the first newline in s[from..to], 0 if there is none (looked for a stretch at a time)
RECURSIVE NextLF(_, _, _)
NextLF(s, from, to) ==
  IF from > to THEN 0
  ELSE LET upto == Min2(from + 24, to)
           c    == {i \in from..upto : s[i] = LF}
       IN IF c # {} THEN CHOOSE i \in c : \A j \in c : i <= j ELSE NextLF(s, upto + 1, to)
PieceEnd(s, from) ==
  LET full == Min2(from + BufLimit - 1, Len(s))
      nl   == NextLF(s, from, full)
  IN IF nl # 0 THEN nl ELSE Completed(s, from, full)
RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(s, from, acc) == IF from > Len(s) THEN acc
                            ELSE LET e == PieceEnd(s, from) IN PiecesFrom(s, e + 1, Append(acc, SubSeq(s, from, e)))
Pieces(s) == PiecesFrom(s, 1, <<>>)

Body(p) == IF EndsWith(p, <<LF>>) THEN SubSeq(p, 1, Len(p) - 1) ELSE p
End(p) == IF EndsWith(p, <<LF>>) THEN <<LF>> ELSE <<>>
CleanPiece(seq, p) == CleanName(seq, Body(p)) \o End(p)
InlineOut(seq, s) == LET ps == Pieces(s) IN Cat([i \in 1..Len(ps) |-> CleanPiece(seq, ps[i])])
=============================================================================
