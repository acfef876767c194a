----------------------------- MODULE MC_Escape ------------------------------
(* All strings over Alphabet up to MaxLen through escape-utf-8 and back.    *)
EXTENDS DetoxEscape
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Alpha == {1, 7, 10, 34, 39, 48, 49, 63, 65, 92, 97, 110, 117, 120, 127, 128, 195, 226, 240, 255}
Alpha2 == {7, 31, 49, 92, 194, 164, 224, 237, 160, 143, 244, 248}

Pure == LET o == EscapeText(s) IN \A i \in 1..Len(o) : o[i] = LF \/ o[i] \in 32..126
Quoted == \* no quote ends the literal, no backslash is left to combine with what follows
  LET o == EscapeText(s) IN
  /\ CDecode(o) # <<>> \/ s = <<>>
  /\ \A i \in 1..Len(o) : o[i] \in {34, 39, 63} => i > 1 /\ o[i - 1] = BACKSLASH
Back == Canonical(s) => CDecode(EscapeText(s)) = s
Marked == ~WellFormed(s) => \E i \in 1..Len(EscapeText(s)) : EscapeText(s)[i] = UNDERSCORE
\* cut into pieces by the reader, the result is the same
Cut == LET p == Pieces(s) IN Cat([i \in 1..Len(p) |-> EscapeText(p[i])]) = EscapeText(s)
=============================================================================
