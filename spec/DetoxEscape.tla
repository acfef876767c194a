---------------------------- MODULE DetoxEscape -----------------------------
(***************************************************************************)
(* escape-utf-8: a filter that writes text as the inside of a C string     *)
(* literal, line by line; and how C reads such a literal.                  *)
(***************************************************************************)
EXTENDS DetoxInline, DetoxProps

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE InBase(_, _, _)
InBase(v, base, digits) == IF digits = 0 THEN <<>> ELSE InBase(v \div base, base, digits - 1) \o <<HexDigit(v % base)>>
Named == (7 :> "a") @@ (8 :> "b") @@ (9 :> "t") @@ (11 :> "v") @@ (12 :> "f") @@ (13 :> "r")
Esc(s) == <<BACKSLASH>> \o s
\* the escape of code point v (not 0)
EscapeOf(v) ==
  IF v = LF THEN <<LF>>
  ELSE IF v \in DOMAIN Named THEN Esc(B(Named[v]))
  ELSE IF v < 32 \/ v = 127 THEN Esc(InBase(v, 8, 3))
  ELSE IF v \in {34, 39, 63, 92} THEN Esc(<<v>>)
  ELSE IF v < 127 THEN <<v>>
  ELSE IF v < 65536 THEN Esc(B("u") \o InBase(v, 16, 4))
  ELSE Esc(B("U") \o InBase(v, 16, 8))
\* characters are taken apart by the UTF-8 machine, one at a time
EscStep(st, b) ==
  LET val(v) == IF v = 0 THEN HiddenNull ELSE IF v > MaxCodePoint THEN Invalid ELSE EscapeOf(v)
      begin(out) == LET w == Width(b) IN
                    IF w = 0 THEN [UtfInit EXCEPT !.out = out \o Invalid]
                    ELSE IF w = 1 THEN [UtfInit EXCEPT !.out = out \o val(b)]
                    ELSE [out |-> out, need |-> w - 1, val |-> LeadBits(b), raw |-> <<b>>]
  IN IF st.need = 0 THEN begin(st.out)
     ELSE IF ~IsCont(b) THEN begin(st.out \o Invalid)
     ELSE LET v == 64 * st.val + (b - 128) IN
          IF st.need = 1 THEN [UtfInit EXCEPT !.out = st.out \o val(v)]
          ELSE [st EXCEPT !.need = @ - 1, !.val = v]
EscapeText(s) == LET st == FoldLeft(EscStep, UtfInit, s) IN IF st.need > 0 THEN st.out \o Invalid ELSE st.out

------------------------------------------------------------------------------
(* Reading a C string literal: value of the first escape or character and  *)
(* how many bytes it takes; octal escapes have up to three digits, \x has  *)
(* as many as there are.                                                   *)
RECURSIVE Digits(_, _, _, _)
Digits(s, i, base, most) == IF most = 0 \/ i > Len(s) \/ ~IsHex(s[i]) \/ HexVal(s[i]) >= base THEN 0 ELSE 1 + Digits(s, i + 1, base, most - 1)
Val(s, i, n, base) == FoldLeft(LAMBDA a, b : base * a + HexVal(b), 0, SubSeq(s, i, i + n - 1))
CRead(s, i) ==
  IF s[i] # BACKSLASH THEN [u |-> <<s[i]>>, n |-> 1]
  ELSE LET c == s[i + 1]
           named == {v \in DOMAIN Named : B(Named[v]) = <<c>>}
           num(at, base, most, enc) == LET k == Digits(s, at, base, most)  v == Val(s, at, k, base)
                                       IN [u |-> IF enc THEN Enc(v) ELSE <<v>>, n |-> at - i + k]
       IN IF named # {} THEN [u |-> <<CHOOSE v \in named : TRUE>>, n |-> 2]
          ELSE IF c \in 48..55 THEN num(i + 1, 8, 3, FALSE)
          ELSE IF <<c>> = B("x") THEN num(i + 2, 16, 8, FALSE)
          ELSE IF <<c>> = B("u") THEN num(i + 2, 16, 4, TRUE)
          ELSE IF <<c>> = B("U") THEN num(i + 2, 16, 8, TRUE)
          ELSE [u |-> <<c>>, n |-> 2]
RECURSIVE CReadFrom(_, _, _)
CReadFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE LET r == CRead(s, i) IN CReadFrom(s, i + r.n, acc \o r.u)
CDecode(s) == CReadFrom(s, 1, <<>>)

\* valid UTF-8 in the shortest form
Canonical(s) == WellFormed(s) /\ LET c == CharsFrom(s, 1) IN \A i \in 1..Len(c) : c[i].v # 0 /\ c[i].v <= MaxCodePoint /\ Enc(c[i].v) = c[i].raw
=============================================================================
