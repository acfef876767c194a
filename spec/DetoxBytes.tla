---------------------------- MODULE DetoxBytes ----------------------------
(***************************************************************************)
(* Bytes and byte strings.  A byte string is a sequence of numbers 0..255; *)
(* file names, table texts, configuration texts and streams are all byte  *)
(* strings, because detox treats them as such.                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Byte == 0..255

\* Printable ASCII, in code order from 32 to 126.
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CharCode == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
               CHOOSE n \in 32..126 : SubSeq(Printable, n - 31, n - 31) = c]

\* The byte string spelled by a TLA+ string of printable ASCII.
B(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]

NUL == 0      TAB == 9      LF == 10     VT == 11    FF == 12    CR == 13
SP == 32      HASH == 35    PERCENT == 37 PLUS == 43 DASH == 45  DOT == 46
SLASH == 47   UNDERSCORE == 95  DQUOTE == 34  SQUOTE == 39
BACKSLASH == 92  SEMI == 59  LBRACE == 123  RBRACE == 125

IsDigit(b) == b \in 48..57
IsUpper(b) == b \in 65..90
IsLower(b) == b \in 97..122
IsAlpha(b) == IsUpper(b) \/ IsLower(b)
IsAlnum(b) == IsAlpha(b) \/ IsDigit(b)
IsHex(b)   == IsDigit(b) \/ b \in 65..70 \/ b \in 97..102
HexVal(b)  == IF IsDigit(b) THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE b - 87
\* isspace() in the C locale and in every locale used here
IsSpace(b) == b = SP \/ b \in 9..13

ToLower(b) == IF IsUpper(b) THEN b + 32 ELSE b
LowerAll(s) == [i \in 1..Len(s) |-> ToLower(s[i])]
EqNoCase(s, t) == LowerAll(s) = LowerAll(t)

\* 0-terminated view: what C sees of a byte string that contains a NUL
CStr(s) == IF \E i \in 1..Len(s) : s[i] = 0
           THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0) - 1)
           ELSE s

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))

\* concatenation of a sequence of byte strings
Cat(ss) == FlattenSeq(ss)

\* position of the first / last x in s, 0 if there is none
FirstPos(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                  THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
LastPos(s, x)  == IF \E i \in 1..Len(s) : s[i] = x
                  THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in (i+1)..Len(s) : s[j] # x ELSE 0

\* decimal digits of n
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

\* UTF-8 encoding of a code point up to 16 bits (all that the shipped data needs)
Enc16(u) == IF u < 128 THEN <<u>>
            ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
            ELSE <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
Enc(u) == IF u < 65536 THEN Enc16(u)
          ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>

AllStrings(alphabet, maxlen) == UNION {[1..n -> alphabet] : n \in 0..maxlen}
=============================================================================
