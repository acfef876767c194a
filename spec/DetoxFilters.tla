---------------------------- MODULE DetoxFilters ----------------------------
(***************************************************************************)
(* The filters, as functions on byte strings, and their composition.      *)
(*                                                                         *)
(* A filter is a record with field k:                                      *)
(*   "safe" "iso8859_1" "utf_8"  with field t (a table)                    *)
(*   "uncgi" "lower"                                                       *)
(*   "wipeup" with field rt (remove_trailing)                              *)
(*   "max_length" with field n                                             *)
(***************************************************************************)
EXTENDS DetoxTables

------------------------------------------------------------------------------
(* safe.  Rows for values of 128 and above never match a byte: the filter  *)
(* is for ASCII.  The default does apply to such bytes.                    *)
SafeByte(t, b) == IF b < 128 /\ Has(t, b) THEN Row(t, b)
                  ELSE IF t.hasdef THEN t.def ELSE <<b>>
Safe(t, s) == Cat([i \in 1..Len(s) |-> SafeByte(t, s[i])])

(* iso8859_1: only bytes with the high bit set *)
IsoByte(t, b) == IF b < 128 THEN <<b>>
                 ELSE IF Has(t, b) THEN Row(t, b)
                 ELSE IF t.hasdef THEN t.def ELSE <<b>>
Iso(t, s) == Cat([i \in 1..Len(s) |-> IsoByte(t, s[i])])

Lower(s) == LowerAll(s)

------------------------------------------------------------------------------
(* uncgi, as a transducer whose state is the escape read so far:           *)
(* <<>>, <<%>> or <<%, h>>.                                                *)
CgiPlain(b) == IF b = PLUS THEN SP ELSE b
CgiStart(out, b) == IF b = PERCENT THEN [out |-> out, pend |-> <<b>>]
                    ELSE [out |-> Append(out, CgiPlain(b)), pend |-> <<>>]
CgiStep(st, b) ==
  IF st.pend = <<>> THEN CgiStart(st.out, b)
  ELSE IF Len(st.pend) = 1
       THEN IF IsHex(b) THEN [st EXCEPT !.pend = Append(@, b)]
            ELSE CgiStart(st.out \o st.pend, b)
       ELSE IF IsHex(b) THEN [out |-> Append(st.out, 16 * HexVal(st.pend[2]) + HexVal(b)), pend |-> <<>>]
            ELSE CgiStart(st.out \o st.pend, b)
UncgiRaw(s) == LET st == FoldLeft(CgiStep, [out |-> <<>>, pend |-> <<>>], s) IN st.out \o st.pend
\* a decoded NUL ends the name (deviation: everything after it is lost)
Uncgi(s) == CStr(UncgiRaw(s))

------------------------------------------------------------------------------
(* wipeup.  State: the strongest separator of the current run (0: no run) *)
SepSet(rt) == IF rt THEN {DOT, DASH, UNDERSCORE} ELSE {DASH, UNDERSCORE}
Strength(b) == IF b = DOT THEN 3 ELSE IF b = DASH THEN 2 ELSE IF b = UNDERSCORE THEN 1 ELSE 0
Stronger(a, b) == IF Strength(a) >= Strength(b) THEN a ELSE b
LeadJunk == {DASH, UNDERSCORE, HASH}
RECURSIVE DropLead(_)
DropLead(s) == IF s # <<>> /\ s[1] \in LeadJunk THEN DropLead(Tail(s)) ELSE s
Flush(st) == IF st.run = 0 THEN st.out ELSE Append(st.out, st.run)
WipeupFold(rt, s) ==
  LET Step(st, b) == IF b \in SepSet(rt) THEN [st EXCEPT !.run = Stronger(b, @)]
                     ELSE [out |-> Append(Flush(st), b), run |-> 0]
  IN Flush(FoldLeft(Step, [out |-> <<>>, run |-> 0], s))
Wipeup(rt, s) == WipeupFold(rt, DropLead(s))

------------------------------------------------------------------------------
(* max_length *)
Limit(n) == IF n = 0 THEN 256 ELSE n
ExtStart(s) ==   \* where the extension to be preserved starts; 0: none
  LET p == LastPos(s, DOT) IN
  IF p = 0 \/ p = Len(s) THEN 0
  ELSE LET q == {i \in 2..(p-1) : p - i <= 5 /\ s[i] = DOT}
       IN IF q = {} THEN p ELSE CHOOSE i \in q : \A j \in q : j <= i
MaxLengthGivesUp(n, s) ==
  LET m == Limit(n)  e == ExtStart(s) IN
  Len(s) > m /\ e # 0 /\ Len(s) - e + 1 >= m
MaxLength(n, s) ==
  LET m == Limit(n)  e == ExtStart(s) IN
  IF Len(s) <= m THEN s
  ELSE IF e = 0 THEN SubSeq(s, 1, m)
  ELSE IF MaxLengthGivesUp(n, s) THEN s
  ELSE SubSeq(s, 1, m - (Len(s) - e + 1)) \o From(s, e)

------------------------------------------------------------------------------
(* utf_8.  State: need = continuation bytes still to come, val = bits so  *)
(* far, raw = bytes of the character so far.                               *)
MaxCodePoint == 1114111
IsCont(b)  == b \in 128..191
IsStart(b) == b \in 192..255
Width(b) == IF b < 128 THEN 1
            ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3
            ELSE IF b \in 240..247 THEN 4 ELSE IF b \in 248..251 THEN 5
            ELSE IF b \in 252..253 THEN 6 ELSE 0          \* 0: cannot start a character
LeadBits(b) == IF b < 128 THEN b ELSE IF b \in 192..223 THEN b - 192
               ELSE IF b \in 224..239 THEN b - 224 ELSE IF b \in 240..247 THEN b - 240
               ELSE IF b \in 248..251 THEN b - 248 ELSE b - 252
Invalid == B("_")
HiddenNull == B("_hidden_null_")
Char(t, v, raw) ==   \* translation of a completely decoded character
  IF v # 0 /\ Has(t, v) THEN Row(t, v)
  ELSE IF v = 0 THEN HiddenNull
  ELSE IF v > MaxCodePoint THEN Invalid
  ELSE IF t.hasdef THEN t.def
  ELSE raw
UtfInit == [out |-> <<>>, need |-> 0, val |-> 0, raw |-> <<>>]
UtfBegin(t, out, b) ==
  LET w == Width(b) IN
  IF w = 0 THEN [UtfInit EXCEPT !.out = out \o Invalid]
  ELSE IF w = 1 THEN [UtfInit EXCEPT !.out = out \o Char(t, b, <<b>>)]
  ELSE [out |-> out, need |-> w - 1, val |-> LeadBits(b), raw |-> <<b>>]
UtfStep(t, st, b) ==
  IF st.need = 0 THEN UtfBegin(t, st.out, b)
  ELSE IF ~IsCont(b) THEN UtfBegin(t, st.out \o Invalid, b)
  ELSE LET v == 64 * st.val + (b - 128)  r == Append(st.raw, b) IN
       IF st.need = 1 THEN [UtfInit EXCEPT !.out = st.out \o Char(t, v, r)]
       ELSE [st EXCEPT !.need = @ - 1, !.val = v, !.raw = r]
Utf8(t, s) ==
  LET st == FoldLeft(LAMBDA a, b : UtfStep(t, a, b), UtfInit, s)
  IN IF st.need > 0 THEN st.out \o Invalid ELSE st.out

------------------------------------------------------------------------------
(* Sequences of filters *)
Apply(f, s) ==
  CASE f.k = "safe"       -> Safe(f.t, s)
    [] f.k = "iso8859_1"  -> Iso(f.t, s)
    [] f.k = "utf_8"      -> Utf8(f.t, s)
    [] f.k = "uncgi"      -> Uncgi(s)
    [] f.k = "lower"      -> Lower(s)
    [] f.k = "wipeup"     -> Wipeup(f.rt, s)
    [] f.k = "max_length" -> MaxLength(f.n, s)
RunSeq(fs, s) == FoldLeft(LAMBDA a, f : Apply(f, a), s, fs)

\* the name "." and ".." are never processed, on disk or inline
Protected(s) == s = <<DOT>> \/ s = <<DOT, DOT>>
CleanName(fs, s) == IF Protected(s) THEN s ELSE RunSeq(fs, s)

------------------------------------------------------------------------------
(* The sequences detox ships *)
fSafe == [k |-> "safe", t |-> SafeTable]
fIso  == [k |-> "iso8859_1", t |-> IsoTable]
fCp   == [k |-> "iso8859_1", t |-> CpTable]
fUtf  == [k |-> "utf_8", t |-> UnicodeTable]
fUncgi == [k |-> "uncgi"]
fLower == [k |-> "lower"]
fWipe(rt) == [k |-> "wipeup", rt |-> rt]
fMax(n) == [k |-> "max_length", n |-> n]

SeqDefault == <<fSafe, fWipe(TRUE)>>
SeqIso     == <<fIso>> \o SeqDefault
SeqLegacy  == <<fCp, fIso>> \o SeqDefault
SeqUtf8    == <<fUtf>> \o SeqDefault
SeqUncgi   == <<fUncgi>> \o SeqDefault
SeqLower   == <<fSafe, fLower, fWipe(TRUE)>>

=============================================================================
