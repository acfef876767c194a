---------------------------- MODULE DetoxTables ----------------------------
(***************************************************************************)
(* Translation tables as values, and the four tables that detox ships.    *)
(*                                                                         *)
(* A table is [rows, hasdef, def]: rows is a function from values (bytes  *)
(* or code points, never 0) to byte strings; def is the default, if any.  *)
(* The shipped tables are given here declaratively, from their published  *)
(* meaning, not copied from the C arrays.                                  *)
(***************************************************************************)
EXTENDS DetoxBytes

NoRows == [k \in {} |-> <<>>]
Table(rows) == [rows |-> rows, hasdef |-> FALSE, def |-> <<>>]
TableD(rows, d) == [rows |-> rows, hasdef |-> TRUE, def |-> d]
EmptyTable == Table(NoRows)

Has(t, k) == k \in DOMAIN t.rows
Row(t, k) == t.rows[k]

Put(t, k, v) == [t EXCEPT !.rows = (k :> v) @@ t.rows]
SetDefault(t, d) == [t EXCEPT !.hasdef = (d # <<>>), !.def = d]

CodesOf(str) == {CharCode[SubSeq(str, i, i)] : i \in 1..Len(str)}

------------------------------------------------------------------------------
(* safe: characters that are hard to work with under Unix *)
SafeUnderscore == (1..32) \cup {127} \cup CodesOf("!\"$'*/:;<>?@\\`|")
SafeDash == CodesOf("()[]{}")
SafeRows == [k \in SafeUnderscore \cup SafeDash \cup CodesOf("&") |->
               IF k \in SafeUnderscore THEN B("_")
               ELSE IF k \in SafeDash THEN B("-")
               ELSE B("_and_")]
SafeTable == Table(SafeRows)

(* unicode: control and other hidden or confusing characters *)
UniBlank == {160} \cup (8192..8202) \cup {8232, 8233} \cup (8234..8238) \cup {8239, 8287}
UniGone  == (8203..8207) \cup {8288}
UniDash  == {173} \cup (8208..8213)
UniLow   == {8215, 8260}
UniCtl   == (1..31) \cup {127}
UniRows == [k \in (1..127) \cup UniBlank \cup UniGone \cup UniDash \cup UniLow |->
              IF k \in UniCtl \cup UniLow THEN B("_")
              ELSE IF k \in UniBlank THEN <<SP>>
              ELSE IF k \in UniGone THEN <<>>
              ELSE IF k \in UniDash THEN B("-")
              ELSE <<k>>]
UnicodeTable == Table(UniRows)

(* iso8859_1: the printable upper half of Latin-1, code point = byte value *)
IsoRows == [k \in 160..255 |-> IF k = 160 THEN <<SP>> ELSE IF k = 173 THEN B("-") ELSE Enc16(k)]
IsoTable == TableD(IsoRows, B("_"))

(* cp1252: what Windows puts at 0x80..0x9F (0 = undefined there) *)
Cp1252 == << 8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0,
             0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376 >>
CpRows == [k \in 128..159 |-> IF Cp1252[k - 127] = 0 THEN B("-") ELSE Enc16(Cp1252[k - 127])]
CpTable == Table(CpRows)

BuiltinNames == {B("safe"), B("unicode"), B("iso8859_1"), B("cp1252")}
Builtin(name) == IF name = B("safe") THEN SafeTable
                 ELSE IF name = B("unicode") THEN UnicodeTable
                 ELSE IF name = B("iso8859_1") THEN IsoTable
                 ELSE CpTable
=============================================================================
