------------------------------ MODULE TagFile ------------------------------
(***************************************************************************)
(* Lists of tags: as text, one line "PC in hexadecimal,bits of the ID" per *)
(* tag, printed by the tag generator; and as the stored set the conversion *)
(* tool makes of it.  Nothing is dropped, merged or reordered.             *)
(***************************************************************************)
EXTENDS Tdt

VARIABLE stored       \* file name -> sequence of tags

HexDigits == "0123456789abcdef"
HexVal == [c \in Set(HexDigits) |-> CHOOSE i \in 0..15 : Ch(HexDigits, i + 1) = c]
Hex(s) == FoldLeft(LAMBDA a, c : 16 * a + HexVal[c], 0, Chars(ToLower(s)))

\* how a tag is printed, and which tag a line names
Printed(pc, bits) == IF bits = "" THEN "" ELSE pc \o "," \o bits
Comma(line) == CHOOSE i \in 1..Len(line) : Ch(line, i) = "," /\ \A j \in 1..(i - 1) : Ch(line, j) # ","
TagOf(line) == LET i == Comma(line) IN [pc |-> Hex(SubSeq(line, 1, i - 1)), id |-> SubSeq(line, i + 1, Len(line))]

TagsIn(lines) == [k \in 1..Len(lines) |-> TagOf(lines[k])]

None == stored = <<>>
Convert(name, lines) == stored' = (name :> TagsIn(lines)) @@ stored
ReadBack(name) == stored[name]
=============================================================================
