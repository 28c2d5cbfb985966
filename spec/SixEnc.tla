------------------------------- MODULE SixEnc -------------------------------
(***************************************************************************)
(* The six-bit encoding tool: prints the six-bit codes of the characters   *)
(* of its argument, and refuses characters which have none.                *)
(***************************************************************************)
EXTENDS Tdt

VARIABLE shown        \* what has been printed for which argument

Encodable(text) == Set(text) \subseteq {Ch(SixChars, i) : i \in 1..Len(SixChars)}
Result(text) == IF Encodable(text) THEN SixBits(text) ELSE ERR
Encode(text) == shown' = (text :> Result(text)) @@ shown
=============================================================================
