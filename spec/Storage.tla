------------------------------ MODULE Storage -------------------------------
(***************************************************************************)
(* Saved engines and subscription sets.  What was saved is read back whole *)
(* or not at all: a document of which only a part was written (the process *)
(* or the machine died meanwhile), or of another engine, is refused.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EngineKinds == {"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}

VARIABLES
  shelf,        \* document -> [kind, size, view]: what was saved, how long it is, and what it showed when it was saved
  onDisk        \* document -> how much of it was written before the last crash
storageVars == <<shelf, onDisk>>

Empty == shelf = <<>> /\ onDisk = <<>>
Save(doc, kind, size, view) ==
  /\ shelf' = (doc :> [kind |-> kind, size |-> size, view |-> view]) @@ shelf
  /\ onDisk' = (doc :> size) @@ onDisk
\* only the first n bytes have been written when the writer dies
CutShort(doc, n) == /\ doc \in DOMAIN shelf /\ n <= shelf[doc].size
                    /\ onDisk' = [onDisk EXCEPT ![doc] = n] /\ UNCHANGED shelf

Readable(doc, into) == /\ doc \in DOMAIN shelf
                       /\ into = shelf[doc].kind
                       /\ onDisk[doc] = shelf[doc].size
\* what the restored object shows; ERR if it is refused
Restored(doc, into) == IF Readable(doc, into) THEN shelf[doc].view ELSE <<"ERR">>
=============================================================================
