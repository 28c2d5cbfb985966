------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* The capture service: whatever is sent on a stream of a connection comes *)
(* back on that stream, in order, bytes and headers, until the sender ends *)
(* the stream; then the stream is ended by the service, too (headers are   *)
(* not ordered with the end, so the last ones may be lost).  Connections   *)
(* and streams do not affect each other, whatever somebody else sends.     *)
(***************************************************************************)
EXTENDS Sequences, SequencesExt, FiniteSets, TLC

VARIABLES owedBytes,    \* <<connection, stream>> -> text not yet mirrored
          owedHeaders,  \* <<connection, stream>> -> headers not yet mirrored
          ending,       \* streams ended by the sender, not yet by the service
          over          \* streams ended by the sender
mirrorVars == <<owedBytes, owedHeaders, ending, over>>

Begins(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Fresh == owedBytes = <<>> /\ owedHeaders = <<>> /\ ending = {} /\ over = {}

Open(k) == /\ owedBytes' = (k :> "") @@ owedBytes /\ owedHeaders' = (k :> <<>>) @@ owedHeaders
           /\ UNCHANGED <<ending, over>>
Put(k, text) == /\ owedBytes' = [owedBytes EXCEPT ![k] = @ \o text]
                /\ UNCHANGED <<owedHeaders, ending, over>>
PutHeader(k, h) == /\ owedHeaders' = [owedHeaders EXCEPT ![k] = Append(@, h)]
                   /\ UNCHANGED <<owedBytes, ending, over>>
End(k) == ending' = ending \cup {k} /\ over' = over \cup {k} /\ UNCHANGED <<owedBytes, owedHeaders>>

MayReturn(k, text) == k \in DOMAIN owedBytes /\ Begins(owedBytes[k], text)
Return(k, text) == /\ owedBytes' = [owedBytes EXCEPT ![k] = SubSeq(@, Len(text) + 1, Len(@))]
                   /\ UNCHANGED <<owedHeaders, ending, over>>
MayReturnHeader(k, h) == k \in DOMAIN owedHeaders /\ owedHeaders[k] # <<>> /\ Head(owedHeaders[k]) = h
ReturnHeader(k) == owedHeaders' = [owedHeaders EXCEPT ![k] = Tail(@)] /\ UNCHANGED <<owedBytes, ending, over>>
\* the service ends the stream when everything has come back
MayEnd(k) == k \in ending /\ owedBytes[k] = ""
Ended(k) == ending' = ending \ {k} /\ UNCHANGED <<owedBytes, owedHeaders, over>>

\* a connection is cut by its sender: nothing more is owed there
Cut(conn) ==
  LET on == {k \in DOMAIN owedBytes : k[1] = conn}
  IN /\ owedBytes' = [k \in DOMAIN owedBytes \ on |-> owedBytes[k]]
     /\ owedHeaders' = [k \in DOMAIN owedHeaders \ on |-> owedHeaders[k]]
     /\ ending' = ending \ on /\ over' = over \ on

\* one stream is given up by its sender
Abort(k) ==
  LET on == {k}
  IN /\ owedBytes' = [j \in DOMAIN owedBytes \ on |-> owedBytes[j]]
     /\ owedHeaders' = [j \in DOMAIN owedHeaders \ on |-> owedHeaders[j]]
     /\ ending' = ending \ on /\ over' = over \ on

Settled == /\ \A k \in DOMAIN owedBytes : owedBytes[k] = "" /\ (owedHeaders[k] = <<>> \/ k \in over)
           /\ ending = {}
=============================================================================
