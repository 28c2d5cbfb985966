------------------------------ MODULE Endpoint ------------------------------
(***************************************************************************)
(* The management endpoint of the middleware: it mirrors streams like the  *)
(* capture service, and whatever happens there, the session with the       *)
(* reader goes on: every keep-alive is acknowledged.                       *)
(***************************************************************************)
EXTENDS Mirror, Naturals

VARIABLE unanswered     \* keep-alives of the reader not yet acknowledged
endpointVars == <<mirrorVars, unanswered>>

Idle == Fresh /\ unanswered = 0
KeepAlive == unanswered' = unanswered + 1 /\ UNCHANGED mirrorVars
MayAck == unanswered > 0
Ack == unanswered' = unanswered - 1 /\ UNCHANGED mirrorVars
AllSettled == Settled /\ unanswered = 0
=============================================================================
