---------------------------- MODULE MirrorTrace ----------------------------
(* Trace validation of the capture service and of the management endpoint; see EngineTrace. *)
EXTENDS Endpoint, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
vars == <<endpointVars, tid, pos, verdict>>

Key(e) == <<e.conn, e.stream>>
Possible(e) ==
  CASE e.op \in {"open", "put", "header", "close", "cut", "abort", "noise", "keepalive"} -> TRUE
    [] e.op = "ack"        -> MayAck
    [] e.op = "back"       -> MayReturn(Key(e), e.text)
    [] e.op = "backheader" -> MayReturnHeader(Key(e), e.h)
    [] e.op = "eof"        -> MayEnd(Key(e))
    [] e.op = "end"        -> AllSettled
    [] OTHER               -> FALSE          \* refused, died
Streams(e) ==
  CASE e.op = "open"       -> Open(Key(e))
    [] e.op = "put"        -> Put(Key(e), e.text)
    [] e.op = "header"     -> PutHeader(Key(e), e.h)
    [] e.op = "close"      -> End(Key(e))
    [] e.op = "cut"        -> Cut(e.conn)
    [] e.op = "abort"      -> Abort(Key(e))
    [] e.op = "back"       -> Return(Key(e), e.text)
    [] e.op = "backheader" -> ReturnHeader(Key(e))
    [] e.op = "eof"        -> Ended(Key(e))
    [] OTHER               -> UNCHANGED mirrorVars
Step(e) ==
  CASE e.op = "keepalive"  -> KeepAlive
    [] e.op = "ack"        -> Ack
    [] OTHER               -> Streams(e) /\ UNCHANGED unanswered

Short(s) == IF Len(s) > 200 THEN SubSeq(s, 1, 200) \o "..." ELSE s
Wanted(e) ==
  IF e.op = "end" THEN ToString(<<unanswered, [k \in {k \in DOMAIN owedBytes : owedBytes[k] # "" \/ (owedHeaders[k] # <<>> /\ k \notin over) \/ k \in ending} |-> <<Short(owedBytes[k]), owedHeaders[k], k \in ending>>]>>)
  ELSE IF e.op \in {"back", "backheader", "eof"} /\ Key(e) \in DOMAIN owedBytes THEN ToString(<<Short(owedBytes[Key(e)]), owedHeaders[Key(e)]>>)
  ELSE e.op

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ Idle
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \E e \in {Traces[tid][pos]} :
             IF Possible(e) THEN Step(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
             ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> Wanted(e)]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<endpointVars, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
