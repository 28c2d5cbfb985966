---------------------------- MODULE SixEncTrace ----------------------------
(* Trace validation of the six-bit encoding tool; see EngineTrace. *)
EXTENDS SixEnc, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
vars == <<shown, tid, pos, verdict>>

Refused(e) == e.exit # 0 /\ e.panic = "" /\ e.out = ""
Possible(e) ==
  CASE e.op = "encode" -> IF e.given = 0 \/ shown'[e.text] = ERR THEN Refused(e) ELSE e.exit = 0 /\ e.out = shown'[e.text]
    [] OTHER           -> FALSE

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ shown = <<>>
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \E e \in {Traces[tid][pos]} :
             /\ IF e.op = "encode" THEN shown' = (e.text :> Result(e.text)) ELSE UNCHANGED shown
             /\ IF Possible(e) THEN pos' = pos + 1 /\ UNCHANGED verdict
                ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> IF e.given = 0 THEN "a refusal" ELSE Result(e.text)]))
                     /\ verdict' = "rejected" /\ UNCHANGED pos
Spec == Init /\ [][Next]_vars
=============================================================================
