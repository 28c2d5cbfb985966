---------------------------- MODULE StorageTrace ----------------------------
(* Trace validation of saving, crashing and restoring; see EngineTrace. *)
EXTENDS Storage, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
vars == <<storageVars, tid, pos, verdict>>

Possible(e) ==
  CASE e.op = "save"    -> e.panic = "" /\ ~e.err
    [] e.op = "cut"     -> TRUE
    [] e.op = "restore" -> e.panic = "" /\ (IF e.err THEN <<"ERR">> ELSE e.view) = Restored(e.doc, e.into)
    [] OTHER            -> FALSE
Step(e) ==
  CASE e.op = "save" -> Save(e.doc, e.kind, e.size, e.view)
    [] e.op = "cut"  -> CutShort(e.doc, e.have)
    [] OTHER         -> UNCHANGED storageVars

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ Empty
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \E e \in {Traces[tid][pos]} :
             IF Possible(e) THEN Step(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
             ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> IF e.op = "restore" THEN ToString(Restored(e.doc, e.into)) ELSE e.op]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<storageVars, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
