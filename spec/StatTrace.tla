----------------------------- MODULE StatTrace ------------------------------
(* Trace validation of the statistics manager; see EngineTrace. *)
EXTENDS Stat, Json, IOUtils, TLC, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
vars == <<owed, account, tid, pos, verdict>>

PointFrom(e) == [m |-> e.m, tags |-> {<<e.tags[k][1], e.tags[k][2]>> : k \in 1..Len(e.tags)},
                 fields |-> [f \in {e.fields[k].k : k \in 1..Len(e.fields)} |->
                               LET k == CHOOSE k \in 1..Len(e.fields) : e.fields[k].k = f
                               IN [type |-> e.fields[k].type, s |-> e.fields[k].s, v |-> e.fields[k].v]],
                 db |-> e.db, user |-> e.user, pass |-> e.pass, ts |-> e.ts, at |-> e.at]
Possible(e) ==
  CASE e.op = "start" -> TRUE
    [] e.op = "send"  -> TRUE
    [] e.op = "point" -> \E pt \in {PointFrom(e)} : Candidates(pt) # {} /\ [db |-> pt.db, user |-> pt.user, pass |-> pt.pass] = account
    [] e.op = "end"   -> owed = <<>> /\ ~e.stuck
    [] OTHER          -> FALSE
Step(e) ==
  CASE e.op = "start" -> Start([db |-> e.db, user |-> e.user, pass |-> e.pass])
    [] e.op = "send"  -> Hand(e.id, [type |-> e.type, name |-> e.name, values |-> e.values, at |-> e.t])
    [] e.op = "point" -> \E pt \in {PointFrom(e)} : Write(pt)
    [] e.op = "end"   -> Rest

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ owed = <<>> /\ account = <<>>
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \E e \in {Traces[tid][pos]} :
             IF Possible(e) THEN Step(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
             ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> "points for " \o ToString(owed)]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<owed, account, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
