---------------------------- MODULE TagFileTrace ----------------------------
(* Trace validation of the tag-list tool; see EngineTrace. *)
EXTENDS TagFile, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, verdict
vars == <<stored, tid, pos, verdict>>

Possible(e) ==
  CASE e.op = "convert" -> \A k \in 1..Len(e.list) : e.list[k].line = Printed(e.list[k].pc, e.list[k].bits)
    [] e.op = "read"    -> e.ok /\ e.tags = ReadBack(e.name)
    [] OTHER            -> FALSE
Step(e) ==
  CASE e.op = "convert" -> Convert(e.name, [k \in 1..Len(e.list) |-> e.list[k].line])
    [] OTHER            -> UNCHANGED stored

Wanted(e) ==
  IF e.op # "read" \/ ~e.ok THEN e.op
  ELSE LET want == ReadBack(e.name)
           bad == {k \in 1..Len(want) : k > Len(e.tags) \/ e.tags[k] # want[k]}
       IN ToString(<<"tags", Len(want), "got", Len(e.tags)>>)
          \o (IF bad = {} THEN "" ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
                                       IN ToString(<<"tag", k, want[k], "got", IF k > Len(e.tags) THEN "nothing" ELSE ToString(e.tags[k])>>))

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok" /\ None
Next == /\ verdict = "ok" /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \E e \in {Traces[tid][pos]} :
             IF Possible(e) THEN Step(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
             ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> Wanted(e)]))
                  /\ verdict' = "rejected" /\ UNCHANGED <<stored, pos>>
Spec == Init /\ [][Next]_vars
=============================================================================
