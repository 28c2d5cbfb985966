---------------------------- MODULE EngineTrace -----------------------------
(***************************************************************************)
(* Trace validation: is every recorded run of the real engines a behaviour *)
(* of Engine?  The file named by the environment variable TRACE holds a    *)
(* JSON array of traces, a trace is an array of events.  Each trace is     *)
(* validated as one behaviour (TLC explores them in parallel).             *)
(***************************************************************************)
EXTENDS Printed, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

\* every pattern text of the traces is translated once
PatsOf(e) == IF "subs" \in DOMAIN e THEN {e.subs[k][1] : k \in 1..Len(e.subs)} ELSE {}
AllPats == UNION {UNION {PatsOf(Traces[t][k]) : k \in 1..Len(Traces[t])} : t \in 1..Len(Traces)}
FilterTab == TLCEval([p \in AllPats |-> PatternFilter(p)])
TextTab   == TLCEval([p \in AllPats |-> LegacyText(p)])
CachedFilter(p) == FilterTab[p]
CachedText(p) == TextTab[p]

\* and so is every ID searched for
IdTab == [k \in 1..Len(Traces) |-> TLCEval([j \in 1..Len(Traces[k]) |->
            IF Traces[k][j].op = "search" THEN Translate(Traces[k][j].pc, Traces[k][j].id) ELSE ERR])]

VARIABLES tid, pos, verdict   \* (names TLC does not meet as bound identifiers: those would disable its caching of constants)
vars == <<engs, tid, pos, verdict>>

SubsOf(e) == {<<e.subs[k][1], e.subs[k][2]>> : k \in 1..Len(e.subs)}
Counted(ds) == [d \in ToSet(ds) |-> Cardinality({k \in 1..Len(ds) : ds[k] = d})]

(* the recorded outcome of a search agrees with the answer of the abstract engine *)
SearchOk(e, id, r) ==
  /\ Counted(e.uris) = r
  /\ e.uris = <<>> => e.err
  /\ e.uris # <<>> /\ id # ERR => ~e.err /\ e.ident = id

Answer(e, id) == CASE e.op = "search" -> Reports(engs[e.e], e.id, id) [] OTHER -> <<>>

Allowed(e, id, r) ==
  /\ e.panic = ""
  /\ e.op = "search" => SearchOk(e, id, r)
  /\ e.op = "caller" => e.before = e.after      \* the caller's own data around a call
  /\ e.op = "dump" => PrintedOk(engs[e.e], e)

Effect(e) ==
  CASE e.op = "new"    -> Build(e.e, e.kind, SubsOf(e))
    [] e.op = "add"    -> Add(e.e, SubsOf(e))
    [] e.op = "del"    -> Delete(e.e, SubsOf(e))
    [] e.op = "save"   -> SaveRestore(e.e, e.f)
    [] OTHER           -> UNCHANGED engs       \* searches change nothing

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ engs = <<>> /\ verdict = "ok"
Next ==
  /\ verdict = "ok" /\ pos <= Len(Traces[tid])
  /\ UNCHANGED tid
  /\ \E e \in {Traces[tid][pos]} : \E id \in {IdTab[tid][pos]} : \E r \in {Answer(e, id)} :
       IF Allowed(e, id, r)
       THEN Effect(e) /\ pos' = pos + 1 /\ UNCHANGED verdict
       ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> IF e.op = "dump" THEN ToString(engs[e.e].subs) ELSE ToString(<<r, id>>)]))
            /\ verdict' = "rejected" /\ UNCHANGED <<engs, pos>>
Spec == Init /\ [][Next]_vars

\* every trace has been consumed to its end (counted by the runner as well)
NotRejected == verdict = "ok"
=============================================================================
