---------------------------- MODULE FactoryTrace ----------------------------
(***************************************************************************)
(* Trace validation of the engine factory.  The recorded events are the    *)
(* visible steps; ticks, handling of messages and announcements are not    *)
(* recorded and may happen in between, as Factory allows.  A trace is      *)
(* accepted if some behaviour of Factory contains all its events.          *)
(*                                                                         *)
(* What is received later in a trace guides the search: a message is only  *)
(* sent if it is the next one to be received, and an engine ticks only     *)
(* when it has to (a tick commutes with everything but the steps below).   *)
(***************************************************************************)
EXTENDS Factory, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
EnginesOf(k) == ToSet(Traces[k][1].engines)

Numbered(P(_), s) == LET step(acc, e) == Append(acc, Last(acc) + (IF P(e) THEN 1 ELSE 0)) IN FoldLeft(step, <<0>>, s)
\* the received messages of each trace, and how many were received before each event
RecvsOf == [k \in 1..Len(Traces) |-> TLCEval(SelectSeq(Traces[k], LAMBDA e : e.op = "recv"))]
GotBefore == [k \in 1..Len(Traces) |-> TLCEval(Numbered(LAMBDA e : e.op = "recv", Traces[k]))]
\* those of each engine
From(e, x) == x.op = "recv" /\ x.e = e /\ x.type # "selected"
RecvsFrom == [k \in 1..Len(Traces) |-> TLCEval([e \in EnginesOf(k) |-> SelectSeq(Traces[k], LAMBDA x : From(e, x))])]
GotFrom == [k \in 1..Len(Traces) |-> TLCEval([e \in EnginesOf(k) |-> Numbered(LAMBDA x : From(e, x), Traces[k])])]
Announced == [k \in 1..Len(Traces) |-> TLCEval(SelectSeq(Traces[k], LAMBDA e : e.op = "recv" /\ e.type = "selected"))]
AnnouncedBefore == [k \in 1..Len(Traces) |-> TLCEval(Numbered(LAMBDA e : e.op = "recv" /\ e.type = "selected", Traces[k]))]
\* the channel's capacity, the two who may be waiting to send, and one received but not yet recorded
WindowOf == [k \in 1..Len(Traces) |-> Traces[k][1].cap + 3]

VARIABLES tid, pos, lazy,       \* lazy: the consumer does not keep up
          bornAt                \* engines generated at the instant of a tick, and when
vars == <<fvars, tid, pos, lazy, bornAt>>
Known(now) == {e \in made : e \notin DOMAIN bornAt \/ bornAt[e] < now}

Init == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ lazy = FALSE /\ bornAt = <<>>
        /\ engines = {} /\ period = 0 /\ made = {} /\ serving = "" /\ perf = <<>> /\ uncounted = <<>> /\ fresh = {} /\ posted = <<>>
        /\ inhand = <<>> /\ chosen = <<>> /\ outbox = <<>> /\ dueAt = <<>> /\ hunts = <<>>
        /\ TLCSet(tid, 1)

\* the throughput n/us as recorded, in 1e-6 events/us and 1e-2 us/event
Near(e, n, us) == /\ e.tp > 0
                  /\ IF n < 2000 THEN e.tp - (n * 1000000) \div us \in -1..2
                     ELSE n \div us >= 2000 \/ e.tp \div 1000000 - n \div us \in -1..2
                  /\ e.inv - (us * 100) \div n \in -1..2

Agrees(e, msg) ==
  /\ ~e.extra /\ e.type = msg.type /\ e.e = msg.e
  /\ CASE e.type = "traffic"  -> e.n = msg.n /\ e.m = msg.m /\ e.tp = 0
       [] e.type = "selected" -> e.n = 0 /\ e.m = 0 /\ e.tp = 0
       [] e.type = "status"   -> e.n = 0 /\ e.m = 0 /\ Near(e, msg.n, msg.us)
       [] OTHER -> FALSE

\* the next message to be sent
Coming == GotBefore[tid][pos] + Len(outbox) + 1
Next1(P(_)) == Coming <= Len(RecvsOf[tid]) /\ Len(outbox) < WindowOf[tid] /\ \E e \in {RecvsOf[tid][Coming]} : P(e)
\* a message an engine sends is the next one of it to be received
GuidedTick(e) ==
  \E j \in {GotFrom[tid][e][pos] + Len(SelectSeq(outbox \o inhand, LAMBDA x : x.e = e /\ x.type # "selected"))} :
    \A k \in (Len(posted[e]) + 1)..Len(posted'[e]) :
      /\ j + k <= Len(RecvsFrom[tid][e])
      /\ \E x \in {RecvsFrom[tid][e][j + k]} : Agrees(x, posted'[e][k])
\* an engine put in service is the next one announced
GuidedChoice ==
  \E j \in {AnnouncedBefore[tid][pos] + Len(SelectSeq(outbox, LAMBDA x : x.type = "selected")) + 1} :
    Announcing' => j <= Len(Announced[tid]) /\ Announced[tid][j].e = serving'
\* an engine ticks when its report is about to be received, or before the number of its events changes
HasToTick(e) ==
  \/ posted[e] = <<>> /\ inhand = <<>> /\ Next1(LAMBDA x : x.type = "traffic" /\ x.e = e)
  \/ \E x \in {Traces[tid][pos]} : \/ x.op = "eng" /\ (x.e = e \/ x.id \in Flying(uncounted[e]))
                                   \/ x.op = "send" /\ x.id \in Flying(uncounted[e])
Internal(upto) ==
  \/ \E e \in engines : \/ Welcome(e) /\ GuidedChoice
                        \/ posted[e] # <<>> /\ ((Head(posted[e]).type = "status" /\ dueAt[F] <= upto) \/ Next1(LAMBDA x : Agrees(x, Head(posted[e])))) /\ Handle(e)
                        \/ HasToTick(e) /\ Tick(e, upto) /\ GuidedTick(e)
  \/ inhand # <<>> /\ Next1(LAMBDA x : Agrees(x, Head(inhand))) /\ Pass
  \/ TickFactory(upto) /\ GuidedChoice
  \/ chosen # <<>> /\ Next1(LAMBDA x : Agrees(x, Head(chosen))) /\ Announce

Step(e) ==
  CASE e.op = "new"     -> Create(ToSet(e.engines), e.interval, e.t)
    [] e.op = "run"     -> Run(e.t)
    [] e.op = "gen"     -> e.ok /\ UNCHANGED fvars
    [] e.op = "gendone" -> Generate(e.e)
    [] e.op = "sbegin"  -> Begin(e.id, Known(e.t))
    [] e.op = "eng"     -> Asked(e.e, e.id, e.m, e.us)
    [] e.op = "send"    -> e.same /\ Done(e.id, e.e)
    [] e.op = "burst"   -> e.same /\ fresh = {} /\ made = DOMAIN e.asked /\ Burst(e.e, e.n, e.asked, e.hits)
    [] e.op = "recv"    -> outbox # <<>> /\ Agrees(e, Head(outbox)) /\ Consume
    [] e.op = "active"  -> e.v = (serving # "") /\ UNCHANGED fvars
    [] e.op = "slow"    -> UNCHANGED fvars
    [] e.op = "quiet"   -> Quiet(e.t, e.sleeping, lazy)
    [] e.op = "end"     -> e.outstanding = 0 /\ UNCHANGED fvars
    [] OTHER            -> FALSE            \* the process died

Visible ==
  \E e \in {Traces[tid][pos]} :
    /\ Step(e)
    /\ lazy' = (IF e.op = "slow" THEN TRUE ELSE IF e.op = "quiet" THEN FALSE ELSE lazy)
    /\ bornAt' = (IF e.op = "gendone" /\ e.tick THEN (e.e :> e.t) @@ bornAt ELSE bornAt)
    /\ pos' = pos + 1
    /\ TLCSet(tid, IF TLCGet(tid) < pos' THEN pos' ELSE TLCGet(tid))

Next == /\ pos <= Len(Traces[tid])
        /\ UNCHANGED tid
        /\ \/ Visible
           \/ Internal(Traces[tid][pos].t) /\ UNCHANGED <<pos, lazy, bornAt>>
Spec == Init /\ [][Next]_vars

\* how far each trace could be followed
Report == \A k \in 1..Len(Traces) : PrintT("@@" \o ToJson([t |-> k, i |-> TLCGet(k)]))
=============================================================================
