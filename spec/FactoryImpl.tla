---------------------------- MODULE FactoryImpl ----------------------------
(***************************************************************************)
(* The engine factory as it is built: a generator and a monitor goroutine  *)
(* per engine, the listener, the ticker, searching callers and a consumer, *)
(* joined by channels.  Checked against Factory.tla for every schedule     *)
(* within the bounds: each step is a step of Factory or changes nothing    *)
(* there, nothing deadlocks and everything comes to an end.                *)
(*                                                                         *)
(* Sends on unbuffered channels are one step with their receipt.  The      *)
(* consumer's hand counts as a place of the management channel.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS
  Kinds,        \* the engines
  Places,       \* capacity of the management channel, at least 1
  Periods,      \* number of intervals that pass
  Callers,      \* concurrent searchers
  Searches,     \* searches of each
  Outcomes,     \* what an engine may make of an event: <<matched, microseconds>>
  Locked        \* whether choosing, putting in service and announcing are one (FALSE: as the code was first)

OneOutcome == {<<TRUE, 1>>}
SomeOutcomes == {<<TRUE, 1>>, <<FALSE, 3>>}
Order == [LegacyEngine |-> 0, List |-> 1, SplayTree |-> 2, PatriciaTrie |-> 3]
T == "factory"

VARIABLES
  genPc,        \* engine -> generator goroutine: "gen", "send", "done"
  monPc,        \* engine -> monitor goroutine: "loop", "traffic", "status"
  monMsg,       \* engine -> the traffic message and the status it is sending
  lisPc, lisMsg,     \* listener: "recv", "got", "decide", "pass"
  tckPc, tckMsg,     \* ticker: "wait", "choose", "reread", "send"
  token,        \* who is selecting: "" or "listener" or "ticker"
  pending,      \* ticks waiting in tickers
  clock,        \* intervals that have passed
  current,      \* currentEngineName
  speeds,       \* enginePerformance
  mainQ,        \* the management channel
  calPc, calCur, calTodo, calEng, calLeft,   \* callers
  \* history, for the mapping
  unc,          \* engine -> events not yet reported, with whether the monitor has received them
  hu,           \* searches under way
  taken         \* ticks taken
ivars == <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ,
           calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

Note(type, e, n, m, us) == [type |-> type, e |-> e, n |-> n, m |-> m, us |-> us]
Nothing == Note("", "", 0, 0, 0)
Ready(e) == genPc[e] # "gen"
IdOf(c) == ToString(<<c, calLeft[c]>>)

Init ==
  /\ genPc = [e \in Kinds |-> "gen"] /\ monPc = [e \in Kinds |-> "loop"] /\ monMsg = [e \in Kinds |-> <<Nothing, Nothing>>]
  /\ lisPc = "recv" /\ lisMsg = Nothing /\ tckPc = "wait" /\ tckMsg = Nothing /\ token = ""
  /\ pending = [q \in Kinds \cup {T} |-> FALSE] /\ clock = 0
  /\ current = "" /\ speeds = [e \in Kinds |-> <<0, 1>>] /\ mainQ = <<>>
  /\ calPc = [c \in Callers |-> "idle"] /\ calCur = [c \in Callers |-> ""] /\ calTodo = [c \in Callers |-> {}]
  /\ calEng = [c \in Callers |-> ""] /\ calLeft = [c \in Callers |-> Searches]
  /\ unc = [e \in Kinds |-> <<>>] /\ hu = <<>> /\ taken = [q \in Kinds \cup {T} |-> 0]

\* --- generators
Deploy(e) ==
  /\ genPc[e] = "gen" /\ genPc' = [genPc EXCEPT ![e] = "send"]
  /\ UNCHANGED <<monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
Hear(msg) == lisPc = "recv" /\ lisPc' = "got" /\ lisMsg' = msg
SendGenerated(e) ==
  /\ genPc[e] = "send" /\ genPc' = [genPc EXCEPT ![e] = "done"] /\ Hear(Note("generated", e, 0, 0, 0))
  /\ UNCHANGED <<monPc, monMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

\* --- monitors
Received(x) == x.in
Sum(q) == [n |-> Len(q), m |-> Len(SelectSeq(q, LAMBDA x : x.m)), us |-> FoldLeft(LAMBDA a, x : a + x.us, 0, q)]
MonTick(e) ==
  /\ monPc[e] = "loop" /\ pending[e]
  /\ pending' = [pending EXCEPT ![e] = FALSE] /\ taken' = [taken EXCEPT ![e] = @ + 1]
  /\ \E c \in {Sum(SelectSeq(unc[e], Received))} :
       monMsg' = [monMsg EXCEPT ![e] = <<Note("traffic", e, c.n, c.m, 0),
                                         IF c.n > 0 /\ c.us > 0 THEN Note("status", e, c.n, 0, c.us) ELSE Nothing>>]
  /\ unc' = [unc EXCEPT ![e] = SelectSeq(@, LAMBDA x : ~x.in)]
  /\ monPc' = [monPc EXCEPT ![e] = "traffic"]
  /\ UNCHANGED <<genPc, lisPc, lisMsg, tckPc, tckMsg, token, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, hu>>
MonSend(e) ==
  /\ monPc[e] \in {"traffic", "status"}
  /\ Hear(monMsg[e][IF monPc[e] = "traffic" THEN 1 ELSE 2])
  /\ monPc' = [monPc EXCEPT ![e] = IF @ = "traffic" /\ monMsg[e][2] # Nothing THEN "status" ELSE "loop"]
  /\ UNCHANGED <<genPc, monMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

\* --- listener
Put(msg) == Len(mainQ) < Places /\ mainQ' = Append(mainQ, msg)
Meets(e) == hu' = [k \in DOMAIN hu |-> [hu[k] EXCEPT !.could = @ \cup {e}]]
LisHandle ==      \* a status or traffic message
  /\ lisPc = "got" /\ lisMsg.type # "generated"
  /\ speeds' = (IF lisMsg.type = "status" THEN [speeds EXCEPT ![lisMsg.e] = <<lisMsg.n, lisMsg.us>>] ELSE speeds)
  /\ lisPc' = "pass"
  /\ UNCHANGED <<genPc, monPc, monMsg, lisMsg, tckPc, tckMsg, token, pending, clock, current, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
LisAcquire ==
  /\ lisPc = "got" /\ lisMsg.type = "generated" /\ token = ""
  /\ token' = (IF Locked THEN "listener" ELSE "")
  /\ lisPc' = (IF current = "" \/ Order[current] < Order[lisMsg.e] THEN "store" ELSE "keep")
  /\ UNCHANGED <<genPc, monPc, monMsg, lisMsg, tckPc, tckMsg, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
LisKeep ==
  /\ lisPc = "keep" /\ lisPc' = "recv" /\ lisMsg' = Nothing /\ token' = (IF Locked THEN "" ELSE token)
  /\ UNCHANGED <<genPc, monPc, monMsg, tckPc, tckMsg, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
LisStore ==
  /\ lisPc = "store" /\ lisPc' = "reread" /\ current' = lisMsg.e /\ Meets(lisMsg.e)
  /\ UNCHANGED <<genPc, monPc, monMsg, lisMsg, tckPc, tckMsg, token, pending, clock, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, taken>>
LisReread ==
  /\ lisPc = "reread" /\ lisPc' = "pass" /\ lisMsg' = Note("selected", current, 0, 0, 0)
  /\ UNCHANGED <<genPc, monPc, monMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
LisPass ==
  /\ lisPc = "pass" /\ Put(lisMsg) /\ lisPc' = "recv" /\ lisMsg' = Nothing
  /\ token' = (IF token = "listener" THEN "" ELSE token)
  /\ UNCHANGED <<genPc, monPc, monMsg, tckPc, tckMsg, pending, clock, current, speeds, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

\* --- ticker (the performances are read one after the other: the engine found best may be so no longer)
Quicker(p, q) == p[1] * q[2] > q[1] * p[2]
Tops == {e \in Kinds : speeds[e][1] > 0 /\ \A o \in Kinds : ~Quicker(speeds[o], speeds[e])}
TckAcquire ==
  /\ tckPc = "wait" /\ pending[T] /\ token = ""
  /\ pending' = [pending EXCEPT ![T] = FALSE] /\ taken' = [taken EXCEPT ![T] = @ + 1]
  /\ token' = (IF Locked THEN "ticker" ELSE "")
  /\ IF Tops = {} THEN UNCHANGED <<current, hu>> ELSE \E e \in Tops : current' = e /\ Meets(e)
  /\ tckPc' = (IF current' = "" THEN "release" ELSE "reread")
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckMsg, clock, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc>>
TckReread ==
  /\ tckPc = "reread" /\ tckPc' = "send" /\ tckMsg' = Note("selected", current, 0, 0, 0)
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, token, pending, clock, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
TckSend ==
  /\ \/ tckPc = "send" /\ Put(tckMsg)
     \/ tckPc = "release" /\ UNCHANGED mainQ
  /\ tckPc' = "wait" /\ tckMsg' = Nothing
  /\ token' = (IF token = "ticker" THEN "" ELSE token)
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, pending, clock, current, speeds, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

\* --- callers
Land(q, id) == [e \in Kinds |-> [k \in 1..Len(q[e]) |-> IF q[e][k].id = id THEN [q[e][k] EXCEPT !.flying = FALSE] ELSE q[e][k]]]
CalBegin(c) ==
  /\ calPc[c] = "idle" /\ calLeft[c] > 0 /\ current # ""
  /\ calCur' = [calCur EXCEPT ![c] = current] /\ calTodo' = [calTodo EXCEPT ![c] = Kinds \ {current}]
  /\ calPc' = [calPc EXCEPT ![c] = "visit"]
  /\ hu' = (IdOf(c) :> [must |-> {e \in Kinds : Ready(e)}, asked |-> {}, could |-> {current}]) @@ hu
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calEng, calLeft, unc, taken>>
Ask(c, e) ==
  /\ calEng' = [calEng EXCEPT ![c] = e] /\ calPc' = [calPc EXCEPT ![c] = "count"]
  /\ hu' = [hu EXCEPT ![IdOf(c)].asked = @ \cup {e}]
  /\ \E o \in Outcomes : unc' = [Land(unc, IdOf(c)) EXCEPT ![e] = Append(@, [m |-> o[1], us |-> o[2], id |-> IdOf(c), flying |-> TRUE, in |-> FALSE])]
CalVisit(c) ==        \* the next engine of the map: an engine which is not ready is passed over
  /\ calPc[c] = "visit" /\ calTodo[c] # {}
  /\ \E e \in calTodo[c] :
       /\ calTodo' = [calTodo EXCEPT ![c] = @ \ {e}]
       /\ IF Ready(e) THEN Ask(c, e) ELSE UNCHANGED <<calEng, calPc, hu, unc>>
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calCur, calLeft, taken>>
CalLast(c) ==
  /\ calPc[c] = "visit" /\ calTodo[c] = {} /\ calEng[c] # calCur[c]
  /\ Ask(c, calCur[c])
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calCur, calTodo, calLeft, taken>>
CalCount(c) ==        \* the monitor receives what the search took
  /\ calPc[c] = "count" /\ monPc[calEng[c]] = "loop"
  /\ unc' = [unc EXCEPT ![calEng[c]] = [k \in 1..Len(@) |-> IF @[k].id = IdOf(c) THEN [@[k] EXCEPT !.in = TRUE] ELSE @[k]]]
  /\ calPc' = [calPc EXCEPT ![c] = "visit"]
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calCur, calTodo, calEng, calLeft, hu, taken>>
CalEnd(c) ==
  /\ calPc[c] = "visit" /\ calTodo[c] = {} /\ calEng[c] = calCur[c]
  /\ calPc' = [calPc EXCEPT ![c] = "idle"] /\ calEng' = [calEng EXCEPT ![c] = ""] /\ calCur' = [calCur EXCEPT ![c] = ""]
  /\ unc' = Land(unc, IdOf(c)) /\ hu' = [k \in DOMAIN hu \ {IdOf(c)} |-> hu[k]]
  /\ calLeft' = [calLeft EXCEPT ![c] = @ - 1]
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, mainQ, calTodo, taken>>

\* --- time and the consumer
Pass1 ==
  /\ clock < Periods /\ clock' = clock + 1 /\ pending' = [q \in DOMAIN pending |-> TRUE]      \* a tick not taken in time is lost
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, current, speeds, mainQ, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>
Get ==
  /\ mainQ # <<>> /\ mainQ' = Tail(mainQ)
  /\ UNCHANGED <<genPc, monPc, monMsg, lisPc, lisMsg, tckPc, tckMsg, token, pending, clock, current, speeds, calPc, calCur, calTodo, calEng, calLeft, unc, hu, taken>>

Finished ==
  /\ clock = Periods /\ mainQ = <<>> /\ lisPc = "recv" /\ tckPc = "wait" /\ token = ""
  /\ \A e \in Kinds : genPc[e] = "done" /\ monPc[e] = "loop"
  /\ \A q \in DOMAIN pending : ~pending[q]
  /\ \A c \in Callers : calPc[c] = "idle" /\ calLeft[c] = 0

Step ==
  \/ \E e \in Kinds : Deploy(e) \/ SendGenerated(e) \/ MonTick(e) \/ MonSend(e)
  \/ LisHandle \/ LisAcquire \/ LisKeep \/ LisStore \/ LisReread \/ LisPass
  \/ TckAcquire \/ TckReread \/ TckSend
  \/ \E c \in Callers : CalBegin(c) \/ CalVisit(c) \/ CalLast(c) \/ CalCount(c) \/ CalEnd(c)
  \/ Pass1 \/ Get
Next == Step \/ (Finished /\ UNCHANGED ivars)
Spec == Init /\ [][Next]_ivars /\ WF_ivars(Step)

---------------------------------------------------------------------------
(* what of this is seen in Factory.tla *)
Held == IF lisPc = "got" /\ lisMsg.type # "generated" THEN <<lisMsg>> ELSE <<>>
Sending(e) == CASE monPc[e] = "traffic" -> SelectSeq(monMsg[e], LAMBDA x : x # Nothing)
                [] monPc[e] = "status"  -> <<monMsg[e][2]>>
                [] OTHER -> <<>>
Fac == INSTANCE Factory WITH
  engines <- Kinds, period <- 1, made <- {e \in Kinds : Ready(e)}, serving <- current, perf <- speeds,
  uncounted <- [e \in Kinds |-> [k \in 1..Len(unc[e]) |-> [n |-> 1, m |-> IF unc[e][k].m THEN 1 ELSE 0, us |-> unc[e][k].us, id |-> unc[e][k].id, flying |-> unc[e][k].flying]]],
  fresh <- {e \in Kinds : genPc[e] = "send"} \cup (IF lisMsg.type = "generated" /\ lisPc \in {"got", "keep", "store"} THEN {lisMsg.e} ELSE {}),
  posted <- [e \in Kinds |-> (IF Held # <<>> /\ lisMsg.e = e THEN Held ELSE <<>>) \o Sending(e)],
  inhand <- CASE lisPc = "pass" -> <<lisMsg>>
              [] lisPc = "reread" -> <<Note("selected", lisMsg.e, 0, 0, 0)>>
              [] OTHER -> <<>>,
  chosen <- CASE tckPc = "send" -> <<tckMsg>>
              [] tckPc = "reread" -> <<Note("selected", current, 0, 0, 0)>>
              [] OTHER -> <<>>,
  outbox <- mainQ,
  dueAt <- [q \in Kinds \cup {"factory"} |-> taken[q] + 1],
  hunts <- hu

FacNext ==
  \/ \E e \in Kinds : Fac!Generate(e) \/ Fac!Welcome(e) \/ Fac!Handle(e) \/ Fac!Tick(e, clock)
  \/ Fac!Pass \/ Fac!TickFactory(clock) \/ Fac!Announce \/ Fac!Consume
  \/ \E c \in Callers : \/ Fac!Begin(IdOf(c), {e \in Kinds : Ready(e)}) \/ Fac!Done(IdOf(c), calCur[c])
                        \/ \E e \in Kinds, o \in Outcomes : Fac!Asked(e, IdOf(c), o[1], o[2])
Refines == [][FacNext]_(Fac!fvars)

ServesOnlyMade == Fac!ServesOnlyMade
NoMoreMatchesThanEvents == Fac!NoMoreMatchesThanEvents
OnlyMadeAreAsked == Fac!OnlyMadeAreAsked
LastAnnounced == Fac!LastAnnounced
Ends == <>Finished       \* (every behaviour of Step is finite, so without deadlock this holds)
\* nothing is counted twice or lost: at the end everything searched has been or will be reported
EachCountedOnce == \A e \in Kinds : \A j, k \in 1..Len(unc[e]) : unc[e][j].id = unc[e][k].id => j = k
=============================================================================
