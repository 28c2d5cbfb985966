------------------------------ MODULE Factory ------------------------------
(***************************************************************************)
(* The engine factory: several engines are generated, one of them is in    *)
(* service, all generated ones are measured on the same events, and every  *)
(* interval each reports its traffic and the best one is put in service.   *)
(*                                                                         *)
(* The specification abstracts from goroutines and channels: a message is  *)
(* sent, handled by the factory and consumed in separate steps, of         *)
(* different engines in any order, of one engine in the order sent.        *)
(* Time is counted in units of the interval's resolution.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Prio == [LegacyEngine |-> 0, List |-> 1, SplayTree |-> 2, PatriciaTrie |-> 3]
F == "factory"                         \* the factory's own ticks and announcements

VARIABLES
  engines,      \* the engines there are
  period,       \* the interval
  made,         \* engines whose generation has finished
  serving,      \* the engine in service, or ""
  perf,         \* the most recently reported throughput of each engine: <<events, microseconds>>
  uncounted,    \* engine -> events searched but not yet reported: [n: how many, m: matched, us: time, id: search, flying: perhaps not yet counted]
  fresh,        \* engines which have been generated, which the factory has not yet handled
  posted,       \* engine -> messages sent to the factory, not yet handled
  inhand,       \* the message the factory is handling: it has taken effect but is not yet passed on
  chosen,       \* the announcement of the engine chosen at a tick, not yet sent
  outbox,       \* messages for the consumer, not yet consumed
  dueAt,        \* engine or F -> the time of the next tick (none before it exists)
  hunts         \* search -> [must: engines to be offered the event, asked: those offered, could: engines that may answer]
fvars == <<engines, period, made, serving, perf, uncounted, fresh, posted, inhand, chosen, outbox, dueAt, hunts>>

Msg(type, e, n, m, us) == [type |-> type, e |-> e, n |-> n, m |-> m, us |-> us]
Selected(e) == Msg("selected", e, 0, 0, 0)

\* an engine serves from now on; running searches may meet it
Serve(e) == /\ serving' = e
            /\ hunts' = [k \in DOMAIN hunts |-> [hunts[k] EXCEPT !.could = @ \cup {e}]]

---------------------------------------------------------------------------
Create(es, interval, now) ==
  /\ engines' = es /\ period' = interval
  /\ made' = {} /\ serving' = "" /\ perf' = [e \in es |-> <<0, 1>>]
  /\ uncounted' = [e \in es |-> <<>>]
  /\ fresh' = {} /\ posted' = [e \in es |-> <<>>]
  /\ inhand' = <<>> /\ chosen' = <<>> /\ outbox' = <<>>
  /\ dueAt' = [e \in es |-> now + interval]
  /\ hunts' = <<>>

Run(now) == /\ dueAt' = (F :> now + period) @@ dueAt
            /\ UNCHANGED <<engines, period, made, serving, perf, uncounted, fresh, posted, inhand, chosen, outbox, hunts>>

\* an engine's generation finishes
Generate(e) == /\ e \in engines \ made
               /\ made' = made \cup {e} /\ fresh' = fresh \cup {e}
               /\ UNCHANGED <<engines, period, serving, perf, uncounted, posted, inhand, chosen, outbox, dueAt, hunts>>

\* The factory learns that an engine has been generated.  No engine is put in service while the
\* previous one has not been announced, so announcements come in the order of the changes.
Welcome(e) ==
  /\ e \in fresh /\ fresh' = fresh \ {e}
  /\ inhand = <<>> /\ chosen = <<>>
  /\ IF serving = "" \/ Prio[serving] < Prio[e]
     THEN Serve(e) /\ inhand' = <<Selected(e)>>
     ELSE UNCHANGED <<serving, hunts, inhand>>
  /\ UNCHANGED <<engines, period, made, perf, uncounted, posted, chosen, outbox, dueAt>>
\* the factory handles the next message of an engine
Handle(e) ==
  /\ inhand = <<>> /\ posted[e] # <<>>
  /\ posted' = [posted EXCEPT ![e] = Tail(@)]
  /\ \E msg \in {Head(posted[e])} :
       /\ perf' = IF msg.type = "status" THEN [perf EXCEPT ![e] = <<msg.n, msg.us>>] ELSE perf
       /\ inhand' = <<msg>>
  /\ UNCHANGED <<engines, period, made, serving, uncounted, fresh, chosen, outbox, dueAt, hunts>>
\* ... and passes it on
Pass == /\ inhand # <<>> /\ inhand' = <<>> /\ outbox' = outbox \o inhand
        /\ UNCHANGED <<engines, period, made, serving, perf, uncounted, fresh, posted, chosen, dueAt, hunts>>

\* An engine's tick: the events since the last one are reported.  An event whose search has gone on
\* is counted; the one a search has just asked of the engine may or may not be.
Sum(q, P(_)) == FoldLeft(LAMBDA a, x : a + P(x), 0, q)
Counted(q) == [n |-> Sum(q, LAMBDA x : x.n), m |-> Sum(q, LAMBDA x : x.m), us |-> Sum(q, LAMBDA x : x.us)]
Flying(q) == {q[k].id : k \in {k \in 1..Len(q) : q[k].flying}}
Landed(unc, ids) == [e \in DOMAIN unc |-> [k \in 1..Len(unc[e]) |-> IF unc[e][k].id \in ids THEN [unc[e][k] EXCEPT !.flying = FALSE] ELSE unc[e][k]]]
Tick(e, upto) ==
  /\ e \in DOMAIN dueAt /\ e # F /\ dueAt[e] <= upto
  /\ dueAt' = [dueAt EXCEPT ![e] = @ + period]
  /\ \E late \in SUBSET Flying(uncounted[e]) :
       \E c \in {Counted(SelectSeq(uncounted[e], LAMBDA x : ~(x.flying /\ x.id \in late)))} :
         /\ uncounted' = [uncounted EXCEPT ![e] = SelectSeq(@, LAMBDA x : x.flying /\ x.id \in late)]
         /\ posted' = [posted EXCEPT ![e] = @ \o <<Msg("traffic", e, c.n, c.m, 0)>>
                                              \o (IF c.n > 0 /\ c.us > 0 THEN <<Msg("status", e, c.n, 0, c.us)>> ELSE <<>>)]
  /\ UNCHANGED <<engines, period, made, serving, perf, fresh, inhand, chosen, outbox, hunts>>

\* the factory's tick: the engine with the highest throughput is put in service
RECURSIVE Above(_, _, _, _)             \* a/b > c/d, without large numbers
Above(a, b, c, d) == IF a \div b # c \div d THEN a \div b > c \div d
                     ELSE a % b # 0 /\ (c % d = 0 \/ Above(d, c % d, b, a % b))
Faster(p, q) == IF p[1] < 1000 /\ q[1] < 1000 THEN p[1] * q[2] > q[1] * p[2] ELSE Above(p[1], p[2], q[1], q[2])
Best == {e \in engines : perf[e][1] > 0 /\ \A o \in engines : ~Faster(perf[o], perf[e])}
Announcing == chosen # <<>> \/ (inhand # <<>> /\ Head(inhand).type = "selected")
TickFactory(upto) ==
  /\ F \in DOMAIN dueAt /\ dueAt[F] <= upto /\ ~Announcing
  /\ dueAt' = [dueAt EXCEPT ![F] = @ + period]
  /\ IF Best = {} THEN UNCHANGED <<serving, hunts>> ELSE \E e \in Best : Serve(e)
  /\ chosen' = IF serving' = "" THEN <<>> ELSE <<Selected(serving')>>
  /\ UNCHANGED <<engines, period, made, perf, uncounted, fresh, posted, inhand, outbox>>
\* ... and announced
Announce ==
  /\ chosen # <<>> /\ chosen' = <<>> /\ outbox' = outbox \o chosen
  /\ UNCHANGED <<engines, period, made, serving, perf, uncounted, fresh, posted, inhand, dueAt, hunts>>

---------------------------------------------------------------------------
\* an event is searched; an engine generated at the same instant (not yet known) may or may not be offered it
Begin(id, known) ==
             /\ serving # "" /\ known \subseteq made
             /\ hunts' = (id :> [must |-> known, asked |-> {}, could |-> {serving}]) @@ hunts
             /\ UNCHANGED <<engines, period, made, serving, perf, uncounted, fresh, posted, inhand, chosen, outbox, dueAt>>
\* an engine searches the event, once
Asked(e, id, m, us) ==
  /\ id \in DOMAIN hunts /\ e \in made /\ e \notin hunts[id].asked
  /\ hunts' = [hunts EXCEPT ![id].asked = @ \cup {e}]
  /\ uncounted' = [Landed(uncounted, {id}) EXCEPT ![e] = Append(@, [n |-> 1, m |-> IF m THEN 1 ELSE 0, us |-> us, id |-> id, flying |-> TRUE])]
  /\ UNCHANGED <<engines, period, made, serving, perf, fresh, posted, inhand, chosen, outbox, dueAt>>
\* the answer is that of an engine in service
Done(id, e) == /\ id \in DOMAIN hunts
               /\ e \in hunts[id].could /\ e \in hunts[id].asked
               /\ hunts[id].must \subseteq hunts[id].asked
               /\ hunts' = [k \in DOMAIN hunts \ {id} |-> hunts[k]]
               /\ uncounted' = Landed(uncounted, {id})
               /\ UNCHANGED <<engines, period, made, serving, perf, fresh, posted, inhand, chosen, outbox, dueAt>>

\* n events are searched one after the other while nothing else happens and no time passes;
\* each engine is asked each of them, and m[e] of them match
Burst(e, n, asked, m) ==
  /\ serving # "" /\ hunts = <<>> /\ e = serving
  /\ \A o \in made : asked[o] = n
  /\ uncounted' = [o \in engines |-> IF o \in made THEN Append(uncounted[o], [n |-> n, m |-> m[o], us |-> 0, id |-> 0, flying |-> FALSE]) ELSE uncounted[o]]
  /\ UNCHANGED <<engines, period, made, serving, perf, fresh, posted, inhand, chosen, outbox, dueAt, hunts>>

\* the next message reaches the consumer
Consume == /\ outbox # <<>> /\ outbox' = Tail(outbox)
           /\ UNCHANGED <<engines, period, made, serving, perf, uncounted, fresh, posted, inhand, chosen, dueAt, hunts>>

\* Nothing is left to do and everything due has happened; if the consumer has not always kept up
\* (slack), ticks may have been missed.
After(d, now) == IF d > now THEN d ELSE d + ((now - d) \div period + 1) * period
Quiet(now, searching, slack) ==
  /\ fresh = {} /\ \A e \in engines : posted[e] = <<>>
  /\ inhand = <<>> /\ chosen = <<>> /\ outbox = <<>>
  /\ slack \/ \A q \in DOMAIN dueAt : dueAt[q] > now
  /\ dueAt' = [q \in DOMAIN dueAt |-> After(dueAt[q], now)]
  /\ searching = 0 => hunts = <<>>
  /\ uncounted' = Landed(uncounted, UNION {Flying(uncounted[e]) : e \in engines})
  /\ UNCHANGED <<engines, period, made, serving, perf, fresh, posted, inhand, chosen, outbox, hunts>>

---------------------------------------------------------------------------
(* what users rely on; checked on every state of every validated run *)
ServesOnlyMade == serving # "" => serving \in made
NoMoreMatchesThanEvents ==
  \A q \in DOMAIN posted : \A k \in 1..Len(posted[q]) : posted[q][k].m <= posted[q][k].n \/ posted[q][k].type # "traffic"
OnlyMadeAreAsked == \A k \in DOMAIN hunts : hunts[k].asked \subseteq made
\* the announcements tell the engine in service
LastAnnounced ==
  LET a == SelectSeq(outbox \o inhand \o chosen, LAMBDA x : x.type = "selected")
  IN a # <<>> => Last(a).e = serving
=============================================================================
