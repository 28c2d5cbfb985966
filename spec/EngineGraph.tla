---------------------------- MODULE EngineGraph ----------------------------
(***************************************************************************)
(* Bounded model of Engine over small universes of patterns chosen to have *)
(* every nesting relation (chains, forks, siblings, covers, no common      *)
(* prefix).  TLC explores every set of subscriptions and every operation,  *)
(* checks the design invariants below, and prints every transition with    *)
(* its expected answer; the driver replays all walks through this graph on *)
(* every real engine.                                                      *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

P(typ, fields) == "urn:epc:pat:" \o typ \o ":" \o fields
TagEpc(s, f) == [pc |-> <<48, 0>>, id |-> EncodeEpc(s, f)]
TagIso(t, afi, f) == [pc |-> <<49, afi>>, id |-> EncodeIso(t, f)]

\* "ops": which single and multi-pattern updates are tried
BasicUniverses == <<
  \* a chain of covers with forks at each level
  [pats |-> <<P("sgtin-96", "3"), P("sgtin-96", "3.0614141"), P("sgtin-96", "3.0614141.812345"),
              P("sgtin-96", "3.0614141.812346"), P("sgtin-96", "3.0614142"), P("sgtin-96", "3.0614141.812345.7")>>,
   dest |-> <<"a", "b", "c", "d", "b", "e">>,
   pairs |-> <<<<1, 2>>, <<3, 6>>, <<4, 5>>>>,
   probes |-> <<TagEpc("sgtin", <<"3", "0614141", "812345", "7">>), TagEpc("sgtin", <<"3", "0614141", "812345", "6">>),
                TagEpc("sgtin", <<"3", "0614141", "812346", "7">>), TagEpc("sgtin", <<"3", "0614142", "812346", "7">>),
                TagEpc("sgtin", <<"3", "061414", "0812346", "7">>), TagEpc("sgtin", <<"2", "0614141", "812345", "7">>)>>],
  \* flat siblings and unrelated schemes: nothing in common but the first bits
  [pats |-> <<P("sgtin-96", "0"), P("sgtin-96", "1"), P("sscc-96", "1"), P("grai-96", "7"), P("giai-96", "2.061414"), P("iso17365", "25S")>>,
   dest |-> <<"a", "b", "c", "d", "e", "f">>,
   pairs |-> <<<<1, 6>>, <<2, 3>>, <<4, 5>>>>,
   probes |-> <<TagEpc("sgtin", <<"0", "0614141", "812345", "7">>), TagEpc("sgtin", <<"1", "0614141", "812345", "7">>),
                TagEpc("sscc", <<"1", "0614141", "1234567890">>), TagEpc("grai", <<"7", "0614141", "12345", "1">>),
                TagEpc("giai", <<"2", "061414", "77">>), TagIso("iso17365", 162, <<"25S", "UN", "ABC", "1">>),
                TagEpc("sgtin", <<"2", "0614141", "812345", "7">>)>>],
  \* ISO text: six-bit steps, a cover added over existing siblings, the cover of everything
  [pats |-> <<P("iso17363", "7B"), P("iso17363", "7B.ABC"), P("iso17363", "7B.ABD"), P("iso17363", "7B.ABC.U"),
              P("iso17363", "7B.ABC.J"), P("iso17363", "7B.ABC.U.000001")>>,
   dest |-> <<"a", "b", "c", "d", "e", "f">>,
   pairs |-> <<<<2, 3>>, <<4, 5>>, <<1, 6>>>>,
   probes |-> <<TagIso("iso17363", 169, <<"7B", "ABC", "U", "000001">>), TagIso("iso17363", 169, <<"7B", "ABC", "U", "000002">>),
                TagIso("iso17363", 169, <<"7B", "ABC", "J", "000001">>), TagIso("iso17363", 169, <<"7B", "ABD", "U", "000001">>),
                TagIso("iso17363", 169, <<"7B", "XYZ", "U", "000001">>), TagIso("iso17365", 162, <<"J", "UN", "ABC", "1">>)>>],
  \* single characters: the bits of one pattern end inside the next one's field
  [pats |-> <<P("iso17365", "J"), P("iso17365", "J.A"), P("iso17365", "J.AB"), P("iso17365", "J.AC"), P("iso17365", "J.B"), P("iso17365", "J.AB.C.D")>>,
   dest |-> <<"a", "a", "b", "b", "c", "d">>,
   pairs |-> <<<<1, 3>>, <<2, 5>>, <<4, 6>>>>,
   probes |-> <<TagIso("iso17365", 162, <<"J", "AB", "C", "D">>), TagIso("iso17365", 162, <<"J", "AB", "C", "E">>),
                TagIso("iso17365", 162, <<"J", "AC", "C", "D">>), TagIso("iso17365", 162, <<"J", "A", "X", "D">>),
                TagIso("iso17365", 162, <<"J", "B", "X", "D">>), TagIso("iso17365", 162, <<"J", "Z", "X", "D">>)>>],
  \* sibling leaves only (what a splay tree reorders)
  [pats |-> <<P("sscc-96", "0.0614141"), P("sscc-96", "0.0614142"), P("sscc-96", "0.0614149"), P("sscc-96", "0.9614141"),
              P("sscc-96", "0.061414"), P("sscc-96", "0.061414100000")>>,
   dest |-> <<"a", "b", "c", "d", "e", "f">>,
   pairs |-> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>,
   probes |-> <<TagEpc("sscc", <<"0", "0614141", "1234567890">>), TagEpc("sscc", <<"0", "0614142", "1234567890">>),
                TagEpc("sscc", <<"0", "0614149", "1234567890">>), TagEpc("sscc", <<"0", "9614141", "1234567890">>),
                TagEpc("sscc", <<"0", "061414", "12345678901">>), TagEpc("sscc", <<"0", "061414100000", "12345">>)>>],
  \* two groups side by side, each with a cover
  [pats |-> <<P("grai-96", "1.0614141"), P("grai-96", "1.0614141.00001"), P("grai-96", "1.0614141.99999"),
              P("giai-96", "1.0614141"), P("giai-96", "1.0614141.1"), P("giai-96", "1.0614141.2")>>,
   dest |-> <<"a", "b", "c", "d", "e", "f">>,
   pairs |-> <<<<1, 4>>, <<2, 3>>, <<5, 6>>>>,
   probes |-> <<TagEpc("grai", <<"1", "0614141", "00001", "5">>), TagEpc("grai", <<"1", "0614141", "99999", "5">>),
                TagEpc("grai", <<"1", "0614141", "12345", "5">>), TagEpc("giai", <<"1", "0614141", "1">>),
                TagEpc("giai", <<"1", "0614141", "2">>), TagEpc("giai", <<"1", "0614142", "1">>)>>]
>>
\* larger ones for deep runs
DeepUniverses == <<
  \* covers of covers with forks on three levels, and company prefixes of every length of one number
  [pats |-> <<P("sgtin-96", "1"), P("sgtin-96", "1.061414"), P("sgtin-96", "1.0614141"), P("sgtin-96", "1.0614141.812345"),
              P("sgtin-96", "1.0614141.812345.7"), P("sgtin-96", "1.0614141.812345.8"), P("sgtin-96", "1.0614141.812346"), P("sgtin-96", "5.0614141.812346")>>,
   dest |-> <<"a", "b", "c", "d", "e", "f", "g", "h">>,
   pairs |-> <<<<1, 8>>, <<2, 3>>, <<4, 7>>, <<5, 6>>, <<1, 4>>>>,
   probes |-> <<TagEpc("sgtin", <<"1", "0614141", "812345", "7">>), TagEpc("sgtin", <<"1", "0614141", "812345", "8">>),
                TagEpc("sgtin", <<"1", "0614141", "812345", "6">>), TagEpc("sgtin", <<"1", "0614141", "812346", "7">>),
                TagEpc("sgtin", <<"1", "061414", "0812346", "7">>), TagEpc("sgtin", <<"1", "0614142", "812346", "7">>),
                TagEpc("sgtin", <<"5", "0614141", "812346", "7">>), TagEpc("sgtin", <<"2", "0614141", "812346", "7">>)>>],
  \* both families of tags, each with covers, and bits that agree beyond the shorter one
  [pats |-> <<P("iso17363", "7B.ABC"), P("iso17363", "7B.ABC.U.000001"), P("iso17365", "7B"), P("iso17365", "25S.UN"),
              P("iso17365", "25S.UN.ABC"), P("sscc-96", "3"), P("sscc-96", "3.0614141"), P("giai-96", "3.0614141.1")>>,
   dest |-> <<"a", "a", "b", "b", "c", "c", "d", "e">>,
   pairs |-> <<<<1, 4>>, <<2, 5>>, <<3, 6>>, <<7, 8>>, <<3, 1>>>>,
   probes |-> <<TagIso("iso17363", 169, <<"7B", "ABC", "U", "000001">>), TagIso("iso17363", 169, <<"7B", "ABC", "J", "000001">>),
                TagIso("iso17363", 169, <<"7B", "XYZ", "U", "000001">>), TagIso("iso17365", 162, <<"25S", "UN", "ABC", "1">>),
                TagIso("iso17365", 162, <<"25S", "UN", "ABD", "1">>), TagEpc("sscc", <<"3", "0614141", "1234567890">>),
                TagEpc("sscc", <<"3", "0614142", "1234567890">>), TagEpc("giai", <<"3", "0614141", "1">>)>>]
>>
BasicAndDeep == IF IOEnv.DEEP = "1" THEN BasicUniverses \o DeepUniverses ELSE BasicUniverses
\* IDs no reader should send: too short for some or all patterns, too long, without protocol control bits
Junk(p) == <<[pc |-> <<>>, id |-> ""], [pc |-> p.pc, id |-> SubSeq(p.id, 1, 8)], [pc |-> <<48>>, id |-> SubSeq(p.id, 1, (Len(p.id) \div 16) * 8)],
             [pc |-> p.pc, id |-> p.id \o "00000000"]>>
Universes == TLCEval([u \in 1..Len(BasicAndDeep) |->
               TLCEval([BasicAndDeep[u] EXCEPT !.probes = @ \o Junk(@[1])] @@ [junk |-> Len(BasicAndDeep[u].probes) + 1])])
NPats(u) == Len(Universes[u].pats)

FilterTab == TLCEval([u \in 1..Len(Universes) |-> TLCEval([p \in {Universes[u].pats[k] : k \in 1..NPats(u)} |-> PatternFilter(p)])])
TextTab   == TLCEval([u \in 1..Len(Universes) |-> TLCEval([p \in {Universes[u].pats[k] : k \in 1..NPats(u)} |-> LegacyText(p)])])
AllPats == UNION {DOMAIN FilterTab[u] : u \in 1..Len(Universes)}
FilterAll == TLCEval([p \in AllPats |-> PatternFilter(p)])
TextAll == TLCEval([p \in AllPats |-> LegacyText(p)])
CachedFilter(p) == FilterAll[p]
CachedText(p) == TextAll[p]
IdTab == [u \in 1..Len(Universes) |-> TLCEval([j \in 1..Len(Universes[u].probes) |->
            Translate(Universes[u].probes[j].pc, Universes[u].probes[j].id)])]

\* the universe files for the driver
ASSUME JsonSerialize(IOEnv.UNIVERSES, Universes)

VARIABLES uni, have         \* the universe; the indices of the subscribed patterns
Sub(u, ks) == {<<Universes[u].pats[k], Universes[u].dest[k]>> : k \in ks}

GraphKinds == {"PatriciaTrie", TextKind}

Init == /\ uni \in 1..Len(Universes)
        /\ have \in SUBSET (1..NPats(uni))
        /\ \E kind \in GraphKinds : engs = ("x" :> Built(kind, Sub(uni, have)))

Edge(act, arg, to, ans) ==
  PrintT("@@" \o ToJson([u |-> uni, k |-> engs["x"].kind, from |-> have, act |-> act, arg |-> arg, to |-> to, ans |-> ans]))

Groups == {{k} : k \in 1..NPats(uni)} \cup {{Universes[uni].pairs[k][1], Universes[uni].pairs[k][2]} : k \in 1..Len(Universes[uni].pairs)}

DoAdd == \E g \in Groups : /\ Add("x", Sub(uni, g)) /\ have' = have \cup g /\ UNCHANGED uni
                           /\ Edge("add", g, have \cup g, <<>>)
DoDelete == \E g \in Groups : /\ Delete("x", Sub(uni, g)) /\ have' = have \ g /\ UNCHANGED uni
                              /\ Edge("del", g, have \ g, <<>>)
DoSave == /\ SaveRestore("x", "x") /\ UNCHANGED <<uni, have>>
          /\ Edge("save", {}, have, <<>>)
DoSearch == \E j \in 1..Len(Universes[uni].probes) :
              \E r \in {Reports(engs["x"], Universes[uni].probes[j].id, IdTab[uni][j])} :
                /\ Search("x", Universes[uni].probes[j].id, IdTab[uni][j], r)
                /\ UNCHANGED <<uni, have>>
                /\ Edge(IF j >= Universes[uni].junk THEN "junk" ELSE "search", {j}, have, r)
Next == DoAdd \/ DoDelete \/ DoSave \/ DoSearch

---------------------------------------------------------------------------
(* design invariants *)
ViewIsFaithful == engs["x"].subs = View(engs["x"].kind, Sub(uni, have))
\* the universes have one subscriber per filter (two would be finding F1 in DESIGN.md)
OneDestPerKey == \A s1, s2 \in engs["x"].subs : s1[1] = s2[1] => s1 = s2
Probes == 1..Len(Universes[uni].probes)
R(e, j) == Reports(e, Universes[uni].probes[j].id, IdTab[uni][j])
\* adding p changes the reports of no other subscription; deleting it restores them
AddDeleteIsNeutral ==
  \A k \in (1..NPats(uni)) \ have :
    LET e == engs["x"]
        f == AfterAdd(e, Sub(uni, {k}))
    IN /\ AfterDelete(f, Sub(uni, {k})) = e
       /\ \A j \in Probes : \A d \in DOMAIN R(e, j) : R(f, j)[d] >= R(e, j)[d]
\* every tag is well formed and somebody's in the full universe
ProbesOk == \A j \in 1..(Universes[uni].junk - 1) : IdTab[uni][j] # ERR
=============================================================================
