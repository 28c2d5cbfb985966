------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The abstract filtering engine: a set of subscriptions and a search that *)
(* depends on nothing else.  All engines (list, Patricia trie, splay tree, *)
(* legacy text engine) must behave like this object; how they arrange      *)
(* their nodes is none of this module's business.                          *)
(***************************************************************************)
EXTENDS Tdt

CONSTANTS FilterOf(_),       \* the bit prefix a pattern denotes (PatternFilter)
          TextOf(_)         \* the identity prefix a pattern denotes (LegacyText)

TextKind == "LegacyEngine"
ByteKinds == {"List", "PatriciaTrie", "SplayTree"}
Kinds == ByteKinds \cup {TextKind}

(* A subscription is <<key, dest>>: the key is a bit prefix for the byte    *)
(* engines and the pattern's text for the text engine.  subs is a set of    *)
(* <<pattern, dest>>.                                                       *)
KeyOf(kind, pat) == IF kind = TextKind THEN pat ELSE FilterOf(pat)
View(kind, subs) == {s \in {<<KeyOf(kind, x[1]), x[2]>> : x \in subs} : s[1] # ERR}

Built(kind, subs)          == [kind |-> kind, subs |-> View(kind, subs)]
AfterAdd(eng, subs)        == [eng EXCEPT !.subs = @ \cup View(eng.kind, subs)]
AfterDelete(eng, subs)     == [eng EXCEPT !.subs = @ \ View(eng.kind, subs)]
Restored(eng, kind)        == [eng EXCEPT !.kind = kind]

Matches(kind, key, id, identity) ==
  IF kind = TextKind THEN LegacyMatch(TextOf(key), identity) ELSE StartsWith(id, key)

\* the matching subscriptions
Hits(eng, id, identity) == {s \in eng.subs : Matches(eng.kind, s[1], id, identity)}

\* one report per matching subscription: how often each destination is reported
Reports(eng, id, identity) ==
  LET h == Hits(eng, id, identity)
  IN [d \in {s[2] : s \in h} |-> Cardinality({s \in h : s[2] = d})]

---------------------------------------------------------------------------
(* The engines' life as transitions; e is the name of an engine object.     *)
VARIABLE engs               \* engine name -> engine

Put(e, x) == engs' = (e :> x) @@ engs

Build(e, kind, subs)  == Put(e, Built(kind, subs))
Add(e, subs)          == e \in DOMAIN engs /\ Put(e, AfterAdd(engs[e], subs))
Delete(e, subs)       == e \in DOMAIN engs /\ Put(e, AfterDelete(engs[e], subs))
SaveRestore(e, f)     == e \in DOMAIN engs /\ Put(f, engs[e])
\* a search changes nothing and answers r
Search(e, id, identity, r) == /\ e \in DOMAIN engs
                              /\ r = Reports(engs[e], id, identity)
                              /\ UNCHANGED engs
=============================================================================
