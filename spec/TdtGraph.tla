------------------------------ MODULE TdtGraph ------------------------------
(***************************************************************************)
(* Bounded model of tag data translation at its boundaries: every scheme   *)
(* and partition with every power of two, every 2^k-1 and every limit of   *)
(* decimal digits in each field, raw bits with single bits set, all        *)
(* headers, partitions and lengths, all AFIs, all 6-bit characters at all  *)
(* alignments, all lengths, and every kind of bad field at every position. *)
(* A case is taken through the life of a tag; TLC checks the design        *)
(* lemmas below on each case and prints each case with the outcome the     *)
(* specification demands; the driver replays the cases on the real code.   *)
(***************************************************************************)
EXTENDS Tdt, Json, IOUtils

Walk(k) == "1" \o Rep("0", k)                 \* 2^k
Ones(k) == Rep("1", k)                        \* 2^k - 1
\* numerals of at most d digits and b bits at the boundaries
Edge(b, d) == TLCEval(
  {x \in {BitsToDec(Walk(k)) : k \in 0..(b - 1)} \cup {BitsToDec(Ones(k)) : k \in 1..b} : Len(x) <= d}
  \cup {"0"} \cup {Rep("9", j) : j \in {m \in 1..d : Bits(Rep("9", m), b) # ERR}}
  \cup {"1" \o Rep("0", j) : j \in {m \in 0..(d - 1) : Bits("1" \o Rep("0", m), b) # ERR}})

CpEdge  == TLCEval([n \in CpLens |-> {PadL(x, n) : x \in Edge(CpBits[n], n)}])
RefLen(s, n) == IF NoRef(s, n) THEN 1 ELSE RefDigits[s][n]
Spell(s, n, x) == IF s = "giai" THEN x ELSE PadL(x, RefLen(s, n))
RefEdge == TLCEval([s \in Schemes |-> TLCEval([n \in CpLens |-> {Spell(s, n, x) : x \in Edge(RefBits[s][n], RefLen(s, n))}])])
SerEdge == TLCEval(Edge(38, 12))

Fields(s, fv, cp, rf, sr) == IF HasSerial[s] THEN <<fv, cp, rf, sr>> ELSE <<fv, cp, rf>>
\* "background" fields: all zeros or large
Bg == <<[cp |-> [n \in CpLens |-> Rep("0", n)], rf |-> "0", sr |-> "0"],
        [cp |-> [n \in CpLens |-> Rep("9", n)], rf |-> "7", sr |-> BitsToDec(Ones(38))]>>

Texts == <<"A", "7B", "25S", "QX9">>
SixC(v) == Ch(SixChars, v)
\* three letters, the k-th one being c
Letters3(k, c) == Rep("M", k - 1) \o c \o Rep("M", 3 - k)

VARIABLES kase, phase, outcome
vars == <<kase, phase, outcome>>

\* all kinds of cases have the same fields: op, typ, f (strings), pc (bytes), id (bits)
Case(op, typ, f, pc, id) == [op |-> op, typ |-> typ, f |-> f, pc |-> pc, id |-> id]

EpcCase ==
  \E s \in Schemes, n \in CpLens, b \in 1..2 :
    LET rf0 == Spell(s, n, Bg[b].rf) IN
    \/ \E x \in CpEdge[n]     : kase = Case("epc", s, Fields(s, "3", x, rf0, Bg[b].sr), <<48, 0>>, "")
    \/ \E x \in RefEdge[s][n] : kase = Case("epc", s, Fields(s, "5", Bg[b].cp[n], x, Bg[b].sr), <<48, 0>>, "")
    \/ HasSerial[s] /\ \E x \in SerEdge : kase = Case("epc", s, Fields(s, "6", Bg[b].cp[n], rf0, x), <<48, 0>>, "")
    \/ \E v \in 0..7 : kase = Case("epc", s, Fields(s, ToString(v), Bg[b].cp[n], rf0, Bg[b].sr), <<48, 0>>, "")

ByteBits(v) == Nibbles[(v \div 16) + 1] \o Nibbles[(v % 16) + 1]
Flip(b, i) == SubSeq(b, 1, i - 1) \o (IF Ch(b, i) = "0" THEN "1" ELSE "0") \o SubSeq(b, i + 1, Len(b))
\* the bits of 10^d, 10^d - 1 in b bits
Pow10(d, b) == Bits("1" \o Rep("0", d), b)
RawCase ==
  \/ \E s \in Schemes, p \in 0..7, v \in {0, 7} :                \* single bits and single zeros
       LET h == Header[s] \o SubSeq(Nibbles[v + 1], 2, 4) \o SubSeq(Nibbles[p + 1], 2, 4) IN
       \/ \E i \in 1..82 : kase = Case("translate", "", <<>>, <<48, 0>>, h \o Flip(Rep("0", 82), i))
       \/ \E i \in 1..82 : kase = Case("translate", "", <<>>, <<48, 0>>, h \o Flip(Rep("1", 82), i))
       \/ kase = Case("translate", "", <<>>, <<48, 0>>, h \o Rep("0", 82))
  \/ \E s \in Schemes, n \in CpLens :                            \* around the limits of decimal digits
       LET h == Header[s] \o "001" \o SubSeq(Nibbles[Partition(n) + 1], 2, 4)
           cb == CpBits[n]
           rb == RefBits[s][n]
           lim(d, b) == {x \in {Pow10(d, b), Bits(Rep("9", d), b), Rep("1", b), Rep("0", b)} : x # ERR}
       IN \E c \in lim(n, cb), r \in lim(RefLen(s, n), rb) :
            kase = Case("translate", "", <<>>, <<48, 0>>, h \o c \o r \o Rep("1", 82 - cb - rb))
  \/ \E v \in 0..255 : \E t \in {Rep("0", 88), Rep("01", 44)} : kase = Case("translate", "", <<>>, <<48, 0>>, ByteBits(v) \o t)
  \/ \E s \in Schemes : \E l \in 0..40 : kase = Case("translate", "", <<>>, <<48, 0>>, SubSeq(Header[s] \o Rep("0", 320), 1, 8 * l))
  \/ \E s \in Schemes, v \in 0..255 : kase = Case("translate", "", <<>>, <<v, 162>>, Header[s] \o Rep("00010110", 11))
  \/ \E l \in {0, 1, 3, 4} : kase = Case("translate", "", <<>>, SubSeq(<<48, 0, 48, 0>>, 1, l), Header["sgtin"] \o Rep("0", 88))

IsoCase ==
  \/ \E a \in 0..255 : \E v \in {1, 57, 255} : kase = Case("translate", "", <<>>, <<v, a>>, PadWord(SixBits("25SUNABC123")))
  \/ \E v \in 1..64 : \E i \in 1..9 :                                                 \* every character at every alignment
       kase = Case("translate", "", <<>>, <<49, 162>>, PadWord(SixBits(Rep("K", i - 1) \o SixC(v) \o Rep("7", 9 - i))))
  \/ \E l \in 0..80 : \E c \in {"A", "0", "_"} : kase = Case("translate", "", <<>>, <<49, 169>>, PadWord(SixBits(Rep(c, l))))
  \/ \E l \in 0..66 : \E c \in {"0", "1", "10", "011"} :                              \* arbitrary bytes
       kase = Case("translate", "", <<>>, <<1, 161 + (l % 10)>>, SubSeq(Rep(c, 528), 1, 8 * l))
  \/ \E v \in 1..64 : \E k \in 1..4 :                                                 \* as a field of a pattern and of a tag
       LET f == [<<"J", "UN", "ABC", "9Z">> EXCEPT ![k] = SixC(v) \o @] IN
       kase = Case("iso", "iso17365", f, <<49, 162>>, "")
  \/ \E l \in 1..30 : \E k \in 1..4 : kase = Case("iso", "iso17365", [<<"J", "UN", "ABC", "9Z">> EXCEPT ![k] = Rep("Q", l)], <<49, 162>>, "")
  \/ \E v \in 1..26 : \E k \in 1..3 : kase = Case("iso", "iso17363", <<"7B", Letters3(k, Ch(Upper, v)), "U", "123456">>, <<49, 169>>, "")
  \/ \E v \in 1..26 : kase = Case("iso", "iso17363", <<"7B", "ABC", Ch(Upper, v), "999999">>, <<49, 169>>, "")
  \/ \E d \in 0..9 : \E k \in 1..6 : kase = Case("iso", "iso17363", <<"7B", "CSQ", "U", Rep("0", k - 1) \o ToString(d) \o Rep("4", 6 - k)>>, <<49, 169>>, "")
  \/ \E k \in 1..6 : kase = Case("iso", "iso17363", <<"7B", "CSQ", "J", Rep("5", k)>>, <<49, 169>>, "")

BadVals == <<"", "-1", "+1", "1a", "a", " ", "8", "9", "10", "007", "00000", "000000", "999999", "9999999", "99999999999", "999999999999", "0000000000000", "9999999999999",
             "274877906943", "274877906944", "12345678901234567890", "99999999999999999999", "0x1", "1e3", "*", "[0-9]", "A", "abc", "`", "~", "U">>
GoodBase == [sgtin |-> <<"3", "0614141", "812345", "7">>, sscc |-> <<"3", "0614141", "1234567890">>,
             grai |-> <<"3", "0614141", "12345", "7">>, giai |-> <<"3", "0614141", "77">>]
TypBase(t) == IF t = "iso17363" THEN <<"7B", "ABC", "U", "000001">> ELSE IF t = "iso17365" THEN <<"25S", "UN", "ABC", "1">>
              ELSE GoodBase[CHOOSE s \in Schemes : PatType(s) = t]
BadCase ==
  \/ \E t \in PatTypes : \E k \in 1..Len(TypBase(t)) : \E l \in k..Len(TypBase(t)) : \E j \in 1..Len(BadVals) :
       kase = Case("filter", t, [SubSeq(TypBase(t), 1, l) EXCEPT ![k] = BadVals[j]], <<>>, "")
  \/ \E t \in PatTypes : kase = Case("filter", t, <<>>, <<>>, "")
  \/ \E t \in PatTypes : \E j \in 1..Len(BadVals) : kase = Case("filter", t, Append(TypBase(t), BadVals[j]), <<>>, "")
  \/ \E t \in {"", "sgtin", "SGTIN-96", "sgtin-198", "giai-202", "grai-170", "gdti-96", "gsrn-96", "iso", "iso17364", "iso17366", "ISO17365", "iso17363h"} :
       \E b \in {TypBase("sgtin-96"), TypBase("sscc-96"), TypBase("iso17365"), <<"3">>} : kase = Case("filter", t, b, <<>>, "")
  \/ \E s \in Schemes : \E n \in 0..14 : \E l \in 2..MaxFields(s) :                   \* company prefixes of every length
       kase = Case("filter", PatType(s), SubSeq(Fields(s, "1", SubSeq("12345678901234", 1, n), "1", "1"), 1, l), <<>>, "")
  \/ \E s \in Schemes, n \in CpLens : \E l \in 0..22 : \E c \in {"0", "1", "9"} :     \* references of every length
       kase = Case("filter", PatType(s), <<"1", Rep("4", n), Rep(c, l)>>, <<>>, "")
  \/ \E s \in {"sgtin", "grai"} : \E l \in 0..15 : \E c \in {"0", "1", "9", "274877906944", "274877906943"} :
       kase = Case("filter", PatType(s), <<"1", "0614141", "1", SubSeq(Rep(c, 15), 1, l)>>, <<>>, "")

\* every pair of boundary values of company prefix and reference (thorough runs)
DeepCase ==
  \E s \in Schemes, n \in CpLens : \E x \in CpEdge[n], y \in RefEdge[s][n], b \in 1..2 :
     kase = Case("epc", s, Fields(s, "2", x, y, Bg[b].sr), <<48, 0>>, "")

Init == phase = "given" /\ outcome = <<>>
        /\ \/ IOEnv.DEEP # "1" /\ (EpcCase \/ RawCase \/ IsoCase \/ BadCase)
           \/ IOEnv.DEEP = "1" /\ DeepCase

\* what the code must produce: <<tag bits, identity, filter of 1 field, of 2 fields, ...>>
Demand(k) ==
  CASE k.op = "epc" -> <<EncodeEpc(k.typ, k.f), EpcIdentity(k.typ, k.f)>> \o [j \in 1..Len(k.f) |-> EpcFilter(k.typ, SubSeq(k.f, 1, j))]
    [] k.op = "iso" -> LET b == EncodeIso(k.typ, k.f)
                       IN <<b, DecodeUii(k.pc[2], b)>> \o [j \in 1..Len(k.f) |-> IsoFilter(k.typ, SubSeq(k.f, 1, j))]
    [] k.op = "translate" -> <<Translate(k.pc, k.id)>>
    [] k.op = "filter"    -> <<Filter(k.typ, k.f)>>

Next == /\ phase = "given" /\ phase' = "judged" /\ UNCHANGED kase
        /\ outcome' = Demand(kase)
        /\ PrintT("@@" \o ToJson([op |-> kase.op, typ |-> kase.typ, f |-> kase.f, pc |-> kase.pc, id |-> kase.id, want |-> outcome']))

---------------------------------------------------------------------------
(* lemmas *)

\* decoding inverts encoding, whatever the filter value
RoundTrip == phase = "judged" /\ kase.op = "epc" => /\ outcome[1] # ERR
                                                    /\ Len(outcome[1]) = 96
                                                    /\ DecodeEpc(outcome[1]) = outcome[2]
\* the filter of the leading fields starts every tag with them ...
PrefixOfTag == phase = "judged" /\ kase.op \in {"epc", "iso"} /\ outcome[1] # ERR =>
                 \A j \in 3..Len(outcome) : outcome[j] # ERR /\ StartsWith(outcome[1], outcome[j])
\* ... longer patterns are narrower ...
Nested == phase = "judged" /\ kase.op \in {"epc", "iso"} => \A j \in 4..Len(outcome) : outcome[j] # ERR => StartsWith(outcome[j], outcome[j - 1])
\* ... and no tag with another value in one of them
OtherTags == TLCEval([s \in Schemes |-> TLCEval([n \in CpLens |-> TLCEval(
  {LET g == Fields(s, v, Bg[b].cp[m], Spell(s, m, Bg[b].rf), Bg[b].sr) IN [f |-> g, bits |-> EncodeEpc(s, g)] :
     v \in {"3", "7"}, b \in 1..2, m \in {m \in CpLens : m \in (n - 1)..(n + 1)}})])])
SameField(k, x, y) == IF k = 2 THEN x = y ELSE Plain(x) = Plain(y)
Discriminates ==
  phase = "judged" /\ kase.op = "epc" =>
    \A g \in OtherTags[kase.typ][Len(kase.f[2])] : \A j \in 1..Len(kase.f) :
       StartsWith(g.bits, outcome[2 + j]) <=> \A k \in 1..j : SameField(k, kase.f[k], g.f[k])
\* a well-formed identity or a refusal
Total == phase = "judged" /\ kase.op = "translate" => outcome[1] = ERR \/ StartsWith(outcome[1], "urn:epc:id:")
=============================================================================
