------------------------------ MODULE TdtTrace ------------------------------
(***************************************************************************)
(* Trace validation of tag data translation: is every recorded call of the *)
(* real encoders, pattern compilers and decoders one that Tdt allows?      *)
(* The encoders are nondeterministic (blank fields get random values): the *)
(* specification allows every completion and checks that the recorded tag  *)
(* is one of them.                                                         *)
(***************************************************************************)
EXTENDS Tdt, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

---------------------------------------------------------------------------
(* encoders *)

RECURSIVE Leading(_)
\* the fields before the first blank one
Leading(f) == IF f = <<>> \/ Head(f) = "" THEN <<>> ELSE <<Head(f)>> \o Leading(Tail(f))

\* a given field which cannot be encoded, provided all of its context is given
BadAt(s, f, k) ==
  /\ k <= Len(f) /\ f[k] # ""
  /\ CASE k = 1 -> ~GoodFilter(f[1])
       [] k = 2 -> ~GoodCp(f[2])
       [] k = 3 -> f[2] # "" /\ GoodCp(f[2]) /\ ~GoodRef(s, Len(f[2]), f[3])
       [] k = 4 -> ~GoodSer(f[4])
BadGiven(s, f) == \E k \in 1..MaxFields(s) : BadAt(s, f, k)

\* a GIAI reference of too many bits may also yield a filter no tag is long enough for
TooLong(s, bits) == s = "giai" /\ Len(bits) > 96

\* prefix mode: the filter and a text denoting the same filter
EpcPrefixOk(e, s, f) ==
  LET given == IF f[1] # "" THEN f ELSE [f EXCEPT ![1] = "0"]
      eff == Leading(given)
      bad == \E k \in 1..Len(eff) : BadAt(s, eff, k)
      beyond == BadGiven(s, f) /\ ~bad
      values == IF f[1] # "" THEN {f[1]} ELSE {ToString(d) : d \in 0..7}
      good == /\ ~e.err
              /\ \E v \in values : e.bits = EpcFilter(s, [eff EXCEPT ![1] = v])
              /\ PatternFilter(e.text) = e.bits
  IN IF bad THEN e.err \/ TooLong(s, e.bits) ELSE IF beyond THEN e.err \/ good ELSE good

\* tag mode: 96 bits with the given fields; blank ones hold what their digits allow
EpcTagOk(e, s, f) ==
  IF BadGiven(s, f) \/ f[2] = "" THEN e.err
  ELSE LET n  == Len(f[2])
           cb == CpBits[n]
           rb == RefBits[s][n]
           raw == SubSeq(e.bits, 15 + cb, 14 + cb + rb)
           ser == SubSeq(e.bits, 59, 96)
       IN /\ ~e.err
          /\ Len(e.bits) = 96
          /\ SubSeq(e.bits, 1, 8) = Header[s]
          /\ f[1] # "" => SubSeq(e.bits, 9, 11) = Bits(f[1], 3)
          /\ SubSeq(e.bits, 12, 14) = Bits(ToString(Partition(n)), 3)
          /\ SubSeq(e.bits, 15, 14 + cb) = Bits(f[2], cb)
          /\ IF f[3] # "" THEN raw = Bits(f[3], rb)
             ELSE NoRef(s, n) \/ Len(BitsToDec(raw)) <= RefDigits[s][n]
          /\ HasSerial[s] /\ f[4] # "" => ser = Bits(f[4], 38)
          /\ s = "sscc" => SubSeq(e.bits, 73, 96) = Rep("0", 24)
          /\ DecodeEpc(e.bits) # ERR
          /\ e.pc \in {"", "3000"}

EpcOk(e) ==
  LET s == e.scheme IN
  IF s \notin Schemes THEN e.err
  ELSE LET f == SubSeq(e.fields, 1, MaxFields(s))
       IN IF e.pf THEN EpcPrefixOk(e, s, f) ELSE EpcTagOk(e, s, f)

(* protocol control bits of an ISO tag, as hexadecimal digits: number of words, no user memory, no XPC, ISO toggle, AFI *)
HexDigits == "0123456789abcdef"
Hex2(v) == Ch(HexDigits, (v \div 16) + 1) \o Ch(HexDigits, (v % 16) + 1)
IsoPc(bits, afi) == Hex2((Len(bits) \div 16) * 8 + 1) \o Hex2(afi)
Afi(t) == IF t = "iso17363" THEN 169 ELSE 162

IsoPrefixOk(e, t, f) ==
  LET eff == Leading(f)
      want == IsoFilter(t, eff)
      given == {k \in 1..Len(f) : f[k] # ""}
      \* what lies beyond the first blank field does not matter, but may be refused
      beyond == \E k \in given : k > Len(eff)
      good == ~e.err /\ e.bits = want /\ PatternFilter(e.text) = want
      \* no pattern text can name a field which contains a separator
      unnamed == \E k \in 1..Len(eff) : Set(eff[k]) \cap {".", ":"} # {}
  IN IF eff = <<>> \/ want = ERR \/ unnamed THEN e.err ELSE IF beyond THEN e.err \/ good ELSE good

RawSix(b) == Join([i \in 1..(Len(b) \div 6) |-> SixChar[SubSeq(b, 6 * i - 5, 6 * i)]])

\* without the padding characters at the end
Trimmed(s) == LET k == {i \in 1..Len(s) : Ch(s, i) # " "}
              IN IF k = {} THEN "" ELSE SubSeq(s, 1, CHOOSE i \in k : \A j \in k : j <= i)

IsoTagOk(e, t, f) ==
  LET raw == RawSix(e.bits)
      \* the tag's value of a blank field of n characters at position p
      At(k, p, n) == IF f[k] # "" THEN f[k] ELSE SubSeq(raw, p, p + n - 1)
      full == IF t = "iso17363"
              THEN LET oc == At(2, 3, 3)
                       ei == At(3, 3 + Len(oc), 1)
                       sn == At(4, 3 + Len(oc) + Len(ei), 6)
                   IN <<f[1], oc, ei, sn>>
              ELSE <<f[1], f[2], f[3], IF f[4] # "" THEN f[4] ELSE Trimmed(SubSeq(raw, 1 + Len(f[1] \o f[2] \o f[3]), Len(raw)))>>
      drawn == IF t = "iso17363"
               THEN /\ f[2] = "" => Len(full[2]) = 3 /\ Set(full[2]) \subseteq Set(Upper)
                    /\ f[3] = "" => full[3] \in {"U", "J", "Z"}
                    /\ f[4] = "" => Len(full[4]) = 6 /\ IsNum(full[4])
               ELSE f[4] = "" => Len(full[4]) > 0 /\ Set(full[4]) \subseteq Set(Digits) \cup Set(Upper)
      \* refused whatever is drawn: judged on a representative draw
      rep == IF t = "iso17363"
             THEN <<f[1], IF f[2] = "" THEN "AAA" ELSE f[2], IF f[3] = "" THEN "U" ELSE f[3], IF f[4] = "" THEN "000000" ELSE f[4]>>
             ELSE <<f[1], f[2], f[3], IF f[4] = "" THEN "000000000000000000" ELSE f[4]>>
      want == EncodeIso(t, rep)
  IN IF want = ERR THEN e.err
     ELSE IF Len(want) > 31 * 16 THEN e.err          \* does not fit the PC's word count
     ELSE /\ ~e.err
          /\ drawn
          /\ e.bits = EncodeIso(t, full)
          /\ e.len \in {-1, Len(e.bits)}
          /\ e.pc \in {"", IsoPc(e.bits, Afi(t))}
          /\ DecodeUii(Afi(t), e.bits) # ERR

IsoOk(e) == IF e.scheme \notin IsoTypes THEN e.err
            ELSE IF e.pf THEN IsoPrefixOk(e, e.scheme, e.fields) ELSE IsoTagOk(e, e.scheme, e.fields)

---------------------------------------------------------------------------
(* patterns *)

\* the leading fields of a tag which a pattern's fields f name
Covers(ptype, f, type, g) ==
  /\ ptype = type
  /\ IF ptype \in IsoTypes
     THEN StartsWith(IF ptype = "iso17363" THEN Iso17363Text(g) ELSE Join(g),
                     IF ptype = "iso17363" THEN Iso17363Text(f) ELSE Join(f))
     ELSE /\ Len(f) <= Len(g)
          /\ \A k \in 1..Len(f) : IF k = 2 THEN f[k] = g[k] ELSE Plain(f[k]) = Plain(g[k])

FilterOk(e) ==
  LET want == Filter(e.typ, e.fields)
  IN IF want = ERR THEN e.err \/ (e.typ = "giai-96" /\ Len(e.bits) > 96) ELSE ~e.err /\ e.bits = want

\* a subscription list: every usable pattern is a key with one of its subscribers, nothing else
BsubOk(e) ==
  LET want(k) == PatternFilter(e.subs[k][1])
      wants == {want(k) : k \in 1..Len(e.subs)} \ {ERR}
      keys  == {e.keys[k][1] : k \in 1..Len(e.keys)}
  IN /\ wants \subseteq keys
     /\ \A x \in keys \ wants : Len(x) > 96 /\ StartsWith(x, Header["giai"])
     /\ \A k \in 1..Len(e.keys) : e.keys[k][1] \in wants =>
           \E j \in 1..Len(e.subs) : want(j) = e.keys[k][1] /\ e.subs[j][2] = e.keys[k][2]

CdOk(e) == LET t == ToUpper(e.text)
           IN IF Len(t) = 10 /\ Set(t) \subseteq DOMAIN Iso6346Val THEN ~e.err /\ e.bits = Iso6346CD(t) ELSE e.err

(* printed tags: the protocol control as hexadecimal digits and the ID as bits *)
BitsVal(b) == FoldLeft(LAMBDA acc, k : 2 * acc + (IF Ch(b, k) = "1" THEN 1 ELSE 0), 0, [k \in 1..Len(b) |-> k])
HexVal(h) == (CHOOSE k \in 1..16 : Ch(HexDigits, k) = ToLower(h)) - 1
RECURSIVE Commas(_)
Commas(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o ", " \o Commas(Tail(l))
GoBits(b) == "[]byte{" \o Commas([k \in 1..(Len(b) \div 8) |-> ToString(BitsVal(SubSeq(b, 8 * k - 7, 8 * k)))]) \o "}"
GoHex(h) == "[]byte{" \o Commas([k \in 1..(Len(h) \div 2) |-> ToString(16 * HexVal(Ch(h, 2 * k - 1)) + HexVal(Ch(h, 2 * k)))]) \o "}"
PrintOk(e) ==
  IF e.bs = "" THEN e.byid = "" /\ e.bygo = ""
  ELSE /\ e.byid = e.opt \o "," \o e.bs
       /\ e.tag => e.bygo = GoHex(e.opt) \o "," \o GoBits(e.bs)

TranslateOk(e) ==
  LET want == Translate(e.pc, e.id)
  IN IF want = ERR THEN e.err ELSE ~e.err /\ e.urn = want

Want(e) ==
  CASE e.op = "filter"    -> Filter(e.typ, e.fields)
    [] e.op = "translate" -> Translate(e.pc, e.id)
    [] e.op = "cover"     -> ToString(Covers(e.ptyp, e.pfields, e.typ, e.fields))
    [] e.op = "bsub"      -> ToString([k \in 1..Len(e.subs) |-> PatternFilter(e.subs[k][1])])
    [] e.op = "cd"        -> "the ISO 6346 check digit"
    [] e.op = "print"     -> IF e.tag THEN GoHex(e.opt) \o "," \o GoBits(e.bs) ELSE e.opt \o "," \o e.bs
    [] e.op = "six"       -> SixBits(e.text)
    [] OTHER              -> "a completion of the given fields"

Allowed(e) ==
  /\ e.panic = ""
  /\ CASE e.op = "filter"    -> FilterOk(e)
       [] e.op = "translate" -> TranslateOk(e)
       [] e.op = "epc"       -> EpcOk(e)
       [] e.op = "iso"       -> IsoOk(e)
       [] e.op = "cover"     -> e.match = Covers(e.ptyp, e.pfields, e.typ, e.fields)
       [] e.op = "bsub"      -> BsubOk(e)
       [] e.op = "cd"        -> CdOk(e)
       [] e.op = "print"     -> PrintOk(e)
       [] e.op = "six"       -> e.bits = SixBits(e.text)

VARIABLES tid, pos, verdict
vars == <<tid, pos, verdict>>
Init == tid \in 1..Len(Traces) /\ pos = 1 /\ verdict = "ok"
Next ==
  /\ verdict = "ok" /\ pos <= Len(Traces[tid])
  /\ UNCHANGED tid
  /\ \E e \in {Traces[tid][pos]} :
       IF Allowed(e) THEN pos' = pos + 1 /\ UNCHANGED verdict
       ELSE /\ PrintT("@@" \o ToJson([t |-> tid, i |-> pos, want |-> Want(e)]))
            /\ verdict' = "rejected" /\ UNCHANGED pos
Spec == Init /\ [][Next]_vars
=============================================================================
