-------------------------------- MODULE Tdt --------------------------------
(***************************************************************************)
(* Tag data translation: how the fields of an EPC or an ISO unique item    *)
(* identifier are laid out as bits, which bit prefix a tag pattern denotes *)
(* and which pure identity a tag's bits spell.  Written from the GS1 Tag   *)
(* Data Standard tables and ISO 6346/15962/17363/17365, not from the code. *)
(*                                                                         *)
(* Text and bits are TLA+ strings ("SubSeq" and "\o" work on them in TLC). *)
(* Field values need up to 62 bits, TLC's integers have 32, so numbers are *)
(* little-endian sequences of limbs.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

ERR == "ERR"        \* refused: neither a bit string nor a URN

---------------------------------------------------------------------------
(* strings *)

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]
Set(s)   == {Ch(s, i) : i \in 1..Len(s)}
Join(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* the parts of s between the occurrences of the character sep
Split(s, sep) ==
  LET step(acc, c) == IF c = sep THEN Append(acc, "")
                      ELSE [acc EXCEPT ![Len(acc)] = @ \o c]
  IN FoldLeft(step, <<"">>, Chars(s))

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpMap == [c \in Set(Lower) |-> Ch(Upper, CHOOSE i \in 1..26 : Ch(Lower, i) = c)]
LoMap == [c \in Set(Upper) |-> Ch(Lower, CHOOSE i \in 1..26 : Ch(Upper, i) = c)]
ToUpper(s) == Join([i \in 1..Len(s) |-> IF Ch(s, i) \in DOMAIN UpMap THEN UpMap[Ch(s, i)] ELSE Ch(s, i)])
ToLower(s) == Join([i \in 1..Len(s) |-> IF Ch(s, i) \in DOMAIN LoMap THEN LoMap[Ch(s, i)] ELSE Ch(s, i)])

Rep(s, n) == FoldLeft(LAMBDA a, i : a \o s, "", [i \in 1..n |-> i])

\* without leading zeros
Strip0(s) == LET nz == {i \in 1..Len(s) : Ch(s, i) # "0"}
             IN IF nz = {} THEN "" ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))

---------------------------------------------------------------------------
(* numbers *)

Digits == "0123456789"
DigVal == [c \in Set(Digits) |-> CHOOSE i \in 0..9 : Ch(Digits, i + 1) = c]
IsNum(s) == Len(s) > 0 /\ Set(s) \subseteq DOMAIN DigVal

Nibbles == <<"0000", "0001", "0010", "0011", "0100", "0101", "0110", "0111",
             "1000", "1001", "1010", "1011", "1100", "1101", "1110", "1111">>
NibVal == [b \in {Nibbles[i] : i \in 1..16} |-> (CHOOSE i \in 1..16 : Nibbles[i] = b) - 1]

\* a * m + c on little-endian limbs of base B (m <= B, c < m)
MulAdd(a, m, c, B) ==
  LET step(acc, limb) == LET t == limb * m + acc.c
                         IN [d |-> Append(acc.d, t % B), c |-> t \div B]
      r == FoldLeft(step, [d |-> <<>>, c |-> c], a)
  IN IF r.c = 0 THEN r.d ELSE Append(r.d, r.c)

\* a decimal numeral as bits without leading zeros
DecToBits(s) ==
  LET a == FoldLeft(LAMBDA acc, c : MulAdd(acc, 10, DigVal[c], 65536), <<>>, Chars(s))
      hex(l) == Nibbles[(l \div 4096) + 1] \o Nibbles[((l \div 256) % 16) + 1]
                \o Nibbles[((l \div 16) % 16) + 1] \o Nibbles[(l % 16) + 1]
  IN Strip0(Join([i \in 1..Len(a) |-> hex(a[Len(a) + 1 - i])]))

PadL(s, n) == Rep("0", n - Len(s)) \o s

\* the n-bit representation, or ERR if there is none
Bits(s, n) == LET b == DecToBits(s) IN IF Len(b) > n THEN ERR ELSE PadL(b, n)

\* bits as a decimal numeral without leading zeros
BitsToDec(b) ==
  LET p == PadL(b, 4 * ((Len(b) + 3) \div 4))
      nib == [i \in 1..(Len(p) \div 4) |-> NibVal[SubSeq(p, 4 * i - 3, 4 * i)]]
      a == FoldLeft(LAMBDA acc, v : MulAdd(acc, 16, v, 10000), <<>>, nib)
      d4(l) == Ch(Digits, (l \div 1000) + 1) \o Ch(Digits, ((l \div 100) % 10) + 1)
               \o Ch(Digits, ((l \div 10) % 10) + 1) \o Ch(Digits, (l % 10) + 1)
      t == Strip0(Join([i \in 1..Len(a) |-> d4(a[Len(a) + 1 - i])]))
  IN IF t = "" THEN "0" ELSE t

\* of at most 31 bits
SmallVal(b) == FoldLeft(LAMBDA a, c : 2 * a + DigVal[c], 0, Chars(b))

---------------------------------------------------------------------------
(* EPC: header(8) filter(3) partition(3) companyPrefix reference [serial]  *)

Schemes == {"giai", "grai", "sgtin", "sscc"}
PatType(s) == s \o "-96"
Header == [sgtin |-> "00110000", sscc |-> "00110001", grai |-> "00110011", giai |-> "00110100"]
HasSerial == [sgtin |-> TRUE, sscc |-> FALSE, grai |-> TRUE, giai |-> FALSE]

\* by the number of digits of the company prefix
CpLens == 6..12
Partition(n) == 12 - n
CpBits == [n \in CpLens |-> <<20, 24, 27, 30, 34, 37, 40>>[n - 5]]
RefBits == [sgtin |-> [n \in CpLens |-> 44 - CpBits[n]],
            grai  |-> [n \in CpLens |-> 44 - CpBits[n]],
            sscc  |-> [n \in CpLens |-> 58 - CpBits[n]],
            giai  |-> [n \in CpLens |-> 82 - CpBits[n]]]
RefDigits == [sgtin |-> [n \in CpLens |-> 13 - n],
              grai  |-> [n \in CpLens |-> 12 - n],
              sscc  |-> [n \in CpLens |-> 17 - n],
              giai  |-> [n \in CpLens |-> 25 - n]]
\* a GRAI with a 12-digit company prefix has no asset type; its 4 bits are not part of the identity
NoRef(s, n) == RefDigits[s][n] = 0

MaxFields(s) == IF HasSerial[s] THEN 4 ELSE 3

GoodFilter(f)    == IsNum(f) /\ Len(f) = 1 /\ DigVal[f] <= 7
GoodCp(cp)       == IsNum(cp) /\ Len(cp) \in CpLens
GoodRef(s, n, r) == IsNum(r) /\ Len(r) <= (IF NoRef(s, n) THEN 1 ELSE RefDigits[s][n])
                    /\ Bits(r, RefBits[s][n]) # ERR
GoodSer(x)       == IsNum(x) /\ Len(x) <= 12 /\ Bits(x, 38) # ERR

\* fields = <<filter, companyPrefix, reference, serial>> or a prefix of that
GoodFields(s, f) ==
  /\ Len(f) \in 1..MaxFields(s)
  /\ GoodFilter(f[1])
  /\ Len(f) >= 2 => GoodCp(f[2])
  /\ Len(f) >= 3 => GoodRef(s, Len(f[2]), f[3])
  /\ Len(f) >= 4 => GoodSer(f[4])

\* every tag whose fields start with f starts with these bits
EpcFilter(s, f) ==
  IF ~GoodFields(s, f) THEN ERR
  ELSE Header[s] \o Bits(f[1], 3)
       \o (IF Len(f) < 2 THEN "" ELSE Bits(ToString(Partition(Len(f[2]))), 3) \o Bits(f[2], CpBits[Len(f[2])]))
       \o (IF Len(f) < 3 THEN "" ELSE Bits(f[3], RefBits[s][Len(f[2])]))
       \o (IF Len(f) < 4 THEN "" ELSE Bits(f[4], 38))

\* a tag is a pattern with all fields; an SSCC ends with 24 unallocated bits
EncodeEpc(s, f) ==
  IF Len(f) # MaxFields(s) \/ ~GoodFields(s, f) THEN ERR
  ELSE EpcFilter(s, f) \o (IF s = "sscc" THEN Rep("0", 24) ELSE "")

Plain(x) == LET t == Strip0(x) IN IF t = "" THEN "0" ELSE t

\* the pure identity of the fields
EpcIdentity(s, f) ==
  LET n == Len(f[2])
      ref == IF s = "giai" THEN Plain(f[3]) ELSE PadL(f[3], RefDigits[s][n])
  IN "urn:epc:id:" \o s \o ":" \o f[2]
     \o (IF NoRef(s, n) THEN "" ELSE "." \o ref)
     \o (IF HasSerial[s] THEN "." \o Plain(f[4]) ELSE "")

DecodeEpc(b) ==
  IF Len(b) # 96 \/ ~(\E s \in Schemes : Header[s] = SubSeq(b, 1, 8)) THEN ERR
  ELSE LET s == CHOOSE x \in Schemes : Header[x] = SubSeq(b, 1, 8)
           p == SmallVal(SubSeq(b, 12, 14))
       IN IF p = 7 THEN ERR
          ELSE LET n  == 12 - p
                   cb == CpBits[n]
                   rb == RefBits[s][n]
                   cp == BitsToDec(SubSeq(b, 15, 14 + cb))
                   rf == BitsToDec(SubSeq(b, 15 + cb, 14 + cb + rb))
               IN IF Len(cp) > n \/ (~NoRef(s, n) /\ Len(rf) > RefDigits[s][n]) THEN ERR
                  ELSE EpcIdentity(s, <<"0", PadL(cp, n), rf, BitsToDec(SubSeq(b, 59, 96))>>)

---------------------------------------------------------------------------
(* ISO 17363/17365: 6-bit characters *)

\* the characters of codes 32..95, whose 6-bit code is the code mod 64
SixChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_"
Six(v)  == SubSeq(Nibbles[(v \div 16) + 1], 3, 4) \o Nibbles[(v % 16) + 1]
SixCode == [c \in Set(SixChars) |->
              LET i == CHOOSE i \in 1..64 : Ch(SixChars, i) = c
              IN Six((31 + i) % 64)]
SixChar == [b \in {SixCode[c] : c \in Set(SixChars)} |-> CHOOSE c \in Set(SixChars) : SixCode[c] = b]
GoodSix(t) == Len(t) > 0 /\ Set(t) \subseteq Set(SixChars)
SixBits(t) == Join([i \in 1..Len(t) |-> SixCode[Ch(t, i)]])

\* padding to whole 16-bit words with "100000"
PadWord(b) == b \o SubSeq(Rep("100000", 3), 1, (16 - (Len(b) % 16)) % 16)

\* the text of 6-bit characters; the pad character (space) is not text
SixText(b) == Join([i \in 1..(Len(b) \div 6) |->
                     LET c == SixChar[SubSeq(b, 6 * i - 5, 6 * i)] IN IF c = " " THEN "" ELSE c])

\* ISO 6346: letters count 10, 12.., 20, 21, 23.. (no multiples of 11)
Iso6346Val == [c \in Set(Digits) \cup Set(Upper) |->
   IF c \in Set(Digits) THEN DigVal[c]
   ELSE LET i == CHOOSE i \in 1..26 : Ch(Upper, i) = c
        IN IF i = 1 THEN 10 ELSE IF i <= 11 THEN 10 + i ELSE IF i <= 21 THEN 11 + i ELSE 12 + i]
Iso6346CD(t) ==     \* t: owner code, category, 6-digit serial
  LET sum == FoldLeft(LAMBDA a, i : a + Iso6346Val[Ch(t, i)] * 2^(i - 1), 0, [i \in 1..10 |-> i])
  IN ToString((sum % 11) % 10)

\* 17363 fields: data identifier, owner code, category, serial; the check digit is implied
Iso17363Text(f) ==
  IF Len(f) < 4 THEN Join(f)
  ELSE LET csn == PadL(f[4], 6) IN f[1] \o f[2] \o f[3] \o csn \o Iso6346CD(f[2] \o f[3] \o csn)

Good17363(f) == /\ Len(f) \in 1..4
                /\ \A i \in 1..Len(f) : GoodSix(f[i])
                /\ Len(f) = 4 => /\ Len(f[4]) <= 6
                                 /\ Len(f[2] \o f[3]) = 4
                                 /\ Set(f[2] \o f[3] \o f[4]) \subseteq DOMAIN Iso6346Val
Good17365(f) == Len(f) \in 1..4 /\ \A i \in 1..Len(f) : GoodSix(f[i])

IsoFilter(t, f) ==
  IF t = "iso17363" THEN IF Good17363(f) THEN SixBits(Iso17363Text(f)) ELSE ERR
  ELSE IF Good17365(f) THEN SixBits(Join(f)) ELSE ERR

IsoTypes == {"iso17363", "iso17365"}
PatTypes == IsoTypes \cup {PatType(s) : s \in Schemes}

EncodeIso(t, f) == IF Len(f) # 4 \/ IsoFilter(t, f) = ERR THEN ERR ELSE PadWord(IsoFilter(t, f))

\* application family identifiers 161..170
AfiStd == [a \in 161..170 |-> <<"17367", "17365", "17364", "17367h", "17366", "17366h",
                                "17365h", "17364h", "17363", "17363h">>[a - 160]]
DecodeUii(afi, b) == IF afi \in DOMAIN AfiStd
                     THEN "urn:epc:id:iso" \o AfiStd[afi] \o ":" \o SixText(b)
                     ELSE ERR

---------------------------------------------------------------------------
(* the two functions the rest of the system uses *)

\* the bit prefix a pattern type and its fields denote
Filter(type, f) ==
  IF type \in IsoTypes THEN IsoFilter(type, f)
  ELSE IF type \in PatTypes THEN EpcFilter(CHOOSE s \in Schemes : PatType(s) = type, f)
  ELSE ERR

\* pc: sequence of byte values; id: bits
Translate(pc, id) ==
  IF Len(pc) # 2 THEN ERR
  ELSE IF pc[1] % 2 = 0 THEN DecodeEpc(id) ELSE DecodeUii(pc[2], id)

\* the bit prefix subscribed by a pattern text; the urn:epc:pat: prefix is optional, in any case
PatPrefix == "urn:epc:pat:"
PatternFilter(pat) ==
  LET p == IF Len(pat) >= 12 /\ ToLower(SubSeq(pat, 1, 12)) = PatPrefix THEN SubSeq(pat, 13, Len(pat)) ELSE pat
      tf == Split(p, ":")
  IN IF Len(tf) # 2 THEN ERR ELSE Filter(tf[1], Split(ToUpper(tf[2]), "."))

\* the text engine's view: scheme-tagged text an identity must start with, at a field boundary
LegacyText(pat) ==
  LET s == Split(pat, ":") IN
  IF Len(s) # 5 THEN ERR
  ELSE IF s[4] \in IsoTypes THEN s[4] \o ":" \o ToUpper(Join(Split(s[5], ".")))
  ELSE IF s[4] \in PatTypes THEN
       LET f == Split(s[5], ".")
           rest == IF Len(f) = 1 THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "." \o x, f[2], SubSeq(f, 3, Len(f)))
       IN (CHOOSE x \in Schemes : PatType(x) = s[4]) \o ":" \o rest
  ELSE ERR

\* text: LegacyText of the pattern
LegacyMatch(text, identity) ==
  /\ identity # ERR
  /\ text # ERR
  /\ LET i == SubSeq(identity, 12, Len(identity))       \* without urn:epc:id:
     IN /\ StartsWith(i, text)
        /\ \/ Len(i) = Len(text)
           \/ StartsWith(text, "iso")
           \/ Ch(text, Len(text)) = ":"
           \/ Ch(i, Len(text) + 1) = "."
=============================================================================
