-------------------------------- MODULE Wire --------------------------------
(* The encodings of all messages and stored records, as a grammar.  A value is *)
(* a tree: the leaves are byte strings (numbers as well: fixed-width and big-  *)
(* endian), a record is the sequence of its fields, a vector the sequence of   *)
(* its elements, an optional value << >> or <<v>>, and a choice <<tag, v>>.    *)
(* Schemas:  [t |-> "fix", n]       n bytes                                    *)
(*           [t |-> "vec", n]       bytes, after their number in n bytes       *)
(*           [t |-> "lst", n, s]    values of schema s, after their number     *)
(*           [t |-> "opt", s]       00, or 01 and a value                      *)
(*           [t |-> "rec", s]       values of the schemas s, in order          *)
(*           [t |-> "alt", s]       a byte of DOMAIN s, and a value of s[byte] *)
EXTENDS Ibst, TLC

Fix(n) == [t |-> "fix", n |-> n]
Vec(n) == [t |-> "vec", n |-> n]
Lst(n, s) == [t |-> "lst", n |-> n, s |-> s]
Opt(s) == [t |-> "opt", s |-> s]
Rec(s) == [t |-> "rec", s |-> s]
Alt(s) == [t |-> "alt", s |-> s]
None == Rec(<< >>)

U16F == Fix(2)   U32F == Fix(4)   U64F == Fix(8)   HashF == Fix(32)

(***************************************************************************)
(* Encoding and decoding.                                                  *)
(***************************************************************************)
Count(n, k) == CASE n = 1 -> U8(k) [] n = 2 -> U16(k) [] n = 4 -> U32(k)
Limit(n) == CASE n = 1 -> 255 [] n = 2 -> 65535 [] n = 4 -> 2147483647
RECURSIVE EncBy(_, _), EncSeq(_, _, _), Encodable(_, _)
EncSeq(s, v, i) == IF i > Len(v) THEN "" ELSE EncBy(s[i], v[i]) \o EncSeq(s, v, i + 1)
EncBy(s, v) ==
  CASE s.t = "fix" -> v
    [] s.t = "vec" -> Count(s.n, BLen(v)) \o v
    [] s.t = "lst" -> Count(s.n, Len(v)) \o Cat([i \in 1..Len(v) |-> EncBy(s.s, v[i])])
    [] s.t = "opt" -> IF v = << >> THEN "00" ELSE "01" \o EncBy(s.s, v[1])
    [] s.t = "rec" -> EncSeq(s.s, v, 1)
    [] s.t = "alt" -> v[1] \o EncBy(s.s[v[1]], v[2])
(* No vector is too long. *)
Encodable(s, v) ==
  CASE s.t = "fix" -> TRUE
    [] s.t = "vec" -> BLen(v) <= Limit(s.n)
    [] s.t = "lst" -> Len(v) <= Limit(s.n) /\ \A i \in 1..Len(v) : Encodable(s.s, v[i])
    [] s.t = "opt" -> v = << >> \/ Encodable(s.s, v[1])
    [] s.t = "rec" -> \A i \in 1..Len(v) : Encodable(s.s[i], v[i])
    [] s.t = "alt" -> Encodable(s.s[v[1]], v[2])

HexDigit == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
    [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] c = "a" -> 10 [] c = "b" -> 11
    [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]
(* The number written in a hexadecimal string, at most lim + 1. *)
RECURSIVE NumUpTo(_, _)
NumUpTo(h, lim) ==
  IF h = "" THEN 0
  ELSE LET hi == NumUpTo(SubSeq(h, 1, Len(h) - 1), lim)
       IN IF 16 * hi + HexDigit[SubSeq(h, Len(h), Len(h))] > lim THEN lim + 1
          ELSE 16 * hi + HexDigit[SubSeq(h, Len(h), Len(h))]

(* Dec(s, b, p): the value that starts at byte p (from 0) of b. *)
DecFail == [ok |-> FALSE, v |-> "", p |-> 0]
DecOk(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
SubBytes(b, p, n) == SubSeq(b, 2 * p + 1, 2 * (p + n))
RECURSIVE Dec(_, _, _), DecMany(_, _, _, _, _), DecSeq(_, _, _, _)
DecMany(s, b, p, k, acc) ==
  IF k = 0 THEN DecOk(acc, p)
  ELSE LET r == Dec(s, b, p) IN IF r.ok THEN DecMany(s, b, r.p, k - 1, Append(acc, r.v)) ELSE DecFail
DecSeq(ss, b, p, acc) ==
  IF Len(acc) = Len(ss) THEN DecOk(acc, p)
  ELSE LET r == Dec(ss[Len(acc) + 1], b, p) IN IF r.ok THEN DecSeq(ss, b, r.p, Append(acc, r.v)) ELSE DecFail
Dec(s, b, p) ==
  LET left == BLen(b) - p
  IN CASE s.t = "fix" -> IF left < s.n THEN DecFail ELSE DecOk(SubBytes(b, p, s.n), p + s.n)
       [] s.t = "vec" -> IF left < s.n THEN DecFail
                         ELSE LET k == NumUpTo(SubBytes(b, p, s.n), left)
                              IN IF left - s.n < k THEN DecFail ELSE DecOk(SubBytes(b, p + s.n, k), p + s.n + k)
       [] s.t = "lst" -> IF left < s.n THEN DecFail
                         ELSE LET k == NumUpTo(SubBytes(b, p, s.n), left)   \* no element is empty
                              IN IF left - s.n < k THEN DecFail ELSE DecMany(s.s, b, p + s.n, k, << >>)
       [] s.t = "opt" -> IF left < 1 THEN DecFail
                         ELSE CASE SubBytes(b, p, 1) = "00" -> DecOk(<< >>, p + 1)
                                [] SubBytes(b, p, 1) = "01" -> LET r == Dec(s.s, b, p + 1)
                                                            IN IF r.ok THEN DecOk(<<r.v>>, r.p) ELSE DecFail
                                [] OTHER -> DecFail
       [] s.t = "rec" -> DecSeq(s.s, b, p, << >>)
       [] s.t = "alt" -> IF left < 1 \/ SubBytes(b, p, 1) \notin DOMAIN s.s THEN DecFail
                         ELSE LET r == Dec(s.s[SubBytes(b, p, 1)], b, p + 1)
                              IN IF r.ok THEN DecOk(<<SubBytes(b, p, 1), r.v>>, r.p) ELSE DecFail

(***************************************************************************)
(* The messages and records.  mode is that of the deployment, vp the size of *)
(* a VRF proof, given whether the request asked for a version.             *)
(***************************************************************************)
TreeHeadS == Rec(<<U64F, Vec(2)>>)
AuditorHeadS == Rec(<<U64F, U64F, Vec(2)>>)
FullTreeHeadS(mode) == Alt("01" :> None @@ "02" :> IF mode = 3 THEN Rec(<<TreeHeadS, AuditorHeadS>>) ELSE Rec(<<TreeHeadS>>))
SuffixS(mode) == IF mode = 2 THEN <<Vec(2)>> ELSE << >>
ValueS(mode) == Rec(<<Vec(4)>> \o SuffixS(mode))
StoredValueS(mode) == Rec(<<Fix(16), ValueS(mode)>>)
InfoS(mode) == Rec(<<Fix(16)>> \o SuffixS(mode))
StepS(vp) == Rec(<<Fix(vp), Opt(HashF)>>)
ResultS == Alt("01" :> Fix(1) @@ "02" :> Rec(<<HashF, HashF, Fix(1)>>) @@ "03" :> Fix(1))
PrefixProofS == Rec(<<Lst(1, ResultS), Lst(2, HashF)>>)
CombinedS == Rec(<<Lst(1, U64F), Lst(1, PrefixProofS), Lst(1, HashF), Lst(2, HashF)>>)
MapEntryS == Rec(<<U64F, U32F>>)
LogEntryS == Rec(<<U64F, HashF>>)
EntryS == Rec(<<HashF, HashF>>)
WireSchema(k, mode, vp, given) ==
  CASE k = "search-req" -> Rec(<<Opt(U64F), Vec(1), Opt(U32F)>>)
    [] k = "contact-req" -> Rec(<<Opt(U64F), Vec(1), Lst(1, MapEntryS)>>)
    [] k = "oinit-req" -> Rec(<<Opt(U64F), Vec(1), U64F>>)
    [] k = "omon-req" -> Rec(<<Opt(U64F), Vec(1), Lst(1, MapEntryS), U64F, Opt(U32F)>>)
    [] k = "update-req" -> Rec(<<Opt(U64F), Vec(1), Opt(U32F), Lst(1, Vec(4))>>)
    [] k = "mupdate-req" -> Rec(<<Opt(U64F), Vec(1), Opt(U32F), U32F, Lst(1, ValueS(mode))>>)
    [] k = "search-res" -> Rec(<<FullTreeHeadS(mode)>> \o (IF given THEN << >> ELSE <<U32F>>)
                               \o <<Fix(16), ValueS(mode), Lst(1, StepS(vp)), CombinedS>>)
    [] k = "contact-res" -> Rec(<<FullTreeHeadS(mode), CombinedS>>)
    [] k = "omon-res" -> Rec(<<FullTreeHeadS(mode), CombinedS>>)
    [] k = "oinit-res" -> Rec(<<FullTreeHeadS(mode), Lst(1, U32F), Lst(2, StepS(vp)), CombinedS>>)
    [] k = "update-res" -> Rec(<<FullTreeHeadS(mode), U64F, Lst(1, Vec(4)), Lst(1, InfoS(mode)), Lst(1, StepS(vp)), CombinedS>>)
    [] k = "head" -> TreeHeadS
    [] k = "ahead" -> AuditorHeadS
    [] k = "fullhead" -> FullTreeHeadS(mode)
    [] k = "value" -> ValueS(mode)
    [] k = "stored" -> StoredValueS(mode)
    [] k = "combined" -> CombinedS
    [] k = "prefix-proof" -> PrefixProofS
    [] k = "log-entry" -> LogEntryS
    [] k = "audit" -> Rec(<<U64F, Lst(2, EntryS), Lst(2, EntryS), PrefixProofS>>)
    [] k = "client" -> Rec(<<TreeHeadS>> \o (IF mode = 3 THEN <<AuditorHeadS>> ELSE << >>)
                           \o <<Lst(1, HashF), Lst(1, Rec(<<U64F, LogEntryS>>))>>)
    [] k = "label" -> Rec(<<Lst(4, MapEntryS), Opt(Rec(<<U64F, U64F, Lst(4, U64F)>>)),
                            Lst(4, Rec(<<U32F, HashF, Opt(HashF)>>))>>)
    (* Only to be hashed or signed. *)
    [] k = "vrf-input" -> Rec(<<Vec(1), U32F>>)
    [] k = "commit-value" -> Rec(<<Vec(1), U32F, ValueS(mode)>>)

(* The state of an auditor has as many full subtrees and timestamps as the    *)
(* size of the tree asks for; sizes in traces are below 2^31 there.           *)
AuditorStateS(n) ==
  Rec(<<AuditorHeadS>> \o [i \in 1..Len(FullSubs(0, n)) |-> HashF] \o [i \in 1..Len(Frontier(n)) |-> U64F]
      \o <<HashF, Lst(2, Rec(<<U64F, HashF>>))>>)
SchemaOf(e) ==
  IF e.k = "auditor"
  THEN LET h == Dec(AuditorHeadS, e.raw, 0)
       IN IF h.ok THEN AuditorStateS(NumUpTo(h.v[2], 2147483646 \div 16)) ELSE AuditorHeadS
  ELSE WireSchema(e.k, e.mode, e.vp, e.given)

(* A user's retained log entries come in any order, but once. *)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
WireOk(k, v) == k = "client" => Distinct(v[Len(v)])
SameValue(k, a, b) ==
  IF k = "client"
  THEN /\ Len(a) = Len(b) /\ SubSeq(a, 1, Len(a) - 1) = SubSeq(b, 1, Len(b) - 1)
       /\ Len(Last(a)) = Len(Last(b)) /\ SeqToSet(Last(a)) = SeqToSet(Last(b))
  ELSE a = b

(***************************************************************************)
(* Steps.                                                                  *)
(***************************************************************************)
IsWire(e) == e.e \in {"encode", "decode", "limit"}
WireAllows(e) ==
  LET want(b, why) == IF b THEN "" ELSE why
  IN CASE e.e = "encode" ->     \* v was encoded as raw
            LET s == SchemaOf(e)
            IN IF ~e.ok THEN want(~Encodable(s, e.v), "encode " \o e.k \o ": refused")
               ELSE IF ~Encodable(s, e.v) THEN "encode " \o e.k \o ": too long"
               ELSE IF e.k = "client"
                    THEN LET r == Dec(s, e.raw, 0)
                         IN want(r.ok /\ r.p = BLen(e.raw) /\ SameValue(e.k, r.v, e.v), "encode client: bytes")
               ELSE want(e.raw = EncBy(s, e.v), "encode " \o e.k \o ": bytes")
       [] e.e = "decode" ->     \* raw was decoded as v, with some bytes left
            LET s == SchemaOf(e)
                r == Dec(s, e.raw, 0)
                ok == r.ok /\ WireOk(e.k, r.v)
            IN IF e.ok # ok THEN "decode " \o e.k \o ": " \o IF e.ok THEN "accepted" ELSE "refused"
               ELSE IF ~ok THEN ""
               ELSE IF e.left # BLen(e.raw) - r.p THEN "decode " \o e.k \o ": consumed"
               ELSE want(SameValue(e.k, r.v, e.v), "decode " \o e.k \o ": value")
       [] e.e = "limit" ->      \* a vector with n elements and its length in w bytes
            want(e.ok = (e.n <= Limit(e.w)) /\ (e.ok => e.back), "limit of " \o e.k)
=============================================================================
