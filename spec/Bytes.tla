------------------------------- MODULE Bytes -------------------------------
(* Byte strings, represented as lower-case hexadecimal strings, and the       *)
(* primitive functions on them.  SHA-256 and HMAC are evaluated by Java       *)
(* overrides (java/BytesOverrides.java); everything built from them --- every *)
(* tree hash, commitment, to-be-signed string --- is defined in TLA+.         *)
EXTENDS Naturals, Integers, Sequences

(* SHA-256 of a byte string. *)
Sha(h) == CHOOSE x \in STRING : TRUE
(* HMAC-SHA-256 with the given key. *)
Hmac(k, h) == CHOOSE x \in STRING : TRUE
(* Big-endian fixed-width encodings of a natural number. *)
U8(n) == CHOOSE x \in STRING : TRUE
U16(n) == CHOOSE x \in STRING : TRUE
U32(n) == CHOOSE x \in STRING : TRUE
U64(n) == CHOOSE x \in STRING : TRUE
(* 64-bit encoding of the timestamp BASE + off, BASE = 2000-01-01T00:00:00Z.  *)
(* All timestamps in the specification are offsets from BASE in milliseconds. *)
TsHex(off) == CHOOSE x \in STRING : TRUE
(* Bit i (0 = most significant bit of the first byte) of a byte string. *)
BitOf(h, i) == CHOOSE x \in {0, 1} : TRUE
(* Lexicographic comparison of byte strings of any length. *)
HexLess(a, b) == CHOOSE x \in BOOLEAN : TRUE
(* Hex encoding of the bytes of an ASCII string. *)
Ascii(s) == CHOOSE x \in STRING : TRUE

BLen(h) == Len(h) \div 2
Zero32 == "0000000000000000000000000000000000000000000000000000000000000000"

RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN "" ELSE Head(s) \o Cat(Tail(s))

(* Length-prefixed vectors. *)
V8(h) == U8(BLen(h)) \o h
V16(h) == U16(BLen(h)) \o h
V32(h) == U32(BLen(h)) \o h

RECURSIVE SeqToSet(_)
SeqToSet(s) == { s[i] : i \in 1..Len(s) }
Last(s) == s[Len(s)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN << >> ELSE Append(Rev(Tail(s)), Head(s))
Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
(* Ascending sequence of a finite set of integers. *)
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN << >>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN <<m>> \o SortInts(S \ {m})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
