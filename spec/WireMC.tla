------------------------------- MODULE WireMC -------------------------------
(* The grammar of Wire is unambiguous: whatever decodes is the encoding of what *)
(* it decodes to, what follows an encoding does not change how it is read, and  *)
(* so two different values never have the same encoding, or one that begins     *)
(* with the other's.  Checked for all byte strings of up to MaxLen bytes over an     *)
(* alphabet that contains all the bytes that matter to structure.               *)
EXTENDS Wire
CONSTANT MaxLen
VARIABLES sch, b

Small == { Fix(1), Vec(1), Vec(2), Lst(1, Fix(1)), Lst(2, Fix(1)), Opt(Fix(1)), Opt(Vec(1)),
           Lst(1, Vec(1)), Lst(1, Opt(Fix(1))), Rec(<<Opt(Fix(1)), Vec(1), Opt(Fix(2))>>),
           Alt("01" :> Fix(1) @@ "02" :> Rec(<<Vec(1), Fix(1)>>) @@ "03" :> None),
           Lst(1, Alt("01" :> Fix(1) @@ "02" :> Rec(<<Fix(1), Fix(1)>>))),
           Rec(<<Lst(1, Fix(1)), Lst(1, Rec(<<Lst(1, Fix(1)), Lst(1, Fix(1))>>)), Fix(1)>>) }
Alphabet == { "00", "01", "02", "03", "ff" }

Init == sch \in Small /\ b = ""
Next == BLen(b) < MaxLen /\ \E c \in Alphabet : b' = b \o c /\ UNCHANGED sch

R == Dec(sch, b, 0)
Canonical == R.ok => EncBy(sch, R.v) = SubSeq(b, 1, 2 * R.p) /\ Encodable(sch, R.v)
PrefixFree == \A k \in 0..BLen(b) : LET q == Dec(sch, SubSeq(b, 1, 2 * k), 0) IN
                q.ok => R.ok /\ R.v = q.v /\ R.p = q.p
NotEarlier == R.ok => \A k \in 0..(R.p - 1) : ~Dec(sch, SubSeq(b, 1, 2 * k), 0).ok
=============================================================================
