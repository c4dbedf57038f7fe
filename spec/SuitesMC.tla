------------------------------- MODULE SuitesMC -------------------------------
(* The multiples of points that the override computes are the ones defined, and *)
(* the group laws hold: for some points and scalars of both curves.            *)
EXTENDS Suites, TLC
VARIABLE i
Scalar(k) == Sha(U32(k))
Small == { "00", "01", "02", "03", "08", PN, EL }
PPoint(k) == PEncodeTo(U32(k), 0)
EPoint(k) == EEncodeTo(U32(k), 0)
PGood(k, P) ==
  /\ PMul(k, P) = PMulDef(Pad32(k), P)
  /\ P # << >> => POn(P)
  /\ LET Q == PMul(k, P) IN PAddP(Q, P) = PMul(NAdd(Pad32(k), N1, PN), P) /\ PAddP(Q, PNeg(Q)) = << >>
EGood(k, P) ==
  /\ EMul(k, P) = EMulDef(Pad32(k), P)
  /\ LET Q == EMul(k, P) IN EAdd(Q, P) = EMul(NAdd(Pad32(k), N1, EL), P) /\ EAdd(Q, ENeg(Q)) = EId
Init == i = 0
Next == i < 8 /\ i' = i + 1
Curves ==
  /\ PGood(Scalar(i), PG) /\ PGood(Scalar(i), PPoint(i))
  /\ EGood(Scalar(i), EG) /\ EGood(Scalar(i), EPoint(i))
  /\ i = 0 => \A k \in Small : PGood(k, PG) /\ EGood(k, EG)
  /\ PDec(PEnc(PPoint(i))).p = PPoint(i) /\ EDec(EEnc(EPoint(i))).p = EPoint(i)
  /\ PMul(PN, PPoint(i)) = << >> /\ EMul(EL, EPoint(i)) = EId
=============================================================================
