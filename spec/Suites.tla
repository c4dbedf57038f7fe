-------------------------------- MODULE Suites --------------------------------
(* The cipher suites that are provided: P-256 (ECDSA and ECVRF-P256-SHA256-TAI) *)
(* and edwards25519 (Ed25519 and ECVRF-EDWARDS25519-SHA512-TAI with its output  *)
(* truncated), from the curve equations up.  Numbers are big-endian strings of  *)
(* 64 hexadecimal digits; arithmetic modulo a number is evaluated by Java       *)
(* overrides (java/BytesOverrides.java), everything else is defined here.       *)
EXTENDS Bytes

Sha512(h) == CHOOSE x \in STRING : TRUE
NRed(a, m) == CHOOSE x \in STRING : TRUE      \* a mod m
NAdd(a, b, m) == CHOOSE x \in STRING : TRUE
NSub(a, b, m) == CHOOSE x \in STRING : TRUE
NMul(a, b, m) == CHOOSE x \in STRING : TRUE
NInv(a, m) == CHOOSE x \in STRING : TRUE
NPow(a, e, m) == CHOOSE x \in STRING : TRUE
RevBytes(a) == CHOOSE x \in STRING : TRUE
N0 == Zero32
N1 == "0000000000000000000000000000000000000000000000000000000000000001"
N2 == "0000000000000000000000000000000000000000000000000000000000000002"
Pad32(h) == SubSeq(Zero32, 1, 64 - Len(h)) \o h
Byte(h, i) == SubSeq(h, 2 * i - 1, 2 * i)     \* i-th byte, from 1
Bytes_(h, i, j) == SubSeq(h, 2 * i - 1, 2 * j)
NOdd(n) == BitOf(n, 255) = 1
TopBit(n) == BitOf(n, 0) = 1
ClearTop(n) == IF TopBit(n) THEN NSub(n, "8000000000000000000000000000000000000000000000000000000000000000",
                 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff") ELSE n
Bit(n, i) == BitOf(n, i)

(***************************************************************************)
(* P-256.  Points are <<x, y>>, or << >> at infinity.                        *)
(***************************************************************************)
PP == "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"
PN == "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
PB == "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"
PG == << "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
         "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5" >>
N3 == "0000000000000000000000000000000000000000000000000000000000000003"
PSqrtExp == "3fffffffc0000000400000000000000000000000400000000000000000000000"   \* (p + 1) / 4
PRhs(x) == NAdd(NSub(NMul(x, NMul(x, x, PP), PP), NMul(N3, x, PP), PP), PB, PP)
POn(P) == NMul(P[2], P[2], PP) = PRhs(P[1])
PNeg(P) == IF P = << >> THEN P ELSE <<P[1], NSub(N0, P[2], PP)>>
PAddP(P, Q) ==
  IF P = << >> THEN Q
  ELSE IF Q = << >> THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = N0) THEN << >>
  ELSE LET l == IF P = Q
                THEN NMul(NSub(NMul(N3, NMul(P[1], P[1], PP), PP), N3, PP), NInv(NAdd(P[2], P[2], PP), PP), PP)
                ELSE NMul(NSub(Q[2], P[2], PP), NInv(NSub(Q[1], P[1], PP), PP), PP)
           x == NSub(NSub(NMul(l, l, PP), P[1], PP), Q[1], PP)
       IN <<x, NSub(NMul(l, NSub(P[1], x, PP), PP), P[2], PP)>>
RECURSIVE PMulFrom(_, _, _, _)
PMulFrom(k, P, R, i) ==     \* bits from the i-th on are to be processed
  IF i = 256 THEN R
  ELSE LET D == PAddP(R, R)
       IN PMulFrom(k, P, IF Bit(k, i) = 1 THEN PAddP(D, P) ELSE D, i + 1)
PMulDef(k, P) == PMulFrom(k, P, << >>, 0)
PMul(k, P) == PMulDef(k, P)      \* evaluated by an override, see SuitesMC
PEnc(P) == IF P = << >> THEN "00" ELSE (IF NOdd(P[2]) THEN "03" ELSE "02") \o P[1]
NoPoint == [ok |-> FALSE]
PDecX(x, odd) ==
  LET y == NPow(PRhs(x), PSqrtExp, PP)
  IN IF ~HexLess(x, PP) \/ NMul(y, y, PP) # PRhs(x) THEN NoPoint
     ELSE [ok |-> TRUE, p |-> <<x, IF NOdd(y) = odd THEN y ELSE NSub(N0, y, PP)>>]
PDec(h) ==     \* compressed, uncompressed or infinity
  IF h = "00" THEN [ok |-> TRUE, p |-> << >>]
  ELSE IF BLen(h) = 33 /\ Byte(h, 1) \in {"02", "03"}
  THEN PDecX(Bytes_(h, 2, 33), Byte(h, 1) = "03")
  ELSE IF BLen(h) = 65 /\ Byte(h, 1) = "04"
  THEN LET P == <<Bytes_(h, 2, 33), Bytes_(h, 34, 65)>>
       IN IF HexLess(P[1], PP) /\ HexLess(P[2], PP) /\ POn(P) THEN [ok |-> TRUE, p |-> P] ELSE NoPoint
  ELSE NoPoint

(***************************************************************************)
(* edwards25519.  Points are <<x, y>>.  Encodings are little-endian.         *)
(***************************************************************************)
EP == "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"
EL == "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"
ED == "52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3"
EG == << "216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a",
         "6666666666666666666666666666666666666666666666666666666666666658" >>
EId == <<N0, N1>>
ESqrtM1 == "2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0"
ERootExp == "0ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffe"  \* (p + 3) / 8
EMul_(a, b) == NMul(a, b, EP)
EAdd(P, Q) ==
  LET a == EMul_(P[1], Q[2])  b == EMul_(Q[1], P[2])
      c == EMul_(P[2], Q[2])  d == EMul_(P[1], Q[1])
      t == EMul_(ED, EMul_(c, d))
  IN << EMul_(NAdd(a, b, EP), NInv(NAdd(N1, t, EP), EP)),
        EMul_(NAdd(c, d, EP), NInv(NSub(N1, t, EP), EP)) >>
ENeg(P) == <<NSub(N0, P[1], EP), P[2]>>
RECURSIVE EMulFrom(_, _, _, _)
EMulFrom(k, P, R, i) ==
  IF i = 256 THEN R
  ELSE LET D == IF R = EId THEN R ELSE EAdd(R, R)
       IN EMulFrom(k, P, IF Bit(k, i) = 1 THEN EAdd(D, P) ELSE D, i + 1)
EMulDef(k, P) == EMulFrom(k, P, EId, 0)
EMul(k, P) == EMulDef(k, P)      \* likewise
ECof(P) == LET D == EAdd(P, P) D2 == EAdd(D, D) IN EAdd(D2, D2)
SetTop(n) == NAdd(n, "8000000000000000000000000000000000000000000000000000000000000000",
               "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
EEnc(P) == RevBytes(IF NOdd(P[1]) THEN SetTop(P[2]) ELSE P[2])
(* Encodings that are not canonical (y >= p, or x = 0 with its sign set) are     *)
(* accepted, and denote the same point as the canonical one.                     *)
EDec(h) ==
  IF BLen(h) # 32 THEN NoPoint
  ELSE LET n == RevBytes(h)  neg == TopBit(n)
           y == NRed(ClearTop(n), EP)
           y2 == EMul_(y, y)
           u == NSub(y2, N1, EP)  v == NAdd(EMul_(ED, y2), N1, EP)
           w == EMul_(u, NInv(v, EP))
           r == NPow(w, ERootExp, EP)
           x == IF EMul_(r, r) = w THEN r ELSE EMul_(r, ESqrtM1)
       IN IF EMul_(x, x) # w THEN NoPoint
          ELSE [ok |-> TRUE, p |-> <<IF NOdd(x) = neg THEN x ELSE NSub(N0, x, EP), y>>]

(***************************************************************************)
(* ECVRF (RFC 9381).  Proofs are <<Gamma, c, s>> encoded.                    *)
(***************************************************************************)
RECURSIVE PEncodeTo(_, _)
PEncodeTo(in, ctr) ==
  LET d == PDecX(Sha("0101" \o in \o U8(ctr) \o "00"), FALSE)
  IN IF d.ok THEN d.p ELSE PEncodeTo(in, ctr + 1)
RECURSIVE EEncodeTo(_, _)
EEncodeTo(in, ctr) ==
  LET d == EDec(Bytes_(Sha512("0301" \o in \o U8(ctr) \o "00"), 1, 32))
  IN IF d.ok THEN ECof(d.p) ELSE EEncodeTo(in, ctr + 1)

PChallenge(y, H, g, U, V) == Bytes_(Sha("0102" \o y \o PEnc(H) \o g \o PEnc(U) \o PEnc(V) \o "00"), 1, 16)
EChallenge(y, H, g, U, V) == Bytes_(Sha512("0302" \o y \o EEnc(H) \o g \o EEnc(U) \o EEnc(V) \o "00"), 1, 16)
POutput(g) == Sha("0103" \o g \o "00")
EOutput(G) == Bytes_(Sha512("0303" \o EEnc(ECof(G)) \o "00"), 1, 32)

(* RFC 6979. *)
RECURSIVE PNonceLoop(_, _)
PNonceLoop(K, V) ==
  LET W == Hmac(K, V)
  IN IF W # N0 /\ HexLess(W, PN) THEN W
     ELSE LET K1 == Hmac(K, W \o "00") IN PNonceLoop(K1, Hmac(K1, W))
PNonce(x, m) ==
  LET ones == Cat([i \in 1..32 |-> "01"])
      h1 == NRed(Sha(m), PN)
      K1 == Hmac(N0, ones \o "00" \o x \o h1)
      V1 == Hmac(K1, ones)
      K2 == Hmac(K1, V1 \o "01" \o x \o h1)
  IN PNonceLoop(K2, Hmac(K2, V1))

PKeyOK(x) == BLen(x) = 32 /\ x # N0 /\ HexLess(x, PN)
PPub(x) == PMul(x, PG)
PProve(x, m) ==      \* [o, p]
  LET Y == PEnc(PPub(x))
      H == PEncodeTo(Y \o m, 0)
      g == PEnc(PMul(x, H))
      k == PNonce(x, PEnc(H))
      c == PChallenge(Y, H, g, PMul(k, PG), PMul(k, H))
      s == NAdd(k, NMul(Pad32(c), x, PN), PN)
  IN [o |-> POutput(g), p |-> g \o c \o s]
PVrfVerify(Y, m, pr) ==     \* Y: point
  LET g == Bytes_(pr, 1, 33)  G == PDec(g)
      c == Bytes_(pr, 34, 49)  s == Bytes_(pr, 50, 81)
      H == PEncodeTo(PEnc(Y) \o m, 0)
      U == PAddP(PMul(s, PG), PNeg(PMul(Pad32(c), Y)))
      V == PAddP(PMul(s, H), PNeg(PMul(Pad32(c), G.p)))
  IN IF BLen(pr) # 81 THEN NoPoint
     ELSE IF ~G.ok \/ ~PKeyOK(s) THEN NoPoint
     ELSE IF PChallenge(PEnc(Y), H, PEnc(G.p), U, V) # c THEN NoPoint
     ELSE [ok |-> TRUE, o |-> POutput(PEnc(G.p))]

EClamp(h) ==     \* little-endian half of a hash, as a number
  LET n == RevBytes(h)
      lo == NSub(n, NRed(Byte(n, 32), "0000000000000000000000000000000000000000000000000000000000000008"),
                 "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
      hi == ClearTop(lo)
  IN IF Bit(hi, 1) = 1 THEN hi
     ELSE NAdd(hi, "4000000000000000000000000000000000000000000000000000000000000000",
               "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")
EScalar(seed) == EClamp(Bytes_(Sha512(seed), 1, 32))
EPub(seed) == EMul(EScalar(seed), EG)
ERedLE(h) == NRed(RevBytes(h), EL)
EProve(seed, m) ==
  LET x == NRed(EScalar(seed), EL)
      Y == EEnc(EPub(seed))
      H == EEncodeTo(Y \o m, 0)
      G == EMul(x, H)
      k == ERedLE(Sha512(Bytes_(Sha512(seed), 33, 64) \o EEnc(H)))
      c == EChallenge(Y, H, EEnc(G), EMul(k, EG), EMul(k, H))
      s == NAdd(k, NMul(RevBytes(c), x, EL), EL)
  IN [o |-> EOutput(G), p |-> EEnc(G) \o c \o RevBytes(s)]
EVrfKeyOK(Y) == ECof(Y) # EId
EVrfVerify(Y, m, pr) ==
  LET G == EDec(Bytes_(pr, 1, 32))
      c == Bytes_(pr, 33, 48)  s == RevBytes(Bytes_(pr, 49, 80))
      cn == Pad32(RevBytes(c))
      H == EEncodeTo(EEnc(Y) \o m, 0)
      U == EAdd(EMul(s, EG), ENeg(EMul(cn, Y)))
      V == EAdd(EMul(s, H), ENeg(EMul(cn, G.p)))
  IN IF BLen(pr) # 80 THEN NoPoint
     ELSE IF ~G.ok \/ ~HexLess(s, EL) THEN NoPoint
     ELSE IF EChallenge(EEnc(Y), H, EEnc(G.p), U, V) # c THEN NoPoint
     ELSE [ok |-> TRUE, o |-> EOutput(G.p)]

(***************************************************************************)
(* Signatures.                                                             *)
(***************************************************************************)
EcdsaOK(Y, m, sig) ==
  LET r == Bytes_(sig, 1, 32)  s == Bytes_(sig, 33, 64)
      w == NInv(s, PN)
      R == PAddP(PMul(NMul(NRed(Sha(m), PN), w, PN), PG), PMul(NMul(r, w, PN), Y))
  IN /\ BLen(sig) = 64 /\ PKeyOK(r) /\ PKeyOK(s)
     /\ R # << >> /\ NRed(R[1], PN) = r
EdSign(seed, m) ==
  LET h == Sha512(seed)
      a == EClamp(Bytes_(h, 1, 32))
      A == EEnc(EMul(a, EG))
      r == ERedLE(Sha512(Bytes_(h, 33, 64) \o m))
      R == EEnc(EMul(r, EG))
      k == ERedLE(Sha512(R \o A \o m))
  IN R \o RevBytes(NAdd(r, NMul(k, NRed(a, EL), EL), EL))
EdOK(pub, m, sig) ==
  LET A == EDec(pub)
      R == Bytes_(sig, 1, 32)  s == RevBytes(Bytes_(sig, 33, 64))
      k == ERedLE(Sha512(R \o pub \o m))
  IN /\ BLen(sig) = 64 /\ A.ok /\ HexLess(s, EL)
     /\ EEnc(EAdd(EMul(s, EG), ENeg(EMul(k, A.p)))) = R

(***************************************************************************)
(* What is observed of the suites.  e.s: "p256" or "ed".                     *)
(***************************************************************************)
VrfPubOK(s, raw) ==
  IF s = "p256" THEN BLen(raw) \in {33, 65} /\ PDec(raw).ok
  ELSE EDec(raw).ok /\ EVrfKeyOK(EDec(raw).p)
VrfPubEnc(s, raw) == IF s = "p256" THEN PEnc(PDec(raw).p) ELSE EEnc(EDec(raw).p)
VrfKeyFine(s, raw) == IF s = "p256" THEN PKeyOK(raw) ELSE BLen(raw) = 32
VrfProveOf(s, raw, m) == IF s = "p256" THEN PProve(raw, m) ELSE EProve(raw, m)
VrfVerifyOf(s, pub, m, pr) ==
  IF s = "p256" THEN PVrfVerify(PDec(pub).p, m, pr) ELSE EVrfVerify(EDec(pub).p, m, pr)
SigPubFine(s, raw) ==
  IF s = "p256" THEN BLen(raw) = 65 /\ PDec(raw).ok ELSE BLen(raw) = 32
SigVerifyOf(s, pub, m, sig) ==
  IF s = "p256" THEN EcdsaOK(PDec(pub).p, m, sig) ELSE EdOK(pub, m, sig)
SigPubOf(s, raw) ==
  IF s = "p256" THEN LET Y == PPub(raw) IN "04" \o Y[1] \o Y[2] ELSE EEnc(EPub(raw))

IsSuiteEvent(e) == e.e \in { "suite", "vkey", "vprove", "vpub", "vver", "skey", "ssign", "spub", "sver",
                             "commit", "cver" }
CommitFixed == "d821f8790d97709796b4d7903357c3f5"
SuiteAllows(e) ==     \* reason, or "" if allowed
  LET want(b, why) == IF b THEN "" ELSE why
  IN CASE e.e = "suite" ->
            want(/\ e.id = (IF e.s = "p256" THEN 1 ELSE 2) /\ e.hs = 32 /\ e.os = 16
                 /\ e.ps = (IF e.s = "p256" THEN 81 ELSE 80) /\ e.fixed = CommitFixed
                 /\ e.h = Sha(e.m), "suite: parameters")
       [] e.e = "vkey" ->
            IF e.ok # VrfKeyFine(e.s, e.raw) THEN "vrf key: " \o (IF e.ok THEN "accepted" ELSE "refused")
            ELSE want(~e.ok \/ e.pub = (IF e.s = "p256" THEN PEnc(PPub(e.raw)) ELSE EEnc(EPub(e.raw))),
                      "vrf key: public key")
       [] e.e = "vprove" ->
            LET r == VrfProveOf(e.s, e.raw, e.m)
            IN IF e.o # r.o THEN "vrf: output" ELSE want(e.p = r.p, "vrf: proof")
       [] e.e = "vpub" ->
            IF e.ok # VrfPubOK(e.s, e.raw) THEN "vrf public key: " \o (IF e.ok THEN "accepted" ELSE "refused")
            ELSE want(~e.ok \/ e.enc = VrfPubEnc(e.s, e.raw), "vrf public key: encoding")
       [] e.e = "vver" ->
            LET r == VrfVerifyOf(e.s, e.pub, e.m, e.p)
            IN IF e.ok # r.ok THEN "vrf proof: " \o (IF e.ok THEN "accepted" ELSE "refused")
               ELSE want(~e.ok \/ e.o = r.o, "vrf proof: output")
       [] e.e = "skey" ->
            IF e.ok # VrfKeyFine(e.s, e.raw) THEN "signing key: " \o (IF e.ok THEN "accepted" ELSE "refused")
            ELSE want(~e.ok \/ e.pub = SigPubOf(e.s, e.raw), "signing key: public key")
       [] e.e = "ssign" ->
            IF e.s = "ed" THEN want(e.sig = EdSign(e.raw, e.m), "signature: not the right one")
            ELSE want(EcdsaOK(PPub(e.raw), e.m, e.sig), "signature: invalid")
       [] e.e = "spub" ->
            (* An Ed25519 key that is not a point may as well be refused at once. *)
            IF ~e.ok THEN want(~SigPubFine(e.s, e.raw) \/ (e.s = "ed" /\ ~EDec(e.raw).ok), "public key: refused")
            ELSE IF ~SigPubFine(e.s, e.raw) THEN "public key: accepted"
            ELSE want(e.enc = e.raw, "public key: encoding")
       [] e.e = "sver" ->
            want(e.ok = SigVerifyOf(e.s, e.pub, e.m, e.sig), "signature: " \o (IF e.ok THEN "accepted" ELSE "refused"))
       [] e.e = "commit" -> want(e.c = Hmac(CommitFixed, e.op \o e.body), "commitment")
       [] e.e = "cver" -> want(e.ok = (e.c = Hmac(CommitFixed, e.op \o e.body)),
                               "commitment: " \o (IF e.ok THEN "opened" ELSE "not opened"))
=============================================================================
