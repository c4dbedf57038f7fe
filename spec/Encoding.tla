------------------------------ MODULE Encoding ------------------------------
(* Byte-level encodings of everything that is signed, committed to, or fed to  *)
(* the VRF, and the ideal functionalities used for the signature scheme and    *)
(* the VRF.                                                                    *)
(*                                                                             *)
(* Configuration C:                                                            *)
(*   mode  1 contact monitoring, 2 third-party management, 3 third-party       *)
(*         auditing                                                            *)
(*   sk    name of the log's signature key     vk  name of the VRF key         *)
(*   suite "ideal": signatures and VRF are the ideal functionalities below.    *)
(*         "ed", "p256": the VRF is that of the suite, vk its key; signature    *)
(*         keys that start with "ed:" are real as well.  pub maps keys to        *)
(*         public keys, vt inputs of the VRF to outputs and proofs computed      *)
(*         before (see GoodConfig).                                              *)
(*   vb,vg VRF bias: nibbles vb..vb+vg-1 of every output are zero              *)
(*   lk    name of the leaf key (mode 2)       ak  name of the auditor key (3) *)
(*   lag, astart    (mode 3)                                                   *)
(*   ahead, behind, rmw, life   in milliseconds; life = 0 means none           *)
(* Numbers that are too large for the model are written Never.                 *)
EXTENDS Suites

Never == -1
Num64(n) == IF n = Never THEN "4000000000000000" ELSE U64(n)

IsReal(k) == Len(k) > 3 /\ SubSeq(k, 1, 3) = "ed:"
KeyEnc(C, k) == IF C.suite # "ideal" /\ k \in DOMAIN C.pub THEN C.pub[k] ELSE Ascii(k)
ConfigEnc(C) ==
  U16(IF C.suite = "p256" THEN 1 ELSE 2) \o U8(C.mode) \o V16(KeyEnc(C, C.sk)) \o V16(KeyEnc(C, C.vk))
  \o (CASE C.mode = 2 -> V16(KeyEnc(C, C.lk))
        [] C.mode = 3 -> Num64(C.lag) \o U64(C.astart) \o V16(KeyEnc(C, C.ak))
        [] OTHER -> "")
  \o Num64(C.ahead) \o Num64(C.behind) \o Num64(C.rmw)
  \o (IF C.life = 0 THEN "00" ELSE "01" \o Num64(C.life))

TreeHeadTBS(C, n, root) == ConfigEnc(C) \o U64(n) \o root
AuditorTBS(C, ts, n, root) == ConfigEnc(C) \o TsHex(ts) \o U64(n) \o root
UpdateTBS(C, label, ver, v) == ConfigEnc(C) \o V8(label) \o U32(ver) \o V32(v)

(* A label value is [v |-> value, s |-> << >> or <<signature>>]. *)
Suffix(s) == IF s = << >> THEN "" ELSE V16(s[1])
CommitBody(label, ver, val) == V8(label) \o U32(ver) \o V32(val.v) \o Suffix(val.s)
CommitKey == "d821f8790d97709796b4d7903357c3f5"
Commitment(op, label, ver, val) == Hmac(CommitKey, op \o CommitBody(label, ver, val))
StoredValue(op, val) == op \o V32(val.v) \o Suffix(val.s)

VrfInput(label, ver) == V8(label) \o U32(ver)

(* Ideal signatures: Sig(k, m) is the only valid signature of k on m. *)
Sig(k, m) ==
  IF IsReal(k) THEN EdSign(SubSeq(k, 4, Len(k)), m) ELSE
  Sha(Ascii("ideal-signature:") \o Ascii(k) \o Ascii(":") \o m)

(* Ideal VRF. *)
Zeros(n) == SubSeq(Zero32, 1, n)
VrfSecret(C) == SubSeq(C.vk, Len(C.suite) + 2, Len(C.vk))
VrfOutOf(C, in) ==
  IF C.suite # "ideal"
  THEN IF in \in DOMAIN C.vt THEN C.vt[in][1] ELSE VrfProveOf(C.suite, VrfSecret(C), in).o
  ELSE LET h == Sha(Ascii("ideal-vrf:") \o Ascii(C.vk) \o Ascii(":") \o in)
  IN IF C.vg = 0 THEN h
     ELSE SubSeq(h, 1, C.vb) \o Zeros(C.vg) \o SubSeq(h, C.vb + C.vg + 1, 64)
VrfProofOf(C, in) ==
  IF C.suite # "ideal"
  THEN IF in \in DOMAIN C.vt THEN C.vt[in][2] ELSE VrfProveOf(C.suite, VrfSecret(C), in).p
  ELSE LET o == VrfOutOf(C, in)
  IN o \o Sha(Ascii("ideal-vrf-proof:") \o Ascii(C.vk) \o Ascii(":") \o o \o in)
VrfOut(C, label, ver) == VrfOutOf(C, VrfInput(label, ver))
VrfProof(C, label, ver) == VrfProofOf(C, VrfInput(label, ver))

(* What the configuration says about its keys is right. *)
GoodConfig(C, S) ==
  C.suite # "ideal" =>
    /\ \A k \in DOMAIN C.pub :
         C.pub[k] = IF k = C.vk THEN IF C.suite = "p256" THEN PEnc(PPub(VrfSecret(C))) ELSE EEnc(EPub(VrfSecret(C)))
                    ELSE EEnc(EPub(SubSeq(k, 4, Len(k))))
    /\ \A in \in S : LET r == VrfProveOf(C.suite, VrfSecret(C), in) IN C.vt[in] = <<r.o, r.p>>

LeafOf(ts, root) == Sha(TsHex(ts) \o root)
=============================================================================
