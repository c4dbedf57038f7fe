------------------------------- MODULE LogTree -------------------------------
(* The log tree: a left-balanced binary Merkle tree over the leaf hashes of a  *)
(* log.  A node is identified by the interval [lo, hi) of leaves below it; the *)
(* implementation's bit-twiddled node numbers are not used here at all.        *)
EXTENDS Encoding

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* The largest power of two strictly smaller than n (n >= 2). *)
RECURSIVE SplitFrom(_, _)
SplitFrom(p, n) == IF 2 * p >= n THEN p ELSE SplitFrom(2 * p, n)
Split(n) == SplitFrom(1, n)

IsPow2(n) == n = 1 \/ 2 * Split(n) = n

LeafFlag == "00"
NodeFlag == "01"
Flag(w) == IF w = 1 THEN LeafFlag ELSE NodeFlag

HashPair(w1, h1, w2, h2) == Sha(Flag(w1) \o h1 \o Flag(w2) \o h2)

(* Hash of the interval [lo, hi) of `leaves' (leaves[i+1] is leaf i). *)
RECURSIVE LHash(_, _, _)
LHash(leaves, lo, hi) ==
  IF hi - lo = 1 THEN leaves[lo + 1]
  ELSE LET k == Split(hi - lo)
       IN HashPair(k, LHash(leaves, lo, lo + k), hi - lo - k, LHash(leaves, lo + k, hi))

LogRoot(leaves, n) == LHash(leaves, 0, n)

(* The maximal perfect subtrees of [lo, hi), left to right. *)
RECURSIVE FullSubs(_, _)
FullSubs(lo, hi) ==
  IF IsPow2(hi - lo) THEN << <<lo, hi>> >>
  ELSE LET k == Split(hi - lo) IN << <<lo, lo + k>> >> \o FullSubs(lo + k, hi)

FullSubVals(leaves, n) ==
  LET s == FullSubs(0, n) IN [i \in 1..Len(s) |-> LHash(leaves, s[i][1], s[i][2])]

(* Root from full subtree values. *)
RECURSIVE RootOf(_, _, _)
RootOf(fs, lo, n) ==   \* fs: values of the full subtrees of [lo, n)
  IF Len(fs) = 1 THEN fs[1]
  ELSE LET k == Split(n - lo)
       IN HashPair(k, fs[1], n - lo - k, RootOf(Tail(fs), lo + k, n))

(***************************************************************************)
(* Batch proofs.  The verifier knows the leaves in S and, if it has        *)
(* previously seen the tree at size m, the full subtrees of that tree.  It *)
(* also wants the full subtrees of the tree of size nP, when requested.    *)
(* mO and nPO are sequences of length 0 or 1.                              *)
(***************************************************************************)
Known(S, nPO, mO) ==
  { <<x, x + 1>> : x \in S }
  \cup (IF nPO = << >> THEN {} ELSE SeqToSet(FullSubs(0, nPO[1])))
  \cup (IF mO = << >> THEN {} ELSE SeqToSet(FullSubs(0, mO[1])))

Inside(I, lo, hi) == lo <= I[1] /\ I[2] <= hi

RECURSIVE Copath(_, _, _, _)
Copath(K, Inc, lo, hi) ==
  LET R == { I \in K : Inside(I, lo, hi) }
  IN IF R = {} THEN FullSubs(lo, hi)
     ELSE IF R = { <<lo, hi>> }
          THEN IF <<lo, hi>> \in Inc THEN << <<lo, hi>> >> ELSE << >>
     ELSE LET k == Split(hi - lo)
          IN Copath(R, Inc, lo, lo + k) \o Copath(R, Inc, lo + k, hi)

BatchNodes(S, n, nPO, mO) ==
  Copath(Known(S, nPO, mO),
         IF nPO = << >> THEN {} ELSE SeqToSet(FullSubs(0, nPO[1])), 0, n)

BatchProof(leaves, S, n, nPO, mO) ==
  LET c == BatchNodes(S, n, nPO, mO)
  IN [i \in 1..Len(c) |-> LHash(leaves, c[i][1], c[i][2])]

ProofParamsOK(n, nPO, mO) ==
  /\ n > 0
  /\ nPO # << >> => nPO[1] > 0 /\ nPO[1] <= n
  /\ mO # << >> => mO[1] > 0 /\ mO[1] <= n

(***************************************************************************)
(* Evaluation: given claimed leaf values, retained full subtrees and a     *)
(* proof, either reject or determine the full subtrees of the tree of size *)
(* n (and of size nP).  A node's value may be asserted by several sources; *)
(* evaluation fails unless they all agree with the recomputed hashes.      *)
(***************************************************************************)
(* claims: set of <<interval, value>>. Result: <<ok, set of claims>> where   *)
(* the set has been extended with every derived node.                        *)
RECURSIVE Derive(_, _, _, _)
Derive(claims, order, lo, hi) ==
  \* order: set of intervals asserted from outside
  LET R == { I \in order : Inside(I, lo, hi) }
      mine == { c \in claims : c[1] = <<lo, hi>> }
  IN IF R = { <<lo, hi>> } THEN [ok |-> TRUE, c |-> mine]
     ELSE IF hi - lo = 1 THEN [ok |-> FALSE, c |-> {}]
     ELSE LET k == Split(hi - lo)
              l == Derive(claims, order, lo, lo + k)
              r == Derive(claims, order, lo + k, hi)
          IN IF ~l.ok \/ ~r.ok THEN [ok |-> FALSE, c |-> {}]
             ELSE IF IsPow2(hi - lo)
                  THEN LET lv == (CHOOSE c \in l.c : c[1] = <<lo, lo + k>>)[2]
                           rv == (CHOOSE c \in r.c : c[1] = <<lo + k, hi>>)[2]
                           v  == HashPair(k, lv, hi - lo - k, rv)
                       IN [ok |-> \A c \in mine : c[2] = v,
                           c  |-> l.c \cup r.c \cup { <<<<lo, hi>>, v>> }]
                  ELSE [ok |-> TRUE, c |-> l.c \cup r.c]

EvalFail == [ok |-> FALSE, fs |-> << >>, add |-> << >>]

(* entries: sequence of leaf positions; values: their values; retained: full  *)
(* subtree values for size mO[1].                                             *)
Evaluate(entries, n, nPO, mO, retained, values, proof) ==
  LET fsM == IF mO = << >> THEN << >> ELSE FullSubs(0, mO[1])
      fsN == FullSubs(0, n)
      fsP == IF nPO = << >> THEN << >> ELSE FullSubs(0, nPO[1])
      cop == BatchNodes(SeqToSet(entries), n, nPO, mO)
      claims == { <<<<entries[i], entries[i] + 1>>, values[i]>> : i \in 1..Len(entries) }
                \cup { <<fsM[i], retained[i]>> : i \in 1..Len(fsM) }
                \cup { <<cop[i], proof[i]>> : i \in 1..Len(cop) }
  IN IF ~ProofParamsOK(n, nPO, << >>) THEN EvalFail
     ELSE IF mO # << >> /\ (mO[1] = 0 \/ mO[1] > n) THEN EvalFail
     ELSE IF mO # << >> /\ Len(retained) # Len(fsM) THEN EvalFail
     ELSE IF Len(entries) # Len(values) THEN EvalFail
     ELSE IF \E i \in 1..Len(entries) : entries[i] >= n THEN EvalFail
     ELSE IF Len(proof) # Len(cop) THEN EvalFail
     ELSE IF \E i \in 1..Len(proof) : BLen(proof[i]) # 32 THEN EvalFail
     ELSE IF \E i \in 1..Len(values) : BLen(values[i]) # 32 THEN EvalFail
     ELSE IF \E a \in claims, b \in claims : a[1] = b[1] /\ a[2] # b[2] THEN EvalFail
     ELSE LET d == Derive(claims, { c[1] : c \in claims }, 0, n)
              val(I) == (CHOOSE c \in d.c : c[1] = I)[2]
          IN IF ~d.ok THEN EvalFail
             ELSE [ok |-> TRUE,
                   fs |-> [i \in 1..Len(fsN) |-> val(fsN[i])],
                   add |-> [i \in 1..Len(fsP) |-> val(fsP[i])]]
=============================================================================
