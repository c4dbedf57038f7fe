----------------------------- MODULE PrefixTree -----------------------------
(* The prefix tree as what it denotes: a finite map from VRF outputs to       *)
(* commitments, whose shape is the canonical radix tree of the key set.        *)
(* A map is a set K of records [v |-> vrf output, c |-> commitment].           *)
EXTENDS Bytes

PLeaf(e) == Sha("02" \o e.v \o e.c)
PParent(l, r) == Sha("03" \o l \o r)

Side(K, d, b) == { e \in K : BitOf(e.v, d) = b }

RECURSIVE PHash(_, _)
PHash(K, d) ==
  IF K = {} THEN Zero32
  ELSE IF \A e \in K, f \in K : e = f THEN PLeaf(CHOOSE e \in K : TRUE)
  ELSE PParent(PHash(Side(K, d, 0), d + 1), PHash(Side(K, d, 1), d + 1))
PRoot(K) == PHash(K, 0)

(***************************************************************************)
(* Batch search.  Q: sequence of VRF outputs.  Results, in query order:    *)
(*   [k |-> 1, d]                inclusion at depth d                      *)
(*   [k |-> 2, d, lv, lc]        some other leaf is in the way             *)
(*   [k |-> 3, d]                nothing there                             *)
(* Elements: hashes of subtrees no query leads into, left to right.        *)
(***************************************************************************)
RECURSIVE Locate(_, _, _)
Locate(K, q, d) ==
  IF K = {} THEN [k |-> 3, d |-> d]
  ELSE IF \A e \in K, f \in K : e = f
       THEN LET e == CHOOSE e \in K : TRUE
            IN IF e.v = q THEN [k |-> 1, d |-> d]
               ELSE [k |-> 2, d |-> d, lv |-> e.v, lc |-> e.c]
  ELSE Locate(Side(K, d, BitOf(q, d)), q, d + 1)

RECURSIVE PElems(_, _, _)
PElems(K, Q, d) ==    \* Q: set of queries
  IF Q = {} THEN <<PHash(K, d)>>
  ELSE IF \A e \in K, f \in K : e = f THEN << >>
  ELSE PElems(Side(K, d, 0), { q \in Q : BitOf(q, d) = 0 }, d + 1)
       \o PElems(Side(K, d, 1), { q \in Q : BitOf(q, d) = 1 }, d + 1)

PProof(K, Q) ==
  [r |-> [i \in 1..Len(Q) |-> Locate(K, Q[i], 0)],
   e |-> PElems(K, SeqToSet(Q), 0)]
PCommitment(K, q) ==  \* "" if absent
  LET S == { e \in K : e.v = q } IN IF S = {} THEN "" ELSE (CHOOSE e \in S : TRUE).c

(***************************************************************************)
(* Evaluating a proof.  E: sequence of [v, c] (c = "" when the commitment  *)
(* is not known).  The first result that reaches a position decides what   *)
(* is there; later results that end there must agree with it.              *)
(* Trees: [t |-> "empty"], [t |-> "leaf", v, c], [t |-> "ext", h],         *)
(*        [t |-> "par", l, r].                                             *)
(***************************************************************************)
PFail == [ok |-> FALSE]

Incl(r) == r.k = 1

(* Consistency of a single result with what is at its position. *)
AgreesEmpty(r) == ~Incl(r)
AgreesLeaf(e, r, lv, lc) ==
  /\ Incl(r) <=> e.v = lv
  /\ Incl(r) => e.c = lc

SamePrefix(a, b, d) ==    \* in the first d bits
  /\ SubSeq(a, 1, d \div 4) = SubSeq(b, 1, d \div 4)
  /\ \A i \in (4 * (d \div 4))..(d - 1) : BitOf(a, i) = BitOf(b, i)

(* I: sequence of indices into E/R that lead into this node, in order. *)
RECURSIVE PBuild(_, _, _, _, _)
PBuild(E, R, I, els, d) ==
  IF I = << >>
  THEN IF els = << >> THEN [ok |-> FALSE, n |-> << >>, els |-> << >>]
       ELSE [ok |-> TRUE,
             n |-> IF Head(els) = Zero32 THEN [t |-> "empty"]
                   ELSE [t |-> "ext", h |-> Head(els)],
             els |-> Tail(els)]
  ELSE IF \E i \in 1..Len(I) : R[I[i]].d < d
       THEN [ok |-> FALSE, n |-> << >>, els |-> << >>]
  ELSE IF \A i \in 1..Len(I) : R[I[i]].d = d
       THEN LET f == I[1]
                n == IF R[f].k = 1 THEN [t |-> "leaf", v |-> E[f].v, c |-> E[f].c]
                     ELSE IF R[f].k = 2 THEN [t |-> "leaf", v |-> R[f].lv, c |-> R[f].lc]
                     ELSE [t |-> "empty"]
                fine == IF n.t = "empty"
                        THEN \A i \in 1..Len(I) : AgreesEmpty(R[I[i]])
                        ELSE /\ R[f].k = 2 => E[f].v # R[f].lv /\ SamePrefix(E[f].v, R[f].lv, d)
                             /\ \A i \in 2..Len(I) : AgreesLeaf(E[I[i]], R[I[i]], n.v, n.c)
            IN [ok |-> fine, n |-> n, els |-> els]
  ELSE IF \E i \in 1..Len(I) : R[I[i]].d = d
       THEN [ok |-> FALSE, n |-> << >>, els |-> << >>]
  ELSE LET a == PBuild(E, R, SelectSeq(I, LAMBDA i : BitOf(E[i].v, d) = 0), els, d + 1)
           b == PBuild(E, R, SelectSeq(I, LAMBDA i : BitOf(E[i].v, d) = 1), a.els, d + 1)
       IN IF ~a.ok THEN a
          ELSE IF ~b.ok THEN b
          ELSE [ok |-> TRUE, n |-> [t |-> "par", l |-> a.n, r |-> b.n], els |-> b.els]

RECURSIVE TreeHash(_)
TreeHash(n) ==
  CASE n.t = "empty" -> Zero32
    [] n.t = "leaf" -> PLeaf(n)
    [] n.t = "ext" -> n.h
    [] n.t = "par" -> PParent(TreeHash(n.l), TreeHash(n.r))

PTree(E, proof) ==
  IF Len(E) # Len(proof.r) THEN PFail
  ELSE IF \E i \in 1..Len(E) : BLen(E[i].v) # 32 \/ BLen(E[i].c) \notin {0, 32} THEN PFail
  ELSE IF \E i, j \in 1..Len(E) : i # j /\ E[i].v = E[j].v THEN PFail
  ELSE LET b == PBuild(E, proof.r, [i \in 1..Len(E) |-> i], proof.e, 0)
       IN IF b.ok /\ b.els = << >> THEN [ok |-> TRUE, n |-> b.n] ELSE PFail

PEvaluate(E, proof) ==
  LET t == PTree(E, proof)
  IN IF t.ok THEN [ok |-> TRUE, root |-> TreeHash(t.n)] ELSE [ok |-> FALSE, root |-> ""]

(***************************************************************************)
(* Evaluating a proof before and after a change.  In the tree known from a *)
(* proof, opaque subtrees stay opaque.                                     *)
(*                                                                         *)
(* "Collapse": after a removal, a parent left with a single leaf below it  *)
(* becomes that leaf.  An opaque sibling may itself be a leaf; the proof   *)
(* does not say so, and then no collapse happens (DESIGN.md, known         *)
(* finding KF-1).                                                          *)
(***************************************************************************)
RECURSIVE Insert(_, _, _)
Insert(n, A, d) ==    \* A: set of [v, c]
  IF A = {} THEN n
  ELSE CASE n.t = "empty" ->
              IF \A a \in A, b \in A : a = b
              THEN LET a == CHOOSE a \in A : TRUE IN [t |-> "leaf", v |-> a.v, c |-> a.c]
              ELSE [t |-> "par", l |-> Insert([t |-> "empty"], Side(A, d, 0), d + 1),
                                 r |-> Insert([t |-> "empty"], Side(A, d, 1), d + 1)]
         [] n.t = "leaf" ->
              LET B == A \cup {[v |-> n.v, c |-> n.c]}
              IN [t |-> "par", l |-> Insert([t |-> "empty"], Side(B, d, 0), d + 1),
                               r |-> Insert([t |-> "empty"], Side(B, d, 1), d + 1)]
         [] n.t = "par" ->
              [t |-> "par", l |-> Insert(n.l, Side(A, d, 0), d + 1),
                            r |-> Insert(n.r, Side(A, d, 1), d + 1)]
         [] n.t = "ext" -> n

RECURSIVE Delete(_, _)
Delete(n, D) ==       \* D: set of VRF outputs
  CASE n.t = "leaf" -> IF n.v \in D THEN [t |-> "empty"] ELSE n
    [] n.t = "par" ->
         [t |-> "par", l |-> Delete(n.l, D), r |-> Delete(n.r, D)]
    [] OTHER -> n

(* Restore canonical shape where the shape is known. *)
RECURSIVE Canon(_)
Canon(n) ==
  IF n.t # "par" THEN n
  ELSE LET l == Canon(n.l)  r == Canon(n.r)
       IN IF l.t = "leaf" /\ r.t = "empty" THEN l
          ELSE IF l.t = "empty" /\ r.t = "leaf" THEN r
          ELSE IF l.t = "empty" /\ r.t = "empty" THEN [t |-> "empty"]
          ELSE [t |-> "par", l |-> l, r |-> r]

(* The set of nodes touched: only parents on the path of a change are         *)
(* restored; in a well-formed tree nothing else needs to be.                   *)
ApplyChange(n, A, D) == Canon(Insert(Delete(n, D), A, 0))
=============================================================================
