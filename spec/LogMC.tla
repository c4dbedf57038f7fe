-------------------------------- MODULE LogMC --------------------------------
(* Batch proofs of log trees, for all small trees, sets of leaves and sizes      *)
(* retained or asked about: what is produced is accepted and determines the      *)
(* tree; and no other claim about a leaf, or of a retained subtree, is accepted  *)
(* for the same tree.                                                            *)
EXTENDS LogTree, FiniteSets, TLC
CONSTANT Max
VARIABLES n, m, p, S    \* sizes of the tree, of the one retained, of the one asked about; leaves
vars == <<n, m, p, S>>
Leaf(i) == Sha(U32(i))
Leaves == TLCEval([i \in 1..Max |-> Leaf(i)])
Opt(k) == IF k = 0 THEN << >> ELSE <<k>>
Init == n \in 1..Max /\ m = -1 /\ p = -1 /\ S = {}
Next == \/ m = -1 /\ m' \in 0..n /\ UNCHANGED <<n, p, S>>
        \/ m # -1 /\ p = -1 /\ p' \in 0..n /\ S' \in SUBSET (0..n - 1) /\ UNCHANGED <<n, m>>
Chosen == p # -1
Sorted == SortInts(S)
Retained == IF m = 0 THEN << >> ELSE FullSubVals(Leaves, m)
Vals == [i \in 1..Len(Sorted) |-> Leaves[Sorted[i] + 1]]
Proof == BatchProof(Leaves, S, n, Opt(p), Opt(m))
Ev(ret, vals, pf) == Evaluate(Sorted, n, Opt(p), Opt(m), ret, vals, pf)
Root(fs) == RootOf(fs, 0, n)

Complete == Chosen => LET e == Ev(Retained, Vals, Proof)
            IN /\ e.ok /\ e.fs = FullSubVals(Leaves, n)
               /\ p # 0 => e.add = FullSubVals(Leaves, p)
               /\ Root(e.fs) = LogRoot(Leaves, n)
(* Nothing else may be claimed for that tree. *)
Other == Sha("00")
Sound == Chosen =>
  LET root == LogRoot(Leaves, n)
      no(e) == ~e.ok \/ Root(e.fs) # root
  IN /\ \A i \in 1..Len(Sorted) : no(Ev(Retained, [Vals EXCEPT ![i] = Other], Proof))
     /\ \A i \in 1..Len(Retained) : no(Ev([Retained EXCEPT ![i] = Other], Vals, Proof))
     /\ \A i \in 1..Len(Proof) : no(Ev(Retained, Vals, [Proof EXCEPT ![i] = Other]))
     /\ Len(Proof) > 0 => ~Ev(Retained, Vals, Tail(Proof)).ok
     /\ ~Ev(Retained, Vals, Append(Proof, Other)).ok
(* No element could be left out: none follows from the others. *)
Minimal == Chosen => LET c == BatchNodes(S, n, Opt(p), Opt(m))
               known == Known(S, Opt(p), Opt(m)) \ (IF p = 0 THEN {} ELSE SeqToSet(FullSubs(0, p)))
           IN \A i \in 1..Len(c) : ~\E I \in known : I = c[i]
(* Nodes asked for are disjoint from what is known and cover the rest. *)
Covers == Chosen => LET c == BatchNodes(S, n, Opt(p), Opt(m))
              I == SeqToSet(c) \cup { <<x, x + 1>> : x \in S } \cup (IF m = 0 THEN {} ELSE SeqToSet(FullSubs(0, m)))
          IN \A x \in 0..n - 1 : \E J \in I : J[1] <= x /\ x < J[2]
(* A tree that grew keeps the full subtrees' hashes. *)
Grows == Chosen /\ m # 0 => RootOf(Retained, 0, m) = LogRoot(Leaves, m)
=============================================================================
