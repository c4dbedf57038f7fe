------------------------------- MODULE PrefixMC -------------------------------
(* Proofs of prefix trees, for all sets of some keys, whatever is looked up:     *)
(* what is produced is accepted for the tree's root; no other result is; and an  *)
(* auditor who is shown the proof of a change arrives at the tree after it,      *)
(* except in the situation of known finding KF-1, which is exactly this: there   *)
(* is a leaf that the proof shows only the hash of, and would be replaced.       *)
EXTENDS Auditor, FiniteSets
CONSTANTS Keys, MaxQ
VARIABLES K, Q, rem, st
vars == <<K, Q, rem, st>>
Tail60 == SubSeq(Zero32, 1, 60)
Out(k) == k \o Tail60                 \* k: four digits
Com(k, x) == Sha(k \o x)
Entry(k) == [v |-> Out(k), c |-> Com(k, "00")]
Tree(S) == { Entry(k) : k \in S }
RECURSIVE Perms(_, _)
Perms(S, n) == IF n = 0 THEN {<< >>}
               ELSE {<< >>} \cup UNION { { <<x>> \o s : s \in Perms(S \ {x}, n - 1) } : x \in S }
Init == K \in SUBSET Keys /\ Q = << >> /\ rem = {} /\ st = 0
Next == \/ st = 0 /\ st' = 1 /\ Q' \in Perms(Keys, MaxQ) \ {<< >>} /\ UNCHANGED <<K, rem>>
        \/ st = 1 /\ st' = 2 /\ rem' \in SUBSET (SeqToSet(Q) \cap K) /\ UNCHANGED <<K, Q>>

T == Tree(K)
Proof == PProof(T, Map(Out, Q))
E == [i \in 1..Len(Q) |-> IF Q[i] \in K THEN Entry(Q[i]) ELSE [v |-> Out(Q[i]), c |-> ""]]
Ev(e, pf) == PEvaluate(e, pf)
Complete == st = 1 =>
  /\ Ev(E, Proof) = [ok |-> TRUE, root |-> PRoot(T)]
  /\ \A i \in 1..Len(Q) : Incl(Proof.r[i]) <=> Q[i] \in K
  \* not needed, but harmless, to know commitments of what is absent
  /\ Ev([i \in 1..Len(Q) |-> [E[i] EXCEPT !.c = IF @ = "" THEN Com(Q[i], "01") ELSE @]], Proof).root = PRoot(T)
Wrong(i) ==     \* other outcomes of the i-th lookup
  { [k |-> 3, d |-> d] : d \in 0..4 } \cup { [k |-> 1, d |-> d] : d \in 0..4 }
  \cup { [k |-> 2, d |-> d, lv |-> Out(k), lc |-> Com(k, x)] : d \in 0..4, k \in Keys \ {Q[i]}, x \in {"00", "01"} }
Claim(e, i, c) == [e EXCEPT ![i].c = c]
Sound == st = 1 =>
  \A i \in 1..Len(Q) :
    /\ \A w \in Wrong(i) \ {Proof.r[i]} :
         \A e \in { E, Claim(E, i, Com(Q[i], "00")), Claim(E, i, Com(Q[i], "01")) } :
           LET r == Ev(e, [Proof EXCEPT !.r[i] = w])
           IN r.ok /\ r.root = PRoot(T) =>
                \* the same about the key, differently put
                /\ (Incl(w) <=> Incl(Proof.r[i]))
                /\ Incl(w) => e[i].c = E[i].c
    /\ Q[i] \in K => Ev(Claim(E, i, Com(Q[i], "01")), Proof).root # PRoot(T)
(* Elements are needed, and nothing may be added. *)
Exact == st = 1 =>
  /\ \A i \in 1..Len(Proof.e) : Ev(E, [Proof EXCEPT !.e[i] = Sha("00")]).root # PRoot(T)
  /\ ~Ev(E, [Proof EXCEPT !.e = Append(@, Zero32)]).ok
  /\ Proof.e # << >> => ~Ev(E, [Proof EXCEPT !.e = Tail(@)]).ok

(***************************************************************************)
(* Changes: what is looked up is added, unless it is there already; of what  *)
(* is there rem is removed.                                                  *)
(***************************************************************************)
Added == SeqToSet(Q) \ K
SortHex(S) == LET RECURSIVE f(_)
                  f(R) == IF R = {} THEN << >>
                          ELSE LET x == CHOOSE x \in R : \A y \in R : x = y \/ HexLess(x, y)
                               IN <<x>> \o f(R \ {x})
              IN f(S)
Update == LET a == SortHex(Added)  r == SortHex(rem)
              both == a \o r
          IN [ts |-> 0, add |-> Map(Entry, a), rem |-> Map(Entry, r), pr |-> PProof(T, Map(Out, both))]
After == Tree((K \ rem) \cup Added)
RECURSIVE Show(_, _, _)
Show(n, S, d) ==
  CASE n.t = "par" -> [t |-> "par", l |-> Show(n.l, Side(S, d, 0), d + 1), r |-> Show(n.r, Side(S, d, 1), d + 1)]
    [] n.t = "ext" /\ Cardinality(S) = 1 -> LET k == CHOOSE k \in S : TRUE IN [t |-> "leaf", v |-> k.v, c |-> k.c]
    [] OTHER -> n
Audited == st = 2 =>
  LET u == Update  r == UpdateRoots(u)  t == UpdateTree(u)
  IN /\ r.ok /\ r.before = PRoot(T)
     /\ \/ r.after = PRoot(After)
        \/ /\ rem # {}
           /\ TreeHash(ApplyChange(Show(t.n, T, 0), SeqToSet(u.add), { x.v : x \in SeqToSet(u.rem) })) = PRoot(After)
     \* without removals there is no exception
     /\ rem = {} => r.after = PRoot(After)
=============================================================================
