-------------------------------- MODULE IbstMC --------------------------------
(* The implicit search tree and its distinguished log entries, for all small     *)
(* logs and all timestamps within bounds.                                        *)
EXTENDS Algorithms, FiniteSets
CONSTANTS MaxN, MaxLog, Times, Rmws
VARIABLES n, T, rmw
vars == <<n, T, rmw>>
Init == n \in 1..8 /\ T = << >> /\ rmw = 0
Next == \/ rmw = 0 /\ n + 8 <= MaxN /\ n' = n + 8 /\ UNCHANGED <<T, rmw>>
        \/ rmw = 0 /\ n = 1 /\ rmw' \in Rmws /\ UNCHANGED <<n, T>>
        \/ rmw # 0 /\ Len(T) < MaxLog
           /\ \E t \in Times : (T # << >> => t >= T[Len(T)]) /\ T' = Append(T, t)
           /\ UNCHANGED <<n, rmw>>
Nodes == 0..n - 1
RECURSIVE RightPathDown(_, _)
RightPathDown(x, k) == IF HasRight(x, k) THEN <<RightOf(x, k)>> \o RightPathDown(RightOf(x, k), k) ELSE << >>
(* Shape of the tree. *)
Shape == T = << >> =>
  /\ Frontier(n) = <<IRoot(n)>> \o RightPathDown(IRoot(n), n)
  /\ \A x \in Nodes :
       /\ Last(Path(x, n)) = x /\ Path(x, n)[1] = IRoot(n)
       /\ HasLeft(x, n) => LeftOf(x, n) < x /\ ParentOf(LeftOf(x, n), n) = x
       /\ HasRight(x, n) => RightOf(x, n) > x /\ ParentOf(RightOf(x, n), n) = x
       \* what is to the left of an entry does not change when the log grows
       /\ \A k \in n + 1..MaxN : HasLeft(x, n) => LeftOf(x, k) = LeftOf(x, n)
       /\ \A k \in n + 1..MaxN : SeqToSet(LeftPath(x, n)) \subseteq SeqToSet(Path(x, k))
       /\ \A k \in n..MaxN : SelectSeq(RightPath(x, k), LAMBDA y : y < n) = RightPath(x, n)
  /\ \A m \in 1..n : SeqToSet(Frontier(n)) \subseteq SeqToSet(Frontier(m)) \cup SeqToSet(UpdateViewEntries(n, <<m>>))
                     /\ \A y \in SeqToSet(UpdateViewEntries(n, <<m>>)) : y >= m

(* Distinguished entries of a log with timestamps T. *)
Ts(k) == [x \in 0..k - 1 |-> T[x + 1]]
Dist(k) == DLEs(Ts(k), rmw, k)
Distinguished == Len(T) > 0 =>
  LET k == Len(T)  D == Dist(k)
      fr == [x \in SeqToSet(Frontier(k)) |-> T[x + 1]]
      r == RightmostDist([ts |-> fr], [rmw |-> rmw], k)
  IN \* they stay so,
     /\ k > 1 => Dist(k - 1) \subseteq D
     \* and so are their ancestors;
     /\ \A x \in D : SeqToSet(Path(x, k)) \subseteq D
     \* the timestamps on the frontier tell the rightmost one,
     /\ r = RightmostDLE(Ts(k), rmw, k)
     \* and at least one appears in any window of time
     /\ D # {} /\ (MaxOf(D) = k - 1 \/ T[k] - T[MaxOf(D) + 1] < rmw)
     \* two that follow each other without another between are no closer than they must be
     /\ \A x \in D : LeftBound(Ts(k), x, k) = Origin \/ RightBound(Ts(k), x, k) - LeftBound(Ts(k), x, k) >= rmw
=============================================================================
