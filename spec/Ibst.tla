-------------------------------- MODULE Ibst --------------------------------
(* The implicit binary search tree over the log entries 0..n-1, defined by    *)
(* interval recursion, and distinguished log entries.                          *)
EXTENDS LogTree

(* The largest power of two that is at most n (n >= 1). *)
RECURSIVE FloorPow2From(_, _)
FloorPow2From(p, n) == IF 2 * p > n THEN p ELSE FloorPow2From(2 * p, n)
FloorPow2(n) == FloorPow2From(1, n)

(* Root of the search tree over [lo, hi). *)
Mid(lo, hi) == lo + FloorPow2(hi - lo) - 1
IRoot(n) == Mid(0, n)

(* Path from the root to x, as a sequence of positions; both inclusive. *)
RECURSIVE PathIn(_, _, _)
PathIn(x, lo, hi) ==
  LET m == Mid(lo, hi)
  IN IF m = x THEN <<m>>
     ELSE IF x < m THEN <<m>> \o PathIn(x, lo, m)
     ELSE <<m>> \o PathIn(x, m + 1, hi)
Path(x, n) == PathIn(x, 0, n)

(* Bounds [lo, hi) of the subtree rooted at x. *)
RECURSIVE BoundsIn(_, _, _)
BoundsIn(x, lo, hi) ==
  LET m == Mid(lo, hi)
  IN IF m = x THEN <<lo, hi>>
     ELSE IF x < m THEN BoundsIn(x, lo, m) ELSE BoundsIn(x, m + 1, hi)
Bounds(x, n) == BoundsIn(x, 0, n)

HasLeft(x, n) == LET b == Bounds(x, n) IN b[1] < x
HasRight(x, n) == LET b == Bounds(x, n) IN x + 1 < b[2]
LeftOf(x, n) == LET b == Bounds(x, n) IN Mid(b[1], x)
RightOf(x, n) == LET b == Bounds(x, n) IN Mid(x + 1, b[2])

Frontier(n) == Path(n - 1, n)

Select(s, P(_)) == SelectSeq(s, P)
(* Ancestors of x to its right, from the nearest to the root. *)
RightPath(x, n) == Rev(SelectSeq(Path(x, n), LAMBDA y : y > x))
LeftPath(x, n) == Rev(SelectSeq(Path(x, n), LAMBDA y : y < x))
ParentOf(x, n) == LET p == Path(x, n) IN p[Len(p) - 1]

(* Log entries whose timestamps update a view from size mO to size n. *)
UpdateViewEntries(n, mO) ==
  IF mO = << >> THEN Frontier(n)
  ELSE IF mO[1] = n THEN << >>
  ELSE \* right direct path of the previous rightmost entry, upwards, then
       \* down the rest of the frontier
    LET up == RightPath(mO[1] - 1, n)
        top == IF up = << >> THEN mO[1] - 1 ELSE Last(up)
    IN up \o SelectSeq(Frontier(n), LAMBDA y : y > top)

(***************************************************************************)
(* Distinguished log entries.  T is a function from positions to           *)
(* timestamps (offsets); Origin stands for the Unix epoch.                 *)
(***************************************************************************)
Origin == -2000000000

Wide(rmw, l, r) ==
  IF rmw = Never THEN FALSE ELSE IF l = Origin THEN TRUE ELSE r - l >= rmw

LeftBound(T, x, n) == LET p == LeftPath(x, n) IN IF p = << >> THEN Origin ELSE T[p[1]]
RightBound(T, x, n) == LET p == RightPath(x, n) IN IF p = << >> THEN T[n - 1] ELSE T[p[1]]

IsDLE(T, rmw, x, n) == Wide(rmw, LeftBound(T, x, n), RightBound(T, x, n))
DLEs(T, rmw, n) == { x \in 0..n-1 : IsDLE(T, rmw, x, n) }
RightmostDLE(T, rmw, n) ==   \* << >> or <<x>>
  IF n = 0 THEN << >>
  ELSE LET D == DLEs(T, rmw, n) IN IF D = {} THEN << >> ELSE <<MaxOf(D)>>
(* The rightmost distinguished entry other than the rightmost entry. *)
PrevRightmostDLE(T, rmw, n) ==
  LET D == DLEs(T, rmw, n) \ {n - 1} IN IF D = {} THEN << >> ELSE <<MaxOf(D)>>

Expired(life, ts, rightmost) == life > 0 /\ rightmost - ts >= life
=============================================================================
