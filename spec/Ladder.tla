------------------------------- MODULE Ladder -------------------------------
(* Binary ladders over label versions (greatest version -1 = none exist).     *)
EXTENDS Bytes

(* Probe sequence of an exponential search followed by a binary search that   *)
(* locates n among the naturals: 0, 1, 3, 7, ... until a probe exceeds n,      *)
(* then bisection of the open interval.                                        *)
RECURSIVE Expo(_, _)
Expo(v, n) == IF v > n THEN <<v>> ELSE <<v>> \o Expo(2 * v + 1, n)
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, n) ==     \* lo <= n < hi
  IF hi - lo <= 1 THEN << >>
  ELSE LET v == lo + (hi - lo) \div 2
       IN <<v>> \o (IF v <= n THEN Bisect(v, hi, n) ELSE Bisect(lo, v, n))
BaseLadder(n) ==
  LET e == Expo(0, n) IN e \o Bisect(e[Len(e) - 1], e[Len(e)], n)

(* A search ladder for target t in a tree where g is the greatest version:     *)
(* probes that are already known are omitted, and the ladder stops once a      *)
(* probe shows that g differs from t in a way that decides the search.         *)
RECURSIVE CutLadder(_, _, _, _)
CutLadder(b, t, g, skip) ==
  IF b = << >> THEN << >>
  ELSE LET v == Head(b)
           me == IF v \in skip THEN << >> ELSE <<v>>
           ends == (v <= g /\ v > t) \/ (v > g /\ v <= t)
       IN IF ends THEN me ELSE me \o CutLadder(Tail(b), t, g, skip)
SearchLadder(t, g, skip) == CutLadder(BaseLadder(t), t, g, skip)
MonitorLadder(t) == SelectSeq(BaseLadder(t), LAMBDA v : v <= t)

(* What the results of a (possibly truncated) search ladder prove about the    *)
(* greatest version relative to t.  incl: sequence of BOOLEAN.                 *)
RECURSIVE InterpretFrom(_, _, _, _)
InterpretFrom(lad, incl, t, i) ==
  IF i > Len(lad) THEN [ok |-> Len(incl) = Len(lad), r |-> 0]
  ELSE IF i > Len(incl) THEN [ok |-> FALSE, r |-> 0]
  ELSE IF incl[i] /\ lad[i] > t THEN [ok |-> Len(incl) = i, r |-> 1]
  ELSE IF ~incl[i] /\ lad[i] <= t THEN [ok |-> Len(incl) = i, r |-> -1]
  ELSE InterpretFrom(lad, incl, t, i + 1)
Interpret(lad, incl, t) == InterpretFrom(lad, incl, t, 1)

(* All versions that appear in a full search ladder for some version of S      *)
(* (version 0 always does).                                                    *)
AllLadderVersions(S) == {0} \cup UNION { SeqToSet(BaseLadder(v)) : v \in S }

(* Versions whose VRF proofs accompany an update creating start..end.          *)
UpdateLadder(start, end) ==
  (SeqToSet(BaseLadder(end)) \cup start..(end - 1))
  \ (IF start = 0 THEN {0} ELSE SeqToSet(BaseLadder(start - 1)))

(***************************************************************************)
(* The same ladder on the full 32-bit range, with numbers as pairs         *)
(* <<high 16 bits, low 16 bits>> (TLC integers are 32-bit signed).         *)
(***************************************************************************)
W16 == 65536
WLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WMax == <<W16 - 1, W16 - 1>>
WDouble1(a) == LET l == 2 * a[2] + 1 IN <<2 * a[1] + l \div W16, l % W16>>
WAvg(a, b) == \* floor((a+b)/2), a, b < 2^32
  LET s == a[1] + b[1]
      l == (a[2] + b[2]) + (s % 2) * W16
  IN LET h == s \div 2 IN <<h + (l \div 2) \div W16, (l \div 2) % W16>>
WSucc(a) == IF a[2] = W16 - 1 THEN <<a[1] + 1, 0>> ELSE <<a[1], a[2] + 1>>

RECURSIVE WExpo(_, _)
WExpo(v, n) == IF WLt(n, v) \/ v = WMax THEN <<v>> ELSE <<v>> \o WExpo(WDouble1(v), n)
RECURSIVE WBisect(_, _, _)
WBisect(lo, hi, n) ==
  IF ~WLt(WSucc(lo), hi) THEN << >>
  ELSE LET v == WAvg(lo, hi)
       IN <<v>> \o (IF ~WLt(n, v) THEN WBisect(v, hi, n) ELSE WBisect(lo, v, n))
WBaseLadder(n) ==
  LET e == WExpo(<<0, 0>>, n) IN e \o WBisect(e[Len(e) - 1], e[Len(e)], n)
RECURSIVE WCut(_, _, _, _)
WCut(b, t, g, skip) ==
  IF b = << >> THEN << >>
  ELSE LET v == Head(b)
           me == IF v \in skip THEN << >> ELSE <<v>>
           ends == (~WLt(g, v) /\ WLt(t, v)) \/ (WLt(g, v) /\ ~WLt(t, v))
       IN IF ends THEN me ELSE me \o WCut(Tail(b), t, g, skip)
WSearchLadder(t, g, skip) == WCut(WBaseLadder(t), t, g, skip)
WMonitorLadder(t) == SelectSeq(WBaseLadder(t), LAMBDA v : ~WLt(t, v))
=============================================================================
