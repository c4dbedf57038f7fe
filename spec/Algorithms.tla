----------------------------- MODULE Algorithms -----------------------------
(* The search, monitoring and update algorithms that the server and the user   *)
(* both run over a provider (see Provider.tla).                                *)
EXTENDS Provider

(***************************************************************************)
(* Updating the view of the tree, Section 4.2.                             *)
(***************************************************************************)
ClockOK(C, now, ts) == (C.ahead = Never \/ ts - now <= C.ahead)
                       /\ (C.behind = Never \/ now - ts <= C.behind)
UpdateView(P0, C, n, mO, now) ==
  IF n = 0 \/ (mO # << >> /\ mO[1] > n) THEN Bad(P0, "tree size")
  ELSE LET P == GetTs(GetAllTs(P0, UpdateViewEntries(n, mO)), n - 1)
       IN IF P.ok /\ ~ClockOK(C, now, P.ts[n - 1]) THEN Bad(P, "clock") ELSE P

(* Rightmost distinguished log entry; it is always on the frontier. *)
RightmostDist(P, C, n) ==
  LET D == { x \in SeqToSet(Frontier(n)) : IsDLE(P.ts, C.rmw, x, n) }
  IN IF D = {} THEN << >> ELSE <<MaxOf(D)>>

(***************************************************************************)
(* Greatest-version search, Section 6.3.  Result: [p, term].               *)
(***************************************************************************)
RECURSIVE GvsFrom(_, _, _, _, _)
GvsFrom(P, ver, xs, n, term) ==
  LET x == Head(xs)
      l == SearchLadderAt(P, x, ver, TRUE)
      t == IF term = << >> /\ l.r = 0 THEN <<x>> ELSE term
  IN IF ~l.p.ok THEN [p |-> l.p, term |-> 0]
     ELSE IF l.r = 1 THEN [p |-> Bad(l.p, "greater version"), term |-> 0]
     ELSE IF Len(xs) > 1 THEN GvsFrom(l.p, ver, Tail(xs), n, t)
     ELSE IF l.r = 0 THEN [p |-> l.p, term |-> t[1]]
     ELSE [p |-> Bad(l.p, IF ver = 0 THEN "notfound" ELSE "lesser version"), term |-> 0]
GreatestVersionSearch(P, C, ver, n) ==
  IF ~P.ok THEN [p |-> P, term |-> 0]
  ELSE LET d == RightmostDist(P, C, n)
           s == IF d = << >> THEN IRoot(n) ELSE d[1]
       IN GvsFrom(P, ver, SelectSeq(Frontier(n), LAMBDA x : x >= s), n, << >>)

(***************************************************************************)
(* Fixed-version search, Section 7.2.                                      *)
(*   dist   unexpired distinguished entries seen so far                    *)
(*   term   candidate terminal entry                                       *)
(***************************************************************************)
FvsFinish(P, C, ver, expired, dist, term) ==
  IF term = << >> THEN [p |-> Bad(P, "notfound"), term |-> 0]
  ELSE IF expired /\ \A y \in dist : y >= term[1] THEN [p |-> Bad(P, "expired"), term |-> 0]
  \* a contact will need to know of all versions that monitoring involves
  ELSE [p |-> InclusionAt(P, term[1], IF C.mode = 1 THEN MonitorLadder(ver) ELSE <<ver>>), term |-> term[1]]

RECURSIVE FvsAt(_, _, _, _, _, _, _, _, _, _)
FvsAt(P0, C, ver, n, x, left, right, expired, dist, term) ==
  LET P == GetTs(P0, x)
  IN IF ~P.ok THEN [p |-> P, term |-> 0]
     ELSE IF Expired(C.life, P.ts[x], P.ts[n - 1])
     THEN IF ~HasRight(x, n) THEN FvsFinish(P, C, ver, TRUE, dist, term)
          ELSE FvsAt(P, C, ver, n, RightOf(x, n), P.ts[x], right, TRUE, dist, term)
     ELSE LET D == IF Wide(C.rmw, left, right) THEN dist \cup {x} ELSE dist
              l == SearchLadderAt(P, x, ver, TRUE)
              T == IF l.r >= 0 /\ (term = << >> \/ x < term[1]) THEN <<x>> ELSE term
          IN IF ~l.p.ok THEN [p |-> l.p, term |-> 0]
             ELSE IF l.r = -1
             THEN IF ~HasRight(x, n) THEN FvsFinish(l.p, C, ver, expired, D, T)
                  ELSE FvsAt(l.p, C, ver, n, RightOf(x, n), P.ts[x], right, expired, D, T)
             ELSE IF l.r = 1
             THEN IF ~HasLeft(x, n) THEN FvsFinish(l.p, C, ver, expired, D, T)
                  ELSE FvsAt(l.p, C, ver, n, LeftOf(x, n), left, P.ts[x], expired, D, T)
             ELSE IF expired /\ \A y \in D : y > x THEN [p |-> Bad(l.p, "expired"), term |-> 0]
             ELSE [p |-> l.p, term |-> x]
FixedVersionSearch(P0, C, ver, n) ==
  LET P == GetTs(P0, n - 1)
  IN IF ~P.ok THEN [p |-> P, term |-> 0]
     ELSE FvsAt(P, C, ver, n, IRoot(n), Origin, P.ts[n - 1], FALSE, {}, << >>)

(***************************************************************************)
(* Monitoring.  A monitor's state: C, n, and                               *)
(*   contact: set of [p, v]      owner: << >> or <<[start, vas, up]>>      *)
(* where vas is the version at start (-1 if none), and up the positions of *)
(* the versions after it.                                                  *)
(***************************************************************************)
(* First distinguished entry on the direct path of x, at or right of it. *)
RECURSIVE DistAncFrom(_, _, _, _, _, _, _, _)
DistAncFrom(P, C, n, target, x, left, right, best) ==
  IF ~P.ok \/ ~Wide(C.rmw, left, right) THEN [p |-> P, a |-> best]
  ELSE LET b == IF x >= target THEN <<x>> ELSE best
       IN IF x = target THEN [p |-> P, a |-> b]
          ELSE LET Q == GetTs(P, x)
               IN IF ~Q.ok THEN [p |-> Q, a |-> << >>]
                  ELSE IF x > target
                  THEN DistAncFrom(Q, C, n, target, LeftOf(x, n), left, Q.ts[x], b)
                  ELSE DistAncFrom(Q, C, n, target, RightOf(x, n), Q.ts[x], right, b)
DistAncestor(P, C, n, target) ==
  DistAncFrom(P, C, n, target, IRoot(n), Origin, P.ts[n - 1], << >>)

(* Inspect the entries ys for version ver, until one was already inspected.    *)
(* prev: function from inspected entries to versions.                          *)
RECURSIVE Inspect(_, _, _, _)
Inspect(P, ys, ver, prev) ==   \* [p, prev, hit]
  IF ys = << >> \/ ~P.ok THEN [p |-> P, prev |-> prev, hit |-> FALSE]
  ELSE LET y == Head(ys)
       IN IF y \in DOMAIN prev
          THEN [p |-> IF prev[y] <= ver THEN Bad(P, "versions not monotonic") ELSE P,
                prev |-> prev, hit |-> TRUE]
          ELSE Inspect(MonitorLadderAt(P, y, ver), Tail(ys), ver, Put(prev, y, ver))

ContactOne(P, C, n, owner, e, prev) ==   \* [p, prev, keep: << >> or <<position>>]
  LET d == DistAncestor(P, C, n, e.p)
      all == RightPath(e.p, n)
      upto == IF d.a = << >> THEN all ELSE SelectSeq(all, LAMBDA y : y <= d.a[1])
      ins == IF d.a # << >> /\ owner # << >> /\ e.p >= owner[1].start
             THEN SelectSeq(upto, LAMBDA y : y # d.a[1]) ELSE upto
      i == Inspect(d.p, ins, e.v, prev)
  IN IF ~d.p.ok THEN [p |-> d.p, prev |-> prev, keep |-> << >>]
     ELSE IF d.a = <<e.p>> THEN [p |-> d.p, prev |-> prev, keep |-> << >>]
     ELSE [p |-> i.p, prev |-> i.prev,
           keep |-> IF i.hit \/ d.a # << >> THEN << >>
                    ELSE IF ins = << >> THEN <<e.p>> ELSE <<Last(ins)>>]

RECURSIVE ContactFrom(_, _, _, _, _, _, _)
ContactFrom(P, C, n, owner, es, prev, acc) ==  \* es: right to left
  IF es = << >> \/ ~P.ok THEN [p |-> P, contact |-> acc]
  ELSE LET r == ContactOne(P, C, n, owner, Head(es), prev)
           a == IF r.keep = << >> THEN acc
                ELSE { f \in acc : f.p # r.keep[1] } \cup {[p |-> r.keep[1], v |-> Head(es).v]}
       IN ContactFrom(r.p, C, n, owner, Tail(es), r.prev, a)
RECURSIVE SortByPos(_)
SortByPos(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE a \in S : \A b \in S : a.p <= b.p
                     IN <<m>> \o SortByPos(S \ {m})
ContactMonitor(P, C, n, owner, contact) ==
  IF ~P.ok THEN [p |-> P, contact |-> {}]
  ELSE ContactFrom(GetTs(P, n - 1), C, n, owner, Rev(SortByPos(contact)), EmptyFn, {})

(***************************************************************************)
(* Initializing ownership: the log entries to inspect are, besides start,  *)
(* its unexpired ancestors to the left, nearest first.                     *)
(***************************************************************************)
RECURSIVE InitFrom(_, _, _, _, _, _, _, _)
InitFrom(P0, C, n, start, x, left, right, acc) ==   \* [p, xs]
  IF ~P0.ok THEN [p |-> P0, xs |-> << >>]
  ELSE IF ~Wide(C.rmw, left, right) THEN [p |-> Bad(P0, "not distinguished"), xs |-> << >>]
  ELSE LET P == GetTs(P0, x)
           exp == Expired(C.life, P.ts[x], P.ts[n - 1])
       IN IF ~P.ok THEN [p |-> P, xs |-> << >>]
          ELSE IF x = start
          THEN IF exp THEN [p |-> Bad(P, "expired"), xs |-> << >>]
               ELSE [p |-> P, xs |-> <<x>> \o acc]
          ELSE IF x < start
          THEN IF ~HasRight(x, n) THEN [p |-> Bad(P, "start"), xs |-> << >>]
               ELSE InitFrom(P, C, n, start, RightOf(x, n), P.ts[x], right,
                             IF exp THEN acc ELSE <<x>> \o acc)
          ELSE IF exp \/ ~HasLeft(x, n) THEN [p |-> Bad(P, "start"), xs |-> << >>]
          ELSE InitFrom(P, C, n, start, LeftOf(x, n), left, P.ts[x], acc)
InitEntries(P0, C, n, start) ==
  LET P == GetTs(P0, n - 1)
  IN IF ~P.ok THEN [p |-> P, xs |-> << >>]
     ELSE InitFrom(P, C, n, start, IRoot(n), Origin, P.ts[n - 1], << >>)

RECURSIVE InitLadders(_, _, _)
InitLadders(P, xs, vers) ==
  IF xs = << >> \/ ~P.ok THEN P
  ELSE LET l == SearchLadderAt(P, Head(xs), IF vers = << >> THEN 0 ELSE Head(vers), FALSE)
           want == IF vers = << >> THEN -1 ELSE 0
       IN InitLadders(IF l.p.ok /\ l.r # want THEN Bad(l.p, "ladder result") ELSE l.p,
                      Tail(xs), IF vers = << >> THEN << >> ELSE Tail(vers))
OwnerInit(P0, C, n, start, vers) ==    \* [p, owner]
  LET e == InitEntries(P0, C, n, start)
  IN IF ~e.p.ok THEN [p |-> e.p, owner |-> << >>]
     ELSE IF Len(vers) > Len(e.xs) \/ \E i \in 2..Len(vers) : vers[i] > vers[i - 1]
     THEN [p |-> Bad(e.p, "versions"), owner |-> << >>]
     ELSE [p |-> InitLadders(e.p, e.xs, vers),
           owner |-> <<[start |-> start, vas |-> IF vers = << >> THEN -1 ELSE vers[1],
                        up |-> << >>]>>]

(***************************************************************************)
(* Owner monitoring.                                                       *)
(***************************************************************************)
OwnerAt(o, x) == o.vas + Len(SelectSeq(o.up, LAMBDA p : p <= x))
OwnerGreatest(o) == o.vas + Len(o.up)
OwnerLast(o) == IF o.up = << >> THEN o.start ELSE Last(o.up)
SetStart(o, x) == [start |-> x, vas |-> OwnerAt(o, x), up |-> SelectSeq(o.up, LAMBDA p : p > x)]

(* The server sends at most 25 prefix proofs at a time, and stops at the first *)
(* version the owner does not know of; the owner stops when there are no more. *)
Stop(P, x, ver) == IF P.mode = "p" /\ P.lie # << >> THEN Len(P.proofs) >= P.lie[1].max
                   ELSE IF P.mode = "p" THEN Len(P.proofs) >= 25 \/ GreatestAt(P.idx, x) > ver
                   ELSE P.inPP = << >>

RECURSIVE OwnerWalk(_, _, _, _, _, _, _)
OwnerWalk(P, C, n, o, x, left, right) ==   \* [p, o]
  IF ~P.ok \/ ~Wide(C.rmw, left, right) THEN [p |-> P, o |-> o]
  ELSE IF x <= o.start
  THEN IF ~HasRight(x, n) THEN [p |-> P, o |-> o]
       ELSE LET Q == GetTs(P, x)
            IN IF ~Q.ok THEN [p |-> Q, o |-> o]
               ELSE OwnerWalk(Q, C, n, o, RightOf(x, n), Q.ts[x], right)
  ELSE LET Q == IF HasLeft(x, n) THEN GetTs(P, x) ELSE P
           w == IF ~HasLeft(x, n) THEN [p |-> P, o |-> o]
                ELSE IF ~Q.ok THEN [p |-> Q, o |-> o]
                ELSE OwnerWalk(Q, C, n, o, LeftOf(x, n), left, Q.ts[x])
           ver == OwnerAt(w.o, x)
       IN IF ~w.p.ok THEN w
          ELSE IF Stop(w.p, x, ver) THEN w
          ELSE LET l == SearchLadderAt(w.p, x, IF ver < 0 THEN 0 ELSE ver, FALSE)
                   o2 == SetStart(w.o, x)
               IN IF ~l.p.ok THEN [p |-> l.p, o |-> o]
                  ELSE IF l.r # (IF ver < 0 THEN -1 ELSE 0)
                  THEN [p |-> Bad(l.p, "owner ladder"), o |-> o]
                  ELSE IF ~HasRight(x, n) THEN [p |-> l.p, o |-> o2]
                  ELSE LET R == GetTs(l.p, x)
                       IN OwnerWalk(R, C, n, o2, RightOf(x, n), R.ts[x], right)
OwnerMonitor(P, C, n, o) ==
  IF ~P.ok THEN [p |-> P, o |-> o]
  ELSE OwnerWalk(P, C, n, o, IRoot(n), Origin, P.ts[n - 1])

(***************************************************************************)
(* Verifying an update, Section 8.4 or so: at pos, cnt new versions were   *)
(* added, and nothing else since the owner's last update.                  *)
(***************************************************************************)
(* First entry on the path to target that is not distinguished. *)
RECURSIVE NonDistFrom(_, _, _, _, _, _, _)
NonDistFrom(P, C, n, target, x, left, right) ==   \* [p, a]
  IF ~P.ok THEN [p |-> P, a |-> << >>]
  ELSE IF ~Wide(C.rmw, left, right) THEN [p |-> P, a |-> <<x>>]
  ELSE IF x = target THEN [p |-> P, a |-> << >>]
  ELSE LET Q == GetTs(P, x)
       IN IF ~Q.ok THEN [p |-> Q, a |-> << >>]
          ELSE IF x < target
          THEN NonDistFrom(Q, C, n, target, RightOf(x, n), Q.ts[x], right)
          ELSE NonDistFrom(Q, C, n, target, LeftOf(x, n), left, Q.ts[x])
NonDist(P, C, n, target) == NonDistFrom(P, C, n, target, IRoot(n), Origin, P.ts[n - 1])

RECURSIVE PrevTreeLadders(_, _, _, _)
PrevTreeLadders(P, xs, g, last) ==
  IF xs = << >> \/ ~P.ok THEN P
  ELSE IF Head(xs) <= last THEN PrevTreeLadders(P, Tail(xs), g, last)
  ELSE LET l == SearchLadderAt(P, Head(xs), IF g < 0 THEN 0 ELSE g, TRUE)
       IN PrevTreeLadders(IF l.p.ok /\ l.r # (IF g < 0 THEN -1 ELSE 0)
                          THEN Bad(l.p, "previous tree") ELSE l.p,
                          Tail(xs), g, last)

(* The tree of size pos must not contain versions other than the known ones. *)
VerifyPrevious(P, C, n, o, pos) ==
  LET g == OwnerGreatest(o)
      a == NonDist(P, C, n, pos - 1)
      fr == Frontier(pos)
      \* the entry where the path to pos - 1 enters the frontier of the old tree
      x0 == a.a[1]
      x == IF x0 < pos THEN x0
           ELSE LET b == Bounds(x0, n)
                IN Mid(b[1], pos)
      lad == SeqToSet(BaseLadder(g))
      Add(Q, y, gy) == Track(Q, y, TRUE, { v \in lad : v <= gy }, { v \in lad : v > gy })
      P1 == IF g < 0 THEN a.p
            ELSE LET P2 == IF x = IRoot(pos) THEN a.p
                           ELSE LET par == ParentOf(x, pos)
                                IN Add(a.p, par, OwnerAt(o, par))
                 IN Add(P2, x, g)
  IN IF ~a.p.ok \/ a.a = << >> THEN a.p
     ELSE PrevTreeLadders(P1, SelectSeq(fr, LAMBDA y : y >= x), g, OwnerLast(o))

UpdateMonitor(P0, C, n, o, contact, pos, cnt) ==   \* [p, o, contact]
  LET g == OwnerGreatest(o)
      end == g + cnt
      lad == SeqToSet(BaseLadder(end))
      extra == SelectSeq([i \in 1..cnt |-> g + i], LAMBDA v : v \notin lad)
      P1 == VerifyPrevious(P0, C, n, o, pos)
      a == NonDist(P1, C, n, pos)
      l == SearchLadderAt(a.p, pos, end, TRUE)
      P2 == IF a.a = << >> THEN a.p
            ELSE IF l.p.ok /\ l.r # 0 THEN Bad(l.p, "new version") ELSE l.p
      P3 == IF ~P2.ok THEN P2 ELSE InclusionAt(P2, pos, extra)
  IN IF ~P0.ok THEN [p |-> P0, o |-> o, contact |-> contact]
     ELSE IF pos >= n \/ pos <= OwnerLast(o) \/ cnt < 1
     THEN [p |-> Bad(P0, "position"), o |-> o, contact |-> contact]
     ELSE IF ~P1.ok THEN [p |-> P1, o |-> o, contact |-> contact]
     ELSE [p |-> P3,
           o |-> [o EXCEPT !.up = @ \o [i \in 1..cnt |-> pos]],
           contact |-> IF a.a = << >> THEN contact
                       ELSE { e \in contact : e.p # pos } \cup {[p |-> pos, v |-> end]}]
=============================================================================
