------------------------------- MODULE Server -------------------------------
(* The transparency log.                                                       *)
(*                                                                             *)
(* Store D: [C, log, lab, head, ahead, gone]                                         *)
(*   log   sequence of entries [ts, K, root, leaf]; K is the prefix tree       *)
(*   lab   label -> [idx, vals]: position and [op, v, s] of each version       *)
(*   gone  labels that were removed at some time                               *)
(*   head, ahead   << >> or the tree head / auditor tree head last stored      *)
(* Handle h: [th, ath]: the heads an instance of the server operates on.       *)
EXTENDS Algorithms

NewStore(C) == [C |-> C, log |-> << >>, lab |-> EmptyFn, head |-> << >>, ahead |-> << >>,
                gone |-> {}]
OpenHandle(D) == [th |-> D.head, ath |-> IF D.C.mode = 3 THEN D.ahead ELSE << >>]
Size(h) == IF h.th = << >> THEN 0 ELSE h.th[1].n
Err == [ok |-> FALSE, any |-> FALSE]
AnyResult == [ok |-> FALSE, any |-> TRUE]

LabelOK(label) == BLen(label) <= 255

(* Positions of the versions that exist in the handle's tree. *)
IndexOf(D, h, label) ==
  IF label \notin DOMAIN D.lab THEN << >>
  ELSE IF h.th = << >> THEN D.lab[label].idx
  ELSE SelectSeq(D.lab[label].idx, LAMBDA p : p < Size(h))
NoValue(D) == [op |-> "00000000000000000000000000000000", v |-> "",
               s |-> IF D.C.mode = 2 THEN <<"">> ELSE << >>]
VersionOf(D, label, ver) ==
  IF label \notin DOMAIN D.lab THEN NoValue(D)
  ELSE IF ver >= Len(D.lab[label].vals) THEN NoValue(D)
  ELSE D.lab[label].vals[ver + 1]
CommitOf(D, label, ver) ==
  LET x == VersionOf(D, label, ver) IN Commitment(x.op, label, ver, [v |-> x.v, s |-> x.s])

(***************************************************************************)
(* Adding a log entry.  add: sequence of [l, v, s]; remove: sequence of     *)
(* labels; op: label -> sequence of the random openings chosen.            *)
(***************************************************************************)
RECURSIVE SortByVrf(_)
SortByVrf(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE a \in S : \A b \in S : a = b \/ HexLess(a.v, b.v)
                     IN <<m>> \o SortByVrf(S \ {m})

MutateLabels(add, remove) == { add[i].l : i \in 1..Len(add) } \cup SeqToSet(remove)
AddsOf(add, l) == SelectSeq(add, LAMBDA a : a.l = l)

CanRemove(D, h, prev, l) ==
  LET idx == IndexOf(D, h, l) IN idx = << >> \/ (prev # << >> /\ Last(idx) <= prev[1])

MutateOK(D, h, add, remove, now) ==
  LET n == Size(h)
      T == [x \in 0..n |-> IF x = n THEN now ELSE D.log[x + 1].ts]
      prev == PrevRightmostDLE(T, D.C.rmw, n + 1)
  IN /\ n > 0 => now >= D.log[n].ts
     /\ \A i \in 1..Len(remove) : CanRemove(D, h, prev, remove[i])
     /\ \A l \in MutateLabels(add, remove) : LabelOK(l)

(* Result: [D, h, au] with au the update for the auditor. *)
Mutate(D, h, add, remove, now, op) ==
  LET n == Size(h)
      C == D.C
      K0 == IF n = 0 THEN {} ELSE D.log[n].K
      L == MutateLabels(add, remove)
      gone(l) == l \in SeqToSet(remove)
      old(l) == IndexOf(D, h, l)
      base(l) == IF gone(l) THEN 0 ELSE Len(old(l))
      fresh(l) == LET a == AddsOf(add, l)
                  IN [i \in 1..Len(a) |-> [op |-> op[l][i], v |-> a[i].v, s |-> a[i].s]]
      R == UNION { IF gone(l) THEN { VrfOut(C, l, i - 1) : i \in 1..Len(old(l)) } ELSE {} : l \in L }
      A == UNION { LET f == fresh(l)
                   IN { [v |-> VrfOut(C, l, base(l) + i - 1),
                         c |-> Commitment(f[i].op, l, base(l) + i - 1,
                                          [v |-> f[i].v, s |-> f[i].s])] : i \in 1..Len(f) }
                   : l \in L }
      K1 == { e \in K0 : e.v \notin R } \cup A
      root == PRoot(K1)
      leaf == LeafOf(now, root)
      log1 == Append(SubSeq(D.log, 1, n), [ts |-> now, K |-> K1, root |-> root, leaf |-> leaf])
      lroot == LogRoot(LeafSeq(log1), n + 1)
      th == [n |-> n + 1, sig |-> Sig(C.sk, TreeHeadTBS(C, n + 1, lroot))]
      LD == { l \in L : gone(l) /\ AddsOf(add, l) = << >> }
      lab1 == TLCEval([l \in (DOMAIN D.lab \cup { m \in L : AddsOf(add, m) # << >> }) \ LD |->
                IF l \notin L THEN D.lab[l]
                ELSE LET f == fresh(l)
                     IN [idx |-> (IF gone(l) THEN << >> ELSE old(l)) \o [i \in 1..Len(f) |-> n],
                         vals |-> (IF gone(l) \/ l \notin DOMAIN D.lab THEN << >>
                                   ELSE D.lab[l].vals) \o f]])
      added == SortByVrf(A)
      removed == SortByVrf({ e \in K0 : e.v \in R })
      vrfs == [i \in 1..(Len(added) + Len(removed)) |->
                 IF i <= Len(added) THEN added[i].v ELSE removed[i - Len(added)].v]
  IN [D |-> [D EXCEPT !.log = log1, !.lab = lab1, !.head = <<th>>,
                  !.gone = @ \cup { l \in L : gone(l) }],
      h |-> [h EXCEPT !.th = <<th>>],
      au |-> [ts |-> now, add |-> added, rem |-> removed, pr |-> PProof(K0, vrfs)]]

(***************************************************************************)
(* Answering requests.                                                     *)
(***************************************************************************)
SameHead == [th |-> << >>, ath |-> << >>]
HeadFor(h, lastO) ==   \* [ok, fth, n, nPO, mO]
  IF h.th = << >> THEN Err
  ELSE IF lastO # << >> /\ (lastO[1] = 0 \/ lastO[1] > Size(h)) THEN Err
  ELSE IF lastO = <<Size(h)>>
  THEN [ok |-> TRUE, fth |-> SameHead, n |-> Size(h), nPO |-> << >>, mO |-> lastO]
  ELSE [ok |-> TRUE, fth |-> [th |-> h.th, ath |-> h.ath], n |-> Size(h),
        nPO |-> IF h.ath = << >> THEN << >> ELSE <<h.ath[1].n>>, mO |-> lastO]

(* Provider on which the user's view has been updated. *)
StartProduce(D, h, idx, lastO, now) ==
  LET fr == IF lastO = << >> THEN << >> ELSE Frontier(lastO[1])
      P0 == RetainAll(NewProduce(D.log, idx),
                      [i \in 1..Len(fr) |-> [p |-> fr[i], ts |-> D.log[fr[i] + 1].ts,
                                             r |-> D.log[fr[i] + 1].root]])
  IN UpdateView(P0, D.C, Size(h), lastO, now)

(* A label that was removed is forgotten, although earlier log entries contain *)
(* it.  If one of those is inspected the outcome is not specified: no response *)
(* about the label as it is now can be accepted.                               *)
Odd(D, label, P) ==
  /\ label \in D.gone
  /\ \E i \in 1..Len(P.proofs) :
       LET q == P.proofs[i]
       IN \E v \in SeqToSet(q.vers) :
            LET c == PCommitment(P.log[q.pos + 1].K, VrfOut(D.C, label, v))
            IN \/ (c # "") # (v <= GreatestAt(P.idx, q.pos))
               \/ c # "" /\ c # CommitOf(D, label, v)

Included(P) ==   \* versions shown to be included by some proof
  UNION { LET q == P.proofs[i] IN { v \in SeqToSet(q.vers) : v <= GreatestAt(P.idx, q.pos) }
          : i \in 1..Len(P.proofs) }

SrvSearch(D, h, req, now) ==
  LET C == D.C
      H == HeadFor(h, req.last)
      idx == IndexOf(D, h, req.label)
      g == Len(idx) - 1
      target == IF req.ver # << >> THEN req.ver[1] ELSE IF g < 0 THEN 0 ELSE g
      lad == BaseLadder(target)
      P0 == StartProduce(D, h, idx, req.last, now)
      s == IF req.ver = << >> THEN GreatestVersionSearch(P0, C, target, H.n)
           ELSE FixedVersionSearch(P0, C, target, H.n)
      P == [s.p EXCEPT !.ok = TRUE]
      val == VersionOf(D, req.label, target)
      inc == Included(P)
      own == IF req.ver = << >> THEN g ELSE target
      step(v) == [p |-> VrfProof(C, req.label, v),
                  c |-> IF v # own /\ v \in inc THEN CommitOf(D, req.label, v) ELSE ""]
  IN IF ~LabelOK(req.label) \/ ~H.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF Odd(D, req.label, s.p) THEN AnyResult
     ELSE IF ~s.p.ok /\ s.p.e # "notfound" THEN Err
     ELSE [ok |-> TRUE, any |-> FALSE,
           res |-> [fth |-> H.fth, ver |-> IF req.ver = << >> THEN <<target>> ELSE << >>,
                    op |-> val.op, val |-> [v |-> val.v, s |-> val.s],
                    lad |-> Map(step, lad),
                    pr |-> Output(P, C, req.label, H.n, H.nPO, H.mO)]]

(* The monitoring map sent by a user is plausible. *)
EntriesOK(es, idx, n) ==
  /\ \A i \in 2..Len(es) : es[i - 1].p < es[i].p /\ es[i - 1].v < es[i].v
  /\ \A i \in 1..Len(es) :
       /\ es[i].v < Len(idx)
       /\ LET f == idx[es[i].v + 1] IN es[i].p = f \/ es[i].p \in SeqToSet(RightPath(f, n))

SrvContact(D, h, req, now) ==
  LET H == HeadFor(h, req.last)
      idx == IndexOf(D, h, req.label)
      P0 == StartProduce(D, h, idx, req.last, now)
      m == ContactMonitor(P0, D.C, H.n, << >>, SeqToSet(req.ent))
  IN IF ~LabelOK(req.label) \/ ~H.ok THEN Err
     ELSE IF ~P0.ok \/ ~EntriesOK(req.ent, idx, H.n) THEN Err
     ELSE IF Odd(D, req.label, m.p) THEN AnyResult
     ELSE IF ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, any |-> FALSE,
           res |-> [fth |-> H.fth,
                    pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]

(* Ladder steps for the sorted versions vs, with the commitments of those that *)
(* are at most g.                                                              *)
LadderSteps(D, label, vs, g) ==
  TLCEval([i \in 1..Len(vs) |-> [p |-> VrfProof(D.C, label, vs[i]),
                         c |-> IF vs[i] <= g THEN CommitOf(D, label, vs[i]) ELSE ""]])

RECURSIVE UntilAbsent(_, _)
UntilAbsent(idx, xs) ==
  IF xs = << >> THEN << >>
  ELSE LET g == GreatestAt(idx, Head(xs)) IN IF g < 0 THEN << >> ELSE <<g>> \o UntilAbsent(idx, Tail(xs))

SrvOwnerInit(D, h, req, now) ==
  LET H == HeadFor(h, req.last)
      idx == IndexOf(D, h, req.label)
      P0 == StartProduce(D, h, idx, req.last, now)
      e == InitEntries(P0, D.C, H.n, req.start)
      gv == UntilAbsent(idx, e.xs)
      m == OwnerInit(e.p, D.C, H.n, req.start, gv)
  IN IF ~LabelOK(req.label) \/ ~H.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF ~e.p.ok THEN Err
     ELSE IF Odd(D, req.label, m.p) THEN AnyResult
     ELSE IF ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, any |-> FALSE,
           res |-> [fth |-> H.fth, gv |-> gv,
                    lad |-> LadderSteps(D, req.label, SortInts(AllLadderVersions(SeqToSet(gv))),
                                        GreatestAt(idx, req.start)),
                    pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]

SrvOwnerMonitor(D, h, req, now) ==
  LET H == HeadFor(h, req.last)
      idx == IndexOf(D, h, req.label)
      P0 == StartProduce(D, h, idx, req.last, now)
      vas == GreatestAt(idx, req.start)
      gO == req.gv
      end == IF gO = << >> THEN 0 ELSE gO[1] - vas
      o == [start |-> req.start, vas |-> vas, up |-> SubSeq(idx, vas + 2, vas + 1 + end)]
      c == ContactMonitor(P0, D.C, H.n, <<o>>, SeqToSet(req.ent))
      m == OwnerMonitor(c.p, D.C, H.n, o)
  IN IF ~LabelOK(req.label) \/ ~H.ok THEN Err
     ELSE IF ~P0.ok \/ ~EntriesOK(req.ent, idx, H.n) \/ req.start >= Size(h) THEN Err
     ELSE IF gO # << >> /\ gO[1] >= Len(idx) THEN Err
     ELSE IF vas >= 0 /\ (gO = << >> \/ gO[1] < vas) THEN Err
     ELSE IF Odd(D, req.label, m.p) THEN AnyResult
     ELSE IF ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, any |-> FALSE,
           res |-> [fth |-> H.fth,
                    pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]

(***************************************************************************)
(* Update streams.  An updater U: [h, label, idx, ver, last, nv]           *)
(*   ver: next version to report.   nv: number of new values.               *)
(***************************************************************************)
StartUpdate(D, h, req) ==
  [h |-> h, label |-> req.label, idx |-> IndexOf(D, h, req.label), last |-> req.last,
   ver |-> IF req.gv = << >> THEN 0 ELSE req.gv[1] + 1, nv |-> Len(req.vals)]

UpdateNext(D, U, withValues, now) ==   \* [ok, res, U]
  LET C == D.C
      pos == U.idx[U.ver + 1]
      cnt == Len(SelectSeq(SubSeq(U.idx, U.ver + 1, Len(U.idx)), LAMBDA p : p = pos))
      start == U.ver
      end == U.ver + cnt - 1
      H == HeadFor(U.h, U.last)
      P0 == StartProduce(D, U.h, U.idx, U.last, now)
      o == [start |-> 0, vas |-> -1, up |-> SubSeq(U.idx, 1, start)]
      m == UpdateMonitor(P0, C, H.n, o, {}, pos, cnt)
      val(v) == VersionOf(D, U.label, v)
      next == [U EXCEPT !.ver = end + 1, !.last = <<Size(U.h)>>]
  IN IF ~LabelOK(U.label) \/ ~H.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF Odd(D, U.label, m.p) THEN AnyResult @@ [U |-> next]
     ELSE IF ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, any |-> FALSE,
           res |-> [fth |-> H.fth, pos |-> pos,
                    vals |-> IF withValues THEN [i \in 1..cnt |-> val(start + i - 1).v] ELSE << >>,
                    info |-> [i \in 1..cnt |-> [op |-> val(start + i - 1).op,
                                                s |-> val(start + i - 1).s]],
                    lad |-> LadderSteps(D, U.label, SortInts(UpdateLadder(start, end)), start - 1),
                    pr |-> Output(m.p, C, U.label, H.n, H.nPO, H.mO)],
           U |-> next]
=============================================================================
