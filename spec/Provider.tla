------------------------------ MODULE Provider ------------------------------
(* The information both sides of the protocol obtain, step by step, from the   *)
(* transparency log.  The server "produces" the information (from its stored   *)
(* log) and the user "consumes" it (from a CombinedTreeProof); both run the    *)
(* same algorithms over it.  A provider P is threaded through the algorithms:  *)
(*   ok, e    whether everything was consistent so far; kind of failure        *)
(*   ts, root timestamps and prefix roots known so far, by log position        *)
(*   ret      positions of log entries that were retained by the user          *)
(*   tr       lookups so far, for the omission of redundant lookups            *)
(*   produce: log, idx (positions of the label's versions), outTs, proofs      *)
(*   consume: vers (version -> [v, c]), inTs, inPP, inRoots, inc, and the       *)
(*            versions that were shown to exist                                *)
EXTENDS Ibst, Ladder, PrefixTree, Encoding, TLC

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

NewProduce(log, idx) ==
  [ok |-> TRUE, e |-> "", mode |-> "p", ts |-> EmptyFn, root |-> EmptyFn,
   ret |-> {}, tr |-> << >>, log |-> log, idx |-> idx, outTs |-> << >>, proofs |-> << >>,
   lie |-> << >>]
(* Produced by a log that breaks the rules: what the label's versions are is     *)
(* looked up in the prefix trees, so that proofs are right whatever these hold.  *)
(* outs: VRF outputs by version.  max: number of proofs after which monitoring   *)
(* of an owner is cut short.                                                    *)
NewLie(log, outs, max) == [NewProduce(log, << >>) EXCEPT !.lie = <<[outs |-> outs, max |-> max]>>]
Contains(P, x, v) == \E k \in P.log[x + 1].K : k.v = P.lie[1].outs[v]
NewConsume(vers, pr) ==
  [ok |-> TRUE, e |-> "", mode |-> "c", ts |-> EmptyFn, root |-> EmptyFn,
   ret |-> {}, tr |-> << >>, vers |-> vers, inTs |-> pr.ts, inPP |-> pr.pp,
   inRoots |-> pr.roots, inc |-> pr.inc, exist |-> {}]
Bad(P, why) == IF P.ok THEN [P EXCEPT !.ok = FALSE, !.e = why] ELSE P

(* Retain log entries, given as a sequence of [p, ts, r]. *)
RECURSIVE RetainAll(_, _)
RetainAll(P, es) ==
  IF es = << >> THEN P
  ELSE LET e == Head(es)
       IN RetainAll([P EXCEPT !.ts = Put(@, e.p, e.ts), !.root = Put(@, e.p, e.r),
                              !.ret = @ \cup {e.p}], Tail(es))

(* Greatest version of the label at log entry x, according to the server. *)
GreatestAt(idx, x) == Len(SelectSeq(idx, LAMBDA p : p <= x)) - 1

MonotonicWith(f, x, t) == \A y \in DOMAIN f : (x < y => t <= f[y]) /\ (x > y => t >= f[y])

GetTs(P, x) ==
  IF ~P.ok \/ x \in DOMAIN P.ts THEN P
  ELSE IF P.mode = "p"
  THEN IF x >= Len(P.log) THEN Bad(P, "no entry")
       ELSE [P EXCEPT !.ts = Put(@, x, P.log[x + 1].ts), !.outTs = Append(@, P.log[x + 1].ts)]
  ELSE IF P.inTs = << >> THEN Bad(P, "timestamps")
  ELSE IF ~MonotonicWith(P.ts, x, Head(P.inTs)) THEN Bad(P, "not monotonic")
  ELSE [P EXCEPT !.ts = Put(@, x, Head(P.inTs)), !.inTs = Tail(@)]

RECURSIVE GetAllTs(_, _)
GetAllTs(P, xs) == IF xs = << >> THEN P ELSE GetAllTs(GetTs(P, Head(xs)), Tail(xs))

AddRoot(P, x, r) ==
  IF ~P.ok THEN P
  ELSE IF x \in DOMAIN P.root
       THEN IF P.root[x] = r THEN P ELSE Bad(P, "prefix root")
       ELSE [P EXCEPT !.root = Put(@, x, r)]

(* Lookups that would be redundant at x. *)
Skip(P, x, omit) ==
  IF ~omit THEN {}
  ELSE UNION { LET t == P.tr[i] IN IF t.pos < x THEN t.inc
                                   ELSE IF t.pos > x THEN t.non ELSE {}
               : i \in 1..Len(P.tr) }
Track(P, x, omit, inc, non) ==
  IF omit THEN [P EXCEPT !.tr = Append(@, [pos |-> x, inc |-> inc, non |-> non])] ELSE P

Sign(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* The entries that a proof for the versions `lad' is evaluated against. *)
EntriesKnown(P, lad, R) ==
  \A i \in 1..Len(R) : /\ lad[i] \in DOMAIN P.vers
                       /\ Incl(R[i]) => P.vers[lad[i]].c # ""
EntriesOf(P, lad, R) == [i \in 1..Len(R) |-> P.vers[lad[i]]]

(* The versions looked up at x: up to the first that decides. *)
RECURSIVE Deciding(_, _, _, _)
Deciding(P, x, ver, lad) ==
  IF lad = << >> THEN << >>
  ELSE <<Head(lad)>> \o (IF Contains(P, x, Head(lad)) = (Head(lad) > ver) THEN << >>
                         ELSE Deciding(P, x, ver, Tail(lad)))
LieLadderAt(P, x, ver, skip, omit) ==
  LET lad == Deciding(P, x, ver, SearchLadder(ver, ver, skip))
      I == { v \in SeqToSet(lad) : Contains(P, x, v) }
      last == IF lad = << >> THEN ver ELSE Last(lad)
  IN [p |-> AddRoot(Track([P EXCEPT !.proofs = Append(@, [pos |-> x, vers |-> lad])],
                          x, omit, I, SeqToSet(lad) \ I), x, P.log[x + 1].root),
      r |-> IF lad = << >> THEN 0
            ELSE IF last \in I /\ last > ver THEN 1 ELSE IF last \notin I /\ last <= ver THEN -1 ELSE 0]

SearchLadderAt(P0, x, ver, omit) ==   \* result [p, r]
  LET P == GetTs(P0, x)
      skip == Skip(P, x, omit)
  IN IF ~P.ok THEN [p |-> P, r |-> 0]
     ELSE IF P.mode = "p" /\ P.lie # << >> THEN LieLadderAt(P, x, ver, skip, omit)
     ELSE IF P.mode = "p"
     THEN LET g == GreatestAt(P.idx, x)
              lad == IF g < 0 THEN <<0>> ELSE SearchLadder(ver, g, skip)
              vs == SeqToSet(lad)
          IN [p |-> AddRoot(Track([P EXCEPT !.proofs = Append(@, [pos |-> x, vers |-> lad])],
                                  x, omit, { v \in vs : v <= g }, { v \in vs : v > g }),
                            x, P.log[x + 1].root),
              r |-> Sign(g - ver)]
     ELSE IF P.inPP = << >> THEN [p |-> Bad(P, "prefix proofs"), r |-> 0]
     ELSE LET pf == Head(P.inPP)
              lad == SearchLadder(ver, ver, skip)
              int == Interpret(lad, Map(Incl, pf.r), ver)
          IN IF ~int.ok THEN [p |-> Bad(P, "ladder"), r |-> 0]
             ELSE IF ~EntriesKnown(P, lad, pf.r) THEN [p |-> Bad(P, "version"), r |-> 0]
             ELSE LET ev == PEvaluate(EntriesOf(P, lad, pf.r), pf)
                      I == { i \in 1..Len(pf.r) : Incl(pf.r[i]) }
                      J == (1..Len(pf.r)) \ I
                  IN IF ~ev.ok THEN [p |-> Bad(P, "prefix proof"), r |-> 0]
                     ELSE [p |-> AddRoot(Track([P EXCEPT !.inPP = Tail(@),
                                                         !.exist = @ \cup { lad[i] : i \in I }], x, omit,
                                               { lad[i] : i \in I }, { lad[i] : i \in J }),
                                         x, ev.root),
                           r |-> int.r]

(* A proof in which every one of `lad' must be shown to be included. *)
AllIncludedAt(P0, x, lad) ==
  LET P == GetTs(P0, x)
  IN IF ~P.ok THEN P
     ELSE IF P.mode = "p" /\ P.lie # << >> /\ \E i \in 1..Len(lad) : ~Contains(P, x, lad[i])
     THEN Bad(P, "not included")
     ELSE IF P.mode = "p"
     THEN AddRoot([P EXCEPT !.proofs = Append(@, [pos |-> x, vers |-> lad])], x, P.log[x + 1].root)
     ELSE IF P.inPP = << >> THEN Bad(P, "prefix proofs")
     ELSE LET pf == Head(P.inPP)
          IN IF Len(pf.r) # Len(lad) \/ \E i \in 1..Len(pf.r) : ~Incl(pf.r[i])
             THEN Bad(P, "not included")
             ELSE IF ~EntriesKnown(P, lad, pf.r) THEN Bad(P, "version")
             ELSE LET ev == PEvaluate(EntriesOf(P, lad, pf.r), pf)
                  IN IF ~ev.ok THEN Bad(P, "prefix proof")
                     ELSE AddRoot([P EXCEPT !.inPP = Tail(@), !.exist = @ \cup SeqToSet(lad)], x, ev.root)

MonitorLadderAt(P, x, ver) == AllIncludedAt(P, x, MonitorLadder(ver))
InclusionAt(P, x, vers) == IF vers = << >> THEN P ELSE AllIncludedAt(P, x, vers)

(* Log entries inspected, and those among them whose prefix root is unknown. *)
Inspected(P) == SortInts(DOMAIN P.ts \ P.ret)
Unknown(P) == SelectSeq(Inspected(P), LAMBDA x : x \notin DOMAIN P.root)

(* The CombinedTreeProof that was produced. *)
LeafSeq(log) == TLCEval([i \in 1..Len(log) |-> log[i].leaf])
Output(P, C, label, n, nPO, mO) ==
  LET out(v) == VrfOut(C, label, v)
      pp == [i \in 1..Len(P.proofs) |->
               PProof(P.log[P.proofs[i].pos + 1].K, Map(out, P.proofs[i].vers))]
      un == Unknown(P)
  IN [ts |-> P.outTs, pp |-> pp,
      roots |-> [i \in 1..Len(un) |-> P.log[un[i] + 1].root],
      inc |-> BatchProof(LeafSeq(P.log), SeqToSet(Inspected(P)), n, nPO, mO)]

RECURSIVE FillRoots(_, _, _)
FillRoots(f, xs, rs) ==
  IF xs = << >> THEN f ELSE FillRoots(Put(f, Head(xs), Head(rs)), Tail(xs), Tail(rs))

(* Finish consuming: everything must have been used up, and the inspected log  *)
(* entries determine the tree's full subtrees.                                 *)
Finish(P, n, nPO, mO, retained) ==
  LET un == Unknown(P)
  IN IF ~P.ok THEN [ok |-> FALSE]
     ELSE IF P.inTs # << >> \/ P.inPP # << >> \/ Len(P.inRoots) # Len(un) THEN [ok |-> FALSE]
     ELSE LET Q == [P EXCEPT !.root = FillRoots(@, un, P.inRoots)]
              xs == Inspected(Q)
              vals == TLCEval([i \in 1..Len(xs) |-> LeafOf(Q.ts[xs[i]], Q.root[xs[i]])])
              ev == Evaluate(xs, n, nPO, mO, retained, vals, Q.inc)
              fr == Frontier(n)
          IN IF ~ev.ok THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, fs |-> ev.fs, add |-> ev.add,
                   le |-> [i \in 1..Len(fr) |->
                             [p |-> fr[i], ts |-> Q.ts[fr[i]], r |-> Q.root[fr[i]]]]]
=============================================================================
