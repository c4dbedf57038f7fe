------------------------------ MODULE Components ------------------------------
(* The building blocks on their own: trees over a store, verification of their *)
(* proofs, and the arithmetic of trees and ladders.  W.X maps the names of log *)
(* trees to [l |-> leaves, fs |-> full subtrees], and of prefix trees to the   *)
(* sequence of their versions [k |-> entries, r |-> root].                     *)
EXTENDS Auditor, Big, Stores, Suites

CYes(W) == [why |-> "", W |-> W]
CNo(W, why) == [why |-> why, W |-> W]
Expect(W, b, why) == IF b THEN CYes(W) ELSE CNo(W, why)
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(***************************************************************************)
(* The log tree.                                                           *)
(***************************************************************************)
CompLNew(W, e) == CYes([W EXCEPT !.X = Put(@, e.t, [l |-> << >>, fs |-> << >>])])
CompLFork(W, e) == CYes([W EXCEPT !.X = Put(@, e.to, W.X[e.t])])
CompLAppend(W, e) ==
  LET x == W.X[e.t]  fine == BLen(e.leaf) = 32
      fs == AppendLeaf(x.fs, Len(x.l), e.leaf)
  IN IF e.ok # fine THEN CNo(W, "log append: outcome")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE IF e.fs # fs THEN CNo(W, "log append: full subtrees")
     ELSE CYes([W EXCEPT !.X[e.t] = [l |-> Append(x.l, e.leaf), fs |-> fs]])
CompLBulk(W, e) ==
  LET l == W.X[e.t].l \o e.leaves
      fs == FullSubVals(l, Len(l))
  IN IF e.fs # fs THEN CNo(W, "log append: full subtrees")
     ELSE CYes([W EXCEPT !.X[e.t] = [l |-> l, fs |-> fs]])
(* The recursive definition of the tree, against the incremental one. *)
CompLRoot(W, e) ==
  LET x == W.X[e.t]
  IN IF x.fs # FullSubVals(x.l, Len(x.l)) THEN CNo(W, "log: full subtrees are not the definition's")
     ELSE Expect(W, e.ok /\ e.root = LogRoot(x.l, Len(x.l)), "log: root")
CompLRootOf(W, e) ==
  LET fine == e.n > 0 /\ Len(e.fs) = Len(FullSubs(0, e.n)) /\ \A i \in 1..Len(e.fs) : BLen(e.fs[i]) = 32
  IN Expect(W, IF fine THEN e.ok /\ e.root = RootOf(e.fs, 0, e.n) ELSE ~e.ok, "log root: outcome")
CompLGrow(W, e) == Expect(W, e.ok /\ e.res = AppendLeaf(e.fs, e.n, e.leaf), "log: appending to full subtrees")
CompLBatch(W, e) ==
  LET x == W.X[e.t]
      fine == /\ ProofParamsOK(e.n, e.np, e.m) /\ NoDup(e.S) /\ \A i \in 1..Len(e.S) : e.S[i] < e.n
  IN IF ~fine THEN Expect(W, ~e.ok, "log proof: accepted")
     ELSE IF e.n > Len(x.l) THEN CYes(W)    \* a tree that does not exist
     ELSE Expect(W, e.ok /\ e.proof = BatchProof(x.l, SeqToSet(e.S), e.n, e.np, e.m), "log proof: outcome")
CompLEval(W, e) ==
  LET r == IF e.m = << >> \/ e.retok THEN Evaluate(e.S, e.n, e.np, e.m, e.ret, e.vals, e.proof) ELSE EvalFail
      retfine == /\ e.m # << >> => /\ e.m[1] > 0 /\ Len(e.ret) = Len(FullSubs(0, e.m[1]))
                                    /\ \A i \in 1..Len(e.ret) : BLen(e.ret[i]) = 32
  IN IF e.m # << >> /\ e.retok # retfine THEN CNo(W, "log verifier: retained state")
     ELSE IF ~e.retok THEN CYes(W)
     ELSE IF e.ok # r.ok THEN CNo(W, "log verifier: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE IF e.fs # r.fs \/ e.add # r.add THEN CNo(W, "log verifier: result")
     (* Soundness: if the result is that of a tree, so is everything claimed. *)
     ELSE Expect(W, \A t \in SeqToSet(e.trees) :
                      LET l == W.X[t].l
                      IN (e.n <= Len(l) /\ RootOf(r.fs, 0, e.n) = LogRoot(l, e.n)) =>
                           /\ r.fs = FullSubVals(l, e.n)
                           /\ \A i \in 1..Len(e.S) : e.vals[i] = l[e.S[i] + 1]
                           /\ e.m # << >> => e.ret = FullSubVals(l, e.m[1])
                           /\ e.np # << >> => r.add = FullSubVals(l, e.np[1]),
                 "log verifier: unsound")

(***************************************************************************)
(* The prefix tree.                                                        *)
(***************************************************************************)
CompPNew(W, e) == CYes([W EXCEPT !.X = Put(@, e.t, << >>)])
Keys(s) == [i \in 1..Len(s) |-> s[i].v]
CompPMut(W, e) ==
  LET x == W.X[e.t]
      K == IF e.ver = 0 THEN {} ELSE x[e.ver].k
      VK == { k.v : k \in K }
      fine == /\ NoDup(Keys(e.add)) /\ NoDup(e.rem)
              /\ \A i \in 1..Len(e.add) : BLen(e.add[i].v) = 32 /\ BLen(e.add[i].c) = 32
              /\ \A i \in 1..Len(e.rem) : BLen(e.rem[i]) = 32 /\ e.rem[i] \in VK
              /\ \A i \in 1..Len(e.add) : e.add[i].v \in VK => e.add[i].v \in SeqToSet(e.rem)
      K1 == { k \in K : k.v \notin SeqToSet(e.rem) } \cup SeqToSet(e.add)
  IN IF e.ok # fine THEN CNo(W, "prefix tree: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE IF e.root # PRoot(K1) THEN CNo(W, "prefix tree: root")
     ELSE IF e.proof # PProof(K, Keys(e.add) \o e.rem) THEN CNo(W, "prefix tree: proof of change")
     ELSE IF e.com # Map(LAMBDA v : PCommitment(K, v), e.rem) THEN CNo(W, "prefix tree: removed commitments")
     ELSE CYes([W EXCEPT !.X[e.t] = Append(SubSeq(@, 1, e.ver), [k |-> K1, r |-> e.root])])
CompPSearch(W, e) ==
  LET x == W.X[e.t]
      fine == \A i \in 1..Len(e.q) : /\ e.q[i].ver > 0 /\ e.q[i].ver <= Len(x)
                                      /\ \A j \in 1..Len(e.q[i].vs) : BLen(e.q[i].vs[j]) = 32
  IN IF e.ok # fine THEN CNo(W, "prefix search: outcome")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE Expect(W, /\ Len(e.res) = Len(e.q)
                    /\ \A i \in 1..Len(e.q) :
                         LET K == x[e.q[i].ver].k
                         IN /\ e.res[i].pr = PProof(K, e.q[i].vs)
                            /\ e.res[i].c = Map(LAMBDA v : PCommitment(K, v), e.q[i].vs),
                 "prefix search: result")
(* Soundness: if the root derived is that of a tree, what is shown is true.    *)
PTrue(K, E, pr) ==
  \A i \in 1..Len(E) : IF Incl(pr.r[i]) THEN PCommitment(K, E[i].v) = E[i].c
                       ELSE PCommitment(K, E[i].v) = ""
CompPEval(W, e) ==
  LET r == PEvaluate(e.E, e.pr)
  IN IF e.ok # r.ok THEN CNo(W, "prefix verifier: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE IF e.root # r.root THEN CNo(W, "prefix verifier: root")
     ELSE Expect(W, \A i \in 1..Len(W.X[e.t]) :
                      W.X[e.t][i].r = r.root => PTrue(W.X[e.t][i].k, e.E, e.pr),
                 "prefix verifier: unsound")
CompPVerify(W, e) ==
  LET r == PEvaluate(e.E, e.pr)
  IN Expect(W, e.ok = (r.ok /\ r.root = e.root), "prefix verifier: verdict")
CompPBefore(W, e) ==
  LET r == UpdateRoots([add |-> e.add, rem |-> e.rem, pr |-> e.pr])
      change(K) == { k \in K : ~\E j \in 1..Len(e.rem) : e.rem[j].v = k.v } \cup SeqToSet(e.add)
      wf(K) == /\ \A i \in 1..Len(e.rem) : Incl(e.pr.r[Len(e.add) + i])
               /\ \A i \in 1..Len(e.add) : Incl(e.pr.r[i]) => \E j \in 1..Len(e.rem) : e.rem[j].v = e.add[i].v
               /\ NoDup(Keys(e.add)) /\ NoDup(Keys(e.rem))
  IN IF e.ok # r.ok THEN CNo(W, "prefix change: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN CYes(W)
     ELSE IF e.before # r.before THEN CNo(W, "prefix change: root before")
     ELSE IF e.after # r.after THEN CNo(W, "prefix change: root after")
     (* Without removals the outcome is exact; with them it may only fail to    *)
     (* match any tree (see KF-1).                                              *)
     ELSE Expect(W, \A i \in 1..Len(W.X[e.t]) :
                      LET K == W.X[e.t][i].k
                      IN (W.X[e.t][i].r = r.before /\ wf(K)) =>
                           /\ PTrue(K, e.rem, [r |-> SubSeq(e.pr.r, Len(e.add) + 1, Len(e.pr.r))])
                           /\ e.rem = << >> => PRoot(change(K)) = r.after
                           /\ \A j \in 1..Len(W.X[e.t]) :
                                W.X[e.t][j].r = r.after => W.X[e.t][j].k = change(K),
                 "prefix change: unsound")

(***************************************************************************)
(* Arithmetic.                                                             *)
(***************************************************************************)
Ids(s) == Map(NodeId, s)
CompLWalk(W, e) ==
  LET w == BDescend(BTree(e.n), e.dirs)
      k == Len(w)
      last == w[k]
      up == Rev(SubSeq(w, 1, k - 1))
      co == [i \in 1..(k - 1) |-> BSiblingOf(w[k - i + 1], w[k - i])]
  IN IF e.ids # Ids(w) THEN CNo(W, "log math: descent")
     ELSE IF e.leaf # BIsLeaf(last) THEN CNo(W, "log math: leaf")
     ELSE IF e.up # Ids(up) THEN CNo(W, "log math: direct path")
     ELSE IF e.co # Ids(co) THEN CNo(W, "log math: copath")
     ELSE IF e.full # BIsPow2(BW(last)) THEN CNo(W, "log math: full subtree")
     ELSE IF e.subs # Ids(BFullSubs(last)) THEN CNo(W, "log math: full subtrees")
     ELSE CYes(W)
CompLBatchM(W, e) ==
  Expect(W, e.out = Ids(BBatch(SeqToSet(e.S), e.n, e.np, e.m)), "log math: batch copath")
CompIWalk(W, e) ==
  LET w == BWalk(BTree(e.n), e.dirs)
      k == Len(w)
      xs == Map(BMid, w)
      x == xs[k]
  IN IF e.ids # xs THEN CNo(W, "search tree: descent")
     ELSE IF e.up # (IF k = 1 THEN << >> ELSE <<xs[k - 1]>>) THEN CNo(W, "search tree: parent")
     ELSE IF e.right # BRights(x, e.n) THEN CNo(W, "search tree: right path")
     ELSE IF e.left # BLefts(x, e.n) THEN CNo(W, "search tree: left path")
     ELSE CYes(W)
CompIView(W, e) ==
  IF e.front # BFrontier(e.n) THEN CNo(W, "search tree: frontier")
  ELSE Expect(W, e.out = BViewEntries(e.n, e.m), "search tree: entries to update a view")

(* Times a <= b. *)
CompWindows(W, e) ==
  LET d == BSub(e.b, e.a)
  IN IF e.dist # BLe(e.rmw, d) THEN CNo(W, "window: distinguished")
     ELSE Expect(W, e.exp = (e.life # B0 /\ BLe(e.life, d)), "window: expired")

WInterpret(lad, incl, t) == 
  LET F[i \in 1..(Len(lad) + 1)] ==
        IF i > Len(lad) THEN [ok |-> Len(incl) = Len(lad), r |-> 0]
        ELSE IF i > Len(incl) THEN [ok |-> FALSE, r |-> 0]
        ELSE IF incl[i] /\ WLt(t, lad[i]) THEN [ok |-> Len(incl) = i, r |-> 1]
        ELSE IF ~incl[i] /\ ~WLt(t, lad[i]) THEN [ok |-> Len(incl) = i, r |-> -1]
        ELSE F[i + 1]
  IN F[1]
CompLadder(W, e) ==
  IF e.out # WSearchLadder(e.t, e.n, SeqToSet(e.left) \cup SeqToSet(e.right)) THEN CNo(W, "ladder: lookups")
  (* The ladder decides the comparison. *)
  ELSE IF e.left # << >> \/ e.right # << >> THEN CYes(W)
  ELSE LET r == WInterpret(WBaseLadder(e.t), Map(LAMBDA v : ~WLt(e.n, v), e.out), e.t)
       IN Expect(W, r.ok /\ r.r = (IF e.n = e.t THEN 0 ELSE IF WLt(e.n, e.t) THEN -1 ELSE 1),
                 "ladder: undecided")
CompMonLadder(W, e) == Expect(W, e.out = WMonitorLadder(e.t), "ladder: monitoring")
CompInterp(W, e) ==
  LET r == WInterpret(e.lad, e.incl, e.t)
  IN Expect(W, e.ok = r.ok /\ (e.ok => e.r = r.r), "ladder: interpretation")
CompTracker(W, e) ==
  LET used == SelectSeq(e.add, LAMBDA a : a.omit)
      inc(a) == { a.lad[i] : i \in { j \in 1..Len(a.lad) : a.in[j] } }
      non(a) == { a.lad[i] : i \in { j \in 1..Len(a.lad) : ~a.in[j] } }
      L == UNION { IF used[i].x < e.x THEN inc(used[i]) ELSE {} : i \in 1..Len(used) }
      R == UNION { IF used[i].x > e.x THEN non(used[i]) ELSE {} : i \in 1..Len(used) }
  IN Expect(W, IF e.omit THEN SeqToSet(e.left) = L /\ SeqToSet(e.right) = R
               ELSE e.left = << >> /\ e.right = << >>, "ladder: earlier lookups")

IsComp(e) == e.e \in { "lnew", "lfork", "lbulk", "lappend", "lroot", "lrootof", "lgrow", "lbatch", "leval",
                       "pnew", "pmut", "psearch", "peval", "pverify", "pbefore",
                       "lwalk", "lbatchm", "iwalk", "iview", "windows", "ladder", "monladder", "interp", "tracker" }
CompStep(W, e) ==
  CASE e.e = "lnew" -> CompLNew(W, e)
    [] e.e = "lfork" -> CompLFork(W, e)
    [] e.e = "lbulk" -> CompLBulk(W, e)
    [] e.e = "lappend" -> CompLAppend(W, e)
    [] e.e = "lroot" -> CompLRoot(W, e)
    [] e.e = "lrootof" -> CompLRootOf(W, e)
    [] e.e = "lgrow" -> CompLGrow(W, e)
    [] e.e = "lbatch" -> CompLBatch(W, e)
    [] e.e = "leval" -> CompLEval(W, e)
    [] e.e = "pnew" -> CompPNew(W, e)
    [] e.e = "pmut" -> CompPMut(W, e)
    [] e.e = "psearch" -> CompPSearch(W, e)
    [] e.e = "peval" -> CompPEval(W, e)
    [] e.e = "pverify" -> CompPVerify(W, e)
    [] e.e = "pbefore" -> CompPBefore(W, e)
    [] e.e = "lwalk" -> CompLWalk(W, e)
    [] e.e = "lbatchm" -> CompLBatchM(W, e)
    [] e.e = "iwalk" -> CompIWalk(W, e)
    [] e.e = "iview" -> CompIView(W, e)
    [] e.e = "windows" -> CompWindows(W, e)
    [] e.e = "ladder" -> CompLadder(W, e)
    [] e.e = "monladder" -> CompMonLadder(W, e)
    [] e.e = "interp" -> CompInterp(W, e)
    [] e.e = "tracker" -> CompTracker(W, e)
=============================================================================
