------------------------------- MODULE Auditor -------------------------------
(* The third-party auditor.  Its state AS is << >> or a sequence of one        *)
(*   [th, fs, tss, root, ins]                                                  *)
(*   th    [ts, n, sig]; sig = "" until committed                              *)
(*   fs    full subtrees of the log tree    tss   timestamps on the frontier   *)
(*   root  prefix tree root of the rightmost log entry                         *)
(*   ins   set of [p, v]: VRF outputs inserted after the rightmost             *)
(*         distinguished log entry                                             *)
EXTENDS Client

ASize(AS) == IF AS = << >> THEN 0 ELSE AS[1].th.n

StrictlySorted(s) == \A i \in 2..Len(s) : HexLess(s[i - 1].v, s[i].v)

(* Full subtrees after appending a leaf: adjacent subtrees are merged as long  *)
(* as they are of equal size.                                                  *)
RECURSIVE Merge(_, _)
Merge(fs, w) ==    \* w: sizes
  LET k == Len(fs)
  IN IF k < 2 THEN fs
     ELSE IF w[k - 1] # w[k] THEN fs
     ELSE Merge(Append(SubSeq(fs, 1, k - 2), HashPair(w[k - 1], fs[k - 1], w[k], fs[k])),
                Append(SubSeq(w, 1, k - 2), 2 * w[k]))
AppendLeaf(fs, n, leaf) ==
  LET s == IF n = 0 THEN << >> ELSE FullSubs(0, n)
  IN Merge(Append(fs, leaf), Append([i \in 1..Len(s) |-> s[i][2] - s[i][1]], 1))

(* The update's changes, evaluated on what its proof reveals of the prefix      *)
(* tree: UpdateTree is [ok, n], UpdateRoots is [ok, before, after].             *)
UpdateTree(u) ==
  LET rem == u.rem  add == u.add
      na == Len(add)  nr == Len(rem)
      inRem(v) == \E j \in 1..nr : rem[j].v = v
      both == { i \in 1..na : inRem(add[i].v) }
      keep == SelectSeq([i \in 1..na |-> i], LAMBDA i : i \notin both)
      E == [i \in 1..Len(keep) |-> add[keep[i]]] \o rem
      R == [i \in 1..Len(keep) |-> u.pr.r[keep[i]]] \o SubSeq(u.pr.r, na + 1, na + nr)
      t == PTree(E, [r |-> R, e |-> u.pr.e])
      agree(i) == LET j == CHOOSE j \in 1..nr : rem[j].v = add[i].v
                  IN Incl(u.pr.r[i]) /\ Incl(u.pr.r[na + j]) /\ u.pr.r[i].d = u.pr.r[na + j].d
  IN IF Len(u.pr.r) # na + nr THEN [ok |-> FALSE]
     ELSE IF \E i \in both : ~agree(i) THEN [ok |-> FALSE]
     ELSE t
UpdateRoots(u) ==
  LET t == UpdateTree(u)
  IN IF ~t.ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, before |-> TreeHash(t.n),
           after |-> TreeHash(ApplyChange(t.n, SeqToSet(u.add), { x.v : x \in SeqToSet(u.rem) }))]

AuditorProcess(C, AS, u) ==     \* [ok, as]
  LET n == ASize(AS)
      na == Len(u.add)  nr == Len(u.rem)
      fr == IF n = 0 THEN << >> ELSE Frontier(n)
      T == TLCEval([x \in SeqToSet(fr) \cup {n} |->
             IF x = n THEN u.ts ELSE AS[1].tss[CHOOSE i \in 1..Len(fr) : fr[i] = x]])
      prev == LET S == { x \in SeqToSet(fr) : IsDLE(T, C.rmw, x, n + 1) }
              IN IF S = {} THEN << >> ELSE <<MaxOf(S)>>
      dle == LET S == { x \in SeqToSet(Frontier(n + 1)) : IsDLE(T, C.rmw, x, n + 1) }
             IN IF S = {} THEN << >> ELSE <<MaxOf(S)>>
      ins == IF AS = << >> THEN {} ELSE AS[1].ins
      recent(v) == n = 0 \/ \E e \in ins : e.v = v /\ e.p > prev[1]
      ur == UpdateRoots(u)
      leaf == LeafOf(u.ts, ur.after)
      new == { e \in ins : ~\E i \in 1..na : u.add[i].v = e.v }
             \cup { [p |-> n, v |-> u.add[i].v] : i \in 1..na }
      f1 == Frontier(n + 1)
  IN IF n > 0 /\ u.ts < AS[1].th.ts THEN Err
     ELSE IF ~StrictlySorted(u.add) \/ ~StrictlySorted(u.rem) THEN Err
     ELSE IF Len(u.pr.r) # na + nr THEN Err
     ELSE IF \E i \in 1..na : Incl(u.pr.r[i]) /\ ~\E j \in 1..nr : u.rem[j].v = u.add[i].v THEN Err
     ELSE IF \E j \in 1..nr : ~Incl(u.pr.r[na + j]) THEN Err
     ELSE IF nr > 0 /\ prev = << >> THEN Err
     ELSE IF \E j \in 1..nr : recent(u.rem[j].v) THEN Err
     ELSE IF ~ur.ok THEN Err
     ELSE IF ur.before # (IF n = 0 THEN Zero32 ELSE AS[1].root) THEN Err
     ELSE [ok |-> TRUE,
           as |-> <<[th |-> [ts |-> u.ts, n |-> n + 1, sig |-> ""],
                     fs |-> AppendLeaf(IF n = 0 THEN << >> ELSE AS[1].fs, n, leaf),
                     tss |-> [i \in 1..Len(f1) |-> T[f1[i]]],
                     root |-> ur.after,
                     ins |-> { e \in new : dle = << >> \/ e.p > dle[1] }]>>]

AuditorCommit(C, AS) ==         \* [ok, as]
  LET a == AS[1]
  IN IF AS = << >> THEN Err
     ELSE IF a.th.sig # "" THEN [ok |-> TRUE, as |-> AS]
     ELSE [ok |-> TRUE,
           as |-> <<[a EXCEPT !.th.sig = Sig(C.ak, AuditorTBS(C, a.th.ts, a.th.n,
                                                     RootOf(a.fs, 0, a.th.n)))]>>]
=============================================================================
