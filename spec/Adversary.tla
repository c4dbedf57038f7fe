------------------------------ MODULE Adversary ------------------------------
(* A log that does not follow the rules: log entries hold whatever it likes, and *)
(* it answers in whatever way might be accepted.  As hashes do not collide, a     *)
(* proof that is accepted speaks about the actual contents of log entries, so the *)
(* choices that are left are: what to put into each log entry and its timestamp,  *)
(* which version to claim, which of several commitments to present, when to stop  *)
(* presenting, and where to claim an update to have happened.                     *)
EXTENDS Katie

(* Which values may be committed to, by variant. *)
Op0 == "00000000000000000000000000000000"
VariantValue(x) == [v |-> x, s |-> << >>]
VariantCommit(label, ver, x) == Commitment(Op0, label, ver, VariantValue(x))

(* ct: versions -> variants, what a log entry holds about the label. *)
EntryOf(C, label, ct) ==
  { [v |-> VrfOut(C, label, ver), c |-> VariantCommit(label, ver, ct[ver])] : ver \in DOMAIN ct }
AppendEntry(D, ts, K) ==
  LET n == Len(D.log)
      root == PRoot(K)
      log1 == Append(D.log, [ts |-> ts, K |-> K, root |-> root, leaf |-> LeafOf(ts, root)])
      th == [n |-> n + 1, sig |-> Sig(D.C.sk, TreeHeadTBS(D.C, n + 1, LogRoot(LeafSeq(log1), n + 1)))]
  IN [D EXCEPT !.log = log1, !.head = <<th>>]

Outs(C, label, maxv) == TLCEval([v \in 0..maxv |-> VrfOut(C, label, v)])
HandleOf(D) == [th |-> D.head, ath |-> << >>]
LieStart(D, req, H, max, maxv) ==
  LET fr == IF req.last = << >> THEN << >> ELSE Frontier(req.last[1])
  IN UpdateView(RetainAll(NewLie(D.log, Outs(D.C, req.label, maxv), max),
                          [i \in 1..Len(fr) |-> [p |-> fr[i], ts |-> D.log[fr[i] + 1].ts,
                                                 r |-> D.log[fr[i] + 1].root]]),
                D.C, H.n, req.last, 0)
Shown(P) ==      \* versions that proofs show to be included
  UNION { LET q == P.proofs[i] IN { v \in SeqToSet(q.vers) : Contains(P, q.pos, v) } : i \in 1..Len(P.proofs) }

(* pick: versions -> variants, what is claimed to be committed to. *)
LieSearch(D, req, target, pick, maxv) ==   \* [ok, res]
  LET C == D.C
      H == HeadFor(HandleOf(D), req.last)
      lad == BaseLadder(target)
      P0 == LieStart(D, req, H, 0, maxv)
      s == IF req.ver = << >> THEN GreatestVersionSearch(P0, C, target, H.n)
           ELSE FixedVersionSearch(P0, C, target, H.n)
      step(v) == [p |-> VrfProof(C, req.label, v),
                  c |-> IF v # target /\ v \in Shown(s.p) THEN VariantCommit(req.label, v, pick[v]) ELSE ""]
  IN IF ~H.ok \/ ~P0.ok \/ ~s.p.ok THEN Err
     ELSE [ok |-> TRUE,
           res |-> [fth |-> H.fth, ver |-> IF req.ver = << >> THEN <<target>> ELSE << >>,
                    op |-> Op0, val |-> VariantValue(pick[target]), lad |-> Map(step, lad),
                    pr |-> Output(s.p, C, req.label, H.n, H.nPO, H.mO)]]
LieContact(D, req, maxv) ==
  LET H == HeadFor(HandleOf(D), req.last)
      m == ContactMonitor(LieStart(D, req, H, 0, maxv), D.C, H.n, << >>, SeqToSet(req.ent))
  IN IF ~H.ok \/ ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, res |-> [fth |-> H.fth, pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]
LieOwnerInit(D, req, gv, pick, maxv) ==
  LET H == HeadFor(HandleOf(D), req.last)
      m == OwnerInit(LieStart(D, req, H, 0, maxv), D.C, H.n, req.start, gv)
      lad == SortInts(AllLadderVersions(SeqToSet(gv)))
  IN IF ~H.ok \/ ~m.p.ok THEN Err
     ELSE [ok |-> TRUE,
           res |-> [fth |-> H.fth, gv |-> gv,
                    lad |-> [i \in 1..Len(lad) |->
                               [p |-> VrfProof(D.C, req.label, lad[i]),
                                c |-> IF gv # << >> /\ lad[i] <= gv[1]
                                      THEN VariantCommit(req.label, lad[i], pick[lad[i]]) ELSE ""]],
                    pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]
LieOwnerMonitor(D, req, o, max, maxv) ==
  LET H == HeadFor(HandleOf(D), req.last)
      c == ContactMonitor(LieStart(D, req, H, max, maxv), D.C, H.n, <<o>>, SeqToSet(req.ent))
      m == OwnerMonitor(c.p, D.C, H.n, o)
  IN IF ~H.ok \/ ~m.p.ok THEN Err
     ELSE [ok |-> TRUE, res |-> [fth |-> H.fth, pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]
(* The update of what o knows is claimed to have happened at pos. *)
LieUpdate(D, req, o, pos, cnt, pick, maxv) ==
  LET H == HeadFor(HandleOf(D), req.last)
      start == OwnerGreatest(o) + 1
      end == start + cnt - 1
      lad == SortInts(UpdateLadder(start, end))
      m == UpdateMonitor(LieStart(D, req, H, 0, maxv), D.C, H.n, o, {}, pos, cnt)
  IN IF ~H.ok \/ ~m.p.ok THEN Err
     ELSE [ok |-> TRUE,
           res |-> [fth |-> H.fth, pos |-> pos,
                    vals |-> [i \in 1..cnt |-> pick[start + i - 1]],
                    info |-> [i \in 1..cnt |-> [op |-> Op0, s |-> << >>]],
                    lad |-> [i \in 1..Len(lad) |->
                               [p |-> VrfProof(D.C, req.label, lad[i]),
                                c |-> IF lad[i] < start THEN VariantCommit(req.label, lad[i], pick[lad[i]]) ELSE ""]],
                    pr |-> Output(m.p, D.C, req.label, H.n, H.nPO, H.mO)]]
=============================================================================
