-------------------------------- MODULE Katie --------------------------------
(* The whole system as a state machine: logs (possibly several that share keys *)
(* but present different contents), instances serving them, users, auditors,   *)
(* and everything in flight between them.  A state W is a record               *)
(*   D   log's store             by name                                       *)
(*   H   server instance         by name: [s |-> store, h |-> handle]          *)
(*   U   update in progress      by name: [s, h, u, pos]                       *)
(*   L   user                    by name (a user's store, see Client)          *)
(*   P   request in progress     by name: [c, k, st, ls, req]                  *)
(*   A   auditor                 by name: [C, as, saved, u]                    *)
(*   Z   contents a log's store went through, for those that crash             *)
(*   G   service operator        by name, under third-party management         *)
(*   O   operation of one        by name (see Managed)                         *)
(*   X   building blocks on their own (see Components)                         *)
(* Every transition is described by an event e, a record with field e (kind)   *)
(* that also carries what was observed.  Step(W, e) is [why, W]: why is "" iff *)
(* the event is allowed in state W, and then W is the state it leads to.       *)
EXTENDS Components, Wire, Managed, FiniteSets, TLC

EmptyWorld == [D |-> EmptyFn, H |-> EmptyFn, U |-> EmptyFn, L |-> EmptyFn,
               P |-> EmptyFn, A |-> EmptyFn, X |-> EmptyFn, Z |-> EmptyFn,
               G |-> EmptyFn, O |-> EmptyFn]
Yes(W) == [why |-> "", W |-> W]
No(W, why) == [why |-> why, W |-> W]
KnownFinding(W, id) == IF PrintT("KNOWN " \o id) THEN Yes(W) ELSE Yes(W)

(***************************************************************************)
(* The log.                                                                *)
(***************************************************************************)
StepStore(W, e) ==
  Yes([W EXCEPT !.D = Put(@, e.s, NewStore(e.C)),
                !.Z = IF "keep" \in DOMAIN e THEN Put(@, e.s, <<NewStore(e.C)>>) ELSE @])
Keep(W, s, D) == IF s \in DOMAIN W.Z THEN [W.Z EXCEPT ![s] = Append(@, D)] ELSE W.Z
(* The log stopped at some point and its store is opened again: it holds what it *)
(* held after some commit between the lo-th and the hi-th.                       *)
StepCrash(W, e) ==
  LET S == { k \in e.lo..e.hi : /\ k + 1 <= Len(W.Z[e.s])
                                /\ W.Z[e.s][k + 1].head = e.th
                                /\ e.th # << >> => W.Z[e.s][k + 1].ahead = e.ath }
  IN IF S = {} THEN No(W, "crash: the store is not as of a commit")
     ELSE LET k == CHOOSE k \in S : \A j \in S : j <= k
          IN Yes([W EXCEPT !.D = Put(@, e.to, W.Z[e.s][k + 1]),
                           !.Z = Put(@, e.to, SubSeq(W.Z[e.s], 1, k + 1))])
(* A log, or a user, goes on with another configuration.                         *)
StepReconf(W, e) ==
  IF "s" \in DOMAIN e THEN Yes([W EXCEPT !.D[e.s].C = e.C]) ELSE Yes([W EXCEPT !.L[e.c].C = e.C])
StepFork(W, e) == Yes([W EXCEPT !.D = Put(@, e.to, W.D[e.s])])
(* A log that breaks the rules appends whatever it likes.                       *)
StepEvil(W, e) ==
  LET D == W.D[e.s]  n == Len(D.log)
      K0 == IF n = 0 THEN {} ELSE D.log[n].K
      K1 == { x \in K0 : x.v \notin SeqToSet(e.rem) } \cup SeqToSet(e.add)
      root == PRoot(K1)
      log1 == Append(D.log, [ts |-> e.ts, K |-> K1, root |-> root, leaf |-> LeafOf(e.ts, root)])
      th == [n |-> n + 1, sig |-> Sig(D.C.sk, TreeHeadTBS(D.C, n + 1, LogRoot(LeafSeq(log1), n + 1)))]
  IN IF e.th # <<th>> THEN No(W, "evil: tree head")
     ELSE Yes([W EXCEPT !.D[e.s].log = log1, !.D[e.s].head = <<th>>])
StepOpen(W, e) ==
  IF OpenHandle(W.D[e.s]).th # e.th THEN No(W, "open: tree head")
  ELSE Yes([W EXCEPT !.H = Put(@, e.h, [s |-> e.s, h |-> OpenHandle(W.D[e.s])])])
StepAuditorHead(W, e) ==
  LET D1 == [W.D[e.s] EXCEPT !.ahead = e.ath]
  IN Yes([W EXCEPT !.D[e.s] = D1, !.Z = Keep(W, e.s, D1)])

OpFn(ops) == TLCEval([l \in { ops[i].l : i \in 1..Len(ops) } |->
               (CHOOSE x \in SeqToSet(ops) : x.l = l).o])
StepMutate(W, e) ==
  LET H == W.H[e.h]  D == W.D[H.s]  h == H.h
      m == Mutate(D, h, e.add, e.rem, e.now, OpFn(e.op))
      opened == \A l \in { e.add[i].l : i \in 1..Len(e.add) } :
                  Len(SelectSeq(e.op, LAMBDA x : x.l = l /\ Len(x.o) = Len(AddsOf(e.add, l)))) = 1
  IN IF e.ok # MutateOK(D, h, e.add, e.rem, e.now)
     THEN No(W, IF e.ok THEN "mutate: accepted" ELSE "mutate: rejected")
     ELSE IF ~e.ok
     THEN IF e.th # h.th THEN No(W, "mutate: tree head changed by failure") ELSE Yes(W)
     ELSE IF ~opened THEN No(W, "mutate: versions stored")
     ELSE IF e.th # m.h.th THEN No(W, "mutate: tree head")
     ELSE IF D.C.mode = 3 /\ e.au # <<m.au>> THEN No(W, "mutate: auditor update")
     ELSE IF D.C.mode # 3 /\ e.au # << >> THEN No(W, "mutate: auditor update")
     ELSE Yes([W EXCEPT !.D[H.s] = m.D, !.H[e.h].h = m.h, !.Z = Keep(W, H.s, m.D)])

StepSrv(W, e) ==
  LET H == W.H[e.h]  D == W.D[H.s]
      r == CASE e.k = "search" -> SrvSearch(D, H.h, e.req, e.now)
             [] e.k = "contact" -> SrvContact(D, H.h, e.req, e.now)
             [] e.k = "oinit" -> SrvOwnerInit(D, H.h, e.req, e.now)
             [] e.k = "omon" -> SrvOwnerMonitor(D, H.h, e.req, e.now)
  IN IF r.any THEN Yes(W)
     ELSE IF e.ok # r.ok THEN No(W, "server " \o e.k \o (IF e.ok THEN ": accepted" ELSE ": rejected"))
     ELSE IF ~e.ok THEN Yes(W)
     ELSE IF e.res # r.res THEN No(W, "server " \o e.k \o ": response")
     ELSE Yes(W)

(* Update streams. *)
StepUpStart(W, e) ==
  LET H == W.H[e.h]  D == W.D[H.s]
      \* what the service operator submits comes with its signatures
      ok == e.mgr = << >> \/ SubmissionOK(D.C, e.req.label, e.mgr[1].sver, e.mgr[1].vals)
      seq == IF e.mgr # << >> THEN e.mgr[1].vals
             ELSE [i \in 1..Len(e.req.vals) |-> [v |-> e.req.vals[i], s |-> << >>]]
  IN IF e.ok # ok THEN No(W, "update: start " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN Yes(W)
     ELSE Yes([W EXCEPT !.U = Put(@, e.u, [s |-> H.s, u |-> StartUpdate(D, H.h, e.req),
                                           pos |-> << >>, failed |-> FALSE, seq |-> seq,
                                           sver |-> IF e.mgr = << >> THEN << >> ELSE <<e.mgr[1].sver>>])])
(* The log asks for the new versions to be added. *)
StepUpSeq(W, e) ==
  LET x == W.U[e.u]
  IN IF x.u.ver < Len(x.u.idx) THEN No(W, "update: existing versions not reported")
     ELSE IF x.u.nv = 0 THEN No(W, "update: nothing to add")
     ELSE IF e.label # x.u.label \/ e.start # x.sver \/ e.vals # x.seq THEN No(W, "update: asks for something else to be added")
     ELSE Yes(W)
(* The new values could not be added. *)
StepUpFail(W, e) ==
  LET x == W.U[e.u]
  IN IF x.u.ver < Len(x.u.idx) THEN No(W, "update: existing versions not reported")
     ELSE IF x.u.nv = 0 THEN No(W, "update: nothing to add")
     ELSE Yes([W EXCEPT !.U[e.u].failed = TRUE])
(* Next response: values are left out for the log entry that was just created   *)
(* on behalf of this update.                                                    *)
StepUpNext(W, e) ==
  LET x == W.U[e.u]  D == W.D[x.s]
      r == UpdateNext(D, x.u, x.pos = << >> \/ x.u.idx[x.u.ver + 1] # x.pos[1], e.now)
  IN IF x.failed
     THEN IF e.ok THEN No(W, "update: failure not reported") ELSE Yes([W EXCEPT !.U = Without(@, e.u)])
     ELSE IF x.u.ver >= Len(x.u.idx) THEN No(W, "update: response out of nowhere")
     ELSE IF r.any THEN Yes(IF e.ok THEN [W EXCEPT !.U[e.u].u = r.U] ELSE [W EXCEPT !.U = Without(@, e.u)])
     ELSE IF e.ok # r.ok THEN No(W, "update: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN Yes([W EXCEPT !.U = Without(@, e.u)])
     ELSE IF e.res # r.res THEN No(W, "update: response")
     ELSE Yes([W EXCEPT !.U[e.u].u = r.U])
StepUpReload(W, e) ==
  LET x == W.U[e.u]  D == W.D[x.s]  h == OpenHandle(D)
      idx == IndexOf(D, h, x.u.label)
      fine == Size(h) > e.pos /\ idx # << >> /\ Last(idx) >= e.pos
  IN IF x.u.ver < Len(x.u.idx) THEN No(W, "update: existing versions not reported")
     ELSE IF x.u.nv = 0 THEN No(W, "update: nothing to add")
     ELSE IF ~fine THEN Yes([W EXCEPT !.U[e.u].failed = TRUE])   \* the label was removed since
     ELSE Yes([W EXCEPT !.U[e.u].u.h = h, !.U[e.u].u.idx = idx, !.U[e.u].pos = <<e.pos>>])
StepUpEnd(W, e) ==
  LET x == W.U[e.u]
  IN IF x.failed THEN No(W, "update: failure not reported")
     ELSE IF x.u.ver < Len(x.u.idx) THEN No(W, "update: ended early")
     ELSE IF x.u.nv > 0 /\ x.pos = << >> THEN No(W, "update: values not added")
     ELSE Yes([W EXCEPT !.U = Without(@, e.u)])

(***************************************************************************)
(* Users.                                                                  *)
(***************************************************************************)
StepClient(W, e) == Yes([W EXCEPT !.L = Put(@, e.c, NewClient(e.C))])
StepCloneClient(W, e) == Yes([W EXCEPT !.L = Put(@, e.to, W.L[e.c])])

(* A user retains something else about labels.                                 *)
StepSetLab(W, e) ==
  LET CS == W.L[e.c]
      to == TLCEval([l \in { e.lab[i].l : i \in 1..Len(e.lab) } |->
              (CHOOSE x \in SeqToSet(e.lab) : x.l = l).s])
  IN IF CS.st # e.st THEN No(W, "setlab: state")
     ELSE Yes([W EXCEPT !.L[e.c].lab = to, !.L[e.c].any = TRUE])

Pending(CS, e, k, label, req) ==
  [c |-> e.c, k |-> k, st |-> CS.st, ls |-> LabelState(CS, label), req |-> req]
StepReq(W, e) ==
  LET CS == W.L[e.c]
      r == CASE e.k = "search" -> [ok |-> TRUE, kind |-> "search",
                                   req |-> SearchReq(CS, e.label, e.ver)]
             [] e.k = "oinit" -> LET x == OwnerInitReq(CS, e.label)
                                 IN IF x.ok THEN x @@ [kind |-> "oinit"] ELSE Err
             [] e.k = "update" -> LET x == UpdateReq(CS, e.label, e.vals)
                                  IN IF x.ok THEN x @@ [kind |-> "update"] ELSE Err
             [] e.k = "monitor" -> MonitorReq(CS)
  IN IF e.ok # r.ok THEN No(W, "request " \o e.k \o (IF e.ok THEN ": made" ELSE ": refused"))
     ELSE IF ~e.ok THEN Yes(W)
     ELSE IF e.kind # r.kind THEN No(W, "request " \o e.k \o ": kind")
     ELSE IF r.kind = "none" THEN Yes(W)
     ELSE IF e.req # r.req THEN No(W, "request " \o e.k \o ": contents")
     ELSE Yes([W EXCEPT !.P = Put(@, e.p, Pending(CS, e, r.kind, e.req.label, e.req))])

Verify(CS, pend, res, now) ==
  CASE pend.k = "search" -> VerifySearch(CS, pend, res, now)
    [] pend.k = "oinit" -> VerifyOwnerInit(CS, pend, res, now)
    [] pend.k = "contact" -> VerifyContact(CS, pend, res, now)
    [] pend.k = "owner" -> VerifyOwner(CS, pend, res, now)
    [] pend.k = "update" -> VerifyUpdate(CS, pend, res, now)

(* Logs that the user's tree head is a head of. *)
Explains(D, CS) ==
  /\ CS.st # << >>
  /\ D.C = CS.C
  /\ LET th == CS.st[1].th
     IN /\ th.n <= Len(D.log)
        /\ th.sig = Sig(D.C.sk, TreeHeadTBS(D.C, th.n, LogRoot(LeafSeq(D.log), th.n)))
Holds(K, C, label, ver, op, val) ==
  \E x \in K : x.v = VrfOut(C, label, ver) /\ x.c = Commitment(op, label, ver, val)
Absent(K, C, label, ver) == ~\E x \in K : x.v = VrfOut(C, label, ver)

(* What an accepted search says is true of the log whose head was accepted.    *)
(* That a version is still included where it was not looked up again follows    *)
(* only if the log does not drop it, which is for monitoring to find out.       *)
SearchTrue(D, CS, req, res) ==
  LET n == CS.st[1].th.n
      t == IF req.ver # << >> THEN req.ver[1] ELSE res.ver[1]
  IN IF req.ver = << >>
     THEN /\ \E x \in SeqToSet(Frontier(n)) : Holds(D.log[x + 1].K, D.C, req.label, t, res.op, res.val)
          /\ Absent(D.log[n].K, D.C, req.label, t + 1)
     ELSE \E x \in 1..n : Holds(D.log[x].K, D.C, req.label, t, res.op, res.val)
(* What a user retains about a label is true of that log.  The answers to an     *)
(* owner's updates need not prove anything at a distinguished log entry: what   *)
(* they said about versions then is unproven until the owner monitors again.    *)
RetainedTrue(D, CS, label) ==
  LET ls == LabelState(CS, label)
      n == CS.st[1].th.n
      unproven(v) == /\ ls.owner # << >> /\ ls.owner[1].up # << >>
                     /\ ~(v <= ls.owner[1].vas /\ v \in SeqToSet(BaseLadder(ls.owner[1].vas)))
  IN /\ \A i \in 1..Len(ls.vers) :
          /\ ls.vers[i].o = VrfOut(D.C, label, ls.vers[i].ver)
          /\ ls.vers[i].c # "" /\ ~unproven(ls.vers[i].ver) =>
               \E x \in 1..n : [v |-> ls.vers[i].o, c |-> ls.vers[i].c] \in D.log[x].K
     /\ \A i \in 1..Len(ls.contact) :
          /\ ls.contact[i].p < n
          /\ \E j \in 1..Len(ls.vers) :
               /\ ls.vers[j].ver = ls.contact[i].v
               /\ [v |-> ls.vers[j].o, c |-> ls.vers[j].c] \in D.log[ls.contact[i].p + 1].K
     /\ ls.owner # << >> =>
          LET o == ls.owner[1]
          IN /\ o.vas >= 0 => ~Absent(D.log[o.start + 1].K, D.C, label, o.vas)
             /\ Absent(D.log[o.start + 1].K, D.C, label, o.vas + 1)

(* What the accepted answer to an owner's update says: where it is proven at    *)
(* all, the new versions are there and no other, and nobody else created        *)
(* versions before.                                                             *)
UpdateTrue(D, old, n, label, pos, cnt) ==
  LET C == D.C
      T == [x \in 0..n - 1 |-> D.log[x + 1].ts]
      g == OwnerGreatest(old)
  IN /\ ~IsDLE(T, C.rmw, pos, n) =>
          /\ \A v \in g + 1..g + cnt : ~Absent(D.log[pos + 1].K, C, label, v)
          /\ Absent(D.log[pos + 1].K, C, label, g + cnt + 1)
     /\ pos - 1 > OwnerLast(old) /\ ~IsDLE(T, C.rmw, pos - 1, n) =>
          Absent(D.log[pos].K, C, label, g + 1)

(* What an owner's accepted monitoring says about the distinguished entries     *)
(* passed is true of the log.                                                   *)
OwnerTrue(D, old, new, label) ==
  LET C == D.C
      T == [x \in 0..Len(D.log) - 1 |-> D.log[x + 1].ts]
      known(x) == old.vas + Cardinality({ i \in 1..Len(old.up) : old.up[i] <= x })
  IN \A x \in (old.start + 1)..new.start :
       IsDLE(T, C.rmw, x, Len(D.log)) =>
         /\ known(x) >= 0 => ~Absent(D.log[x + 1].K, C, label, known(x))
         /\ Absent(D.log[x + 1].K, C, label, known(x) + 1)

(* Conditions under which a user must accept what the log answers.  D, h: the   *)
(* log and the instance that answered.                                          *)
MustAccept(D, h, CS, pend, res, now) ==
  LET C == D.C  n == Size(h)  label == pend.req.label
      idx == IndexOf(D, h, label)
      r == D.log[n].ts
      ath == IF res.fth.th # << >> THEN res.fth.ath ELSE << >>
      owner == pend.ls.owner
      knows(o) == /\ o.vas = GreatestAt(idx, o.start)
                  /\ o.vas + 1 + Len(o.up) <= Len(idx)
                  /\ o.up = SubSeq(idx, o.vas + 2, o.vas + 1 + Len(o.up))
  IN /\ n > 0 /\ CS.C = C
     /\ CS.st # << >> => Explains(D, CS)
     \* where an owner starts from still counts after the configuration changed
     /\ pend.k \in {"owner", "update"} =>
          IsDLE([x \in 0..n - 1 |-> D.log[x + 1].ts], C.rmw, owner[1].start, n)
     \* under its current configuration, which the users have too
     /\ h.th[1].sig = Sig(C.sk, TreeHeadTBS(C, n, LogRoot(LeafSeq(D.log), n)))
     /\ CS.st = pend.st /\ (pend.k # "search" => LabelState(CS, label) = pend.ls)
     /\ label \notin D.gone
     /\ (C.ahead = Never \/ r - now <= C.ahead) /\ (C.behind = Never \/ now - r <= C.behind)
     /\ C.mode = 3 /\ res.fth.th # << >> =>
          /\ ath # << >> /\ ath[1].n <= n
          /\ ath[1].sig = Sig(C.ak, AuditorTBS(C, ath[1].ts, ath[1].n,
                                               LogRoot(LeafSeq(D.log), ath[1].n)))
          /\ ath[1].ts = D.log[ath[1].n].ts
          /\ CS.st # << >> => CS.st[1].ath[1].n >= C.astart
          /\ C.lag = Never \/ r - ath[1].ts <= C.lag
     /\ CASE pend.k = "search" ->
               LET t == IF pend.req.ver # << >> THEN pend.req.ver[1] ELSE Len(idx) - 1
               IN /\ t >= 0 /\ t < Len(idx)
                  /\ C.mode = 2 => ValueOK(C, label, t, res.val)
          [] pend.k = "oinit" -> TRUE
          [] pend.k = "contact" -> TRUE
          [] pend.k = "owner" -> knows(owner[1]) /\ owner[1].vas + 1 + Len(owner[1].up) = Len(idx)
          [] pend.k = "update" ->
               /\ knows(owner[1])
               /\ LET k == owner[1].vas + 1 + Len(owner[1].up)
                  IN k + Len(res.info) <= Len(idx) /\ idx[k + 1] = res.pos
               /\ res.vals # << >> \/ Len(pend.req.vals) = Len(res.info)
               /\ LET k == owner[1].vas + 1 + Len(owner[1].up)
                      vals == IF res.vals = << >> THEN pend.req.vals ELSE res.vals
                  IN C.mode = 2 => \A i \in 1..Len(vals) :
                       ValueOK(C, label, k + i - 1, [v |-> vals[i], s |-> res.info[i].s])

(* The view after an accepted response continues the one before: every log that *)
(* explains it has, up to the earlier size, the contents of those that explain  *)
(* the earlier view, and time did not go back.                                  *)
Continues(W, from, to) ==
  from.st # << >> =>
    LET m == from.st[1].th.n
    IN /\ \A s \in DOMAIN W.D, t \in DOMAIN W.D :
            Explains(W.D[s], from) /\ Explains(W.D[t], to) =>
              LogRoot(LeafSeq(W.D[s].log), m) = LogRoot(LeafSeq(W.D[t].log), m)
       /\ Last(to.st[1].le).ts >= Last(from.st[1].le).ts
ViewTrue(D, CS) ==
  LET x == CS.st[1]
  IN /\ x.fs = FullSubVals(LeafSeq(D.log), x.th.n)
     /\ \A i \in 1..Len(x.le) : /\ x.le[i].ts = D.log[x.le[i].p + 1].ts
                                 /\ x.le[i].r = D.log[x.le[i].p + 1].root
     /\ \A i \in 2..Len(x.le) : x.le[i - 1].ts <= x.le[i].ts

StateEq(CS, e) ==
  /\ CS.st = e.st
  /\ DOMAIN CS.lab = { e.lab[i].l : i \in 1..Len(e.lab) }
  /\ \A i \in 1..Len(e.lab) : CS.lab[e.lab[i].l] = e.lab[i].s

(* Everything an accepted response makes the user believe is true of the logs   *)
(* that explain its view: "", or what is not.  v: the outcome.                  *)
Untrue(W, CS, pend, res, v) ==
  LET to == v.cs
      ex == { s \in DOMAIN W.D : Explains(W.D[s], to) }
      label == pend.req.label
  IN IF ~v.ok THEN ""
     ELSE IF pend.k = "search" /\ \E s \in ex : ~SearchTrue(W.D[s], to, pend.req, res)
     THEN "search: accepted what is not true"
     ELSE IF ~CS.any /\ \E s \in ex : ~RetainedTrue(W.D[s], to, label)
     THEN pend.k \o ": retained what is not true"
     ELSE IF CS.st # << >> /\ to.st[1].th.n < CS.st[1].th.n
     THEN pend.k \o ": went backwards"
     ELSE IF ~Continues(W, CS, to)
     THEN pend.k \o ": not a continuation"
     ELSE IF \E s \in ex : ~ViewTrue(W.D[s], to)
     THEN pend.k \o ": view is not true"
     ELSE IF ~CS.any /\ pend.k = "owner" /\ \E s \in ex : /\ label \notin W.D[s].gone
                  /\ ~OwnerTrue(W.D[s], pend.ls.owner[1], to.lab[label].owner[1], label)
     THEN "owner: versions overlooked"
     ELSE IF ~CS.any /\ pend.k = "update" /\ \E s \in ex :
                  ~UpdateTrue(W.D[s], pend.ls.owner[1], to.st[1].th.n, label, res.pos, Len(res.info))
     THEN "update: versions overlooked"
     ELSE ""

StepVerify(W, e) ==
  LET pend == W.P[e.p]  CS == W.L[pend.c]
      v == Verify(CS, pend, e.res, e.now)
      to == IF v.ok THEN v.cs ELSE CS
      W1 == [W EXCEPT !.L[pend.c] = to,
                      !.P = IF pend.k = "update" /\ v.ok
                            THEN Put(@, e.p, [pend EXCEPT !.st = to.st,
                                              !.ls = LabelState(to, pend.req.label)])
                            ELSE @]
  IN IF e.ok # v.ok THEN No(W, "verify " \o pend.k \o (IF e.ok THEN ": accepted" ELSE ": rejected"))
     ELSE IF ~StateEq(to, e) THEN No(W, "verify " \o pend.k \o ": state")
     ELSE IF Untrue(W, CS, pend, e.res, v) # "" THEN No(W, "verify " \o Untrue(W, CS, pend, e.res, v))
     ELSE IF ~v.ok /\ e.from # << >>
             /\ LET x == IF e.from[1] \in DOMAIN W.H THEN W.H[e.from[1]]
                         ELSE [s |-> W.U[e.from[1]].s, h |-> W.U[e.from[1]].u.h]
                IN MustAccept(W.D[x.s], x.h, CS, pend, e.res, e.now)
     THEN No(W, "verify " \o pend.k \o ": honest response refused")
     ELSE IF e.must # << >> /\ e.must[1] # v.ok
     THEN No(W, "verify " \o pend.k \o ": should have been "
                \o (IF e.must[1] THEN "accepted" ELSE "rejected"))
     ELSE Yes(W1)

(***************************************************************************)
(* Auditors.                                                               *)
(***************************************************************************)
StepAuditor(W, e) == Yes([W EXCEPT !.A = Put(@, e.a, [C |-> e.C, as |-> << >>, saved |-> << >>, u |-> << >>])])
StepAuditorReopen(W, e) == Yes([W EXCEPT !.A[e.a].as = W.A[e.a].saved])
StepAuditorProcess(W, e) ==
  LET x == W.A[e.a]  r == AuditorProcess(x.C, x.as, e.u)
  IN IF e.ok # r.ok THEN No(W, "auditor: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN Yes(W)
     ELSE Yes([W EXCEPT !.A[e.a].as = r.as, !.A[e.a].u = <<e.u>>])
AsEq(x, y) ==
  IF x = << >> \/ y = << >> THEN x = y
  ELSE /\ x[1].th = y[1].th /\ x[1].fs = y[1].fs /\ x[1].tss = y[1].tss
       /\ x[1].root = y[1].root /\ x[1].ins = SeqToSet(y[1].ins)
StepAuditorCommit(W, e) ==
  LET x == W.A[e.a]  r == AuditorCommit(x.C, x.as)
      saved == IF x.as # << >> /\ x.as[1].th.sig # "" THEN x.saved ELSE r.as
  IN IF e.ok # r.ok THEN No(W, "auditor commit: " \o IF e.ok THEN "accepted" ELSE "rejected")
     ELSE IF ~e.ok THEN Yes(W)
     ELSE IF e.ath # r.as[1].th THEN No(W, "auditor commit: tree head")
     ELSE IF ~AsEq(saved, e.saved) THEN No(W, "auditor commit: saved state")
     ELSE Yes([W EXCEPT !.A[e.a].as = r.as, !.A[e.a].saved = saved])

(* Known finding KF-1: a removal left a parent with one child, a leaf that the  *)
(* update's proof shows only the hash of.  The log replaces the parent by the   *)
(* leaf, which the auditor can not know to do.  This is the cause if revealing  *)
(* the leaves that the proof hides would make the difference go away.           *)
RECURSIVE Reveal(_, _, _)
Reveal(n, K, d) ==
  CASE n.t = "par" -> [t |-> "par", l |-> Reveal(n.l, Side(K, d, 0), d + 1),
                                    r |-> Reveal(n.r, Side(K, d, 1), d + 1)]
    [] n.t = "ext" /\ Cardinality(K) = 1 -> LET k == CHOOSE k \in K : TRUE
                                            IN [t |-> "leaf", v |-> k.v, c |-> k.c]
    [] OTHER -> n
UnseenLeaf(D, n, us) ==
  /\ us # << >> /\ us[1].rem # << >>
  /\ LET u == us[1]
         K0 == IF n = 1 THEN {} ELSE D.log[n - 1].K
         t == UpdateTree(u)
     IN /\ t.ok
        /\ TreeHash(ApplyChange(Reveal(t.n, K0, 0), SeqToSet(u.add), { x.v : x \in SeqToSet(u.rem) }))
           = D.log[n].root

(* The auditor has followed a log honestly: its prefix root is the log's.       *)
StepAuditorAgrees(W, e) ==
  LET x == W.A[e.a].as  D == W.D[e.s]
  IN IF x = << >> THEN Yes(W)
     ELSE IF x[1].root = D.log[x[1].th.n].root THEN Yes(W)
     ELSE IF UnseenLeaf(D, x[1].th.n, W.A[e.a].u) THEN KnownFinding(W, "KF-1")
     ELSE No(W, "auditor: prefix root differs from the log's")

(***************************************************************************)
(* A store or signer failed during the operation (e.fault says which): it      *)
(* reports an error and nothing has changed.                                   *)
(***************************************************************************)
StepFault(W, e) ==
  IF e.ok THEN No(W, e.e \o ": failure of a store or signer not reported")
  ELSE CASE e.e = "mutate" -> IF e.th = W.H[e.h].h.th THEN Yes(W)
                              ELSE No(W, "mutate: tree head changed by failure")
         [] e.e = "verify" -> IF StateEq(W.L[W.P[e.p].c], e) THEN Yes(W)
                              ELSE No(W, "verify: state changed by failure")
         [] e.e = "acommit" -> IF AsEq(W.A[e.a].saved, e.saved) THEN Yes(W)
                               ELSE No(W, "auditor commit: state changed by failure")
         [] e.e = "unext" -> Yes([W EXCEPT !.U = Without(@, e.u)])
         [] OTHER -> Yes(W)

Step(W, e) ==
  IF "fault" \in DOMAIN e THEN StepFault(W, e) ELSE
  CASE e.e = "store" -> StepStore(W, e)
    [] e.e = "reconf" -> StepReconf(W, e)
    [] e.e = "setlab" -> StepSetLab(W, e)
    [] e.e = "fork" -> StepFork(W, e)
    [] e.e = "evil" -> StepEvil(W, e)
    [] e.e = "never" -> No(W, e.what)
    [] e.e = "open" -> StepOpen(W, e)
    [] e.e = "athead" -> StepAuditorHead(W, e)
    [] e.e = "mutate" -> StepMutate(W, e)
    [] e.e = "srv" -> StepSrv(W, e)
    [] e.e = "ustart" -> StepUpStart(W, e)
    [] e.e = "useq" -> StepUpSeq(W, e)
    [] e.e = "unext" -> StepUpNext(W, e)
    [] e.e = "ureload" -> StepUpReload(W, e)
    [] e.e = "ufail" -> StepUpFail(W, e)
    [] e.e = "uend" -> StepUpEnd(W, e)
    [] e.e = "client" -> StepClient(W, e)
    [] e.e = "clone" -> StepCloneClient(W, e)
    [] e.e = "req" -> StepReq(W, e)
    [] e.e = "verify" -> StepVerify(W, e)
    [] e.e = "auditor" -> StepAuditor(W, e)
    [] e.e = "areopen" -> StepAuditorReopen(W, e)
    [] e.e = "aprocess" -> StepAuditorProcess(W, e)
    [] e.e = "acommit" -> StepAuditorCommit(W, e)
    [] e.e = "aagrees" -> StepAuditorAgrees(W, e)
    [] e.e = "crash" -> StepCrash(W, e)
    [] e.e = "conf" -> IF GoodConfig(e.C, SeqToSet(e.in)) THEN Yes(W) ELSE No(W, "keys or vrf of the configuration")
    [] IsManaged(e) -> LET r == ManagedStep(W.G, W.O, e)
                       IN IF r.why # "" THEN No(W, r.why) ELSE Yes([W EXCEPT !.G = r.M, !.O = r.O])
    [] SDbs(e) -> StoreStep(W, e)
    [] IsWire(e) -> LET why == WireAllows(e) IN IF why = "" THEN Yes(W) ELSE No(W, why)
    [] IsSuiteEvent(e) -> LET why == SuiteAllows(e) IN IF why = "" THEN Yes(W) ELSE No(W, why)
    [] IsComp(e) -> CompStep(W, e)
=============================================================================
