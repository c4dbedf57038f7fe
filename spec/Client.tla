------------------------------- MODULE Client -------------------------------
(* The user's side: requests, and verification of responses.                   *)
(*                                                                             *)
(* A user's store CS: [C, st, lab, any]                                        *)
(*   st   << >> or <<[th, ath, fs, le]>>: tree head, auditor tree head,        *)
(*        full subtrees, and log entries [p, ts, r] on the frontier            *)
(*   lab  label -> [contact, owner, vers, term]                                *)
(*          contact  sequence of [p, v] by position                            *)
(*          owner    << >> or <<[start, vas, up]>>                             *)
(*          vers     sequence of [ver, o, c] by version (c = "": unknown)      *)
(*          term     sort key for monitoring                                   *)
(* A pending request remembers the state it was based on: [st, ls, req].       *)
EXTENDS Server

(* any: its label states were made up, and say nothing about the log.           *)
NewClient(C) == [C |-> C, st |-> << >>, lab |-> EmptyFn, any |-> FALSE]
NoLabel == [contact |-> << >>, owner |-> << >>, vers |-> << >>]
LabelState(CS, l) ==
  IF l \notin DOMAIN CS.lab THEN NoLabel
  ELSE [contact |-> CS.lab[l].contact, owner |-> CS.lab[l].owner, vers |-> CS.lab[l].vers]
LastO(st) == IF st = << >> THEN << >> ELSE <<st[1].th.n>>

TsOf(st) == LET le == st[1].le
            IN TLCEval([x \in { le[i].p : i \in 1..Len(le) } |->
                 (CHOOSE e \in SeqToSet(le) : e.p = x).ts])
KnownDist(C, st) ==   \* << >> or rightmost distinguished entry
  IF st = << >> THEN << >> ELSE RightmostDist([ts |-> TsOf(st)], C, st[1].th.n)

(***************************************************************************)
(* Pieces of verification.                                                 *)
(***************************************************************************)
(* V: [ok, v] with v: version -> [v, c]. *)
AddVer(V, ver, o, c) ==
  IF ~V.ok THEN V
  ELSE IF BLen(o) # 32 \/ BLen(c) \notin {0, 32} THEN [V EXCEPT !.ok = FALSE]
  ELSE IF ver \notin DOMAIN V.v THEN [V EXCEPT !.v = Put(@, ver, [v |-> o, c |-> c])]
  ELSE LET x == V.v[ver]
       IN IF x.v # o \/ (c # "" /\ x.c # "" /\ c # x.c) THEN [V EXCEPT !.ok = FALSE]
          ELSE IF c # "" /\ x.c = "" THEN [V EXCEPT !.v[ver].c = c] ELSE V
RECURSIVE AddRetained(_, _)
AddRetained(V, vs) ==
  IF vs = << >> THEN V
  ELSE AddRetained(AddVer(V, Head(vs).ver, Head(vs).o, Head(vs).c), Tail(vs))
(* manual: function from versions to commitments computed by the user. *)
RECURSIVE AddLadder(_, _, _, _, _, _)
AddLadder(V, C, label, steps, vers, manual) ==
  IF ~V.ok \/ vers = << >> THEN V
  ELSE LET ver == Head(vers)  s == Head(steps)
       IN IF s.p # VrfProof(C, label, ver) \/ (ver \in DOMAIN manual /\ s.c # "")
          THEN [V EXCEPT !.ok = FALSE]
          ELSE AddLadder(AddVer(V, ver, VrfOut(C, label, ver),
                                IF ver \in DOMAIN manual THEN manual[ver] ELSE s.c),
                         C, label, Tail(steps), Tail(vers), manual)
NoVers == [ok |-> TRUE, v |-> EmptyFn]

ValueOK(C, label, ver, val) ==
  IF C.mode # 2 THEN val.s = << >>
  ELSE val.s # << >> /\ val.s[1] = Sig(C.lk, UpdateTBS(C, label, ver, val.v))

(* Start of verification: tree sizes. *)
Sizes(C, st, fth) ==   \* [ok, n, nPO, mO]
  LET aud == C.mode = 3 /\ fth.th # << >>
  IN IF aud # (fth.ath # << >>) THEN Err
     ELSE IF fth.th = << >> /\ st = << >> THEN Err
     ELSE [ok |-> TRUE, n |-> IF fth.th # << >> THEN fth.th[1].n ELSE st[1].th.n,
           nPO |-> IF fth.ath = << >> THEN << >> ELSE <<fth.ath[1].n>>, mO |-> LastO(st)]

StartConsume(C, st, z, V, pr, now) ==
  LET P == NewConsume(V, pr)
  IN UpdateView(IF st = << >> THEN P ELSE RetainAll(P, st[1].le), C, z.n, z.mO, now)

(* End of verification: heads are valid; the user's new state. *)
FinishClient(C, st, fth, z, P) ==    \* [ok, st]
  LET f == Finish(P, z.n, z.nPO, z.mO, IF st = << >> THEN << >> ELSE st[1].fs)
      root == RootOf(f.fs, 0, z.n)
      rootP == RootOf(f.add, 0, z.nPO[1])
      a == fth.ath[1]
      r == P.ts[z.n - 1]
      headOK == /\ st # << >> => z.n > st[1].th.n
                /\ fth.th[1].sig = Sig(C.sk, TreeHeadTBS(C, z.n, root))
      audOK == /\ st # << >> => st[1].ath # << >> /\ st[1].ath[1].n >= C.astart
               /\ a.ts <= r /\ (C.lag = Never \/ r - a.ts <= C.lag)
               /\ a.n <= z.n
               /\ a.sig = Sig(C.ak, AuditorTBS(C, a.ts, a.n, rootP))
  IN IF ~f.ok THEN Err
     ELSE IF fth.th = << >>
     THEN [ok |-> TRUE, st |-> <<[st[1] EXCEPT !.fs = f.fs, !.le = f.le]>>]
     ELSE IF ~headOK \/ (fth.ath # << >> /\ ~audOK) THEN Err
     ELSE [ok |-> TRUE, st |-> <<[th |-> fth.th[1], ath |-> fth.ath, fs |-> f.fs, le |-> f.le]>>]

StateCurrent(CS, st) == LastO(CS.st) = LastO(st)
LabelCurrent(CS, st, label, ls) == StateCurrent(CS, st) /\ LabelState(CS, label) = ls

(* Versions that need to be retained, and the new retained versions. *)
Required(contact, owner) ==
  UNION { SeqToSet(MonitorLadder(e.v)) : e \in SeqToSet(contact) }
  \cup (IF owner = << >> THEN {}
        ELSE LET o == owner[1]
             IN AllLadderVersions({ v \in o.vas..(o.vas + Len(o.up)) : v >= 0 }))
PutLabel(CS, st, label, contact, owner, V, term) ==   \* [ok, cs]
  LET req == SortInts(Required(contact, owner))
      ls == [contact |-> contact, owner |-> owner, term |-> term,
             vers |-> TLCEval([i \in 1..Len(req) |-> [ver |-> req[i], o |-> V[req[i]].v, c |-> V[req[i]].c]])]
  IN IF \E i \in 1..Len(req) : req[i] \notin DOMAIN V THEN Err
     ELSE [ok |-> TRUE,
           cs |-> [CS EXCEPT !.st = st,
                             !.lab = IF contact = << >> /\ owner = << >> THEN Without(@, label)
                                     ELSE Put(@, label, ls)]]

(***************************************************************************)
(* Searching.                                                              *)
(***************************************************************************)
(* After a search with terminal entry x: monitor every entry to the right on   *)
(* its path up to the first one monitored for a greater version, and drop what *)
(* is redundant.                                                               *)
RECURSIVE UpToGreater(_, _, _)
UpToGreater(s, old, ver) ==
  IF s = << >> THEN << >>
  ELSE IF Head(s) \in DOMAIN old /\ old[Head(s)] > ver THEN << >>
  ELSE <<Head(s)>> \o UpToGreater(Tail(s), old, ver)
ContactAfterSearch(contact, x, n, ver) ==    \* [contact, term]
  LET old == TLCEval([p \in { contact[i].p : i \in 1..Len(contact) } |->
               (CHOOSE e \in SeqToSet(contact) : e.p = p).v])
      path == UpToGreater(<<x>> \o RightPath(x, n), old, ver)
      m == TLCEval([p \in DOMAIN old \cup SeqToSet(path) |->
              IF p \in SeqToSet(path) THEN ver ELSE old[p]])
      d1 == { p \in DOMAIN m : LET rp == RightPath(p, n)
                               IN rp # << >> /\ rp[1] \in DOMAIN m /\ m[rp[1]] >= m[p] }
      s1 == DOMAIN m \ d1
      d2 == { q \in s1 : \E p \in s1 : q \in SeqToSet(RightPath(p, n)) /\ m[q] <= m[p] }
      keep == SortInts(s1 \ d2)
  IN [contact |-> TLCEval([i \in 1..Len(keep) |-> [p |-> keep[i], v |-> m[keep[i]]]]),
      term |-> IF path = << >> THEN x ELSE Last(path)]

SearchReq(CS, label, verO) == [last |-> LastO(CS.st), label |-> label, ver |-> verO]

VerifySearch(CS, pend, res, now) ==
  LET C == CS.C  req == pend.req  label == req.label
      z == Sizes(C, pend.st, res.fth)
      target == IF req.ver # << >> THEN req.ver[1] ELSE res.ver[1]
      lad == BaseLadder(target)
      V == AddLadder(NoVers, C, label, res.lad, lad,
                     (target :> Commitment(res.op, label, target, res.val)))
      P0 == StartConsume(C, pend.st, z, V.v, res.pr, now)
      s == IF req.ver = << >> THEN GreatestVersionSearch(P0, C, target, z.n)
           ELSE FixedVersionSearch(P0, C, target, z.n)
      f == FinishClient(C, pend.st, res.fth, z, s.p)
      d == RightmostDist(s.p, C, z.n)
      ls == LabelState(CS, label)
      VV == AddRetained(V, ls.vers)
      u == ContactAfterSearch(ls.contact, s.term, z.n, target)
  IN IF ~LabelOK(label) \/ ~z.ok \/ (req.ver = << >> /\ res.ver = << >>) THEN Err
     ELSE IF ~ValueOK(C, label, target, res.val) \/ Len(res.lad) # Len(lad) THEN Err
     ELSE IF ~V.ok \/ ~P0.ok THEN Err
     ELSE IF ~s.p.ok THEN Err
     ELSE IF ~f.ok THEN Err
     ELSE IF \E i \in 1..Len(lad) : res.lad[i].c # "" /\ lad[i] \notin s.p.exist THEN Err
     ELSE IF ~StateCurrent(CS, pend.st) THEN Err
     ELSE IF C.mode # 1 \/ (d # << >> /\ s.term <= d[1])
     THEN [ok |-> TRUE, cs |-> [CS EXCEPT !.st = f.st]]
     ELSE IF ~VV.ok THEN Err
     ELSE PutLabel(CS, f.st, label, u.contact, ls.owner, VV.v, u.term)

(***************************************************************************)
(* Owner initialization.                                                   *)
(***************************************************************************)
OwnerInitReq(CS, label) ==   \* [ok, req]
  LET d == KnownDist(CS.C, CS.st)
  IN IF LabelState(CS, label).owner # << >> \/ d = << >> THEN Err
     ELSE [ok |-> TRUE, req |-> [last |-> LastO(CS.st), label |-> label, start |-> d[1]]]

VerifyOwnerInit(CS, pend, res, now) ==
  LET C == CS.C  req == pend.req  label == req.label
      z == Sizes(C, pend.st, res.fth)
      lad == SortInts(AllLadderVersions(SeqToSet(res.gv)))
      V == AddLadder(NoVers, C, label, res.lad, lad, EmptyFn)
      P0 == StartConsume(C, pend.st, z, V.v, res.pr, now)
      m == OwnerInit(P0, C, z.n, req.start, res.gv)
      f == FinishClient(C, pend.st, res.fth, z, m.p)
      VV == AddRetained(V, pend.ls.vers)
  IN IF ~LabelOK(label) \/ ~z.ok THEN Err
     ELSE IF Len(res.lad) # Len(lad) THEN Err
     ELSE IF ~V.ok THEN Err
     ELSE IF \E i \in 1..Len(lad) : lad[i] \in SeqToSet(res.gv) /\ res.lad[i].c = "" THEN Err
     ELSE IF \E i \in 1..Len(lad) : res.lad[i].c # "" /\ (res.gv = << >> \/ lad[i] > res.gv[1]) THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF ~m.p.ok THEN Err
     ELSE IF ~f.ok THEN Err
     ELSE IF ~LabelCurrent(CS, pend.st, label, pend.ls) \/ ~VV.ok THEN Err
     ELSE PutLabel(CS, f.st, label, pend.ls.contact, m.owner, VV.v, req.start)

(***************************************************************************)
(* Monitoring.                                                             *)
(***************************************************************************)
(* Deterministic choice of the label to monitor, by the harness's store. *)
StaleLabel(CS, cutoff) ==
  LET S == { l \in DOMAIN CS.lab : CS.lab[l].term <= cutoff }
  IN IF S = {} THEN << >>
     ELSE << CHOOSE l \in S : \A k \in S :
               l = k \/ CS.lab[l].term < CS.lab[k].term
               \/ (CS.lab[l].term = CS.lab[k].term /\ HexLess(l, k)) >>

OwnerGvO(o) == LET g == OwnerGreatest(o) IN IF g >= 0 THEN <<g>> ELSE << >>

MonitorReq(CS) ==    \* [ok, none | kind, req]
  LET d == KnownDist(CS.C, CS.st)
      s == StaleLabel(CS, d[1])
      ls == LabelState(CS, s[1])
  IN IF d = << >> THEN Err
     ELSE IF s = << >> THEN [ok |-> TRUE, kind |-> "none"]
     ELSE IF ls.owner = << >>
     THEN [ok |-> TRUE, kind |-> "contact",
           req |-> [last |-> LastO(CS.st), label |-> s[1], ent |-> ls.contact]]
     ELSE [ok |-> TRUE, kind |-> "owner",
           req |-> [last |-> LastO(CS.st), label |-> s[1], ent |-> ls.contact,
                    start |-> ls.owner[1].start, gv |-> OwnerGvO(ls.owner[1])]]

VerifyContact(CS, pend, res, now) ==
  LET C == CS.C  req == pend.req  ls == pend.ls
      z == Sizes(C, pend.st, res.fth)
      V == AddRetained(NoVers, ls.vers)
      P0 == StartConsume(C, pend.st, z, V.v, res.pr, now)
      m == ContactMonitor(P0, C, z.n, << >>, SeqToSet(ls.contact))
      f == FinishClient(C, pend.st, res.fth, z, m.p)
      d == RightmostDist(m.p, C, z.n)
  IN IF ~z.ok \/ ~V.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF ~m.p.ok THEN Err
     ELSE IF ~f.ok THEN Err
     ELSE IF ~LabelCurrent(CS, pend.st, req.label, ls) \/ d = << >> THEN Err
     ELSE PutLabel(CS, f.st, req.label, SortByPos(m.contact), << >>, V.v, d[1])

VerifyOwner(CS, pend, res, now) ==
  LET C == CS.C  req == pend.req  ls == pend.ls
      z == Sizes(C, pend.st, res.fth)
      V == AddRetained(NoVers, ls.vers)
      P0 == StartConsume(C, pend.st, z, V.v, res.pr, now)
      c == ContactMonitor(P0, C, z.n, ls.owner, SeqToSet(ls.contact))
      m == OwnerMonitor(c.p, C, z.n, ls.owner[1])
      f == FinishClient(C, pend.st, res.fth, z, m.p)
  IN IF ~z.ok \/ ~V.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF ~c.p.ok THEN Err
     ELSE IF ~m.p.ok THEN Err
     ELSE IF ~f.ok THEN Err
     ELSE IF ~LabelCurrent(CS, pend.st, req.label, ls) THEN Err
     ELSE PutLabel(CS, f.st, req.label, SortByPos(c.contact), <<m.o>>, V.v, m.o.start)

(***************************************************************************)
(* Updating.  The pending request's state advances with every response.    *)
(***************************************************************************)
UpdateReq(CS, label, vals) ==
  LET ls == LabelState(CS, label)
  IN IF ls.owner = << >> THEN Err
     ELSE [ok |-> TRUE, req |-> [last |-> LastO(CS.st), label |-> label,
                                 gv |-> OwnerGvO(ls.owner[1]), vals |-> vals]]

RECURSIVE AddMissing(_, _, _)
AddMissing(V, S, man) ==   \* commitments of versions whose VRF output was retained
  IF ~V.ok \/ S = {} THEN V
  ELSE LET v == CHOOSE v \in S : TRUE
       IN IF v \notin DOMAIN V.v THEN [V EXCEPT !.ok = FALSE]
          ELSE AddMissing(AddVer(V, v, V.v[v].v, man[v]), S \ {v}, man)
VerifyUpdate(CS, pend, res, now) ==    \* [ok, cs]; pend' follows from cs
  LET C == CS.C  req == pend.req  ls == pend.ls  label == req.label
      o == ls.owner[1]
      vals == IF res.vals = << >> THEN req.vals ELSE res.vals
      start == OwnerGreatest(o) + 1
      end == start + Len(res.info) - 1
      val(i) == [v |-> vals[i], s |-> res.info[i].s]
      man == TLCEval([v \in start..end |->
                Commitment(res.info[v - start + 1].op, label, v, val(v - start + 1))])
      lad == SortInts(UpdateLadder(start, end))
      z == Sizes(C, pend.st, res.fth)
      V1 == AddLadder(AddRetained(NoVers, ls.vers), C, label, res.lad, lad, man)
      V == AddMissing(V1, { v \in start..end : v \notin SeqToSet(lad) }, man)
      P0 == StartConsume(C, pend.st, z, V.v, res.pr, now)
      m == UpdateMonitor(P0, C, z.n, o, SeqToSet(ls.contact), res.pos, Len(res.info))
      f == FinishClient(C, pend.st, res.fth, z, m.p)
  IN IF ~LabelOK(label) \/ res.info = << >> \/ Len(res.info) # Len(vals) THEN Err
     ELSE IF \E i \in 1..Len(vals) : ~ValueOK(C, label, start + i - 1, val(i)) THEN Err
     ELSE IF Len(res.lad) # Len(lad) THEN Err
     ELSE IF \E i \in 1..Len(lad) : lad[i] >= start /\ res.lad[i].c # "" THEN Err
     ELSE IF ~z.ok \/ ~V.ok THEN Err
     ELSE IF ~P0.ok THEN Err
     ELSE IF ~m.p.ok THEN Err
     ELSE IF ~f.ok THEN Err
     ELSE IF ~LabelCurrent(CS, pend.st, label, ls) THEN Err
     ELSE PutLabel(CS, f.st, label, SortByPos(m.contact), <<m.o>>, V.v, m.o.start)
=============================================================================
