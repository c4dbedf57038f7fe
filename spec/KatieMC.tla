------------------------------- MODULE KatieMC -------------------------------
(* Everything that an honest log, its instances and its users do within bounds:  *)
(* what the log answers is accepted (Complete), what is accepted is true         *)
(* (Believed), a search finds what is there (Found), an owner who keeps up knows *)
(* all versions (Owned), and nothing stays to be monitored once a distinguished  *)
(* log entry has been reached (Settled).                                        *)
(* sch is what was done, with its outcomes.  With Emit, one for each transition  *)
(* is printed, to be carried out by the implementation (harness/kt/scen_plan.go). *)
EXTENDS Katie, Json, IOUtils
CONSTANTS Steps, Free, Thin, MaxLog, MaxVer, Counts, Deltas, Rmw, Mode, Users, Stale, Emit
VARIABLES D, now, H, L, sch, bad
vars == <<D, now, H, L, sch, bad>>
View == <<D, now, H, L, bad>>

A == "61"
B == "62"
Conf1 == [mode |-> Mode, sk |-> "log", vk |-> "vrf", vb |-> 0, vg |-> 0, suite |-> "ideal",
          lk |-> IF Mode = 2 THEN "leaf" ELSE "", ak |-> "", lag |-> Never, astart |-> 0,
          ahead |-> Never, behind |-> Never, rmw |-> Rmw, life |-> 0]
World == [EmptyWorld EXCEPT !.D = ("s" :> D), !.L = L]
Op0 == "00000000000000000000000000000000"
ValueOf(ver) == U16(ver + 16)
Signature(l, ver, v) == IF Mode = 2 THEN <<Sig("leaf", UpdateTBS(Conf1, l, ver, v))>> ELSE << >>
Versions(l) == IF l \in DOMAIN D.lab THEN Len(D.lab[l].idx) ELSE 0

Init == /\ D = NewStore(Conf1) /\ now = 0
        /\ H = [i \in {"x", "y"} |-> OpenHandle(NewStore(Conf1))]
        /\ L = [u \in Users |-> NewClient(Conf1)]
        /\ sch = << >> /\ bad = ""
Done(step) ==
  /\ sch' = Append(sch, step)
  /\ ~Emit \/ PrintT("S " \o ToJson(<<[a |-> "conf", mode |-> Mode, rmw |-> Rmw]>> \o sch'))
(* With Thin, only a part of the states after more than Free steps is followed    *)
(* up: one in two to the power of Thin, which ones depends on the environment.    *)
Kept == Len(sch) <= Free \/ LET h == Sha(Ascii(IOEnv.KT_SEED \o ToString(sch)))
                           IN \A b \in 0..Thin - 1 : BitOf(h, b) = 0

Adding(l, k) == [i \in 1..k |-> LET v == ValueOf(Versions(l) + i - 1)
                               IN [l |-> l, v |-> v, s |-> Signature(l, Versions(l) + i - 1, v)]]
Grow(l, k, dt) ==
  LET add == Adding(l, k)
      m == Mutate(D, H["x"], add, << >>, now + dt, (l :> [i \in 1..k |-> Op0]))
  IN /\ D' = m.D /\ H' = [H EXCEPT !["x"] = m.h] /\ now' = now + dt
Mut ==
  /\ Len(D.log) < MaxLog
  /\ \E k \in Counts, dt \in Deltas :
       /\ Versions(A) + k <= MaxVer + 1
       /\ Grow(IF k = 0 THEN B ELSE A, IF k = 0 THEN 1 ELSE k, dt)
       /\ Done([a |-> "mut", k |-> k, dt |-> dt])
  /\ UNCHANGED <<L, bad>>
(* The other instance is restarted. *)
Open == /\ Stale /\ H["y"] # OpenHandle(D)
        /\ H' = [H EXCEPT !["y"] = OpenHandle(D)]
        /\ Done([a |-> "open"]) /\ UNCHANGED <<D, now, L, bad>>

(* u's request is answered by an instance. *)
Answer(i, k, req) ==
  CASE k = "search" -> SrvSearch(D, H[i], req, now)
    [] k = "oinit" -> SrvOwnerInit(D, H[i], req, now)
    [] k = "contact" -> SrvContact(D, H[i], req, now)
    [] k = "owner" -> SrvOwnerMonitor(D, H[i], req, now)
Judge(i, u, pend, res, v) ==
  IF ~v.ok THEN IF MustAccept(D, H[i], L[u], pend, res, now) THEN "refused: " \o pend.k ELSE ""
  ELSE Untrue(World, L[u], pend, res, v)
Instances == IF Stale THEN {"x", "y"} ELSE {"x"}
(* r: the request that u makes. *)
Ask(u, r, k, step) ==
  IF ~r.ok \/ k = "none" THEN Done(step @@ [i |-> "x", u |-> u, ok |-> << >>]) /\ UNCHANGED <<D, now, H, L, bad>>
  ELSE \E i \in Instances :
         LET pend == Pending(L[u], [c |-> u], k, r.req.label, r.req)
             x == Answer(i, k, r.req)
             v == Verify(L[u], pend, x.res, now)
         IN IF ~x.ok
            THEN /\ Done(step @@ [i |-> i, u |-> u, ok |-> <<FALSE>>])
                 /\ UNCHANGED <<D, now, H, L, bad>>
            ELSE /\ Done(step @@ [i |-> i, u |-> u, ok |-> <<TRUE, v.ok>>])
                 /\ bad' = Judge(i, u, pend, x.res, v)
                 /\ L' = IF v.ok THEN [L EXCEPT ![u] = v.cs] ELSE L
                 /\ UNCHANGED <<D, now, H>>
Search == \E u \in Users, ver \in { << >> } \cup { <<v>> : v \in 0..MaxVer } :
            Ask(u, [ok |-> TRUE, req |-> SearchReq(L[u], A, ver)], "search", [a |-> "search", ver |-> ver])
OInit == \E u \in Users : LabelState(L[u], A).owner = << >> /\ L[u].st # << >>
           /\ Ask(u, OwnerInitReq(L[u], A), "oinit", [a |-> "oinit"])
Monitor == \E u \in Users : L[u].st # << >> /\ A \in DOMAIN L[u].lab
             /\ LET r == MonitorReq(L[u]) IN Ask(u, r, IF r.ok THEN r.kind ELSE "none", [a |-> "monitor"])

(* An update, answered by the instance that changes the log, until its end.      *)
RECURSIVE Stream(_, _, _, _, _, _, _)
Stream(D1, cs, pend, U, vals, n, t) ==   \* [cs, why, U, n]
  IF U.ver >= Len(U.idx) THEN [cs |-> cs, why |-> "", U |-> U, n |-> n, pend |-> pend]
  ELSE LET x == UpdateNext(D1, U, vals \/ U.idx[U.ver + 1] # Len(D1.log) - 1, t)
           v == Verify(cs, pend, x.res, t)
           must == MustAccept(D1, U.h, cs, pend, x.res, t)
       IN IF ~x.ok THEN [cs |-> cs, why |-> "", U |-> U, n |-> << >>, pend |-> pend]
          ELSE IF ~v.ok THEN [cs |-> cs, why |-> IF must THEN "refused: update" ELSE "", U |-> U, n |-> << >>, pend |-> pend]
          ELSE Stream(D1, v.cs, [pend EXCEPT !.st = v.cs.st, !.ls = LabelState(v.cs, A)], x.U, vals, Append(n, x.U.ver), t)
Update ==
  /\ Len(D.log) > 0 /\ Mode # 2
  /\ \E u \in Users, k \in Counts, dt \in Deltas :
       /\ k = 0 => dt = 0
       /\ Versions(A) + k <= MaxVer + 1 /\ (k > 0 => Len(D.log) < MaxLog)
       /\ LabelState(L[u], A).owner # << >>
       /\ LET vals == [i \in 1..k |-> ValueOf(Versions(A) + i - 1)]
              r == UpdateReq(L[u], A, vals)
              pend == Pending(L[u], [c |-> u], "update", A, r.req)
              s1 == Stream(D, L[u], pend, StartUpdate(D, H["x"], r.req), TRUE, << >>, now)
              m == Mutate(D, H["x"], Adding(A, k), << >>, now + dt, (A :> [i \in 1..k |-> Op0]))
              U2 == [s1.U EXCEPT !.h = OpenHandle(m.D), !.idx = IndexOf(m.D, m.h, A)]
              s2 == Stream(m.D, s1.cs, s1.pend, U2, FALSE, s1.n, now + dt)
              st == [a |-> "update", u |-> u, k |-> k, dt |-> dt]
          IN IF s1.n = << >> /\ s1.U.ver < Len(s1.U.idx)
             THEN /\ Done(st @@ [ok |-> <<FALSE>>]) /\ bad' = s1.why
                  /\ L' = [L EXCEPT ![u] = s1.cs] /\ UNCHANGED <<D, now, H>>
             ELSE IF k = 0
             THEN /\ Done(st @@ [ok |-> <<TRUE>>]) /\ bad' = s1.why
                  /\ L' = [L EXCEPT ![u] = s1.cs] /\ UNCHANGED <<D, now, H>>
             ELSE /\ Done(st @@ [ok |-> <<s2.why = "" /\ s2.U.ver = Len(s2.U.idx)>>]) /\ bad' = s2.why
                  /\ L' = [L EXCEPT ![u] = s2.cs]
                  /\ D' = m.D /\ H' = [H EXCEPT !["x"] = m.h] /\ now' = now + dt

Next == /\ bad = "" /\ Len(sch) < Steps
        /\ Mut \/ Open \/ Search \/ OInit \/ Monitor \/ Update

CompleteAndBelieved == bad = ""
(* Where an owner starts from is what the log held there. *)
Owned == \A u \in Users :
  LET o == LabelState(L[u], A).owner
  IN o # << >> => /\ o[1].vas = GreatestAt(IndexOf(D, OpenHandle(D), A), o[1].start)
                  /\ OwnerGreatest(o[1]) < Versions(A)
                  /\ \A i \in 1..Len(o[1].up) : D.lab[A].idx[o[1].vas + 1 + i] = o[1].up[i]
(* What is monitored is what there was, at log entries that are not yet final.   *)
Contacts == \A u \in Users :
  LET s == LabelState(L[u], A)
  IN \A i \in 1..Len(s.contact) :
       /\ s.contact[i].v <= GreatestAt(IndexOf(D, OpenHandle(D), A), s.contact[i].p)
       /\ \A j \in 1..i - 1 : s.contact[j].p < s.contact[i].p /\ s.contact[j].v < s.contact[i].v
=============================================================================
