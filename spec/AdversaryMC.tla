----------------------------- MODULE AdversaryMC -----------------------------
(* Everything that a log which breaks the rules can do, within bounds, to a      *)
(* contact and to the owner of a label: what they accept is true (Believed), and *)
(* a version that the owner does not know of, once the contact has monitored it  *)
(* and the owner has monitored past the same log entry, does not exist (Caught). *)
EXTENDS Adversary
CONSTANTS MaxLog, MaxVer, Variants, Steps, First, Deltas, Rmw, Ops
VARIABLES D, L, own0, seen, bad
vars == <<D, L, own0, seen, bad>>

Label == "61"
Other == "62"                   \* there from the beginning
AnyVariant == CHOOSE x \in Variants : TRUE
Conf1 == [mode |-> 1, sk |-> "log", vk |-> "vrf", vb |-> 0, vg |-> 0, suite |-> "ideal",
          lk |-> "", ak |-> "", lag |-> Never, astart |-> 0,
          ahead |-> Never, behind |-> Never, rmw |-> Rmw, life |-> 0]
MaxProbe == 2 * MaxVer + 1      \* versions that may be looked up
EntryContents == UNION { [S -> Variants] : S \in SUBSET (0..MaxVer) }
World == [EmptyWorld EXCEPT !.D = ("s" :> D), !.L = L]

Init ==
  /\ D = NewStore(Conf1)
  /\ L = ("alice" :> NewClient(Conf1)) @@ ("bob" :> NewClient(Conf1))
  /\ own0 = -1 /\ seen = {} /\ bad = ""

Grow ==
  /\ Len(D.log) < MaxLog
  /\ \E ct \in EntryContents, dt \in IF D.log = << >> THEN First ELSE Deltas :
       D' = AppendEntry(D, (IF D.log = << >> THEN 0 ELSE D.log[Len(D.log)].ts) + dt, EntryOf(Conf1, Label, ct) \cup EntryOf(Conf1, Other, (0 :> AnyVariant)))
  /\ UNCHANGED <<L, own0, seen, bad>>

(* The user u sends a request and is given an answer. *)
Deliver(u, k, req, ans, to(_)) ==
  LET CS == L[u]
      pend == [c |-> u, k |-> k, st |-> CS.st, ls |-> LabelState(CS, req.label), req |-> req]
      v == Verify(CS, pend, ans.res, 0)
  IN /\ ans.ok
     /\ bad' = IF v.ok THEN Untrue(World, CS, pend, ans.res, v) ELSE ""
     /\ L' = IF v.ok THEN [L EXCEPT ![u] = v.cs] ELSE L
     /\ IF v.ok THEN to(v.cs) ELSE UNCHANGED <<own0, seen>>
     /\ UNCHANGED D

Picks == [0..MaxProbe -> Variants]
Settle(cs, S) ==    \* once nothing is left to be monitored
  LET n == cs.st[1].th.n
      d == RightmostDist([ts |-> TsOf(cs.st)], Conf1, n)
  IN IF Label \notin DOMAIN cs.lab /\ d # << >>
     THEN { [x EXCEPT !.d = IF x.d = -1 THEN d[1] ELSE x.d] : x \in S } ELSE S
Search ==
  /\ "search" \in Ops
  /\ \E ver \in { << >> } \cup { <<v>> : v \in 0..MaxVer }, t \in 0..MaxVer, pick \in Picks :
       LET req == SearchReq(L["alice"], Label, ver)
       IN /\ ver # << >> => ver[1] = t
          /\ \A v \in 0..MaxProbe : v > MaxVer => pick[v] = AnyVariant
          /\ Deliver("alice", "search", req, LieSearch(D, req, t, pick, MaxProbe),
                     LAMBDA cs : /\ seen' = Settle(cs, IF ver = << >> THEN seen \cup {[v |-> t, n |-> cs.st[1].th.n, d |-> -1]} ELSE seen)
                                 /\ UNCHANGED own0)
Contact ==
  /\ "search" \in Ops
  /\ Label \in DOMAIN L["alice"].lab /\ KnownDist(Conf1, L["alice"].st) # << >>
  /\ LET r == MonitorReq(L["alice"])
     IN /\ r.ok /\ r.kind = "contact"
        /\ Deliver("alice", "contact", r.req, LieContact(D, r.req, MaxProbe),
                   LAMBDA cs : seen' = Settle(cs, seen) /\ UNCHANGED own0)
GvSeqs == { s \in UNION { [1..k -> 0..MaxVer] : k \in 0..2 } : \A i \in 2..Len(s) : s[i] <= s[i - 1] }
(* Users learn of newer tree heads by searching for something else, which they  *)
(* do not go on to monitor here.                                               *)
Looks(u) ==
  /\ IF u = "bob" THEN "owner" \in Ops ELSE "search" \in Ops
  /\ IF L[u].st = << >> THEN TRUE ELSE u = "alice" /\ L[u].st[1].th.n < Len(D.log)
  /\ LET req == SearchReq(L[u], Other, << >>)
         ans == LieSearch(D, req, 0, [v \in 0..1 |-> AnyVariant], 1)
         v == Verify(L[u], [c |-> u, k |-> "search", st |-> L[u].st, ls |-> NoLabel, req |-> req], ans.res, 0)
     IN /\ ans.ok /\ v.ok
        /\ L' = [L EXCEPT ![u] = [v.cs EXCEPT !.lab = L[u].lab]]
        /\ UNCHANGED <<D, own0, seen, bad>>
OInit ==
  /\ "owner" \in Ops /\ L["bob"].st # << >>
  /\ LET r == OwnerInitReq(L["bob"], Label)
     IN /\ r.ok
        /\ \E gv \in GvSeqs, pick \in Picks :
             /\ \A v \in 0..MaxProbe : v > MaxVer => pick[v] = AnyVariant
             /\ Deliver("bob", "oinit", r.req, LieOwnerInit(D, r.req, gv, pick, MaxProbe),
                        LAMBDA cs : own0' = r.req.start /\ UNCHANGED seen)
OMonitor ==
  /\ "owner" \in Ops /\ Label \in DOMAIN L["bob"].lab
  /\ LET r == MonitorReq(L["bob"])
     IN /\ r.ok /\ r.kind = "owner"
        /\ \E max \in {0, 1, 25} :
             Deliver("bob", "owner", r.req, LieOwnerMonitor(D, r.req, L["bob"].lab[Label].owner[1], max, MaxProbe),
                     LAMBDA cs : UNCHANGED <<own0, seen>>)
OUpdate ==
  /\ "update" \in Ops /\ Label \in DOMAIN L["bob"].lab
  /\ LET o == L["bob"].lab[Label].owner[1]
         r == UpdateReq(L["bob"], Label, << >>)
     IN /\ OwnerGreatest(o) < MaxVer
        /\ \E pos \in 0..Len(D.log) - 1, cnt \in 1..2, x \in Variants, pick \in Picks :
             /\ OwnerGreatest(o) + cnt <= MaxVer
             /\ \A v \in 0..MaxProbe : v > MaxVer => pick[v] = AnyVariant
             /\ Deliver("bob", "update", r.req, LieUpdate(D, r.req, o, pos, cnt, pick, MaxProbe),
                        LAMBDA cs : UNCHANGED <<own0, seen>>)

Next == bad = "" /\ (Grow \/ Search \/ Contact \/ Looks("alice") \/ Looks("bob") \/ OInit \/ OMonitor \/ OUpdate)

Believed == bad = ""
(* x.n: size of the log when it was looked up, so that it is found at or before  *)
(* x.d, the distinguished log entry up to which it was monitored.               *)
Caught ==
  Label \in DOMAIN L["bob"].lab =>
    LET o == L["bob"].lab[Label].owner[1]
    IN \A x \in seen : x.d # -1 /\ own0 < x.d /\ o.start >= x.d => x.v <= o.vas
Bound == TLCGet("level") <= Steps
=============================================================================
