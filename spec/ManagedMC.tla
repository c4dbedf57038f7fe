------------------------------ MODULE ManagedMC ------------------------------
(* All interleavings of operations of a service operator: every step may fail,  *)
(* and the log may refuse what is submitted.  The log only takes versions that  *)
(* are next.                                                                    *)
EXTENDS Managed
CONSTANTS Ops, MaxVals
VARIABLES M, O, log    \* log: what the log of the (only) label contains

C == [mode |-> 2, lk |-> "leaf"]
Val(o, i) == <<o, i>>
Init == /\ M = [g |-> NewOperator(C)] /\ log = << >>
        /\ \E f \in [Ops -> 1..MaxVals] :
             O = [o \in Ops |-> [g |-> "g", label |-> "l", vals |-> [i \in 1..f[o] |-> Val(o, i)], last |-> << >>,
                                 gv |-> << >>, st |-> "new", first |-> -1, sig |-> 0]]
Fail(o) == O[o].st \in {"new", "got"} /\ O' = [O EXCEPT ![o].st = "bad"] /\ UNCHANGED <<M, log>>
Inc(o) == /\ O[o].st = "new"
          /\ O' = [O EXCEPT ![o].st = "got", ![o].first = Counter(M["g"], "l") + 1]
          /\ M' = [M EXCEPT !["g"] = Take(@, "l", Len(O[o].vals))]
          /\ UNCHANGED log
SignNext(o) == /\ O[o].st = "got" /\ O[o].sig < Len(O[o].vals)
               /\ O' = [O EXCEPT ![o].sig = @ + 1]
               /\ M' = [M EXCEPT !["g"] = SignAs(@, O[o], O[o].sig + 1)]
               /\ UNCHANGED log
Submit(o) == /\ O[o].st = "got" /\ O[o].sig = Len(O[o].vals)
             /\ \/ O[o].first = Len(log) /\ log' = log \o O[o].vals /\ O' = [O EXCEPT ![o].st = "sent"]
                \/ log' = log /\ O' = [O EXCEPT ![o].st = "refused"]
             /\ UNCHANGED M
Next == \E o \in Ops : Fail(o) \/ Inc(o) \/ SignNext(o) \/ Submit(o)

OneValue == \A o \in Ops : O[o].st = "got" /\ O[o].sig < Len(O[o].vals) => MaySign(M["g"], O[o], O[o].sig + 1)
LogSigned == \A i \in 1..Len(log) : <<"l", i - 1>> \in DOMAIN M["g"].sgd /\ M["g"].sgd[<<"l", i - 1>>] = log[i]
Disjoint == \A a, b \in Ops : a # b /\ O[a].first >= 0 /\ O[b].first >= 0 =>
              O[a].first + Len(O[a].vals) <= O[b].first \/ O[b].first + Len(O[b].vals) <= O[a].first
Sent == \A o \in Ops : O[o].st = "sent" => SubSeq(log, O[o].first + 1, O[o].first + Len(O[o].vals)) = O[o].vals
=============================================================================
