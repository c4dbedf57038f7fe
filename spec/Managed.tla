------------------------------- MODULE Managed -------------------------------
(* Third-party management: the log is run by somebody else, and the service     *)
(* operator signs each version of a label that it submits to the log.           *)
(*                                                                              *)
(* Operators M: g -> [C, cnt, sgd]                                              *)
(*   cnt  label -> greatest version handed out                                  *)
(*   sgd  <<label, version>> -> value that was signed                           *)
(* Operations O: o -> [g, label, vals, last, gv, st, first]                     *)
(*   st   "new", "got" (the versions first.. are the operation's), "sent" (they *)
(*        are submitted to the log), "refused" (by it), "bad" (something failed)*)
EXTENDS Client, FiniteSets

Counter(G, l) == IF l \in DOMAIN G.cnt THEN G.cnt[l] ELSE -1
OpMsg(G, O, i) == UpdateTBS(G.C, O.label, O.first + i - 1, O.vals[i])

(* Transitions: of one operator G and one operation O of it. *)
NewOperator(C) == [C |-> C, cnt |-> EmptyFn, sgd |-> EmptyFn]
NewOp(g, req) == [g |-> g, label |-> req.label, vals |-> req.vals, last |-> req.last, gv |-> req.gv,
                  st |-> "new", first |-> -1]
Take(G, l, n) == [G EXCEPT !.cnt = Put(@, l, Counter(G, l) + n)]
SignAs(G, O, i) == [G EXCEPT !.sgd = Put(@, <<O.label, O.first + i - 1>>, O.vals[i])]
(* Never two values for a version. *)
MaySign(G, O, i) == LET x == <<O.label, O.first + i - 1>>
                    IN x \in DOMAIN G.sgd => G.sgd[x] = O.vals[i]

IsManaged(e) == e.e \in {"mnew", "mstart", "minc", "msign", "mfwd", "mret", "mcnt", "mpar"}
ManagedStep(M, O, e) ==   \* [why, M, O]
  LET yes(m, o) == [why |-> "", M |-> m, O |-> o]
      no(why) == [why |-> "operator: " \o why, M |-> M, O |-> O]
      op == O[e.o]  G == M[op.g]
      at(st) == [O EXCEPT ![e.o].st = st]
  IN CASE e.e = "mnew" ->
            IF e.ok # (e.C.mode = 2 /\ e.key = e.C.lk) THEN no("configuration")
            ELSE yes(IF e.ok THEN Put(M, e.g, NewOperator(e.C)) ELSE M, O)
       [] e.e = "mcnt" ->     \* versions added otherwise
            IF e.prev # Counter(M[e.g], e.label) THEN no("counter")
            ELSE yes([M EXCEPT ![e.g] = Take(@, e.label, e.n)], O)
       [] e.e = "mpar" ->     \* results of counting from several threads at once
            LET s == e.got
            IN IF /\ s[1].prev = e.prev
                  /\ \A i \in 2..Len(s) : s[i].prev = s[i - 1].prev + s[i - 1].n
               THEN yes([M EXCEPT ![e.g].cnt = Put(@, e.label, Last(s).prev + Last(s).n)], O)
               ELSE no("counter is not atomic")
       [] e.e = "mstart" -> yes(M, Put(O, e.o, NewOp(e.g, e.req)))
       [] e.e = "minc" ->
            IF op.st # "new" \/ e.label # op.label \/ e.n # Len(op.vals) THEN no("asked for other versions")
            ELSE IF ~e.ok THEN yes(M, at("bad"))
            ELSE IF e.prev # Counter(G, e.label) THEN no("counter")
            ELSE yes([M EXCEPT ![op.g] = Take(@, e.label, e.n)],
                     [O EXCEPT ![e.o].st = "got", ![e.o].first = e.prev + 1])
       [] e.e = "msign" ->
            LET S == { i \in 1..Len(op.vals) : e.msg = OpMsg(G, op, i) }
                i == CHOOSE i \in S : TRUE
            IN IF op.st # "got" \/ S = {} THEN no("signs what is not a version it creates")
               ELSE IF ~e.ok THEN yes(M, at("bad"))
               ELSE IF ~MaySign(G, op, i) THEN no("signs two values for a version")
               ELSE yes([M EXCEPT ![op.g] = SignAs(@, op, i)], O)
       [] e.e = "mfwd" ->
            IF op.st # "got" THEN no("submits after a failure")
            ELSE IF \/ e.req.last # op.last \/ e.req.label # op.label \/ e.req.gv # op.gv
                    \/ e.req.sver # op.first \/ Len(e.req.vals) # Len(op.vals)
                    \/ \E i \in 1..Len(op.vals) :
                         e.req.vals[i] # [v |-> op.vals[i], s |-> <<Sig(G.C.lk, OpMsg(G, op, i))>>]
                 THEN no("submits something else")
            ELSE yes(M, at(IF e.ok THEN "sent" ELSE "refused"))
       [] e.e = "mret" ->
            IF e.ok # (op.st = "sent") THEN no(IF e.ok THEN "failure not reported" ELSE "failed")
            ELSE IF op.st = "got" /\ (LabelOK(op.label) \/ op.vals = << >>) THEN no("not submitted")
            ELSE IF op.st = "new" THEN no("nothing done")
            ELSE yes(M, Without(O, e.o))

(* What is submitted to the log is signed. *)
SubmissionOK(C, label, sver, vals) ==
  /\ C.mode = 2
  /\ vals # << >> => LabelOK(label)
  /\ \A i \in 1..Len(vals) : ValueOK(C, label, sver + i - 1, vals[i])
=============================================================================
