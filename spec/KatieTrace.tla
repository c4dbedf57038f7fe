------------------------------ MODULE KatieTrace ------------------------------
(* Checks recorded executions of the implementation against Katie.tla: every   *)
(* event must be allowed in the state that the preceding ones lead to.  Each   *)
(* trace is one behaviour; the first event that is not allowed is reported.    *)
EXTENDS Katie, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, w, why
vars == <<tr, i, w, why>>

Init == tr \in 1..Len(Traces) /\ i = 0 /\ w = EmptyWorld /\ why = ""
Next ==
  /\ why = ""
  /\ i < Len(Traces[tr].ev)
  /\ LET s == Step(w, Traces[tr].ev[i + 1])
     IN /\ why' = s.why
        /\ w' = s.W
        /\ s.why # "" => PrintT("FAIL " \o ToString(<<Traces[tr].id, i + 1, s.why>>))
  /\ i' = i + 1
  /\ tr' = tr
  /\ (why' = "" /\ i' = Len(Traces[tr].ev)) => PrintT("PASS " \o ToString(<<Traces[tr].id, i'>>))
Spec == Init /\ [][Next]_vars
View == <<tr, i>>
=============================================================================
