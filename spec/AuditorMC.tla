------------------------------ MODULE AuditorMC ------------------------------
(* An auditor and all logs, within bounds.  G is what really was in the log:     *)
(* per log entry its timestamp and contents.  At each point the auditor is shown  *)
(* everything that may be claimed to come next.  It accepts what is a proper       *)
(* continuation, and nothing else; what little it remembers then is what there    *)
(* is.  Where the shape of the tree after a removal depends on what the auditor   *)
(* can not see (known finding KF-1), the log does not go on.                      *)
EXTENDS Auditor, FiniteSets
CONSTANTS Keys, MaxLog, MaxChange, First, Times, Rmws, Last2
VARIABLES G, A, C
vars == <<G, A, C>>
N == Len(G)
Out(k) == k \o SubSeq(Zero32, 1, 60)                 \* k: four digits
Com(k, p) == Sha(k \o U8(p))
(* Contents: a function from keys to where they were inserted. *)
Cont(i) == IF i = 0 THEN << >> ELSE G[i].ct
Cur == Cont(N)
Tree(ct) == { [v |-> Out(k), c |-> Com(k, ct[k])] : k \in DOMAIN ct }
SortHex(S) == LET RECURSIVE f(_)
                  f(R) == IF R = {} THEN << >>
                          ELSE LET x == CHOOSE x \in R : \A y \in R : x = y \/ HexLess(x, y)
                               IN <<x>> \o f(R \ {x})
              IN f(S)
(* Claims: at time ts the keys in a are added and those in r removed, shown on    *)
(* the tree after b log entries; the claim about what is removed is false if lie. *)
Claims(B, Lies) ==
  { c \in [ts : IF N = 0 THEN First ELSE { G[N].ts - 1 + d : d \in Times },
           a : SUBSET Keys, r : SUBSET Keys, b : B, lie : Lies] :
      Cardinality(c.a) + Cardinality(c.r) <= MaxChange }
UpdateOf(c) ==
  LET add == SortHex(c.a)  rem == SortHex(c.r)  ct == Cont(c.b)
      com(k) == IF k \in DOMAIN ct /\ ~c.lie THEN Com(k, ct[k]) ELSE Com(k, 99)
  IN [ts |-> c.ts,
      add |-> [i \in 1..Len(add) |-> [v |-> Out(add[i]), c |-> Com(add[i], N)]],
      rem |-> [i \in 1..Len(rem) |-> [v |-> Out(rem[i]), c |-> com(rem[i])]],
      pr |-> PProof(Tree(ct), Map(Out, add \o rem))]
Stamps(ts) == [x \in 0..N |-> IF x = N THEN ts ELSE G[x + 1].ts]
Proper(c) ==
  LET old == PrevRightmostDLE(Stamps(c.ts), C.rmw, N + 1)
  IN /\ N > 0 => c.ts >= G[N].ts
     /\ c.a \cap DOMAIN Cur \subseteq c.r
     /\ \A k \in c.r : k \in DOMAIN Cur /\ old # << >> /\ Cur[k] <= old[1]
     /\ Cont(c.b) = Cur
     /\ c.lie => c.r = {}
After(c) == [k \in (DOMAIN Cur \ c.r) \cup c.a |-> IF k \in c.a THEN N ELSE Cur[k]]

Init == G = << >> /\ A = << >> /\ C \in [rmw : Rmws]
Next ==
  /\ N < MaxLog
  /\ \E c \in Claims({N}, {FALSE}) :
       /\ Proper(c)
       /\ N + 1 = MaxLog => Last2          \* leave out the last step's successors
       /\ LET p == AuditorProcess(C, A, UpdateOf(c))
          IN IF ~p.ok THEN A' = <<[wrong |-> TRUE]>> /\ UNCHANGED G
             ELSE /\ p.as[1].root = PRoot(Tree(After(c)))       \* not KF-1
                  /\ A' = p.as /\ G' = Append(G, [ts |-> c.ts, ct |-> After(c)])
       /\ UNCHANGED C
Ok == A # << >> => "root" \in DOMAIN A[1]
(* Nothing improper is accepted, and nothing proper is refused. *)
Agree == Ok => \A c \in Claims(0..N, BOOLEAN) : AuditorProcess(C, A, UpdateOf(c)).ok <=> Proper(c)
(* What is remembered. *)
Leaves == [i \in 1..N |-> LeafOf(G[i].ts, PRoot(Tree(G[i].ct)))]
Remembers == Ok /\ N > 0 =>
  LET a == A[1]  fr == Frontier(N)
      dle == RightmostDLE([x \in 0..N - 1 |-> G[x + 1].ts], C.rmw, N)
  IN /\ a.th.n = N /\ a.th.ts = G[N].ts /\ a.th.sig = ""
     /\ a.root = PRoot(Tree(Cur))
     /\ RootOf(a.fs, 0, N) = LogRoot(Leaves, N)
     /\ a.tss = [i \in 1..Len(fr) |-> G[fr[i] + 1].ts]
     /\ a.ins = { [p |-> Cur[k], v |-> Out(k)] : k \in { k \in DOMAIN Cur : dle = << >> \/ Cur[k] > dle[1] } }
(* When nothing is removed there is no exception. *)
NoException == Ok => \A c \in Claims({N}, {FALSE}) :
  Proper(c) /\ c.r \subseteq c.a => AuditorProcess(C, A, UpdateOf(c)).as[1].root = PRoot(Tree(After(c)))
=============================================================================
