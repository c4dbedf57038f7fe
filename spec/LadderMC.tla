------------------------------- MODULE LadderMC -------------------------------
(* Properties of binary ladders that searching and monitoring rest on, for all   *)
(* versions up to a bound.  The state is the target version.                     *)
EXTENDS Ladder, TLC
CONSTANT Max
VARIABLE t
Init == t \in 0..7
Next == t <= Max /\ t' = t + 8
Signum(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Wd(n) == <<0, n>>
Full == BaseLadder(t)

(* A ladder holds its target and the next version, no version twice, and is short. *)
Shape == /\ t \in SeqToSet(Full) /\ t + 1 \in SeqToSet(Full)
         /\ \A i, j \in 1..Len(Full) : i # j => Full[i] # Full[j]
(* Looking the versions up tells the greatest one relative to the target.        *)
Decides == \A g \in -1..Max :
             LET lad == SearchLadder(t, g, {})
             IN Interpret(Full, [i \in 1..Len(lad) |-> lad[i] <= g], t) = [ok |-> TRUE, r |-> Signum(g - t)]
(* No fewer lookups are taken for an answer.                                     *)
Needed == \A g \in -1..Max :
            LET lad == SearchLadder(t, g, {})
            IN \A k \in 0..Len(lad) - 1 : ~Interpret(Full, [i \in 1..k |-> lad[i] <= g], t).ok
(* A contact that monitors version t and an owner who claims that g < t is the    *)
(* greatest version look at a version that can not satisfy both.                  *)
Separated == \A g \in 0..t - 1 : \E p \in SeqToSet(MonitorLadder(t)) \cap SeqToSet(BaseLadder(g)) : g < p /\ p <= t
(* So do searches for different versions as the greatest.                        *)
Exclusive == \A g \in 0..Max : g # t => \E p \in SeqToSet(Full) \cap SeqToSet(BaseLadder(g)) : (p <= g) # (p <= t)
(* What follows from lookups elsewhere can be left out.                          *)
Redundant == \A g \in -1..Max : \A skip \in { 0..k : k \in {-1, 0, t \div 2, t} } :
               skip \subseteq 0..g =>
                 LET lad == SearchLadder(t, g, skip)
                 IN Interpret(SearchLadder(t, t, skip), [i \in 1..Len(lad) |-> lad[i] <= g], t)
                      = [ok |-> TRUE, r |-> Signum(g - t)]
(* An update's ladder and what is known before it hold all that is looked up.     *)
Updates == \A s \in 0..t : LET known == IF s = 0 THEN {0} ELSE SeqToSet(BaseLadder(s - 1))
                          IN SeqToSet(BaseLadder(t)) \subseteq UpdateLadder(s, t) \cup known \cup s..t
(* The 32-bit ladders are the same, as far as both go.                            *)
Same == /\ WBaseLadder(Wd(t)) = Map(Wd, Full)
        /\ WMonitorLadder(Wd(t)) = Map(Wd, MonitorLadder(t))
        /\ \A g \in 0..Max : WSearchLadder(Wd(t), Wd(g), {}) = Map(Wd, SearchLadder(t, g, {}))
(* At the other end of the range they still find their target.                    *)
Top == LET n == <<W16 - 1, W16 - 1 - t>>  b == WBaseLadder(n)
       IN /\ n \in SeqToSet(b)
          /\ n # WMax => WSucc(n) \in SeqToSet(b)
          /\ \A i \in 1..Len(b) : b[i][1] < W16 /\ b[i][2] < W16
=============================================================================
