--------------------------------- MODULE Big ---------------------------------
(* Unsigned 64-bit numbers as strings of 16 hexadecimal digits (TLC's integers *)
(* have 32 bits), and on them the shapes of the log tree and of the implicit   *)
(* search tree, for all sizes that the protocol supports.                      *)
EXTENDS Bytes

BAdd(a, b) == CHOOSE x \in STRING : TRUE
BSub(a, b) == CHOOSE x \in STRING : TRUE
BPow(k) == CHOOSE x \in STRING : TRUE     \* 2^k
BLog(a) == CHOOSE x \in Nat : TRUE        \* floor(log2(a)), a > 0
BLess(a, b) == HexLess(a, b)
BLe(a, b) == a = b \/ HexLess(a, b)
B0 == "0000000000000000"
B1 == "0000000000000001"
BMax == BPow(63)      \* the largest tree

(***************************************************************************)
(* The log tree.  A node is the interval [lo, hi) of the leaves below it.   *)
(***************************************************************************)
BSplit(n) == BPow(BLog(BSub(n, B1)))
BIsPow2(n) == BPow(BLog(n)) = n
BW(I) == BSub(I[2], I[1])
(* The number under which the implementation knows a node. *)
NodeId(I) ==
  LET w == BW(I)
  IN BSub(BAdd(BAdd(I[1], I[1]), IF BIsPow2(w) THEN w ELSE BAdd(BSplit(w), BSplit(w))), B1)
BLeft(I) == <<I[1], BAdd(I[1], BSplit(BW(I)))>>
BRight(I) == <<BAdd(I[1], BSplit(BW(I))), I[2]>>
BIsLeaf(I) == BW(I) = B1
RECURSIVE BFullSubs(_)
BFullSubs(I) ==
  IF BIsPow2(BW(I)) THEN <<I>> ELSE <<BLeft(I)>> \o BFullSubs(BRight(I))
BInside(I, J) == BLe(J[1], I[1]) /\ BLe(I[2], J[2])
RECURSIVE BCopathIn(_, _, _)
BCopathIn(K, Inc, J) ==
  LET R == { I \in K : BInside(I, J) }
  IN IF R = {} THEN BFullSubs(J)
     ELSE IF R = {J} THEN IF J \in Inc THEN <<J>> ELSE << >>
     ELSE BCopathIn(R, Inc, BLeft(J)) \o BCopathIn(R, Inc, BRight(J))
BTree(n) == <<B0, n>>
BBatch(S, n, nPO, mO) ==
  LET subs(o) == IF o = << >> THEN {} ELSE SeqToSet(BFullSubs(BTree(o[1])))
  IN BCopathIn({ <<x, BAdd(x, B1)>> : x \in S } \cup subs(nPO) \cup subs(mO), subs(nPO), BTree(n))
(* Nodes met when descending from the root in the given directions. *)
RECURSIVE BDescend(_, _)
BDescend(I, dirs) ==
  IF dirs = << >> THEN <<I>>
  ELSE <<I>> \o BDescend(IF Head(dirs) = 0 THEN BLeft(I) ELSE BRight(I), Tail(dirs))
BSiblingOf(I, parent) == IF BLeft(parent) = I THEN BRight(parent) ELSE BLeft(parent)

(***************************************************************************)
(* The implicit binary search tree over log entries.                       *)
(***************************************************************************)
BMid(I) == BSub(BAdd(I[1], BPow(BLog(BW(I)))), B1)
BHasL(I) == BLess(I[1], BMid(I))
BHasR(I) == BLess(BAdd(BMid(I), B1), I[2])
BL(I) == <<I[1], BMid(I)>>
BR(I) == <<BAdd(BMid(I), B1), I[2]>>
RECURSIVE BWalk(_, _)
BWalk(I, dirs) ==
  IF dirs = << >> THEN <<I>>
  ELSE <<I>> \o BWalk(IF Head(dirs) = 0 THEN BL(I) ELSE BR(I), Tail(dirs))
RECURSIVE BPathTo(_, _)
BPathTo(x, I) ==
  LET m == BMid(I)
  IN IF m = x THEN <<m>>
     ELSE <<m>> \o BPathTo(x, IF BLess(x, m) THEN BL(I) ELSE BR(I))
BPathOf(x, n) == BPathTo(x, BTree(n))
BFrontier(n) == BPathOf(BSub(n, B1), n)
BRights(x, n) == Rev(SelectSeq(BPathOf(x, n), LAMBDA y : BLess(x, y)))
BLefts(x, n) == Rev(SelectSeq(BPathOf(x, n), LAMBDA y : BLess(y, x)))
BViewEntries(n, mO) ==
  IF mO = << >> THEN BFrontier(n)
  ELSE IF mO[1] = n THEN << >>
  ELSE LET last == BSub(mO[1], B1)
           up == BRights(last, n)
           top == IF up = << >> THEN last ELSE Last(up)
       IN up \o SelectSeq(BFrontier(n), LAMBDA y : BLess(top, y))
=============================================================================
