-------------------------------- MODULE Stores --------------------------------
(* The stores below a log.  A database y is the sequence of its contents after *)
(* each commit; W.X[y] = [hist].  A handle on it is W.X[h] = [y, batch, ro],   *)
(* where batch holds the pending writes.  Contents are functions from keys     *)
(* (strings that name what is stored) to values; "" deletes.                   *)
EXTENDS Auditor

SDbs(e) == e.e \in {"sopen", "sclone", "swrite", "snil", "swrites", "sread", "scommit", "scrash", "sdecay"}
SYes(W) == [why |-> "", W |-> W]
SNo(W, why) == [why |-> why, W |-> W]

NoHead(f) == IF "H" \in DOMAIN f THEN f ELSE Without(f, "A")  \* read together with the tree head
Contents(W, h) == Last(W.X[W.X[h].y].hist)
(* Values: << >> is absence. *)
Overlay(base, batch) ==
  TLCEval([k \in { x \in DOMAIN base \cup DOMAIN batch : x \notin DOMAIN batch \/ batch[x] # << >> } |->
             IF k \in DOMAIN batch THEN batch[k][1] ELSE base[k]])
Reads(f, rd) ==
  \A i \in 1..Len(rd) : rd[i].v = (IF rd[i].k \in DOMAIN f THEN <<f[rd[i].k]>> ELSE << >>)

StepSOpen(W, e) ==
  SYes([W EXCEPT !.X = (e.y :> [hist |-> <<EmptyFn>>]) @@ (e.h :> [y |-> e.y, batch |-> EmptyFn]) @@ @])
StepSClone(W, e) ==
  SYes([W EXCEPT !.X = Put(@, e.to, [y |-> W.X[e.h].y, batch |-> EmptyFn])])
StepSWrite(W, e) ==
  IF ~e.ok THEN SNo(W, "store: write refused")
  ELSE SYes([W EXCEPT !.X[e.h].batch = Put(@, e.k, e.v)])
(* What is not there can not be stored (rather than be deleted, say). *)
StepSNil(W, e) == IF e.ok THEN SNo(W, "store: nothing was stored") ELSE SYes(W)
PutAll(f, ws) ==  \* no key is there twice
  LET at == TLCEval([k \in { ws[j].k : j \in 1..Len(ws) } |-> CHOOSE j \in 1..Len(ws) : ws[j].k = k])
  IN TLCEval([k \in DOMAIN f \cup DOMAIN at |-> IF k \in DOMAIN at THEN ws[at[k]].v ELSE f[k]])
StepSWrites(W, e) ==
  IF ~e.ok THEN SNo(W, "store: write refused")
  ELSE SYes([W EXCEPT !.X[e.h].batch = PutAll(@, e.ws)])
StepSRead(W, e) ==
  IF Reads(NoHead(Overlay(Contents(W, e.h), W.X[e.h].batch)), e.rd) THEN SYes(W)
  ELSE SNo(W, "store: read")
StepSCommit(W, e) ==
  LET x == W.X[e.h]
  IN IF ~e.ok THEN SNo(W, "store: commit refused")
     ELSE SYes([W EXCEPT !.X[e.h].batch = EmptyFn,
                         !.X[x.y].hist = Append(@, Overlay(Last(@), x.batch))])
(* The database as found after a crash: between lo and hi commits had happened. *)
StepSCrash(W, e) ==
  LET hist == W.X[e.y].hist
      S == { k \in e.lo..e.hi : Reads(NoHead(hist[k + 1]), e.rd) }
  IN IF S = {} THEN SNo(W, "store: contents after a crash are not those of a commit")
     ELSE SYes([W EXCEPT !.X = (e.to :> [hist |-> SubSeq(hist, 1, MaxOf(S) + 1)])
                               @@ (e.h :> [y |-> e.to, batch |-> EmptyFn]) @@ @])

(* A copy of the database whose files were damaged: what can be read is right. *)
StepSDecay(W, e) ==
  IF Reads(NoHead(W.X[e.y].hist[e.n + 1]), e.rd) THEN SYes(W)
  ELSE SNo(W, "store: damaged contents are returned without an error")

StoreStep(W, e) ==
  CASE e.e = "sopen" -> StepSOpen(W, e)
    [] e.e = "sclone" -> StepSClone(W, e)
    [] e.e = "swrite" -> StepSWrite(W, e)
    [] e.e = "snil" -> StepSNil(W, e)
    [] e.e = "swrites" -> StepSWrites(W, e)
    [] e.e = "sdecay" -> StepSDecay(W, e)
    [] e.e = "sread" -> StepSRead(W, e)
    [] e.e = "scommit" -> StepSCommit(W, e)
    [] e.e = "scrash" -> StepSCrash(W, e)
=============================================================================
