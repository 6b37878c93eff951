----------------------------- MODULE MdbxFault -----------------------------
(* Failing storage calls on top of Mdbx.  Events during which an injected fault
   was hit carry fh (number of hits), fs (those of writes and flushes) and fm
   (whether a commit record had been touched in the call).  Such a call may
   fail; then nothing may have changed, except that a data operation may break
   its transaction, a commit ends it, and a commit that had reached its commit
   record may have taken place.  Images are of the file as it is at once after
   the death of the process.                                                 *)
EXTENDS MdbxCrash

FHit(e) == "fh" \in DOMAIN e /\ e.fh > 0
Failed(e) == "r" \in DOMAIN e /\ e.r \notin {0, RTRUE}
(* success is not reported when data could not be written or flushed *)
FalseSuccess(e) == FHit(e) /\ e.e \in {"commit", "checkpoint", "esync"} /\ e.r = 0 /\ e.fs > 0 /\ (e.e = "esync" \/ Mode(IF e.e = "checkpoint" THEN <<du.m, du.tf, e.f>> ELSE <<du.m, du.tf>>) = "sync")
Fatality == ev' = [ev EXCEPT !.fault = TRUE]
Loosened(S) == [c \in CSlots |-> IF cu[c].st \in {"at", "eof", "gap", "pos", "fresh"} /\ cu[c].t >= 0 /\ cu[c].t \in S THEN [cu[c] EXCEPT !.st = "unk"] ELSE cu[c]]
TxOf(e) == IF "c" \in DOMAIN e /\ "t" \notin DOMAIN e THEN (IF cu[e.c].t >= 0 THEN Leaf(cu[e.c].t) ELSE -1) ELSE IF "t" \in DOMAIN e THEN e.t ELSE -1
FCommit(e) ==
  LET t == e.t S == {t} \cup Kids(t) p == tx[t].p f == Folded(t) IN
  /\ IsWr(t)
  /\ dh' = AbortDh(S)
  /\ tx' = IF p = -1 THEN Ended(S) ELSE [Ended(S) EXCEPT ![p].ch = -1, ![p].err = TRUE]
  /\ cu' = IF tx[t].sv = <<>> THEN EndCu(cu, S) ELSE BackCu(tx[t].sv, S)
  /\ \/ UNCHANGED cm
     \/ p = -1 /\ e.fm = 1 /\ cm' = [id |-> f.id, db |-> f.db, can |-> f.can] /\ FHit(e)
  /\ UNCHANGED ce
FData(e) ==
  LET t == TxOf(e) IN
  /\ t \in TSlots /\ tx[t].st # "none"
  /\ \/ tx' = [tx EXCEPT ![t].err = TRUE] /\ UNCHANGED cu
     \/ UNCHANGED tx /\ cu' = Loosened(Ancestors(t))
  /\ UNCHANGED <<cm, dh, ce>>
FEnv(e) == UNCHANGED <<cm, tx, dh, cu, ce>>
FFail(e) ==
  /\ Failed(e) /\ (FHit(e) \/ (ev.fault /\ e.r = PANIC)) /\ Fatality
  /\ CASE e.e \in {"commit", "checkpoint"} -> FCommit(e)
       [] e.e \in {"begin", "esync", "egeo", "eflags", "eopt"} -> FEnv(e)
       [] e.e \in {"eopen"} -> FEnv(e)
       [] e.e = "eclose" -> /\ tx' = [t \in TSlots |-> NoTxn] /\ dh' = [d \in DSlots |-> NoDh] /\ UNCHANGED <<cm, cu, ce>>
       [] OTHER -> FData(e)
(* a resize after the commit failed: the commit took place, still an error may be told *)
FaultStep(e) ==
  \/ e.e = "image" /\ Image(e)
  \/ e.e = "imgend" /\ ImgEnd
  \/ e.e \notin {"image", "imgend"} /\ sv' = sv
     /\ \/ ~FalseSuccess(e) /\ ~(e.e = "eclose" /\ Failed(e)) /\ Step(e)
        \/ sv = <<>> /\ FFail(e)
     /\ du' = IF sv # <<>> THEN du ELSE [DuNext(e) EXCEPT !.s = <<Found(cm', FALSE)>>]
FaultNext == l <= Len(Trace) /\ l' = l + 1 /\ FaultStep(Trace[l])
FaultSpec == CrashInit /\ [][FaultNext]_cvars
=============================================================================
