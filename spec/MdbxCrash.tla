----------------------------- MODULE MdbxCrash -----------------------------
(* Durability on top of Mdbx.  A history recorded on simulated storage holds
   "image" events: at this moment power is lost (or the process dies), with some
   subset of the writes not flushed yet having reached the disk.  What follows
   up to "imgend" was recorded by opening the resulting file.  The specification
   picks the state that survived among those the durability mode permits; the
   calls recorded on the image then have to agree with it, in full.          *)
EXTENDS MdbxTrace

VARIABLES
  du,   \* [s: committed states from the last surely durable one on (with the ids of commits that changed nothing), m: mode flags of the environment, tf: flags of the write transaction]
  sv    \* what was before the image, <<>> outside
cvars == <<tvars, du, sv>>

NOMETA == 262144   SAFENOSYNC == 65536   UTTERLY == SAFENOSYNC + 1048576
HasF(q, x) == \E i \in DOMAIN q : Bit(q[i], x)
Mode(q) == IF HasF(q, SAFENOSYNC) THEN "safe" ELSE IF HasF(q, NOMETA) THEN "nometa" ELSE "sync"
Latest(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Same(a, b) == a.db = b.db /\ a.can = b.can

(* the states that may be found after losing power now *)
InProgress(e) ==
  IF e.mid = 1 /\ e.op \in {"commit", "checkpoint", "embark"} /\ e.t \in TSlots /\ tx[e.t].st = "rw" /\ tx[e.t].p = -1 /\ ~AnyErr(e.t)
  THEN LET f == Folded(e.t) IN {[ids |-> {f.id}, db |-> f.db, can |-> f.can, w |-> TRUE]} ELSE {}
Admissible(e) ==
  InProgress(e) \cup (IF e.st = "kill" THEN {du.s[Len(du.s)]} ELSE Rng(du.s))

Image(e) ==
  /\ sv = <<>>
  /\ sv' = <<cm, tx, dh, cu, ev, ce>>
  /\ \E s \in Admissible(e) : \E i \in s.ids : cm' = [id |-> i, db |-> s.db, can |-> s.can]
  /\ tx' = [t \in TSlots |-> NoTxn] /\ dh' = [d \in DSlots |-> NoDh] /\ cu' = [c \in CSlots |-> NoCur]
  /\ ev' = [ev EXCEPT !.bump = TRUE, !.lost = {}, !.vn = {}, !.fault = FALSE]
  /\ UNCHANGED <<ce, du>>
ImgEnd ==
  /\ sv # <<>> /\ sv' = <<>>
  /\ cm' = sv[1] /\ tx' = sv[2] /\ dh' = sv[3] /\ cu' = sv[4] /\ ev' = sv[5] /\ ce' = sv[6]
  /\ UNCHANGED du

Found(c, weak) == [ids |-> {c.id}, db |-> c.db, can |-> c.can, w |-> weak]
(* any other commit flushes what precedes: everything from
   the last state before it that was not committed weakly *)
FromSteady(s) == LET I == {i \in 1..(Len(s) - 1) : ~s[i].w} IN IF I = {} THEN s ELSE Latest(s, Len(s) + 1 - (CHOOSE i \in I : \A j \in I : j <= i))
DuNext(e) ==
  LET c0 == e.e = "case"
      m == IF c0 THEN 0 ELSE IF e.e = "eopen" THEN e.f ELSE IF e.e = "eflags" /\ e.r = 0 THEN (IF e.on = 1 THEN e.f ELSE du.m - e.f) ELSE du.m
      \* flags of the write transaction: its own from the start, those of a checkpoint for that commit only
      tf == IF c0 THEN 0 ELSE IF e.e = "begin" /\ e.r = 0 /\ e.p = -1 /\ ~Bit(e.f, 131072) THEN e.f ELSE du.tf
      mode == Mode(IF e.e = "checkpoint" THEN <<m, tf, e.f>> ELSE <<m, tf>>)
      s == IF c0 THEN <<Found(cm', FALSE)>> ELSE IF Same(du.s[Len(du.s)], cm') THEN [du.s EXCEPT ![Len(du.s)].ids = @ \cup {cm'.id}] ELSE Append(du.s, Found(cm', mode = "safe"))
      d == [s |-> s, m |-> m, tf |-> tf]
  IN CASE e.e \in {"commit", "checkpoint", "embark"} /\ e.r = 0 /\ e.t \in TSlots /\ tx[e.t].st = "rw" /\ tx[e.t].p = -1
               /\ ~Same(du.s[Len(du.s)], cm') ->        \* (a commit of nothing new need not write, hence makes nothing durable)
            [d EXCEPT !.s = IF mode = "sync" THEN Latest(s, 1) ELSE FromSteady(s)]
       [] e.e = "esync" /\ e.r \in {0, RTRUE} /\ e.f = 1 -> [d EXCEPT !.s = <<[s[Len(s)] EXCEPT !.w = FALSE]>>]
       [] e.e = "eclose" /\ e.r = 0 /\ e.ds = 0 -> [d EXCEPT !.s = <<[s[Len(s)] EXCEPT !.w = FALSE]>>]
       [] OTHER -> d

CrashStep(e) ==
  \/ e.e = "image" /\ Image(e)
  \/ e.e = "imgend" /\ ImgEnd
  \/ e.e \notin {"image", "imgend"} /\ Step(e) /\ sv' = sv /\ du' = IF sv # <<>> THEN du ELSE DuNext(e)

CrashInit == TraceInit /\ du = [s |-> <<>>, m |-> 0, tf |-> 0] /\ sv = <<>>
CrashNext == l <= Len(Trace) /\ l' = l + 1 /\ CrashStep(Trace[l])
CrashSpec == CrashInit /\ [][CrashNext]_cvars
=============================================================================
