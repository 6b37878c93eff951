---------------------------- MODULE MdbxTrace ----------------------------
(* Checks calls recorded from the implementation against Mdbx.  The file
   named by environment variable TRACE holds many cases, each started by a
   "case" line giving its parameters. *)
EXTENDS Mdbx, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>

Start(c) ==
  /\ ev' = [K |-> c.K, V |-> c.V, nst |-> c.nst = 1, full |-> c.full = 1, oust |-> c.oust = 1, bump |-> c.bump = 1, fault |-> c.fault = 1,
             wm |-> c.wm = 1, ro |-> {}, lost |-> {}, vn |-> {}, cp |-> NoTxn]
  /\ cm' = [id |-> c.id, can |-> <<0, 0, 0, 0>>,
            db |-> [n \in 0..9 |-> IF n = 0 THEN [ex |-> TRUE, fl |-> 0, sq |-> 0, d |-> [i \in 1..c.K |-> {}]] ELSE NoTable]]
  /\ tx' = [t \in 0..c.T |-> NoTxn] /\ dh' = [d \in 0..c.D |-> NoDh] /\ cu' = [x \in 0..c.C |-> NoCur] /\ ce' = [x \in 0..c.E |-> NoCe]

TraceInit == /\ l = 1 /\ cm = [id |-> 0] /\ tx = <<>> /\ dh = <<>> /\ cu = <<>> /\ ce = <<>> /\ ev = [K |-> 1, V |-> 1]

Step(e) ==
  \/ e.e = "case" /\ Start(e)
  \/ e.e = "begin" /\ Begin(e)
  \/ e.e = "commit" /\ Commit(e)
  \/ e.e = "abort" /\ Abort(e)
  \/ e.e = "break" /\ Break(e)
  \/ e.e = "reset" /\ Reset(e)
  \/ e.e = "renew" /\ Renew(e)
  \/ e.e = "refresh" /\ Refresh(e)
  \/ e.e = "park" /\ Park(e)
  \/ e.e = "unpark" /\ Unpark(e)
  \/ e.e = "checkpoint" /\ Checkpoint(e)
  \/ e.e = "embark" /\ Embark(e)
  \/ e.e = "amend" /\ Amend(e)
  \/ e.e = "rollback" /\ Rollback(e)
  \/ e.e = "clone" /\ Clone(e)
  \/ e.e = "dopen" /\ DOpen(e)
  \/ e.e = "dclose" /\ DClose(e)
  \/ e.e = "drop" /\ Drop(e)
  \/ e.e = "drename" /\ DRename(e)
  \/ e.e = "dstat" /\ DStat(e)
  \/ e.e = "estat" /\ EStat(e)
  \/ e.e = "gcinfo" /\ GcInfo(e)
  \/ e.e = "dflags" /\ DFlags(e)
  \/ e.e = "seq" /\ DSeq(e)
  \/ e.e = "enum" /\ Enum(e)
  \/ e.e = "canput" /\ CanPut(e)
  \/ e.e = "canget" /\ CanGet(e)
  \/ e.e = "tinfo" /\ TInfo(e)
  \/ e.e = "dump" /\ Dump(e)
  \/ e.e = "get" /\ Get(e)
  \/ e.e = "cache" /\ Cache(e)
  \/ e.e = "cacheinit" /\ CacheInit(e)
  \/ e.e = "cachex" /\ CacheRaces(e)
  \/ e.e = "getex" /\ GetEx(e)
  \/ e.e = "getge" /\ GetGe(e)
  \/ e.e = "put" /\ Put(e)
  \/ e.e = "del" /\ Del(e)
  \/ e.e = "replace" /\ Replace(e)
  \/ e.e = "copen" /\ COpen(e)
  \/ e.e = "cclose" /\ CClose(e)
  \/ e.e = "cbind" /\ CBind(e)
  \/ e.e = "crenew" /\ CBind(e)
  \/ e.e = "cunbind" /\ CUnbind(e)
  \/ e.e = "creset" /\ CReset(e)
  \/ e.e = "ccopy" /\ CCopy(e)
  \/ e.e = "cput" /\ CPut(e)
  \/ e.e = "putm" /\ CPutMulti(e)
  \/ e.e = "cdel" /\ CDel(e)
  \/ e.e = "ccount" /\ CCount(e)
  \/ e.e = "ceof" /\ CEof(e)
  \/ e.e = "chk" /\ Chk(e)
  \/ e.e = "copy" /\ Copy(e)
  \/ e.e = "defrag" /\ Defrag(e)
  \/ e.e = "copybeg" /\ CopyBeg(e)
  \/ e.e \in {"copystep", "cpio"} /\ UNCHANGED vars
  \/ e.e = "copyend" /\ CopyEnd(e)
  \/ e.e = "chkro" /\ Chk(e)
  \/ e.e = "eopen" /\ EOpen(e)
  \/ e.e = "eclose" /\ EClose(e)
  \/ e.e = "egeo" /\ EGeo(e)
  \/ e.e = "esync" /\ ESync(e)
  \/ e.e = "einfo" /\ EInfo(e)
  \/ e.e = "cget" /\ e.op \in Multi /\ CGetMulti(e)
  \/ e.e = "cget" /\ e.op \notin Multi /\ CGet(e)
  \/ e.e = "cdelr" /\ CDelRange(e)
  \/ e.e = "cbunch" /\ CBunch(e)
  \/ e.e = "cdist" /\ CDist(e)
  \/ e.e = "cscroll" /\ CScroll(e)
  \/ e.e = "cdistr" /\ CDistribute(e)
  \/ e.e = "ccmp" /\ CCompare(e)
  \/ e.e = "estm" /\ CEstimate(e)
  \/ e.e = "batch" /\ CBatch(e)
  \/ e.e = "cscan" /\ CScan(e)
  \/ e.e = "cscanf" /\ CScanFrom(e)
  \/ e.e = "dbg" /\ PrintT(<<"DBG", cu, tx, dh>>) /\ UNCHANGED vars
  \/ e.e \in {"ecreate", "eopt", "eflags", "spawn", "join", "note", "usleep", "treg", "tunreg", "sim", "images", "imgkill", "fault", "usedb", "hsr", "hsrq", "tflags", "dirty", "watch", "gwatch"} /\ Ignore(e)

(* Free pages are reused: a small change does not run out of pages while the
   statistics taken just before count enough of unallocated and reclaimable ones. *)
Plenty(i) == /\ i > 3 /\ Trace[i].e = "begin" /\ Trace[i].r = 0 /\ Trace[i].p = -1 /\ Trace[i - 1].e = "abort"
             /\ Trace[i - 2].e = "gcinfo" /\ Trace[i - 2].r \in {0, NOTFOUND} /\ Trace[i - 2].stop = 0
             /\ Trace[i - 2].total - Trace[i - 2].alloc + Trace[i - 2].gcr > 60
Room(i) == IF i < 6 \/ Trace[i].e \notin {"del", "commit"} THEN TRUE
           ELSE Trace[i].r = MAPFULL => (IF Trace[i].e = "del" THEN ~Plenty(i - 1) ELSE Trace[i - 1].e # "del" \/ ~Plenty(i - 2))
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Room(l) /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
Reached == PrintT(<<"REACHED", TLCGet("stats").diameter>>)
TraceAccepted == Reached /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
