----------------------------- MODULE MdbxMulti -----------------------------
(* Several processes (or threads of one) on the same database, on top of Mdbx:
   how environments may be opened together, what the death of a process leaves
   behind, the registry of readers and the handler for slow readers, and calls
   made at the same time.

   pv.p[w]   process of worker w: st (none, proc, open), fl (flags of its
             environment), uid (number of the incarnation), mr (reader slots),
             fn and fi (how many anonymous readers it holds, and their state),
             hsr (mode of its slow-reader handler), th (a thread of process 0)
   pv.em     access mode shared by all open environments
   pv.stale  slots of dead processes that may still be in the registry (id -2: any;
             left by a call during which the process died, or kept by its thread)
   pv.lazy   the file may need a flush before a read-only opening
   pv.fh     digest of the file, unless something may have changed it        *)
EXTENDS MdbxTrace
VARIABLE pv
mvars == <<tvars, pv>>

EAGAIN == 11
RDO == 131072
EXCLU == 4194304
ACCEDE == 1073741824
WMAP == 524288
LAZY == 65536 + 1048576 + 262144
WANNAREC == -30419
WK == 0..4
NoProc == [st |-> "none", fl |-> 0, uid |-> -1, mr |-> 0, fn |-> 0, fi |-> 0, hsr |-> 0, th |-> FALSE]
NoPv == [p |-> [w \in WK |-> IF w = 0 THEN [NoProc EXCEPT !.st = "proc", !.uid = 0] ELSE NoProc], em |-> 0, stale |-> {}, lazy |-> FALSE, fh |-> -1]

Top(S) == CHOOSE x \in S : \A y \in S : y <= x
Has(f, m) == \E k \in 0..30 : Bit(m, 2^k) /\ Bit(f, 2^k)
Pr(w) == IF pv.p[w].th THEN 0 ELSE w
Mates(w) == {x \in WK : Pr(x) = w}
IsOpen(w) == pv.p[w].st = "open"
Peers(w) == {x \in WK : x # w /\ IsOpen(x)}
TxOf(w) == {t \in TSlots : tx[t].st # "none" /\ tx[t].w \in Mates(w)}
Lost(w) == [t \in TSlots |-> IF t \in TxOf(w) THEN NoTxn ELSE tx[t]]

(* ---------------------------------------------------------------- opening *)
(* the part of the mode that all writers have to agree on *)
Rigorous(f, em) == <<Bit(f, 65536), Bit(f, 1048576) /\ Bit(f, 65536), IF Has(em, LAZY) THEN Bit(f, WMAP) ELSE FALSE>>
OpenOk(e, em) ==
  /\ pv' = [pv EXCEPT !.p[e.w].st = "open", !.p[e.w].fl = e.f, !.p[e.w].mr = e.mr, !.p[e.w].hsr = 0, !.em = em, !.fh = IF Bit(e.f, RDO) THEN @ ELSE -1]
  /\ ev' = [ev EXCEPT !.ro = IF Bit(e.f, RDO) THEN @ \cup Mates(e.w) ELSE @ \ Mates(e.w)]
MOpen(e) ==
  LET o == Peers(e.w) ro == Bit(e.f, RDO) ex == Bit(e.f, EXCLU) IN
  /\ UNCHANGED <<cm, tx, dh, cu, ce>>
  /\ CASE \E x \in o : Bit(pv.p[x].fl, EXCLU) -> e.r \in {BUSY, EAGAIN, EACCES} /\ UNCHANGED <<ev, pv>>
       [] ex /\ o # {} -> e.r \in {BUSY, EAGAIN, EACCES} /\ UNCHANGED <<ev, pv>>
       [] o = {} /\ ro /\ e.r = WANNAREC -> pv.lazy /\ UNCHANGED <<ev, pv>>
       [] o = {} -> e.r = 0 /\ OpenOk(e, e.f)
       [] ro -> e.r = 0 /\ OpenOk(e, pv.em)
       [] Bit(pv.em, RDO) -> e.r = 0 /\ OpenOk(e, e.f)
       [] Bit(e.f, ACCEDE) -> e.r = 0 /\ OpenOk(e, pv.em)
       [] Rigorous(e.f, pv.em) # Rigorous(pv.em, pv.em) -> e.r = INCOMPAT /\ UNCHANGED <<ev, pv>>
       [] OTHER -> e.r = 0 /\ OpenOk(e, pv.em)
MClose(e) ==
  /\ e.r \in {0, BUSY}
  /\ IF e.r = BUSY THEN (\E t \in TxOf(e.w) : IsWr(t) /\ tx[t].w # e.w) /\ UNCHANGED <<vars, pv>>
     ELSE /\ tx' = Lost(e.w) /\ dh' = [d \in DSlots |-> IF dh[d].w \in Mates(e.w) THEN NoDh ELSE dh[d]]
          /\ UNCHANGED <<cm, cu, ce>> /\ ev' = [ev EXCEPT !.ro = @ \ Mates(e.w)]
          /\ pv' = [pv EXCEPT !.p[e.w].st = "proc", !.p[e.w].fn = 0, !.fh = IF Bit(pv.p[e.w].fl, RDO) THEN @ ELSE -1]

(* ------------------------------------------------------- death of a process *)
Left(w) == {<<pv.p[w].uid, t, tx[t].id>> : t \in {x \in TxOf(w) : ~IsWr(x)}} \cup {<<pv.p[w].uid, 100 + k, pv.p[w].fi>> : k \in 1..pv.p[w].fn}
MDeath(e) ==
  LET w == e.w IN
  /\ tx' = Lost(w)
  /\ dh' = [d \in DSlots |-> IF dh[d].w = w THEN NoDh ELSE dh[d]]
  /\ cu' = [c \in CSlots |-> IF c \div 8 = w - 1 THEN NoCur ELSE cu[c]]
  /\ UNCHANGED <<ce>>
  /\ ev' = [ev EXCEPT !.ro = @ \ {w}]
  /\ pv' = [pv EXCEPT !.p[w] = NoProc, !.stale = @ \cup Left(w) \cup (IF e.e = "killin" THEN {<<pv.p[w].uid, 200, -2>>} ELSE {}) \cup (IF IsOpen(w) /\ ~ev.nst THEN {<<pv.p[w].uid, 300, -2>>} ELSE {}), !.lazy = IF IsOpen(w) /\ ~Bit(pv.p[w].fl, RDO) THEN TRUE ELSE @, !.fh = IF Bit(pv.p[w].fl, RDO) THEN @ ELSE -1]
  \* a commit during which the process died has taken place or not: the next snapshot tells
  /\ IF e.e = "killin" /\ e.op \in {"commit", "checkpoint"} /\ e.t \in TSlots /\ tx[e.t].st = "rw" /\ tx[e.t].p = -1 /\ ~AnyErr(e.t) /\ e.nid >= tx[e.t].id
     THEN \/ LET f == Folded(e.t) IN cm' = IF f.dirty THEN [id |-> f.id, db |-> f.db, can |-> f.can] ELSE [cm EXCEPT !.id = f.id]
          \/ e.amb = 1 /\ e.done = 0 /\ UNCHANGED cm
     ELSE UNCHANGED cm /\ (e.e = "killin" /\ e.done = 1 /\ e.op = "commit" /\ e.t \in TSlots /\ tx[e.t].st = "rw" /\ tx[e.t].p = -1 /\ tx[e.t].dirty /\ ~AnyErr(e.t) => e.nid < 0)

(* ------------------------------------------------------ registry of readers *)
OwnUid(t) == pv.p[Pr(tx[t].w)].uid
Holds == {t \in TSlots : tx[t].st \in {"ro", "park", "parka", "fin"}}         \* may have a slot
Sure == {t \in TSlots : tx[t].st = "ro"}                                     \* does have one
RECURSIVE SumF(_)
SumF(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN pv.p[x].fn + SumF(S \ {x})
Fills == SumF(WK)
MRList(e) ==
  LET I == 1..Len(e.l) Q == {<<e.l[i][1], e.l[i][2]>> : i \in I} IN
  /\ e.r = IF e.l = <<>> THEN RTRUE ELSE 0
  /\ \A q \in Q \cup {<<OwnUid(t), tx[t].id>> : t \in Sure} \cup {<<pv.p[w].uid, pv.p[w].fi>> : w \in {x \in WK : pv.p[x].fn > 0}} :
       LET n == Cardinality({i \in I : e.l[i][1] = q[1] /\ e.l[i][2] = q[2]})
           fl == SumF({w \in WK : pv.p[w].uid = q[1] /\ pv.p[w].fi = q[2]})
           lo == Cardinality({t \in Sure : OwnUid(t) = q[1] /\ tx[t].id = q[2]}) + fl
           hi == Cardinality({t \in Holds : tx[t].st # "fin" /\ OwnUid(t) = q[1] /\ tx[t].id = q[2]}) + fl + Cardinality({s \in pv.stale : s[1] = q[1] /\ s[3] \in {q[2], -2}}) IN
       IF q[2] = 0 THEN n <= Cardinality({t \in Holds : tx[t].st # "ro" /\ OwnUid(t) = q[1]}) + Cardinality({s \in pv.stale : s[1] = q[1]}) \/ ~ev.nst
       ELSE n >= lo /\ n <= hi
  \* one and the same latest state, not older than the last commit
  /\ \E h \in {cm.id} \cup {e.l[i][2] + e.l[i][3] : i \in {j \in I : e.l[j][2] # 0}} :
       /\ h >= cm.id /\ \A i \in I : e.l[i][2] = 0 \/ e.l[i][2] + e.l[i][3] = h
       /\ cm' = [cm EXCEPT !.id = h]
  /\ UNCHANGED <<tx, dh, cu, ev, ce, pv>>
(* every slot of a dead process, and no other, is freed *)
MRCheck(e) ==
  /\ e.dead >= 0 /\ e.dead <= Cardinality(pv.stale) /\ e.r = (IF e.dead > 0 THEN RTRUE ELSE 0)
  /\ pv' = [pv EXCEPT !.stale = {}] /\ UNCHANGED vars
Capacity(w) == pv.p[Pr(w)].mr
FullNow(w, n) == Cardinality(Holds) + Fills + n >= Capacity(w)
MFill(e) ==
  /\ \/ e.r = 0
     \/ e.r = READERSFULL /\ FullNow(e.w, e.n)
  /\ Cardinality(Sure) + Fills + e.n <= Capacity(e.w)
  /\ e.n > 0 => e.id >= cm.id
  /\ cm' = IF e.n > 0 THEN [cm EXCEPT !.id = e.id] ELSE cm
  /\ pv' = [pv EXCEPT !.p[Pr(e.w)].fn = @ + e.n, !.p[Pr(e.w)].fi = IF e.n > 0 THEN e.id ELSE @]
  /\ pv.p[Pr(e.w)].fn = 0
  /\ UNCHANGED <<tx, dh, cu, ev, ce>>
MDrain(e) == e.r = 0 /\ e.n = pv.p[Pr(e.w)].fn /\ pv' = [pv EXCEPT !.p[Pr(e.w)].fn = 0] /\ UNCHANGED vars
(* the handler is asked before the lack of space is reported because of a slow reader *)
Laggards(w) == {tx[t].id : t \in {x \in Sure : ~tx[x].err /\ tx[x].id < cm.id}} \cup {pv.p[x].fi : x \in {y \in WK : pv.p[y].fn > 0 /\ pv.p[y].fi < cm.id}}
HsrOk(e) ==
  /\ "hn" \in DOMAIN e => /\ pv.p[Pr(e.w)].hsr # 0
                          /\ e.hl \in Laggards(e.w) \/ e.hl \in {tx[t].id : t \in Holds}
  /\ ("r" \in DOMAIN e /\ e.r = MAPFULL /\ e.e \in {"put", "cput", "del", "cdel", "replace"} /\ pv.p[Pr(e.w)].hsr # 0 /\ Laggards(e.w) # {}) => "hn" \in DOMAIN e

(* ------------------------------------------------------------- simultaneous *)
RECURSIVE SumC(_, _)
SumC(x, i) == IF i > Len(x) THEN 0 ELSE (IF x[i].e = "racew" THEN Cardinality({j \in DOMAIN x[i].l : x[i].l[j][3] = 0}) ELSE 0) + SumC(x, i + 1)
(* write transactions are one after another in the order of their ids; readers
   see the last commit that was over before they started, or a later one *)
MRace(e) ==
  LET X == DOMAIN e.x
      WR == {i \in X : e.x[i].e = "racew"} RD == {i \in X : e.x[i].e = "racer"}
      CW == UNION {{e.x[i].l[j] : j \in {k \in DOMAIN e.x[i].l : e.x[i].l[k][3] = 0}} : i \in WR}
      NC == SumC(e.x, 1)
      G == {i \in X : dh[e.x[i].d].n >= 0}                      \* (a handle may be missing when the registry was full)
      n == IF G = {} THEN 0 ELSE dh[e.x[CHOOSE i \in G : TRUE].d].n
      s0 == cm.db[n].sq
      Before(id) == Cardinality({c \in CW : c[1] <= id})
      m == IF WR = {} THEN 0 ELSE e.x[CHOOSE i \in WR : TRUE].m
      Val(q) == 1 + (q % e.x[CHOOSE i \in WR : TRUE].v)
      d0 == cm.db[n].d
      Old(mm) == IF mm = 0 THEN 0 ELSE IF d0[1] # {} /\ \A k \in 1..mm : d0[k] = d0[1] THEN CHOOSE v \in d0[1] : TRUE ELSE -1 IN
  /\ \A i \in X : IF i \in G THEN (e.x[i].r = 0 \/ (i \in WR /\ Exhaust(e.x[i].r))) /\ dh[e.x[i].d].n = n ELSE e.x[i].r # 0 /\ e.x[i].l = <<>>
  /\ e.clash = 0 /\ Writers = {}
  /\ Cardinality(CW) = NC /\ Cardinality({c[1] : c \in CW}) = NC
  /\ \A c \in CW : c[1] > cm.id /\ c[2] = s0 + Before(c[1] - 1)
  /\ \A i \in WR : LET q == e.x[i].l IN
       /\ \A j \in DOMAIN q : /\ q[j][1] > cm.id
                              /\ q[j][3] = 1 => q[j][2] = s0 + Before(q[j][1] - 1)
       /\ \A j \in 2..Len(q) : q[j][1] > q[j - 1][1] \/ (q[j][1] = q[j - 1][1] /\ q[j - 1][3] = 1)
  /\ \A i \in RD : LET q == e.x[i].l IN
       /\ \A j \in DOMAIN q : /\ q[j][2] >= q[j][1] /\ q[j][2] >= cm.id
                              /\ q[j][3] = s0 + Before(q[j][2])
                              /\ q[j][4] = IF Before(q[j][2]) = 0 \/ m = 0 THEN Old(e.x[i].m) ELSE Val(q[j][3])
                              \* resumed: still the same snapshot
                              /\ q[j][5] = 1 => j > 1 /\ q[j][2] = q[j - 1][2]
       /\ \A j \in 2..Len(q) : q[j][2] >= q[j - 1][2]
  /\ cm' = IF CW = {} THEN cm ELSE [cm EXCEPT !.id = Top({c[1] : c \in CW}), !.db[n].sq = s0 + NC, !.db[n].d = IF m = 0 THEN @ ELSE [k \in DOMAIN @ |-> IF k <= m THEN {Val(s0 + NC)} ELSE @[k]]]
  /\ pv' = [pv EXCEPT !.fh = -1]
  /\ UNCHANGED <<tx, dh, cu, ev, ce>>
MHash(e) == (pv.fh = -1 \/ pv.fh = e.h) /\ pv' = [pv EXCEPT !.fh = e.h] /\ UNCHANGED vars

(* calls that leave the file alone whoever makes them *)
Quiet == {"note", "get", "getex", "getge", "cget", "ceof", "ccount", "dump", "enum", "canget", "dstat", "dflags", "estat", "gcinfo", "tinfo", "copen", "cclose", "reset", "renew", "refresh", "park", "unpark", "ecreate", "spawn", "hsr", "hsrq", "eopt", "batch", "cscan", "cscanf", "cdist"}
Touches(e) == ~(e.e \in Quiet \/ e.w \in ev.ro \/ (e.e = "begin" /\ Bit(e.f, RDO)) \/ (e.e \in {"abort", "commit"} /\ e.t \in TSlots /\ ~IsWr(e.t)))
MultiStep(e) ==
  CASE e.e = "case" -> Start(e) /\ pv' = NoPv
    [] e.e = "spawn" -> UNCHANGED vars /\ pv' = [pv EXCEPT !.p[e.w] = [NoProc EXCEPT !.st = "proc", !.uid = e.uid, !.th = e.kind = 1]]
    [] e.e = "eopen" -> MOpen(e)
    [] e.e = "eclose" -> MClose(e)
    [] e.e \in {"kill", "killin", "exit"} -> MDeath(e)
    [] e.e = "race" -> MRace(e)
    [] e.e = "filehash" -> MHash(e)
    \* nothing can be done without an open environment
    [] ~IsOpen(Pr(e.w)) /\ e.e \notin {"ecreate", "eopt", "egeo", "note", "join", "chkro", "hsr", "hsrq", "cclose", "copy", "rdrain"} -> e.r # 0 /\ UNCHANGED <<vars, pv>>
    [] e.e = "rlist" -> MRList(e)
    [] e.e = "rcheck" -> MRCheck(e)
    [] e.e = "rfill" -> MFill(e)
    [] e.e = "rdrain" -> MDrain(e)
    [] e.e = "hsr" -> UNCHANGED vars /\ e.r = 0 /\ pv' = [pv EXCEPT !.p[Pr(e.w)].hsr = e.m]
    [] e.e \in {"begin", "renew", "clone"} /\ e.r = READERSFULL -> FullNow(e.w, 0) /\ UNCHANGED <<vars, pv>>
    [] OTHER -> HsrOk(e) /\ Step(e) /\ pv' = (IF Touches(e) THEN [pv EXCEPT !.fh = -1] ELSE pv)
MultiInit == TraceInit /\ pv = NoPv
MultiNext == l <= Len(Trace) /\ l' = l + 1 /\ Room(l) /\ MultiStep(Trace[l])
MultiSpec == MultiInit /\ [][MultiNext]_mvars
=============================================================================
