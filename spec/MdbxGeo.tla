------------------------------ MODULE MdbxGeo ------------------------------
(* The geometry on top of Mdbx, MdbxCrash and MdbxPages: what mdbx_env_set_geometry() makes of its arguments, when and how far
   the database may grow and shrink, and what the file has to hold meanwhile.
   An event carries g, the geometry of the committed state (in pages: lower, now, upper, growth step, shrink
   threshold, allocation boundary), the size of the file (sf, in bytes) and, within a write transaction, gt: the
   end and the allocation boundary as the innermost transaction sees them.            *)
EXTENDS MdbxPages

VARIABLE ge   \* [g: geometry of the committed state, sf: size of the file, tg: geometry of each open write transaction, the innermost last,
              \*  nx: boundary of the latest state and of those with live readers, pre: settings made before opening, ps: page size]
gvars == <<pvars, ge>>

OSPAGE == 4096   GRAN == 65536   EINVAL_ == 22   SLACK == 320   UNABLE == -30785
CeilTo(x, u) == ((x + u - 1) \div u) * u
MaxOf(a, b) == IF a > b THEN a ELSE b
None == [lo |-> 0, now |-> 0, up |-> 0, gr |-> 0, sh |-> 0, nx |-> 0, id |-> 0, st |-> 0]
Lims(g) == <<g.lo, g.up, g.gr, g.sh>>

(* ---- the meaning of the arguments; q: the values in force, used: pages which have to stay *)
Fit(lo, now, up, gr, sh, ps) ==
  LET lo1 == IF lo = 0 THEN 768 ELSE lo
      lo2 == IF lo1 \div ps < 3 THEN 3 * ps ELSE lo1
      unit == MaxOf(OSPAGE, ps)
      big == IF GRAN > unit /\ gr >= GRAN THEN GRAN ELSE unit
      lo3 == CeilTo(lo2, unit)   up3 == CeilTo(up, big)   now1 == CeilTo(IF now = 0 THEN lo2 ELSE now, big)
      now2 == IF now1 < lo3 THEN lo3 ELSE IF now1 > up3 THEN up3 ELSE now1
      gr1 == CeilTo(IF gr = 0 /\ sh > 0 THEN 1 ELSE gr, big)
  IN IF lo1 < 768 \/ lo1 > up \/ lo2 > up THEN [r |-> EINVAL_]
     ELSE [r |-> 0, lo |-> lo3 \div ps, now |-> now2 \div ps, up |-> up3 \div ps, gr |-> gr1 \div ps, sh |-> CeilTo(sh, big) \div ps]
Or(a, d) == IF a < 0 THEN d ELSE a
Asked(e, q, used, ps) ==
  LET up == Or(e.up, CeilTo(q.up * ps, OSPAGE))
      u == CeilTo(used * ps, OSPAGE)
  IN IF e.ps > 0 /\ e.ps # ps THEN [r |-> EINVAL_]
     ELSE IF up < u THEN [r |-> MAPFULL]
     ELSE Fit(Or(e.lo, q.lo * ps), MaxOf(Or(e.now, CeilTo(q.now * ps, OSPAGE)), u), up, Or(e.gr, q.gr * ps), Or(e.sh, q.sh * ps), ps)

(* ---- growing and shrinking *)
Snaps(x) == {x[t].id : t \in {u \in DOMAIN x : x[u].st \in {"ro", "park", "parka"} /\ ~x[u].err}}
Held(n, x) == {n[i] : i \in DOMAIN n \cap Snaps(x)}
Grown(q, a, b) == q.gr > 0 /\ b <= q.up /\ (b = q.up \/ b % q.gr = 0) /\ b <= a + q.gr + SLACK
Cut(q, a, b, keep) == q.sh > 0 /\ b >= q.lo /\ \A p \in keep : b >= p
Steps(q, a, b, keep) == IF b > a THEN Grown(q, a, b) ELSE IF b < a THEN Cut(q, a, b, keep) ELSE TRUE
Top == ge.tg[Len(ge.tg)]
Begins(e) == e.e = "begin" /\ e.r = 0 /\ ~Bit(e.f, 131072)
Goes(e) == e.e = "checkpoint" /\ e.r = 0 /\ Len(ge.tg) = 1     \* committed, to be continued
Ends(e) == e.e \in {"commit", "abort", "checkpoint"} /\ ge.tg # <<>> /\ e.t \in DOMAIN tx /\ tx[e.t].st = "rw" /\ tx'[e.t].st = "none"
(* what may not be cut off: the transaction itself and those around it, the latest state and the last steady one, those of the readers *)
Used == LET n == {ge.nx[i] : i \in DOMAIN ge.nx \cap (Snaps(tx) \cup {ge.g.id, ge.g.st})} IN Max2(n \cup {ge.tg[i].nx : i \in DOMAIN ge.tg})
(* mdbx_env_set_geometry() with the environment open *)
Set(e) == Asked(e, IF ge.tg = <<>> THEN ge.g ELSE Top, Used, ge.ps)
(* geometry of the write transactions after the call *)
Txns(e) ==
  LET n == Len(ge.tg) IN
  IF Begins(e) THEN Append(ge.tg, IF e.p = -1 THEN ge.g ELSE Top)
  ELSE IF Goes(e) THEN <<e.g>>
  ELSE IF Ends(e) THEN (IF n > 1 /\ e.e = "commit" /\ e.r = 0 THEN Append(SubSeq(ge.tg, 1, n - 2), Top) ELSE SubSeq(ge.tg, 1, n - 1))
  ELSE IF e.e = "egeo" /\ e.r = 0 /\ n > 0 THEN (LET s == Set(e) IN [ge.tg EXCEPT ![n] = [@ EXCEPT !.lo = s.lo, !.now = s.now, !.up = s.up, !.gr = s.gr, !.sh = s.sh]])
  ELSE ge.tg
Seen(e, q) == IF q = <<>> THEN <<>> ELSE [q EXCEPT ![Len(q)] = [@ EXCEPT !.now = e.gt[1], !.nx = e.gt[2]]]
TxnsOk(e) ==
  LET q == Txns(e)
      m == Len(q)
  IN /\ ("gt" \in DOMAIN e) = (m > 0)
     /\ m > 0 => /\ IF Begins(e) \/ Ends(e) \/ Goes(e) \/ e.e = "egeo" THEN e.gt[1] = q[m].now /\ (e.e # "egeo" => e.gt[2] = q[m].nx \/ (e.e = "commit" /\ e.gt[2] < q[m].nx))
                    ELSE e.gt[1] = q[m].now \/ Grown(q[m], q[m].now, e.gt[1])
                 /\ e.gt[2] <= e.gt[1] /\ e.gt[1] <= q[m].up /\ e.sf >= e.gt[1] * ge.ps
(* the committed geometry after the call *)
GHead(e) ==
  LET g == ge.g
      last == Goes(e) \/ (Ends(e) /\ Len(ge.tg) = 1 /\ e.e = "commit" /\ e.r = 0)
      q == IF last THEN Top ELSE IF e.e = "egeo" /\ e.r = 0 /\ ge.tg = <<>> THEN Set(e) ELSE g
      keep == Held(ge.nx, tx') \cup {e.g.nx} \cup (IF last THEN {g.nx} ELSE {})
  IN IF e.g.id = g.id THEN [e.g EXCEPT !.st = 0] = [g EXCEPT !.st = 0] /\ Lims(q) = Lims(g)
     ELSE /\ e.g.id > g.id /\ Lims(e.g) = Lims(q)
          /\ last \/ e.g.nx = g.nx
          /\ Steps(q, q.now, e.g.now, keep)
          /\ last => e.g.now * ge.ps <= e.sf
(* settings made before opening apply at opening, unless there is already more than they allow *)
GOpened(e) ==
  /\ IF ge.pre # <<>> THEN LET q == ge.pre[1] IN Lims(e.g) = <<q.lo, MaxOf(q.up, CeilTo(e.g.nx * e.ps, GRAN) \div e.ps), q.gr, q.sh>>
     ELSE ge.g = None \/ (Lims(e.g) = Lims(ge.g))
  /\ ge.g = None \/ e.g.nx = ge.g.nx
Sane(e) ==
  /\ e.g.lo <= e.g.now /\ e.g.now <= e.g.up /\ e.g.nx <= e.g.now
  /\ e.sf % OSPAGE = 0 /\ e.sf >= e.g.nx * ge'.ps /\ (e.g.st \in DOMAIN ge'.nx => e.sf >= ge'.nx[e.g.st] * ge'.ps) /\ \A p \in Held(ge.nx, tx') : e.sf >= p * ge'.ps
  /\ e.sf <= MaxOf(ge.sf, CeilTo((IF e.e = "egeo" /\ Set(e).r = 0 THEN Set(e).up ELSE IF ge'.tg = <<>> THEN e.g.up ELSE MaxOf(e.g.up, ge'.tg[Len(ge'.tg)].up)) * ge'.ps, OSPAGE))
(* running out of pages is for the limit only *)
Limit(e) == (ge.tg # <<>> /\ e.e # "egeo" /\ "r" \in DOMAIN e /\ e.r = MAPFULL) => (Top.nx + SLACK > Top.up \/ (Top.gr = 0 /\ Top.nx + SLACK > Top.now))
Kept(e) == LET ids == Snaps(tx') \cup {e.g.id, e.g.st} IN [i \in {j \in ids : j = e.g.id \/ j \in DOMAIN ge.nx} |-> IF i = e.g.id THEN e.g.nx ELSE ge.nx[i]]

Geometry(e) ==
  IF e.e = "case" THEN ge' = [g |-> None, sf |-> 0, tg |-> <<>>, nx |-> <<>>, pre |-> <<>>, ps |-> 0]
  ELSE IF "g" \notin DOMAIN e
       THEN /\ ge' = [ge EXCEPT !.pre = IF e.e = "ecreate" THEN <<>> ELSE IF e.e = "egeo" /\ e.r = 0 THEN <<Fit(e.lo, e.now, e.up, e.gr, e.sh, e.ps)>> ELSE @,
                                !.nx = IF e.e = "eclose" THEN <<>> ELSE @, !.ps = IF e.e = "egeo" /\ e.r = 0 THEN e.ps ELSE @]
            /\ e.e = "egeo" => Fit(e.lo, e.now, e.up, e.gr, e.sh, e.ps).r = e.r
  ELSE IF e.e = "eopen" THEN GOpened(e) /\ ge' = [ge EXCEPT !.g = e.g, !.sf = e.sf, !.tg = <<>>, !.nx = [i \in {e.g.id} |-> e.g.nx], !.ps = e.ps] /\ Sane(e)
  ELSE /\ e.e = "egeo" => e.r = Set(e).r \/ (e.r \in {UNABLE, 1} /\ Set(e).r = 0 /\ (ev.nst \/ ge.tg # <<>> \/ Snaps(tx) # {}))   \* (the mapping can't be moved)
       /\ Limit(e) /\ TxnsOk(e)
       /\ ge' = [ge EXCEPT !.g = e.g, !.sf = e.sf, !.tg = Seen(e, Txns(e)), !.nx = Kept(e)]
       /\ GHead(e) /\ Sane(e)

GeoStep(e) == PagesStep(e) /\ Geometry(e)
GeoInit == PagesInit /\ ge = [g |-> None, sf |-> 0, tg |-> <<>>, nx |-> <<>>, pre |-> <<>>, ps |-> 0]
GeoNext == l <= Len(Trace) /\ l' = l + 1 /\ GeoStep(Trace[l])
GeoSpec == GeoInit /\ [][GeoNext]_gvars
=============================================================================
