----------------------------- MODULE MdbxPages -----------------------------
(* Pages on top of Mdbx and MdbxCrash.  After every call an independent reader of
   the file format has recorded which pages of the file changed during the call
   (chg, as spans), the state found if power were lost (sd), the size of the file (sz), the commit records (ml) and, for
   a new committed state, its pages and its free list (wk).
   - a page that belongs to the latest state, to the last durable one, or to the
     state of a live reader does not change and is not cut off;
   - in each committed state every page below the allocation boundary is either
     used once or free once, and all counters are true.                      *)
EXTENDS MdbxCrash

VARIABLE pg   \* [snap: id of a state -> its pages, as long as they are intact; last: id of the latest commit record, sd: of the durable one]
pvars == <<cvars, pg>>

Span(q) == UNION {q[2 * i - 1]..q[2 * i] : i \in 1..(Len(q) \div 2)}
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Newest(e) == IF e.ml = <<>> THEN 0 ELSE Max2({e.ml[i][1] : i \in DOMAIN e.ml})
Readers(x) == {x[t].id : t \in {u \in DOMAIN x : x[u].st = "ro" /\ ~x[u].err}}
Dozing(x) == {x[t].id : t \in {u \in DOMAIN x : x[u].st \in {"park", "parka"}}}

Whole(w) == /\ w.bad = 0 /\ w.fu <= w.now /\ w.lo <= w.now /\ w.now <= w.up
            /\ Span(w.own) \cap Span(w.free) = {}
            /\ Span(w.own) \cup Span(w.free) = 3..(w.fu - 1)
Ids(e) == {e.ml[i][1] : i \in DOMAIN e.ml}
(* what was changed, told apart by the state that losing power at that moment would have led to *)
SpanG(g) == Span(SubSeq(g, 2, Len(g)))
Changed(e) == UNION {SpanG(e.chg[i]) : i \in DOMAIN e.chg}
(* a state is known by its content: commits of nothing only change the id *)
Holds(st, d) == \E k \in DOMAIN d.s : Same(st, d.s[k])
Look(e) ==
  LET c == Changed(e)
      hit == {i \in DOMAIN pg.snap : pg.snap[i].p \cap c # {} \/ \E p \in pg.snap[i].p : p >= e.sz}
      ok == DOMAIN pg.snap \ hit
      fresh == {e.wk[j].id : j \in DOMAIN e.wk}
      left == [i \in ok \cup fresh |-> IF i \in fresh THEN [p |-> Span((e.wk[CHOOSE j \in DOMAIN e.wk : e.wk[j].id = i]).own), c |-> [db |-> cm'.db, can |-> cm'.can]] ELSE pg.snap[i]]
      last == Newest(e)
      \* a state committed within a call and followed by another one there has not been seen
      unseen == IF e.sd = pg.sd THEN pg.unseen ELSE e.sd > pg.last /\ e.sd < last
  IN
  /\ \A j \in DOMAIN e.wk : Whole(e.wk[j])
  /\ pg.last \notin hit \/ (e.e = "defrag" /\ last > pg.last + 1)    \* (several commits within one call)
  /\ Readers(tx) \cap hit = {}
  /\ \A i \in DOMAIN e.chg : e.chg[i][1] \in DOMAIN pg.snap => pg.snap[e.chg[i][1]].p \cap SpanG(e.chg[i]) = {}
  /\ last = 0 \/ last \in DOMAIN left
  /\ unseen \/ IF e.sd = 0 THEN du'.s = <<>> ELSE e.sd \in DOMAIN left /\ Holds(left[e.sd].c, du')
  /\ Readers(tx') \subseteq DOMAIN left
  /\ pg' = [snap |-> [i \in DOMAIN left \cap (Ids(e) \cup Readers(tx') \cup Dozing(tx') \cup {e.sd}) |-> left[i]], last |-> last, sd |-> e.sd, unseen |-> unseen]
PagesStep(e) ==
  /\ CrashStep(e)
  /\ IF e.e = "case" THEN pg' = [snap |-> <<>>, last |-> 0, sd |-> 0, unseen |-> FALSE]
     ELSE IF "chg" \in DOMAIN e THEN Look(e) ELSE pg' = pg
PagesInit == CrashInit /\ pg = [snap |-> <<>>, last |-> 0, sd |-> 0, unseen |-> FALSE]
PagesNext == l <= Len(Trace) /\ l' = l + 1 /\ PagesStep(Trace[l])
PagesSpec == PagesInit /\ [][PagesNext]_pvars
=============================================================================
