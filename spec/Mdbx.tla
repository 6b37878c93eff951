------------------------------- MODULE Mdbx -------------------------------
(***************************************************************************)
(* Abstract specification of the database as seen through its API:         *)
(* committed snapshots, one writer with a stack of nested transactions,    *)
(* any number of readers, tables that are ordered maps or multimaps,       *)
(* cursors as positions in the order, persistent counters.                 *)
(*                                                                         *)
(* One action per public call, taken at its return.  Every action takes    *)
(* the arguments and the observed results of the call: the action is       *)
(* enabled iff the specification admits these results, and then performs   *)
(* the state change.  Mdbx_MC explores the actions exhaustively with all   *)
(* results, MdbxTrace with the results recorded from the implementation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cm,   \* latest committed state [id, tb, can]
  tx,   \* transaction handles
  dh,   \* table handles: [n |-> table name, st |-> "live"/"none", own |-> txn that opened it or -1]
  cu,   \* cursors
  ev,   \* environment: [open, K, ...]
  ce    \* lookup-cache entries: slot -> [id |-> last confirmed, ...]
vars == <<cm, tx, dh, cu, ev, ce>>

--------------------------------------------------------------------------
(* Error codes *)
RTRUE == -1          \* "result true"
KEYEXIST == -30799   NOTFOUND == -30798   CORRUPTED == -30796  PANIC == -30795
MAPFULL == -30792    DBSFULL == -30791    READERSFULL == -30790 TXNFULL == -30788
INCOMPAT == -30784   BADTXN == -30782     BADVALSIZE == -30781  BADDBI == -30780
PROBLEM == -30779    BUSY == -30778       EMULTIVAL == -30421   EBADSIGN == -30420
EKEYMISMATCH == -30418 TMISMATCH == -30416 OVERLAP == -30415 BADRSLOT == -30783 DANGLING == -30412
OUSTED == -30411     RETARDED == -30410   LAGGARD == -30409
ENODATA == 61  EINVAL == 22  EACCES == 13  EPERM == 1  ENOENT == 2

Bit(f, b) == (f \div b) % 2 = 1
(* put flags *)
FNOOVER == 16  FNODUP == 32  FCURRENT == 64  FALLDUPS == 128
FRESERVE == 65536  FAPPEND == 131072  FAPPENDDUP == 262144 FMULTIPLE == 524288
(* table flags *)
DUPSORT == 4  DUPFIXED == 16
NoFlags(f) == f = 0

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE MaxDown(_, _)
MaxDown(S, n) == IF n \in S THEN n ELSE MaxDown(S, n - 1)
Max(S) == MaxDown(S, ev.V)
Rng(s) == {s[i] : i \in DOMAIN s}

--------------------------------------------------------------------------
(* Table content: a tuple indexed by key rank, of sets of value ranks. *)
RECURSIVE NK(_, _)
NK(d, k) == IF k > Len(d) THEN 0 ELSE IF d[k] # {} THEN k ELSE NK(d, k + 1)   \* least key >= k, 0 if none
RECURSIVE PK(_, _)
PK(d, k) == IF k < 1 THEN 0 ELSE IF d[k] # {} THEN k ELSE PK(d, k - 1)         \* greatest key <= k
FirstP(d) == LET k == NK(d, 1) IN IF k = 0 THEN <<0, 0>> ELSE <<k, Min(d[k])>>
LastP(d)  == LET k == PK(d, Len(d)) IN IF k = 0 THEN <<0, 0>> ELSE <<k, Max(d[k])>>
NextKeyP(d, k) == LET j == NK(d, k + 1) IN IF j = 0 THEN <<0, 0>> ELSE <<j, Min(d[j])>>
PrevKeyP(d, k) == LET j == PK(d, k - 1) IN IF j = 0 THEN <<0, 0>> ELSE <<j, Max(d[j])>>
Above(s, v) == {x \in s : x > v}
Below(s, v) == {x \in s : x < v}
NextP(d, k, v) == LET a == Above(d[k], v) IN IF a # {} THEN <<k, Min(a)>> ELSE NextKeyP(d, k)
PrevP(d, k, v) == LET b == Below(d[k], v) IN IF b # {} THEN <<k, Max(b)>> ELSE PrevKeyP(d, k)
RECURSIVE CountFrom(_, _)
CountFrom(d, i) == IF i > Len(d) THEN 0 ELSE Cardinality(d[i]) + CountFrom(d, i + 1)
Entries(d) == CountFrom(d, 1)
(* number of pairs strictly before (k,v) *)
RECURSIVE CountRange(_, _, _)
CountRange(d, i, j) == IF i > j THEN 0 ELSE Cardinality(d[i]) + CountRange(d, i + 1, j)
Ord(d, k, v) == CountRange(d, 1, k - 1) + Cardinality(Below(d[k], v))
(* n-th pair, 1-based *)
RECURSIVE NthFrom(_, _, _)
NthVal(s, n) == CHOOSE x \in s : Cardinality(Below(s, x)) = n - 1
NthFrom(d, i, n) == IF i > Len(d) THEN <<0, 0>>
                    ELSE LET c == Cardinality(d[i]) IN IF n <= c THEN <<i, NthVal(d[i], n)>> ELSE NthFrom(d, i + 1, n - c)
Nth(d, n) == IF n < 1 THEN <<0, 0>> ELSE NthFrom(d, 1, n)
Empty == [i \in 1..ev.K |-> {}]

NoTable == [ex |-> FALSE, fl |-> 0, sq |-> 0, d |-> <<>>]
NewTable(fl) == [ex |-> TRUE, fl |-> fl, sq |-> 0, d |-> Empty]
Names == 0..9

--------------------------------------------------------------------------
(* Transactions.
   st : "none" | "ro" | "rw" | "rof" (read-only nested) | "fin" (finished read-only handle,
        to be renewed) | "park" | "parka" (parked, resumes by itself)
   err: broken; p/ch: parent/child handle or -1; id: transaction id
   db, can: the data it sees; sv: cursors at its begin (nested only)     *)
NoTxn == [st |-> "none", err |-> FALSE, p |-> -1, ch |-> -1, id |-> 0, db |-> <<>>, can |-> <<0, 0, 0, 0>>,
          w |-> 0, dirty |-> FALSE, sv |-> <<>>, ds |-> <<>>]
TSlots == DOMAIN tx   DSlots == DOMAIN dh   CSlots == DOMAIN cu
NoCur == [st |-> "none", t |-> -1, o |-> -1, d |-> -1, k |-> 0, v |-> 0]
NoDh == [n |-> -1, own |-> -1, w |-> 0, fl |-> 0, ln |-> -1, num |-> -1, cr |-> FALSE]
Kill(d) == [dh[d] EXCEPT !.n = -1, !.own = -1]   \* closed: the number stays known and may come back

Writers == {t \in TSlots : tx[t].st \in {"rw", "rof"}}
RECURSIVE Leaf(_)
Leaf(t) == IF tx[t].ch = -1 THEN t ELSE Leaf(tx[t].ch)
RECURSIVE Kids(_)
Kids(t) == IF tx[t].ch = -1 THEN {} ELSE {tx[t].ch} \cup Kids(tx[t].ch)
RECURSIVE Ancestors(_)
Ancestors(t) == IF t = -1 THEN {} ELSE {t} \cup Ancestors(tx[t].p)
Root(t) == CHOOSE a \in Ancestors(t) : tx[a].p = -1

IsWr(t) == tx[t].st \in {"rw", "rof"}
Live(t) == tx[t].st \in {"ro", "rw", "rof", "park", "parka"}
Tb(t, d) == tx[t].db[dh[d].n]
IsDup(T) == Bit(T.fl, DUPSORT)

(* Admissible refusals of using handle t, and whether it may be used.  A
   parked reader that resumes by itself is either still in place or ousted. *)
CanRead(t) == tx[t].st \in {"ro", "rw", "rof", "parka"} /\ tx[t].ch = -1 /\ ~tx[t].err
CanWrite(t) == tx[t].st = "rw" /\ tx[t].ch = -1 /\ ~tx[t].err
RefuseRead(t) == CASE tx[t].st = "none" -> EINVAL [] OTHER -> BADTXN
RefuseWrite(t) == CASE tx[t].st = "none" -> EINVAL
                    [] tx[t].st = "rw" -> BADTXN
                    [] OTHER -> EACCES
(* reading through a self-resuming parked transaction un-parks it *)
Wake(t) == IF tx[t].st = "parka" THEN [tx EXCEPT ![t].st = "ro"] ELSE tx
Oust(t) == [tx EXCEPT ![t].st = "fin", ![t].err = FALSE]
DhOk(t, d) == d \in DSlots /\ dh[d].n >= 0 /\ (t = -1 \/ (dh[d].n \in DOMAIN tx[t].db /\ tx[t].db[dh[d].n].ex))
(* a handle first opened in a nested transaction since aborted may have to be opened again *)
DhBad(e) == IF ~DhOk(e.t, e.d) THEN TRUE ELSE (e.r \in {INCOMPAT, BADDBI} /\ tx[e.t].st # "rw" /\ dh[e.d].fl # Tb(e.t, e.d).fl) \/ (e.r = BADDBI /\ (dh[e.d].own = -2 \/ dh[e.d].num \in ev.vn))
SetTb(t, n, x) == [tx EXCEPT ![t].db[n] = x, ![t].dirty = TRUE]

(* Frame for a read: refused, ousted, or done with result P *)
ReadOp(e, P) ==
  /\ IF ~CanRead(e.t) THEN e.r = RefuseRead(e.t) /\ UNCHANGED tx
     ELSE IF tx[e.t].st = "parka" /\ e.r = OUSTED THEN ev.oust /\ tx' = Oust(e.t)
     ELSE IF DhBad(e) THEN e.r \in {BADDBI, NOTFOUND, INCOMPAT} /\ tx' = Wake(e.t)
     ELSE P /\ tx' = Wake(e.t)
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>

(* A write that runs out of space or of dirty-page room fails and breaks
   the transaction, when the case is set up to get there. *)
Exhaust(r) == r \in {MAPFULL, TXNFULL} /\ ev.full
BreakTx(t) == [tx EXCEPT ![t].err = TRUE]

--------------------------------------------------------------------------
(* Point operations. *)
GetRes(T, k) == IF k > Len(T.d) \/ T.d[k] = {} THEN [r |-> NOTFOUND, k |-> 0, v |-> 0, n |-> 0]
                ELSE [r |-> 0, k |-> k, v |-> Min(T.d[k]), n |-> Cardinality(T.d[k])]
(* with a value in a multi-value table the exact pair is searched *)
GetVRes(T, k, v) ==
  IF IsDup(T) /\ v # 0 THEN IF v \in T.d[k] THEN [r |-> 0, k |-> k, v |-> v] ELSE [r |-> NOTFOUND, k |-> 0, v |-> 0]
  ELSE GetRes(T, k)
(* lower bound of a key or a pair *)
GetGeRes(T, k, v) ==
  IF IsDup(T) /\ v # 0 THEN
    LET s == {x \in T.d[k] : x >= v} IN
    IF s # {} THEN [r |-> IF Min(s) = v THEN 0 ELSE RTRUE, k |-> k, v |-> Min(s)]
    ELSE LET p == NextKeyP(T.d, k) IN IF p[1] = 0 THEN [r |-> NOTFOUND, k |-> 0, v |-> 0] ELSE [r |-> RTRUE, k |-> p[1], v |-> p[2]]
  ELSE LET j == NK(T.d, k) IN
       IF j = 0 THEN [r |-> NOTFOUND, k |-> 0, v |-> 0]
       ELSE [r |-> IF j = k /\ ~IsDup(T) THEN 0 ELSE RTRUE, k |-> j, v |-> Min(T.d[j])]

(* put of (k, v) with flags f: result and new set of values of k *)
PutRes(T, k, v, f, hint) ==
  LET s == T.d[k] dup == IsDup(T)
      last == PK(T.d, Len(T.d))
      ok(new) == [r |-> 0, s |-> new]
      no(x) == [r |-> x, s |-> s] IN
  IF Bit(f, FRESERVE) /\ dup THEN no(INCOMPAT)
  ELSE IF Bit(f, FCURRENT) THEN                      \* overwrite of an existing key
     IF s = {} THEN no(NOTFOUND)
     ELSE IF dup /\ Cardinality(s) > 1 /\ ~Bit(f, FALLDUPS) /\ Bit(f, FNOOVER) THEN no(EMULTIVAL)
     ELSE IF Bit(f, FNOOVER) \/ Bit(f, FAPPEND) THEN no(EINVAL)
     ELSE ok({v})
  ELSE IF Bit(f, FAPPEND) /\ last # 0 /\ k < last THEN no(EKEYMISMATCH)
  ELSE IF s = {} THEN ok({v})
  ELSE IF Bit(f, FNOOVER) THEN no(KEYEXIST)
  ELSE IF ~dup THEN ok({v})
  ELSE IF Bit(f, FALLDUPS) THEN ok({v})
  ELSE IF v \in s THEN IF Bit(f, FNODUP) THEN no(KEYEXIST)
                       ELSE IF Bit(f, FAPPENDDUP) /\ (Cardinality(s) > 1 \/ hint = EKEYMISMATCH) THEN no(EKEYMISMATCH) ELSE ok(s)
  ELSE IF Bit(f, FAPPENDDUP) /\ v < Max(s) THEN no(EKEYMISMATCH)
  ELSE ok(s \cup {v})

DelRes(T, k, v) ==
  LET s == T.d[k] IN
  IF s = {} THEN [r |-> NOTFOUND, s |-> s]
  ELSE IF v = 0 THEN [r |-> 0, s |-> {}]
  ELSE IF v \in s THEN [r |-> 0, s |-> s \ {v}]
  ELSE [r |-> NOTFOUND, s |-> s]

(* replace: new value v (0: delete), current value ov to choose in a
   multi-value table (0: any).  old: value reported *)
RepRes(T, k, v, ov, f) ==
  LET s == T.d[k] dup == IsDup(T)
      no(x) == [r |-> x, s |-> s, old |-> 0] IN
  IF v = 0 /\ ~Bit(f, FCURRENT) THEN no(EINVAL)
  ELSE IF Bit(f, FCURRENT) /\ Bit(f, FNOOVER) THEN
     IF ~dup THEN no(EINVAL)
     ELSE IF ov \notin s THEN no(NOTFOUND)
     ELSE IF v = 0 THEN [r |-> 0, s |-> IF Bit(f, FALLDUPS) THEN {} ELSE s \ {ov}, old |-> 0]
     ELSE [r |-> 0, s |-> IF Bit(f, FALLDUPS) /\ Cardinality(s) > 1 THEN {v} ELSE (s \ {ov}) \cup {v}, old |-> 0]
  ELSE IF s = {} THEN IF Bit(f, FCURRENT) THEN no(NOTFOUND)
                      ELSE [PutRes(T, k, v, f, 0) EXCEPT !.r = @] @@ [old |-> 0]
  ELSE IF Bit(f, FNOOVER) THEN no(KEYEXIST)
  ELSE IF dup /\ Cardinality(s) > 1 /\ Bit(f, FCURRENT) THEN no(EMULTIVAL)
  ELSE IF v = 0 THEN [r |-> 0, s |-> {}, old |-> Min(s)]
  ELSE IF dup /\ Cardinality(s) > 1 THEN [r |-> 0, s |-> (s \ {Min(s)}) \cup {v}, old |-> Min(s)]
  ELSE [r |-> 0, s |-> {v}, old |-> Min(s)]

--------------------------------------------------------------------------
(* Cursors.  t: transaction it works in, o: transaction it was opened in.
   st: "none"  closed        "unb"   not bound to a transaction
       "fresh" never positioned: next = first, prev = last
       "at"    on the pair (k,v)
       "eof"   on the last pair (k,v), after moving past it
       "gap"   the pair (k,v) has been deleted: on the pair that follows
       "pos"   reads (k,v), where it moves from here is not determined
       "unk"   position not determined by the documentation              *)
Ok(k, v) == [r |-> 0, k |-> k, v |-> v, st |-> "at"]
OkP(p) == IF p[1] = 0 THEN [r |-> NOTFOUND, k |-> 0, v |-> 0, st |-> "unk"] ELSE Ok(p[1], p[2])
TrueP(p) == IF p[1] = 0 THEN [r |-> NOTFOUND, k |-> 0, v |-> 0, st |-> "unk"] ELSE [Ok(p[1], p[2]) EXCEPT !.r = RTRUE]
Fail(x) == [r |-> x, k |-> 0, v |-> 0, st |-> "unk"]
Unspec == [r |-> 7777, k |-> 0, v |-> 0, st |-> "unk"]     \* anything that exists

SeekKey(T, op, k, v) ==
  LET d == T.d dup == IsDup(T) s == d[k] IN
  CASE op \in {15, 16, 23} -> IF s = {} THEN Fail(NOTFOUND) ELSE Ok(k, Min(s))
    [] op \in {17, 24} -> OkP(IF s # {} THEN <<k, Min(s)>> ELSE NextKeyP(d, k))
    [] op = 25 -> OkP(NextKeyP(d, k))
    [] op = 21 -> OkP(PrevKeyP(d, k))
    [] op = 22 -> IF s # {} THEN Ok(k, Min(s)) ELSE OkP(PrevKeyP(d, k))
    [] op = 2 -> IF ~dup THEN Fail(INCOMPAT) ELSE IF v \in s THEN Ok(k, v) ELSE Fail(NOTFOUND)
    [] op = 3 -> IF ~dup THEN Fail(INCOMPAT)
                 ELSE LET a == {x \in s : x >= v} IN IF a # {} THEN Ok(k, Min(a)) ELSE Fail(NOTFOUND)
    [] op \in {19, 20} ->
         LET p == IF s # {} /\ (~dup \/ v = 0) THEN <<k, Min(s)>>
                  ELSE LET a == {x \in s : x >= v} IN IF a # {} THEN <<k, Min(a)>> ELSE NextKeyP(d, k)
             exact == s # {} /\ (~dup \/ v \in s) IN
         IF op = 19 THEN IF p[1] # 0 /\ exact THEN Ok(p[1], p[2]) ELSE TrueP(p)
         ELSE IF p[1] # 0 /\ exact THEN OkP(NextP(d, p[1], p[2])) ELSE OkP(p)
    [] op \in 26..30 ->
         IF s = {} THEN Fail(NOTFOUND) ELSE
         LET in == CASE op = 26 -> {x \in s : x < v} [] op = 27 -> {x \in s : x <= v} [] op = 28 -> {x \in s : x = v}
                     [] op = 29 -> {x \in s : x >= v} [] op = 30 -> {x \in s : x > v} IN
         IF in = {} THEN Fail(NOTFOUND) ELSE IF op <= 27 THEN Ok(k, Max(in)) ELSE Ok(k, Min(in))
    [] op \in 31..35 ->
         LET in == CASE op = 31 -> {x \in s : x < v} [] op = 32 -> {x \in s : x <= v} [] op = 33 -> {x \in s : x = v}
                     [] op = 34 -> {x \in s : x >= v} [] op = 35 -> {x \in s : x > v} IN
         IF op = 33 THEN IF in = {} THEN Fail(NOTFOUND) ELSE Ok(k, v)
         ELSE IF in # {} THEN IF op <= 32 THEN Ok(k, Max(in)) ELSE Ok(k, Min(in))
         ELSE IF op <= 32 THEN OkP(PrevKeyP(d, k)) ELSE OkP(NextKeyP(d, k))
    [] OTHER -> Unspec

(* relative moves and reads *)
MoveRes(T, q, op) ==
  LET d == T.d k == q.k v == q.v st == q.st
      first == FirstP(d) last == LastP(d)
      gone == [r |-> NOTFOUND, k |-> 0, v |-> 0, st |-> "unk"]
      eofAt == [r |-> NOTFOUND, k |-> k, v |-> v, st |-> "eof"] IN
  IF op = 0 THEN OkP(first) ELSE IF op = 6 THEN OkP(last)
  ELSE IF st = "fresh" THEN
     CASE op = 4 -> [Fail(ENODATA) EXCEPT !.st = "fresh"]
       [] op \in {8, 11} -> OkP(first)
       [] op \in {12, 14} -> OkP(last)
       [] OTHER -> Unspec
  ELSE IF st = "at" THEN
     CASE op = 4 -> Ok(k, v)
       [] op = 8 -> LET p == NextP(d, k, v) IN IF p[1] # 0 THEN Ok(p[1], p[2]) ELSE eofAt
       [] op = 11 -> LET p == NextKeyP(d, k) IN IF p[1] # 0 THEN Ok(p[1], p[2]) ELSE [eofAt EXCEPT !.st = IF Cardinality(d[k]) > 1 THEN "unk" ELSE "eof"]
       [] op = 9 -> LET a == Above(d[k], v) IN IF a # {} THEN Ok(k, Min(a)) ELSE gone
       [] op = 12 -> LET p == PrevP(d, k, v) IN IF p[1] # 0 THEN Ok(p[1], p[2]) ELSE gone
       [] op = 14 -> LET p == PrevKeyP(d, k) IN IF p[1] # 0 THEN Ok(p[1], p[2]) ELSE gone
       [] op = 13 -> LET b == Below(d[k], v) IN IF b # {} THEN Ok(k, Max(b)) ELSE gone
       [] op = 1 -> Ok(k, Min(d[k]))
       [] op = 7 -> Ok(k, Max(d[k]))
       [] OTHER -> Unspec
  ELSE IF st = "eof" THEN
     CASE op = 4 -> [Ok(k, v) EXCEPT !.st = "eof"]
       [] op \in {8, 11} -> eofAt
       [] OTHER -> Unspec
  ELSE IF st = "pos" THEN IF op = 4 THEN [Ok(k, v) EXCEPT !.st = "pos"] ELSE Unspec
  ELSE IF st = "gap" THEN
     LET p == NextP(d, k, v) IN
     CASE op \in {4, 8} -> IF p[1] # 0 THEN Ok(p[1], p[2]) ELSE Unspec
       [] OTHER -> Unspec
  ELSE Unspec

Rel == {0, 1, 4, 6, 7, 8, 9, 11, 12, 13, 14}
CurRes(T, q, op, k, v) == IF op \in Rel THEN MoveRes(T, q, op) ELSE SeekKey(T, op, k, v)
InD(d, k, v) == k \in DOMAIN d /\ v \in d[k]

(* Effect of a change of table n in transaction w, from od to nd, on the
   cursors other than those in X. *)
FixQ(q, od, nd, dup, del, all) ==   \* all: key whose values were all replaced by one, or 0
  CASE q.st \in {"at", "pos"} /\ q.k = all -> [q EXCEPT !.st = "unk"]
    [] q.st = "gap" /\ all # 0 /\ (q.k = all \/ NextP(od, q.k, q.v)[1] = all) -> [q EXCEPT !.st = "unk"]
    [] q.st = "at" -> IF InD(nd, q.k, q.v) THEN IF (<<q.k, q.v>> = LastP(od) /\ (<<q.k, q.v>> # LastP(nd) \/ (~del /\ od[q.k] # nd[q.k]))) \/ (dup /\ Above(od[q.k], q.v) = {} /\ Above(nd[q.k], q.v) # {}) THEN [q EXCEPT !.st = "unk"] ELSE q   \* no longer the end of data
                      ELSE IF ~dup /\ nd[q.k] # {} THEN [q EXCEPT !.v = Min(nd[q.k])]       \* new value of the key
                      ELSE IF ~del THEN [q EXCEPT !.st = "unk"]                             \* values replaced
                      ELSE [q EXCEPT !.st = "gap"]
    [] q.st = "gap" -> LET a == NextP(od, q.k, q.v) b == NextP(nd, q.k, q.v) IN
                       IF InD(nd, q.k, q.v) \/ (~del /\ (nd[q.k] # od[q.k] \/ a # b)) \/ (b # a /\ b[1] # 0 /\ (a[1] = 0 \/ b[1] < a[1] \/ (b[1] = a[1] /\ b[2] < a[2]))) THEN [q EXCEPT !.st = "unk"] ELSE q
    [] q.st = "pos" -> [q EXCEPT !.st = "unk"]
    [] q.st = "eof" -> [q EXCEPT !.st = "unk"]
    [] OTHER -> q
\* many pairs deleted at once: a cursor on a deleted pair is lost
FixBulk(q, od, nd, dup) == IF q.st = "at" /\ InD(nd, q.k, q.v) THEN FixQ(q, od, nd, dup, TRUE, 0) ELSE [q EXCEPT !.st = "unk"]
Fix(X, n, w, od, nd, dup, e) ==
  LET all == IF dup /\ e.e \in {"put", "cput", "replace"} /\ (Bit(e.f, FALLDUPS) \/ (e.e = "put" /\ Bit(e.f, FCURRENT))) THEN e.k ELSE 0 IN
  IF od = nd /\ all = 0 THEN cu ELSE
  [c \in CSlots |-> IF c \notin X /\ cu[c].st \in {"at", "eof", "gap", "pos"} /\ cu[c].t >= 0 /\ Leaf(cu[c].t) = w /\ dh[cu[c].d].n = n
                    THEN IF e.e \in {"cdelr", "cbunch"} THEN FixBulk(cu[c], od, nd, dup) ELSE FixQ(cu[c], od, nd, dup, e.e \in {"del", "cdel"}, all) ELSE cu[c]]

--------------------------------------------------------------------------
(* ACTIONS.  e is the call: arguments and results. *)

(* transactions *)

(* When transactions are tied to threads, a thread has one reader slot, and
   a writing thread cannot begin to read: t cannot get a snapshot. *)
Clash(e, t) == /\ e.r \in {OVERLAP, BADRSLOT, BUSY} /\ ~ev.nst
               /\ \E o \in TSlots \ {t} : tx[o].st # "none" /\ tx[o].w = e.w
EndCu(q, S) == [c \in CSlots |-> IF q[c].o \in S /\ q[c].st # "none" THEN [q[c] EXCEPT !.st = "unb", !.t = -1, !.o = -1, !.d = -1] ELSE q[c]]
\* the reader handle is left as it was, or finished
LeftOrFin(t) == \/ UNCHANGED <<tx, cu, cm>>
                \/ tx' = Oust(t) /\ cu' = EndCu(cu, {t}) /\ UNCHANGED cm
                \/ tx' = Oust(t) /\ UNCHANGED <<cu, cm>>

BeginRead(e) ==
  /\ e.p = -1 /\ Bit(e.f, 131072)
  /\ IF e.r = 0
     THEN /\ tx[e.t].st = "none"
          /\ IF Bit(e.f, 16777216)  \* prepared only
             THEN tx' = [tx EXCEPT ![e.t] = [NoTxn EXCEPT !.st = "fin", !.w = e.w]] /\ UNCHANGED cm
             ELSE /\ e.id >= cm.id       \* the latest committed state
                  /\ e.id > cm.id => ev.bump
                  /\ cm' = [cm EXCEPT !.id = e.id]
                  /\ tx' = [tx EXCEPT ![e.t] = [NoTxn EXCEPT !.st = "ro", !.w = e.w, !.id = e.id, !.db = cm.db, !.can = cm.can]]
     ELSE /\ \/ e.r = READERSFULL /\ ev.full
             \/ Clash(e, e.t)
             \/ e.r = PANIC /\ ev.fault
          /\ UNCHANGED <<tx, cm>>
  /\ UNCHANGED <<dh, cu, ev, ce>>

BeginWrite(e) ==
  /\ e.p = -1 /\ ~Bit(e.f, 131072)
  /\ IF e.r = 0
     THEN /\ tx[e.t].st = "none"
          /\ Writers = {}                           \* at most one writer
          /\ e.w \notin ev.ro
          /\ e.id > cm.id /\ (ev.bump \/ e.id = cm.id + 1)
          /\ tx' = [tx EXCEPT ![e.t] = [NoTxn EXCEPT !.st = "rw", !.w = e.w, !.id = e.id, !.db = cm.db, !.can = cm.can]]
     ELSE /\ \/ e.r = BUSY /\ Writers # {}
             \/ e.r = OVERLAP /\ \E t \in TSlots : Live(t) /\ tx[t].w = e.w
             \/ e.r = EACCES /\ e.w \in ev.ro
             \/ e.r = PANIC /\ ev.fault
             \/ Exhaust(e.r)
          /\ UNCHANGED tx
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>

BeginNested(e) ==
  /\ e.p # -1
  /\ IF e.r = 0
     THEN /\ CanWrite(e.p) /\ tx[e.t].st = "none" /\ e.id = tx[e.p].id
          /\ tx' = [tx EXCEPT ![e.p].ch = e.t,
                              ![e.t] = [NoTxn EXCEPT !.st = IF Bit(e.f, 131072) THEN "rof" ELSE "rw", !.p = e.p, !.w = e.w, !.id = tx[e.p].id,
                                        !.db = tx[e.p].db, !.can = tx[e.p].can, !.sv = cu, !.ds = dh]]
     ELSE /\ \/ e.r = EINVAL /\ tx[e.p].st = "none"
             \/ e.r \in {EINVAL, INCOMPAT} /\ ev.wm
             \/ e.r = BADTXN /\ ~CanWrite(e.p)
             \/ e.r \in {TXNFULL, MAPFULL} /\ ev.full
          /\ UNCHANGED tx
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>

Begin(e) == BeginRead(e) \/ BeginWrite(e) \/ BeginNested(e)

(* cursors at the end of transactions S: those opened there become unbound *)
(* restoring the cursors of enclosing transactions after an abort; a cursor
   closed meanwhile stays closed *)
BackCu(sv, S) == LET q == EndCu(cu, S) A == UNION {Ancestors(t) : t \in S} IN [c \in CSlots |-> IF q[c].st \notin {"none", "unb"} /\ q[c].o \in A THEN sv[c] ELSE q[c]]
(* handles opened in the transactions S of worker w are closed by abort *)
AbortDh(S) == [d \in DSlots |-> IF dh[d].own \in S THEN (IF dh[d].cr THEN Kill(d) ELSE [dh[d] EXCEPT !.own = -2]) ELSE dh[d]]
CommitDh(t, p) == [d \in DSlots |-> IF dh[d].own = t THEN [dh[d] EXCEPT !.own = p] ELSE dh[d]]
(* handles of dropped tables are closed when the drop is committed *)
Ended(S) == [t \in TSlots |-> IF t \in S THEN NoTxn ELSE tx[t]]

(* committing nested transactions below t into it: the state t then has *)
RECURSIVE Folded(_)
Folded(t) == IF tx[t].ch = -1 THEN tx[t]
             ELSE LET c == Folded(tx[t].ch) IN [tx[t] EXCEPT !.db = c.db, !.can = c.can, !.dirty = c.dirty \/ tx[t].dirty, !.ch = -1]
AnyErr(t) == \E x \in {t} \cup Kids(t) : tx[x].err

CanV(can, id) == IF can[4] = -1 THEN [can EXCEPT ![4] = id] ELSE can

Abort(e) ==
  /\ IF e.r = 0
     THEN LET t == e.t S == {t} \cup Kids(t) p == tx[t].p IN
          /\ tx[t].st # "none"
          /\ tx' = IF p = -1 THEN Ended(S) ELSE [Ended(S) EXCEPT ![p].ch = -1]
          /\ cu' = IF tx[t].sv = <<>> THEN EndCu(cu, S) ELSE BackCu(tx[t].sv, S)
          /\ dh' = IF IsWr(t) THEN AbortDh(S) ELSE CommitDh(t, -1)
     ELSE /\ \/ tx[e.t].st = "none" /\ e.r = EINVAL
             \/ e.r = TMISMATCH /\ tx[e.t].w # e.w
          /\ UNCHANGED <<tx, cu, dh>>
  /\ UNCHANGED <<cm, ev, ce>>

(* a commit of a broken transaction is an abort and says so *)
Commit(e) ==
  LET t == e.t S == {t} \cup Kids(t) p == tx[t].p IN
  /\ CASE tx[t].st = "none" -> e.r = EINVAL /\ UNCHANGED <<cm, tx, cu, dh>>
       [] e.r = TMISMATCH -> tx[t].w # e.w /\ UNCHANGED <<cm, tx, cu, dh>>
       [] tx[t].st = "fin" -> e.r = RTRUE /\ tx' = Ended(S) /\ cu' = EndCu(cu, S) /\ UNCHANGED <<cm, dh>>
       [] ~IsWr(t) -> (IF tx[t].err THEN e.r = RTRUE ELSE e.r = 0) /\ tx' = Ended(S) /\ cu' = EndCu(cu, S) /\ dh' = CommitDh(t, -1) /\ UNCHANGED cm
       [] AnyErr(t) \/ (tx[t].st = "rof") \/ (e.r \notin {0, TMISMATCH}) ->   \* aborted
            /\ \/ e.r = RTRUE /\ AnyErr(t)
               \/ e.r = 0 /\ tx[t].st = "rof" /\ ~AnyErr(t)
               \/ Exhaust(e.r) \/ (ev.fault /\ e.r \notin {0, RTRUE})
            /\ UNCHANGED cm
            /\ tx' = IF p = -1 THEN Ended(S) ELSE [Ended(S) EXCEPT ![p].ch = -1]
            /\ cu' = IF tx[t].st = "rof" /\ ~AnyErr(t) THEN EndCu(cu, S) ELSE IF tx[t].sv = <<>> THEN EndCu(cu, S) ELSE BackCu(tx[t].sv, S)
            /\ dh' = IF e.r = 0 THEN CommitDh(t, p) ELSE AbortDh(S)
       [] OTHER ->
            LET f == Folded(t) IN
            /\ e.r = 0
            /\ IF p = -1
               THEN /\ \/ cm' = IF f.dirty THEN [id |-> f.id, db |-> f.db, can |-> f.can] ELSE cm
                       \/ ~f.dirty /\ cm' = [cm EXCEPT !.id = f.id]   \* nothing changed, still a new meta could be made
                    /\ tx' = Ended(S)
               ELSE /\ UNCHANGED cm
                    /\ tx' = [Ended(S) EXCEPT ![p] = [@ EXCEPT !.ch = -1, !.db = f.db, !.can = f.can, !.dirty = @ \/ f.dirty]]
            /\ cu' = EndCu(cu, S)
            /\ dh' = CommitDh(t, p)
  /\ UNCHANGED <<ev, ce>>

Break(e) ==
  /\ IF tx[e.t].st = "none" THEN e.r = EINVAL /\ UNCHANGED tx
     ELSE e.r = 0 /\ tx' = [t \in TSlots |-> IF t \in {e.t} \cup Kids(e.t) THEN [tx[t] EXCEPT !.err = TRUE] ELSE tx[t]]
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>

Fresh(t, id) == [tx EXCEPT ![t] = [@ EXCEPT !.st = "ro", !.err = FALSE, !.id = id, !.db = cm.db, !.can = cm.can]]
NewSnap(e) == e.id >= cm.id /\ (e.id > cm.id => ev.bump) /\ cm' = [cm EXCEPT !.id = e.id] /\ tx' = Fresh(e.t, e.id)
UnbindCu(t) == EndCu(cu, {t})

Reset(e) ==
  /\ IF tx[e.t].st = "none" THEN e.r = EINVAL /\ UNCHANGED <<tx, cu>>
     ELSE IF IsWr(e.t) THEN e.r = EINVAL /\ UNCHANGED <<tx, cu>>
     ELSE e.r = 0 /\ tx' = [tx EXCEPT ![e.t].st = "fin", ![e.t].err = FALSE] /\ cu' = UnbindCu(e.t)
  /\ UNCHANGED <<cm, dh, ev, ce>>
Renew(e) ==
  /\ IF tx[e.t].st = "none" \/ IsWr(e.t) THEN e.r = EINVAL /\ UNCHANGED <<tx, cu, cm>>
     ELSE \/ e.r = 0 /\ NewSnap(e) /\ cu' = UnbindCu(e.t)
          \/ Clash(e, e.t) /\ LeftOrFin(e.t)
  /\ UNCHANGED <<dh, ev, ce>>
Refresh(e) ==
  /\ IF tx[e.t].st = "none" \/ IsWr(e.t) THEN e.r = EINVAL /\ UNCHANGED <<tx, cu, cm>>
     ELSE IF tx[e.t].st # "fin" /\ tx[e.t].id = cm.id /\ e.r = RTRUE THEN e.id = cm.id /\ UNCHANGED <<tx, cu, cm>>
     ELSE \/ e.r = 0 /\ NewSnap(e) /\ cu' = UnbindCu(e.t) /\ (tx[e.t].st # "fin" => e.id > tx[e.t].id)
          \/ Clash(e, e.t) /\ LeftOrFin(e.t)
  /\ UNCHANGED <<dh, ev, ce>>
Park(e) ==
  /\ CASE tx[e.t].st = "none" -> e.r = EINVAL /\ UNCHANGED tx
       [] tx[e.t].st = "ro" /\ ~tx[e.t].err -> e.r = 0 /\ tx' = [tx EXCEPT ![e.t].st = IF e.a = 1 THEN "parka" ELSE "park"]
       [] tx[e.t].st = "ro" -> e.r = 0 /\ tx' = Oust(e.t)          \* broken: it is finished
       [] tx[e.t].st = "parka" /\ ~tx[e.t].err -> IF e.r = OUSTED THEN ev.oust /\ tx' = Oust(e.t)
                                                 ELSE e.r = 0 /\ tx' = [tx EXCEPT ![e.t].st = IF e.a = 1 THEN "parka" ELSE "park"]
       [] OTHER -> e.r # 0 /\ UNCHANGED tx
  /\ cu' = IF tx[e.t].st = "ro" /\ tx[e.t].err THEN EndCu(cu, {e.t}) ELSE cu
  /\ UNCHANGED <<cm, dh, ev, ce>>
Unpark(e) ==
  /\ CASE tx[e.t].st = "none" -> e.r = EINVAL /\ UNCHANGED <<tx, cu, cm>>
       [] tx[e.t].st \in {"park", "parka"} ->
            \/ e.r = 0 /\ ~tx[e.t].err /\ e.id = tx[e.t].id /\ tx' = [tx EXCEPT ![e.t].st = "ro"] /\ UNCHANGED <<cu, cm>>
            \* a broken one is finished instead
            \/ e.r = 0 /\ tx[e.t].err /\ tx' = Oust(e.t) /\ UNCHANGED <<cu, cm>>
            \/ e.r = OUSTED /\ ev.oust /\ e.a = 0 /\ tx' = Oust(e.t) /\ UNCHANGED <<cu, cm>>
            \/ e.r = RTRUE /\ ev.oust /\ e.a = 1 /\ NewSnap(e) /\ cu' = UnbindCu(e.t)
       [] tx[e.t].st = "fin" -> e.r = BADTXN /\ UNCHANGED <<tx, cu, cm>>
       [] OTHER -> UNCHANGED <<tx, cu, cm>> /\ e.r = IF tx[e.t].ch # -1 THEN BADTXN ELSE 0
  /\ UNCHANGED <<dh, ev, ce>>

(* persistent state of a whole write transaction is published, and it goes
   on as the next one *)
Checkpoint(e) ==
  LET t == e.t f == Folded(t) S == {t} \cup Kids(t) IN
  /\ CASE tx[t].st = "none" -> e.r = EINVAL /\ UNCHANGED <<cm, tx, cu, dh>>
       [] ~IsWr(t) \/ tx[t].err \/ tx[t].ch # -1 -> e.r \in {BADTXN, RTRUE, EACCES} /\ UNCHANGED <<cm, tx, cu, dh>>
       [] ~tx[t].dirty /\ e.r = RTRUE -> UNCHANGED <<cm, tx, cu, dh>>      \* (an update that failed may still count)
       [] e.r = EINVAL -> tx[t].p # -1 /\ e.f # 0 /\ UNCHANGED <<cm, tx, cu, dh>>
       [] Exhaust(e.r) ->                                                  \* no room: aborted
            /\ tx[t].p = -1 /\ UNCHANGED cm
            /\ tx' = Ended(S) /\ cu' = EndCu(cu, S) /\ dh' = AbortDh(S)
       [] tx[t].p = -1 ->
            /\ e.r = 0 /\ e.id > tx[t].id
            /\ cm' = [id |-> tx[t].id, db |-> tx[t].db, can |-> tx[t].can]
            /\ tx' = [tx EXCEPT ![t].id = e.id, ![t].dirty = FALSE]
            /\ cu' = UnbindCu(t) /\ dh' = CommitDh(t, -1)
       [] OTHER ->
            /\ e.r = 0 /\ e.id = tx[t].id /\ UNCHANGED cm
            /\ LET p == tx[t].p q == EndCu(cu, {t}) IN
               /\ tx' = [tx EXCEPT ![p] = [@ EXCEPT !.db = f.db, !.can = f.can, !.dirty = TRUE], ![t].dirty = FALSE, ![t].sv = q, ![t].ds = dh]
               /\ cu' = q
            /\ dh' = CommitDh(t, tx[t].p)
  /\ UNCHANGED <<ev, ce>>

(* commit and go on reading what was committed *)
Embark(e) ==
  LET t == e.t IN
  /\ CASE tx[t].st = "none" -> e.r = EINVAL /\ UNCHANGED <<cm, tx, cu, dh>>
       [] tx[t].err \/ tx[t].ch # -1 \/ tx[t].st = "fin" -> e.r = BADTXN /\ UNCHANGED <<cm, tx, cu, dh>>
       [] ~IsWr(t) \/ tx[t].st = "rof" -> e.r = 0 /\ e.id = tx[t].id /\ UNCHANGED <<cm, tx, cu, dh>>
       [] tx[t].p = -1 ->
            IF ~tx[t].dirty                                            \* nothing to commit
            THEN /\ e.r = 0 /\ e.id >= cm.id /\ e.id <= tx[t].id
                 /\ cm' = [cm EXCEPT !.id = e.id]
                 /\ tx' = [tx EXCEPT ![t] = [NoTxn EXCEPT !.st = "ro", !.w = tx[t].w, !.id = e.id, !.db = cm.db, !.can = cm.can]]
                 /\ cu' = UnbindCu(t) /\ dh' = CommitDh(t, -1)
            ELSE /\ e.r = 0 /\ e.id = tx[t].id
                 /\ cm' = [id |-> tx[t].id, db |-> tx[t].db, can |-> tx[t].can]
                 /\ tx' = [tx EXCEPT ![t] = [NoTxn EXCEPT !.st = "ro", !.w = tx[t].w, !.id = e.id, !.db = tx[t].db, !.can = tx[t].can]]
                 /\ cu' = UnbindCu(t) /\ dh' = CommitDh(t, -1)
       [] OTHER ->
            LET p == tx[t].p q == EndCu(cu, {t}) IN
            /\ e.r = 0 /\ UNCHANGED cm
            /\ tx' = [tx EXCEPT ![p] = [@ EXCEPT !.db = tx[t].db, !.can = tx[t].can, !.dirty = @ \/ tx[t].dirty], ![t].dirty = FALSE, ![t].st = "rof", ![t].sv = q, ![t].ds = dh]
            /\ cu' = q /\ dh' = CommitDh(t, p)
  /\ UNCHANGED <<ev, ce>>

(* a reader becomes the writer iff it reads the latest state *)
Amend(e) ==
  LET t == e.t IN
  /\ IF e.r = 0
     THEN /\ tx[t].st \in {"ro", "park", "parka"} /\ ~tx[t].err /\ tx[t].id = cm.id /\ Writers = {} /\ tx[e.t2].st = "none" /\ e.w \notin ev.ro
          /\ e.id > cm.id
          /\ tx' = [tx EXCEPT ![e.t2] = [NoTxn EXCEPT !.st = "rw", !.w = e.w, !.id = e.id, !.db = cm.db, !.can = cm.can],
                              ![t] = IF Bit(e.f, 16777216) THEN [@ EXCEPT !.st = "fin"] ELSE NoTxn]
          /\ cu' = UnbindCu(t)
     ELSE /\ \/ e.r = EINVAL /\ tx[t].st = "none"
             \/ e.r = BADTXN /\ (IsWr(t) \/ tx[t].st # "ro" \/ tx[t].err)
             \/ e.r = RTRUE /\ tx[t].id # cm.id
             \/ e.r \in {BUSY, OVERLAP} /\ Writers # {}
             \/ e.r = EACCES /\ e.w \in ev.ro
          /\ cu' = cu
          /\ tx' = IF tx[t].st = "ro" /\ ~tx[t].err /\ e.r \in {RTRUE, BUSY} /\ e.pk = 1 THEN [tx EXCEPT ![t].st = "parka"] ELSE tx
  /\ UNCHANGED <<cm, dh, ev, ce>>

Rollback(e) ==
  LET t == e.t IN
  /\ CASE tx[t].st = "none" -> e.r = EINVAL /\ UNCHANGED <<cm, tx, cu, dh>>
       [] tx[t].ch # -1 \/ tx[t].st = "fin" -> e.r = BADTXN /\ UNCHANGED <<cm, tx, cu, dh>>
       [] ~IsWr(t) /\ e.r = BADTXN -> tx[t].st \in {"park", "parka"} /\ tx[t].err /\ UNCHANGED <<cm, tx, cu, dh>>
       [] ~IsWr(t) -> \/ e.r = 0 /\ NewSnap(e) /\ cu' = UnbindCu(t) /\ UNCHANGED dh
                      \/ Clash(e, t) /\ LeftOrFin(t) /\ UNCHANGED dh
       [] OTHER ->
            LET p == tx[t].p q == IF tx[t].sv = <<>> THEN UnbindCu(t) ELSE BackCu(tx[t].sv, {t}) IN
            /\ e.r = 0 /\ UNCHANGED cm
            /\ tx' = IF p = -1 THEN [tx EXCEPT ![t] = [@ EXCEPT !.db = cm.db, !.can = cm.can, !.dirty = FALSE, !.err = FALSE, !.id = e.id]]
                     ELSE [tx EXCEPT ![t] = [@ EXCEPT !.db = tx[p].db, !.can = tx[p].can, !.dirty = FALSE, !.err = FALSE, !.sv = q]]
            /\ cu' = q /\ dh' = AbortDh({t})
  /\ UNCHANGED <<ev, ce>>

Clone(e) ==
  /\ IF e.r = 0
     THEN /\ Live(e.t) /\ ~tx[e.t2].dirty
          /\ tx[e.t2].st \in {"none", "fin", "ro", "park", "parka"}
          /\ LET src == tx[Root(e.t)] IN
             /\ e.id = IF src.st = "ro" \/ src.st \in {"park", "parka"} THEN src.id ELSE cm.id
             /\ tx' = [tx EXCEPT ![e.t2] = [NoTxn EXCEPT !.st = IF IsWr(e.t) THEN "ro" ELSE src.st, !.w = e.w, !.id = e.id, !.db = IF IsWr(e.t) THEN cm.db ELSE src.db, !.can = IF IsWr(e.t) THEN cm.can ELSE src.can]]
             /\ cu' = EndCu(cu, {e.t2})
     ELSE /\ \/ e.r = EINVAL /\ tx[e.t].st = "none"
             \/ e.r \in {BADTXN, EINVAL} /\ IsWr(e.t2)
             \/ e.r = BADTXN /\ (tx[e.t].st = "fin" \/ \E a \in Ancestors(e.t) : tx[a].dirty)
             \/ e.r = OUSTED /\ ev.oust
             \/ e.r = READERSFULL /\ ev.full
             \/ Clash(e, e.t2)
          \* a reader handle to be reused ends anyway
          /\ tx' = IF ~IsWr(e.t2) /\ tx[e.t2].st # "none" THEN Oust(e.t2) ELSE tx
          /\ cu' = IF ~IsWr(e.t2) THEN EndCu(cu, {e.t2}) ELSE cu
  /\ UNCHANGED <<cm, dh, ev, ce>>

(* tables *)
Persist == 126 \* persistent table flags
(* one handle per table: whoever opened it first *)
SlotsOf(n, w) == {d \in DSlots : dh[d].n = n /\ dh[d].w = w}
\* (not known, -2, if the slots that held it were used for other handles meanwhile)
OwnOf(n, w, t) == IF SlotsOf(n, w) = {} /\ n \in ev.lost /\ tx[t].st = "rw" THEN -2 ELSE
                  LET S == {d \in SlotsOf(n, w) : dh[d].own # -2} IN IF S # {} THEN dh[CHOOSE d \in S : TRUE].own ELSE IF tx[t].p = -1 THEN -1 ELSE t
CrOf(n, w) == \E d \in SlotsOf(n, w) : dh[d].cr
(* a number is a handle: every slot that holds this number for this table is the same handle *)
Others(t) == {a \in TSlots : tx[a].st # "none" /\ a # t} # {}
Opened(e, own0, fl, cr) == LET own == own0 IN
  [d \in DSlots |-> IF d = e.d \/ (dh[d].w = e.w /\ dh[d].num = e.dbi /\ dh[d].ln = e.n) THEN [n |-> e.n, own |-> own, w |-> e.w, fl |-> fl, ln |-> e.n, num |-> e.dbi, cr |-> cr]
                   ELSE IF dh[d].w = e.w /\ dh[d].num = e.dbi THEN NoDh
                   ELSE IF dh[d].w = e.w /\ dh[d].n = e.n THEN Kill(d)   \* there is another number now, thus the former one is gone
                   ELSE dh[d]]
(* a handle closed or opened anew may have to be opened again by the other transactions *)
Vague(t, num) == IF Others(t) THEN ev.vn \cup {num} ELSE {}
DOpen(e) ==
  LET t == e.t n == e.n fl == (e.f % 128) create == Bit(e.f, 262144) accede == Bit(e.f, 1073741824) IN
  /\ IF ~CanRead(t) THEN e.r \in {EINVAL, BADTXN, EACCES} /\ UNCHANGED <<tx, dh, cu>>
     ELSE LET T == tx[t].db[n] IN
       CASE ~T.ex /\ ~create -> (e.r = NOTFOUND \/ (e.r = INCOMPAT /\ ~accede /\ (n \in ev.lost \/ \E d \in SlotsOf(n, e.w) : dh[d].fl # fl))) /\ UNCHANGED <<tx, dh, cu>>
         [] ~T.ex /\ tx[t].st # "rw" -> e.r = EACCES /\ UNCHANGED <<tx, dh, cu>>
         [] ~T.ex -> \/ /\ e.r = 0 /\ e.fl = fl
                        \* the handle is new, or it was opened before for a snapshot that has the table
                        /\ LET S == {d \in SlotsOf(n, e.w) : dh[d].num = e.dbi /\ dh[d].fl = fl} IN
                           dh' = IF S = {} THEN Opened(e, t, fl, TRUE) ELSE Opened(e, OwnOf(n, e.w, t), fl, CrOf(n, e.w))
                        /\ tx' = SetTb(t, n, NewTable(fl))
                        /\ UNCHANGED cu
                     \/ e.r = DANGLING /\ (n \in ev.lost \/ SlotsOf(n, e.w) # {}) /\ UNCHANGED <<tx, dh, cu>>
                     \/ (e.r = DBSFULL \/ Exhaust(e.r)) /\ ev.full /\ tx' = BreakTx(t) /\ UNCHANGED <<dh, cu>>
         [] OTHER -> \/ /\ e.r = 0 /\ e.fl = T.fl
                        /\ T.fl = fl \/ accede \/ n = 0
                        /\ dh' = Opened(e, OwnOf(n, e.w, t), T.fl, CrOf(n, e.w))
                        /\ tx' = Wake(t) /\ UNCHANGED cu
                     \/ /\ e.r = 0 /\ e.fl = fl /\ n = 0 /\ create /\ tx[t].st = "rw" /\ FirstP(T.d)[1] = 0 /\ T.fl = 0  \* the main table gets its kind
                        /\ dh' = Opened(e, -1, fl, FALSE)
                        /\ tx' = SetTb(t, n, [T EXCEPT !.fl = fl]) /\ UNCHANGED cu
                     \/ /\ e.r = 0 /\ e.fl = fl /\ n # 0 /\ create /\ ~accede /\ tx[t].st = "rw" /\ T.fl # fl /\ T.d = Empty  \* an empty table gets another kind
                        /\ dh' = Opened(e, t, fl, TRUE)
                        /\ tx' = SetTb(t, n, [T EXCEPT !.fl = fl]) /\ UNCHANGED cu
                     \/ e.r = DANGLING /\ n # 0 /\ create /\ T.fl # fl /\ T.d = Empty /\ (\E c \in CSlots : cu[c].t >= 0 /\ dh[cu[c].d].n = n) /\ UNCHANGED <<tx, dh, cu>>
                     \/ e.r = INCOMPAT /\ T.fl # fl /\ ~accede /\ ~(create /\ T.d = Empty /\ tx[t].st = "rw") /\ UNCHANGED <<tx, dh, cu>>
                     \/ e.r = INCOMPAT /\ tx[t].st # "rw" /\ (n \in ev.lost \/ \E d \in SlotsOf(n, e.w) : dh[d].fl # T.fl) /\ UNCHANGED <<tx, dh, cu>>  \* the handle is in use for the table created anew
                     \/ e.r = DBSFULL /\ ev.full /\ UNCHANGED <<tx, dh, cu>>
  /\ ev' = [ev EXCEPT !.lost = IF e.r = 0 /\ dh[e.d].n >= 0 THEN @ \cup {dh[e.d].n} ELSE @,
                    !.vn = IF e.r = 0 /\ ~(\E d \in SlotsOf(n, e.w) : dh[d].num = e.dbi /\ dh[d].fl = dh'[e.d].fl) THEN Vague(t, e.dbi) ELSE @]
  /\ UNCHANGED <<cm, ce>>
DClose(e) ==
  /\ \/ e.r = 0 /\ dh[e.d].n >= 0 /\ dh' = [d \in DSlots |-> IF d = e.d THEN NoDh ELSE IF dh[d].n = dh[e.d].n /\ dh[d].w = e.w THEN Kill(d) ELSE dh[d]]
     \/ e.r = BADDBI /\ (dh[e.d].n < 0 \/ dh[e.d].own = -2) /\ UNCHANGED dh
     \/ e.r = DANGLING /\ UNCHANGED dh
  /\ ev' = [ev EXCEPT !.vn = IF e.r = 0 THEN Vague(-1, dh[e.d].num) ELSE @]
  /\ UNCHANGED <<cm, tx, cu, ce>>
(* empty (del = 0) or delete a table *)
Drop(e) ==
  /\ IF ~CanWrite(e.t) THEN e.r = RefuseWrite(e.t) /\ UNCHANGED <<tx, dh, cu>>
     ELSE IF DhBad(e) THEN e.r \in {BADDBI, NOTFOUND, INCOMPAT} /\ UNCHANGED <<tx, dh, cu>>
     ELSE LET n == dh[e.d].n T == tx[e.t].db[n] IN
       \/ /\ e.r = 0
          /\ \/ (e.del = 0 \/ n = 0) /\ T.d = Empty /\ tx' = tx       \* nothing to empty: the sequence may be kept
             \/ tx' = SetTb(e.t, n, IF e.del = 1 /\ n # 0 THEN NoTable ELSE [T EXCEPT !.d = Empty, !.sq = 0])
          /\ dh' = IF e.del = 1 /\ n # 0 THEN [d \in DSlots |-> IF dh[d].n = n /\ dh[d].w = e.w THEN Kill(d) ELSE dh[d]] ELSE dh
          /\ cu' = [c \in CSlots |-> IF cu[c].t >= 0 /\ Leaf(cu[c].t) = e.t /\ cu[c].d >= 0 /\ dh[cu[c].d].n = n THEN [cu[c] EXCEPT !.st = "unk"] ELSE cu[c]]
       \/ Exhaust(e.r) /\ tx' = BreakTx(e.t) /\ UNCHANGED <<dh, cu>>
  /\ ev' = [ev EXCEPT !.vn = IF e.r = 0 /\ e.del = 1 THEN Vague(e.t, dh[e.d].num) ELSE @]
  /\ UNCHANGED <<cm, ce>>
DRename(e) ==
  /\ IF ~CanWrite(e.t) THEN e.r = RefuseWrite(e.t) /\ UNCHANGED <<tx, dh>>
     ELSE IF DhBad(e) THEN e.r \in {BADDBI, NOTFOUND, INCOMPAT} /\ UNCHANGED <<tx, dh>>
     ELSE LET o == dh[e.d].n T == tx[e.t].db[o] IN
       \/ /\ e.r = 0 /\ ~tx[e.t].db[e.n].ex /\ o # 0 /\ e.n # 0
          /\ tx' = [tx EXCEPT ![e.t].db[o] = NoTable, ![e.t].db[e.n] = T, ![e.t].dirty = TRUE]
          /\ dh' = [d \in DSlots |-> IF dh[d].n = o /\ dh[d].w = e.w THEN [dh[d] EXCEPT !.n = e.n, !.ln = e.n] ELSE dh[d]]
       \/ e.r = KEYEXIST /\ tx[e.t].db[e.n].ex /\ UNCHANGED <<tx, dh>>
       \/ e.r = 0 /\ e.n = o /\ UNCHANGED <<tx, dh>>
       \/ e.r = EINVAL /\ (o = 0 \/ e.n = 0) /\ UNCHANGED <<tx, dh>>
       \/ e.r = DANGLING /\ e.n # o /\ (SlotsOf(e.n, e.w) # {} \/ e.n \in ev.lost) /\ UNCHANGED <<tx, dh>>   \* another handle has this name
       \/ Exhaust(e.r) /\ tx' = BreakTx(e.t) /\ UNCHANGED dh
  /\ UNCHANGED <<cm, cu, ev, ce>>
DStat(e) == ReadOp(e, e.r = 0 /\ (dh[e.d].n # 0 => e.n = Entries(Tb(e.t, e.d).d)))
(* statistics of the whole environment: all the tables, opened or not, and the records of the catalogue *)
RECURSIVE AllEntries(_, _)
AllEntries(db, n) == IF n < 0 THEN 0 ELSE (IF n = 0 THEN Entries(db[0].d) ELSE IF db[n].ex THEN Entries(db[n].d) + 1 ELSE 0) + AllEntries(db, n - 1)
EStat(e) ==
  /\ IF e.t # -1 THEN
        IF ~CanRead(e.t) THEN e.r \in {RefuseRead(e.t), EINVAL} /\ UNCHANGED tx
        ELSE e.r = 0 /\ tx' = Wake(e.t) /\ e.n = AllEntries(tx[e.t].db, 9)
     ELSE UNCHANGED tx /\ (Writers # {} \/ (e.r = 0 /\ e.n = AllEntries(cm.db, 9)) \/ Exhaust(e.r))
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>
(* Page accounting: each allocated page is a meta-page, or belongs to a table,
   or is free (or makes the tree of the free pages), and exactly once.      *)
GcInfo(e) ==
  /\ IF ~CanRead(e.t) THEN e.r \in {RefuseRead(e.t), EINVAL} /\ UNCHANGED tx
     ELSE /\ tx' = Wake(e.t)
          /\ e.r \in {0, 77, NOTFOUND} /\ e.badspan = 0 /\ e.sumr <= e.sum
          /\ (e.r = 77) = (e.stop > 0 /\ e.calls = e.stop)
          /\ e.alloc <= e.backed /\ e.backed <= e.total
          /\ e.r = NOTFOUND => e.calls = 0
          \* what a live snapshot needs is not free for reuse
          /\ \A u \in TSlots : Live(u) /\ ~IsWr(u) /\ (tx[u].st = "ro" \/ ~ev.oust) => e.mxr <= tx[u].id
          /\ e.r # 77 => (/\ e.rs = 0 /\ e.sum <= e.gcp /\ e.sumr <= e.gcr
                         /\ e.gcr <= e.gcp
                         /\ (tx[e.t].p = -1 => e.alloc = 3 + e.pay + e.gcp))
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>
(* the flags of a handle stay known even if the snapshot of a reader has no such table *)
DFlags(e) == IF CanRead(e.t) /\ e.r = 0 /\ dh[e.d].n >= 0 /\ (e.s \div 2) % 2 = 1 /\ e.f = dh[e.d].fl THEN UNCHANGED vars
             ELSE ReadOp(e, e.r = 0 /\ e.f = Tb(e.t, e.d).fl)
DSeq(e) ==
  IF e.inc = 0 THEN ReadOp(e, e.r = 0 /\ e.x = Tb(e.t, e.d).sq)
  ELSE /\ IF tx[e.t].st = "none" THEN e.r = EINVAL /\ UNCHANGED tx
          ELSE IF tx[e.t].ch # -1 \/ tx[e.t].err \/ tx[e.t].st \in {"fin", "park"} THEN e.r \in {BADTXN, EACCES} /\ UNCHANGED tx
          ELSE IF tx[e.t].st # "rw" THEN e.r = EACCES /\ tx' = Wake(e.t)
          ELSE IF DhBad(e) THEN e.r \in {BADDBI, NOTFOUND, INCOMPAT} /\ UNCHANGED tx
          ELSE /\ e.r = 0 /\ e.x = Tb(e.t, e.d).sq
               /\ tx' = SetTb(e.t, dh[e.d].n, [Tb(e.t, e.d) EXCEPT !.sq = @ + e.inc])
       /\ UNCHANGED <<cm, dh, cu, ev, ce>>
Enum(e) ==
  /\ IF ~CanRead(e.t) THEN e.r \in {RefuseRead(e.t), EINVAL} /\ UNCHANGED tx
     ELSE /\ e.r = 0 /\ tx' = Wake(e.t)
          /\ LET db == tx[e.t].db names == {n \in 1..9 : db[n].ex} IN
             /\ Len(e.l) = Cardinality(names)
             /\ {e.l[i][1] : i \in DOMAIN e.l} = names
             /\ \A i \in DOMAIN e.l : e.l[i][1] \in names => e.l[i][3] = Entries(db[e.l[i][1]].d)
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>
CanPut(e) ==
  /\ IF ~CanWrite(e.t) THEN e.r = RefuseWrite(e.t) /\ UNCHANGED tx
     ELSE /\ e.r = 0
          /\ tx' = [tx EXCEPT ![e.t].can = IF e.nul = 1 THEN <<@[1], @[2], @[3], tx[e.t].id>> ELSE <<e.x, e.y, e.z, tx[e.t].id>>, ![e.t].dirty = TRUE]
  /\ UNCHANGED <<cm, dh, cu, ev, ce>>
CanGet(e) ==
  /\ IF ~(CanRead(e.t) \/ (tx[e.t].st = "park" /\ ~tx[e.t].err)) THEN e.r = RefuseRead(e.t)
     ELSE e.r = 0 /\ <<e.x, e.y, e.z, e.v>> = tx[e.t].can
  /\ UNCHANGED vars
TInfo(e) ==
  /\ IF tx[e.t].st = "none" THEN e.r = EINVAL
     ELSE IF tx[e.t].st = "fin" THEN e.r = BADTXN
     ELSE e.r = 0 /\ e.id = tx[e.t].id /\ (tx[e.t].st = "ro" => e.lag = cm.id - tx[e.t].id \/ ev.bump)
  /\ UNCHANGED vars
Dump(e) == IF tx[e.t].st # "none" /\ (~CanRead(e.t) \/ tx[e.t].st = "parka") /\ e.r \in {BADTXN, BADDBI}   \* a cursor cannot be opened
           THEN UNCHANGED vars ELSE ReadOp(e, e.r = 0 /\ LET d == Tb(e.t, e.d).d IN
                     /\ Len(e.x) = Cardinality({k \in DOMAIN d : d[k] # {}})
                     /\ \A i \in DOMAIN e.x : LET k == e.x[i][1] s == e.x[i][2] IN
                          /\ k \in DOMAIN d /\ (i > 1 => e.x[i-1][1] < k)
                          /\ Rng(s) = d[k] /\ \A j \in 2..Len(s) : s[j-1] < s[j])

(* point reads and updates *)
Get(e) == ReadOp(e, LET R == GetVRes(Tb(e.t, e.d), e.k, 0) IN e.r = R.r /\ e.rk = (IF R.r = 0 THEN e.k ELSE 0) /\ e.rv = R.v)
GetEx(e) == ReadOp(e, LET R == GetRes(Tb(e.t, e.d), e.k) IN e.r = R.r /\ e.rk = R.k /\ e.rv = R.v /\ e.n = R.n)
GetGe(e) == ReadOp(e, LET R == GetGeRes(Tb(e.t, e.d), e.k, e.v) IN e.r = R.r /\ e.rk = R.k /\ e.rv = R.v)

(* Cached lookups.  An entry of the cache, used for one key of one table,
   remembers the outcome found in snapshot `conf` at the latest; it is known
   to hold since snapshot `since` at least.  conf = 0: nothing yet.         *)
NoCe == [conf |-> 0, since |-> 0, v |-> 0]
CHit == 2 CConfirmed == 3 CRefreshed == 4 CDirty == 1 CRace == 0 CUnable == -1 CBehind == -2 CError == -3
Basis(t) == IF IsWr(t) THEN tx[t].id - 1 ELSE tx[t].id     \* the committed snapshot under a transaction
(* what a status says must be true *)
CacheStatus(t, x, s, r, v) ==
  LET b == Basis(t) e == ce[x] IN
  CASE s = CHit -> e.conf # 0 /\ b <= e.conf /\ v = e.v
    [] s = CConfirmed -> e.conf # 0 /\ b > e.conf /\ v = e.v
    [] s = CRefreshed -> b > e.conf
    [] s = CDirty -> IsWr(t)      \* even a failed update may have changed pages
    [] s = CUnable -> b < e.conf /\ e.v = 0
    [] s = CBehind -> b < e.since
    [] OTHER -> FALSE
CacheNew(t, x, s, v) ==
  CASE s = CConfirmed -> [ce EXCEPT ![x].conf = Basis(t)]
    [] s = CRefreshed -> [ce EXCEPT ![x] = [conf |-> Basis(t), since |-> Basis(t), v |-> v]]
    [] OTHER -> ce
(* the value an ordinary lookup finds; a known answer does not need a handle that is still good *)
CacheTb(e) == LET db == tx[e.t].db n == dh[e.d].ln IN IF n >= 0 /\ n \in DOMAIN db /\ db[n].ex THEN db[n].d[e.k] ELSE {}
CacheVal(e) == LET s == CacheTb(e) IN IF s = {} THEN 0 ELSE Min(s)
CacheMany(e) == ~DhBad(e) /\ IsDup(Tb(e.t, e.d)) /\ Tb(e.t, e.d).d[e.k] # {}
Cache(e) ==
  IF e.s = CError     \* nothing was answered and the entry is untouched
    THEN /\ IF ~CanRead(e.t) THEN e.r = RefuseRead(e.t) /\ UNCHANGED tx
            ELSE IF tx[e.t].st = "parka" /\ e.r = OUSTED THEN ev.oust /\ tx' = Oust(e.t)
            ELSE /\ \/ DhBad(e) /\ e.r \in {BADDBI, NOTFOUND, INCOMPAT}
                    \/ CacheMany(e) /\ e.r = EMULTIVAL
                 /\ tx' = Wake(e.t)
         /\ UNCHANGED <<cm, dh, cu, ev, ce>>
    ELSE /\ CanRead(e.t)
         /\ Cardinality(CacheTb(e)) <= 1 /\ (DhBad(e) => e.s \in {CHit, CDirty} \/ e.r = NOTFOUND)
         /\ e.rv = CacheVal(e) \/ (dh[e.d].ln = -1 /\ e.s = CHit)       \* the number belongs to another table now
         /\ e.r = (IF e.rv = 0 THEN NOTFOUND ELSE 0)
         /\ e.r2 = e.r \/ (DhBad([e EXCEPT !.r = e.r2]) /\ e.r2 \in {BADDBI, NOTFOUND, INCOMPAT})
         /\ CacheStatus(e.t, e.ce, e.s, e.r, e.rv)
         /\ ce' = CacheNew(e.t, e.ce, e.s, e.rv) /\ tx' = Wake(e.t) /\ UNCHANGED <<cm, dh, cu, ev>>
CacheInit(e) == ce' = [ce EXCEPT ![e.ce] = NoCe] /\ UNCHANGED <<cm, tx, dh, cu, ev>>
(* Threads with read transactions of different age share fresh entries:
   every answer is right for the transaction it was given in, whoever
   changed the entry meanwhile.  e.l: the different <<t, r, v, status>>.    *)
CacheRaces(e) ==
  /\ \A i \in DOMAIN e.l : LET x == e.l[i] q == [t |-> x[1], d |-> e.d, k |-> e.k, r |-> x[2]] IN
       /\ CanRead(x[1]) /\ tx[x[1]].st = "ro"
       /\ IF x[4] = CError THEN (CacheMany(q) /\ x[2] = EMULTIVAL) \/ (DhBad(q) /\ x[2] \in {BADDBI, NOTFOUND, INCOMPAT})
          ELSE /\ Cardinality(CacheTb(q)) <= 1 /\ x[4] \in {CUnable, CBehind, CRace, CHit, CConfirmed, CRefreshed}
               /\ x[3] = CacheVal(q) /\ x[2] = (IF x[3] = 0 THEN NOTFOUND ELSE 0)
  /\ UNCHANGED vars

(* an update of table handle d in t: result r, new values s of key k *)
Upd(e, R) ==
  /\ IF ~CanWrite(e.t) THEN e.r = RefuseWrite(e.t) /\ UNCHANGED <<tx, cu>>
     ELSE IF DhBad(e) THEN e.r \in {BADDBI, NOTFOUND, INCOMPAT} /\ UNCHANGED <<tx, cu>>
     ELSE LET T == Tb(e.t, e.d) n == dh[e.d].n r == R IN
       \/ /\ e.r = r.r
          /\ LET nd == [T.d EXCEPT ![e.k] = r.s] IN
             /\ (e.r = 0 /\ tx' = SetTb(e.t, n, [T EXCEPT !.d = nd])) \/ (nd = T.d /\ tx' = tx)     \* rewriting the same may be skipped
             /\ cu' = Fix({}, n, e.t, T.d, nd, IsDup(T), e)
       \/ Exhaust(e.r) /\ tx' = BreakTx(e.t) /\ UNCHANGED cu
  /\ UNCHANGED <<cm, dh, ev, ce>>
Put(e) == /\ Upd(e, PutRes(Tb(e.t, e.d), e.k, e.v, e.f, e.r))
          /\ (e.r = KEYEXIST /\ Bit(e.f, FNOOVER) /\ ~Bit(e.f, FRESERVE) /\ CanWrite(e.t)) => e.ov = Min(Tb(e.t, e.d).d[e.k])
Del(e) == Upd(e, DelRes(Tb(e.t, e.d), e.k, e.v))
Replace(e) == /\ Upd(e, RepRes(Tb(e.t, e.d), e.k, e.v, e.ov, e.f))
              /\ (e.r = 0) => e.old = RepRes(Tb(e.t, e.d), e.k, e.v, e.ov, e.f).old

--------------------------------------------------------------------------
(* cursors *)
COpen(e) ==
  /\ IF e.r = 0
     THEN /\ cu[e.c].st = "none" /\ tx[e.t].st \notin {"none", "fin"}
          /\ cu' = [cu EXCEPT ![e.c] = [st |-> "fresh", t |-> e.t, o |-> e.t, d |-> e.d, k |-> 0, v |-> 0]]
     ELSE e.r \in {EINVAL, BADTXN, BADDBI, OUSTED} /\ (~CanRead(e.t) \/ tx[e.t].st = "parka" \/ DhBad(e)) /\ UNCHANGED cu
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>
CClose(e) ==
  /\ IF e.r = 0 THEN cu[e.c].st # "none" /\ cu' = [cu EXCEPT ![e.c] = NoCur]
     ELSE UNCHANGED cu
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>
CBind(e) ==
  /\ IF e.r = 0
     THEN cu' = [cu EXCEPT ![e.c] = IF @.t >= 0 /\ Leaf(@.t) = e.t /\ @.d = e.d THEN @ ELSE [st |-> "fresh", t |-> e.t, o |-> e.t, d |-> e.d, k |-> 0, v |-> 0]]
     ELSE /\ e.r \in {EINVAL, BADTXN, BADDBI, OUSTED}
          /\ \/ ~CanRead(e.t) \/ tx[e.t].st = "parka" \/ DhBad(e) \/ cu[e.c].st = "none"
             \/ (cu[e.c].t >= 0 /\ Leaf(cu[e.c].t) # cu[e.c].o)              \* belongs to an enclosing transaction
             \/ (cu[e.c].t >= 0 /\ tx[cu[e.c].t].ch # -1)
          /\ cu' \in {cu, [cu EXCEPT ![e.c] = IF @.st = "none" \/ @.t = -1 THEN @ ELSE [@ EXCEPT !.st = "unb", !.t = -1, !.o = -1, !.d = -1]]}
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>
CUnbind(e) ==
  /\ IF e.r = 0 THEN cu' = [cu EXCEPT ![e.c] = IF @.st = "none" THEN @ ELSE [@ EXCEPT !.st = "unb", !.t = -1, !.o = -1, !.d = -1]]
     ELSE e.r \in {EINVAL, BADTXN} /\ cu' = cu
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>
CReset(e) ==
  /\ cu' = IF e.r = 0 /\ cu[e.c].t >= 0 THEN [cu EXCEPT ![e.c].st = "fresh"] ELSE cu
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>
CCopy(e) ==   \* e.c source, e.c2 destination
  /\ IF e.r = 0 THEN cu' = [cu EXCEPT ![e.c2] = [cu[e.c] EXCEPT !.t = Leaf(cu[e.c].t), !.o = IF cu[e.c2].t >= 0 THEN cu[e.c2].o ELSE Leaf(cu[e.c].t)]]
     ELSE e.r \in {EINVAL, BADTXN, BADDBI} /\ cu' = cu
  /\ UNCHANGED <<cm, tx, dh, ev, ce>>

CT(c) == IF cu[c].t < 0 THEN -1 ELSE Leaf(cu[c].t)
CurOk(c) == /\ cu[c].t >= 0 /\ tx[CT(c)].st \in {"ro", "rw", "rof", "parka"} /\ ~tx[CT(c)].err
            /\ DhOk(CT(c), cu[c].d)
CurTb(c) == Tb(CT(c), cu[c].d)
SetCu(c, R) == [cu EXCEPT ![c] = [@ EXCEPT !.st = R.st, !.k = R.k, !.v = R.v]]
At(k, v) == [st |-> "at", k |-> k, v |-> v]
Pos(k, v) == [st |-> "pos", k |-> k, v |-> v]
Unk == [st |-> "unk", k |-> 0, v |-> 0]
CurFrame(e, P) ==      \* P constrains cu'
  /\ IF CurOk(e.c) THEN IF tx[CT(e.c)].st = "parka" /\ e.r = OUSTED THEN ev.oust /\ tx' = Oust(CT(e.c)) /\ cu' = cu
                        ELSE IF e.r = BADTXN /\ (\E a \in Ancestors(CT(e.c)) : tx[a].err) THEN UNCHANGED <<tx, cu>>
                        ELSE P /\ tx' = Wake(CT(e.c))
     ELSE e.r \notin {0, RTRUE, NOTFOUND} /\ UNCHANGED <<tx, cu>>
  /\ UNCHANGED <<cm, dh, ev, ce>>
Multi == {5, 10, 18, 36}
CGet(e) ==
  CurFrame(e,
    LET T == CurTb(e.c) IN
    IF e.op \in Multi THEN FALSE
    ELSE LET R == CurRes(T, cu[e.c], e.op, e.k, e.v) IN
      IF R.r = 7777
      THEN IF e.r \in {0, RTRUE} /\ InD(T.d, e.rk, e.rv) THEN cu' = SetCu(e.c, IF e.op \in {1, 7, 9, 13} \/ (e.op = 4 /\ cu[e.c].st # "gap") THEN Pos(e.rk, e.rv) ELSE At(e.rk, e.rv))
           ELSE e.r \in {NOTFOUND, ENODATA, INCOMPAT, EINVAL} /\ cu' = SetCu(e.c, Unk)
      ELSE /\ e.r = R.r \/ (R.r = NOTFOUND /\ e.r = ENODATA /\ FirstP(T.d)[1] = 0)
           /\ (R.r \in {0, RTRUE} => (e.rk = R.k \/ (e.rk = e.k /\ e.op = 15)) /\ e.rv = R.v)
           /\ cu' = SetCu(e.c, R))
(* several values of a key at once: a contiguous run of its values *)
RunOf(s, m) == /\ m # <<>> /\ Rng(m) \subseteq s /\ \A j \in 2..Len(m) : m[j-1] < m[j]
               /\ \A x \in s : x < m[1] \/ x > m[Len(m)] \/ x \in Rng(m)
CGetMulti(e) ==
  CurFrame(e,
    LET T == CurTb(e.c) q == cu[e.c] IN
    IF e.r = 0
    THEN LET k == IF e.op \in {5, 18} /\ q.st = "at" THEN q.k ELSE IF e.op = 18 THEN CHOOSE x \in DOMAIN T.d : RunOf(T.d[x], e.m) \/ x = Len(T.d) ELSE e.rk IN
         IF e.m = <<>> THEN cu' = SetCu(e.c, Unk) /\ e.op = 5
         ELSE /\ k \in DOMAIN T.d /\ RunOf(T.d[k], e.m)
              /\ e.op = 5 /\ q.st = "at" => q.v \in Rng(e.m)
              /\ e.op = 36 => k = e.k /\ e.m[1] = Min(T.d[k])
              /\ cu' = SetCu(e.c, Unk)
    ELSE e.r \in {NOTFOUND, INCOMPAT, ENODATA, EINVAL} /\ cu' = SetCu(e.c, Unk)
         /\ (e.op = 36 => T.d[e.k] = {} \/ e.r = INCOMPAT))

(* Cursor update.  P(T, nd, R) : the change of the table and of the cursor *)
CurW(e, r, nd, R, others) ==
  LET w == CT(e.c) n == dh[cu[e.c].d].n T == CurTb(e.c) q == Fix({e.c}, n, w, T.d, nd, IsDup(T), e) IN
  /\ e.r = r
  /\ (nd = T.d /\ tx' = tx) \/ ((e.r = 0 \/ nd # T.d) /\ tx' = SetTb(w, n, [T EXCEPT !.d = nd]))
  /\ cu' = [q EXCEPT ![e.c] = [@ EXCEPT !.st = R.st, !.k = R.k, !.v = R.v]]
CurWOk(c) == CurOk(c) /\ tx[CT(c)].st = "rw"
CurWFrame(e, P) ==
  /\ IF CurWOk(e.c) THEN P \/ (Exhaust(e.r) /\ tx' = BreakTx(CT(e.c)) /\ UNCHANGED cu)
     ELSE e.r \notin {0, RTRUE, NOTFOUND} /\ UNCHANGED <<tx, cu>>
  /\ UNCHANGED <<cm, dh, ev, ce>>
(* the pair a cursor is on, <<0,0>> if it is on none.  The caller may have
   read the current pair before (e.pr its result): this tells where the cursor
   is when the history leaves it open. *)
Here(c) == LET q == cu[c] d == CurTb(c).d IN
  CASE q.st \in {"at", "eof", "pos"} -> <<q.k, q.v>>
    [] q.st = "gap" -> NextP(d, q.k, q.v)
    [] q.st = "fresh" -> <<0, 0>>
    [] OTHER -> <<-1, -1>>
HereE(e) == LET h == Here(e.c) d == CurTb(e.c).d IN
  IF e.pr = 0 THEN IF h = <<-1, -1>> /\ InD(d, e.pk, e.pv) THEN <<e.pk, e.pv>>
                   ELSE IF h = <<e.pk, e.pv>> THEN h ELSE <<-2, -2>>
  ELSE IF e.pr = -7777 THEN h
  ELSE IF h[1] > 0 /\ cu[e.c].st = "at" THEN <<-2, -2>> ELSE <<0, 0>>
NoPos == {ENODATA, NOTFOUND, EINVAL, EKEYMISMATCH}
CPut(e) ==
  CurWFrame(e,
    LET T == CurTb(e.c) d == T.d h == IF Bit(e.f, FCURRENT) THEN HereE(e) ELSE <<0, 0>> dup == IsDup(T) k == e.k v == e.v f == e.f IN
    IF ~Bit(f, FCURRENT) THEN
       LET R == PutRes(T, k, v, f, e.r) nd == [d EXCEPT ![k] = R.s] IN
       \* appended to the last key: whether the cursor knows that values follow is not determined
       CurW(e, R.r, nd, IF R.r # 0 THEN Unk ELSE IF Bit(f, FAPPEND) /\ Above(R.s, v) # {} THEN Pos(k, v) ELSE At(k, v), TRUE)
    ELSE IF Bit(f, FRESERVE) /\ dup THEN CurW(e, INCOMPAT, d, Unk, TRUE)
    ELSE IF Bit(f, FNOOVER) \/ Bit(f, FAPPEND) THEN CurW(e, EINVAL, d, Unk, TRUE)
    ELSE IF h[1] < 0 THEN FALSE
    ELSE IF h[1] = 0 THEN e.r \in NoPos /\ CurW(e, e.r, d, Unk, TRUE)
    ELSE IF h[1] # k THEN CurW(e, EKEYMISMATCH, d, Unk, TRUE)
    ELSE IF ~dup THEN CurW(e, 0, [d EXCEPT ![k] = {v}], At(k, v), TRUE)
    ELSE CurW(e, 0, [d EXCEPT ![k] = IF Bit(f, FALLDUPS) /\ Cardinality(d[k]) > 1 THEN {v} ELSE (@ \ {h[2]}) \cup {v}], At(k, v), TRUE))
(* multi-value insert, in the given order *)
RECURSIVE PutAll(_, _, _, _)
PutAll(s, m, i, j) == IF i > j THEN s ELSE PutAll(s \cup {m[i]}, m, i + 1, j)
CPutMulti(e) ==
  CurWFrame(e,
    LET T == CurTb(e.c) d == T.d k == e.k m == e.vs IN
    /\ e.f \in {0, FNODUP}
    /\ IF ~Bit(T.fl, DUPFIXED) THEN CurW(e, INCOMPAT, d, Unk, TRUE)
       ELSE IF e.r = KEYEXIST THEN /\ e.f = FNODUP
               /\ e.n < Len(m) /\ m[e.n + 1] \in PutAll(d[k], m, 1, e.n)
               /\ CurW(e, KEYEXIST, [d EXCEPT ![k] = PutAll(@, m, 1, e.n)], Unk, TRUE)
       ELSE /\ e.n = Len(m)
            /\ e.f = FNODUP => Cardinality(Rng(m)) = Len(m) /\ Rng(m) \cap d[k] = {}
            /\ CurW(e, 0, [d EXCEPT ![k] = PutAll(@, m, 1, Len(m))], Unk, TRUE))
CDel(e) ==
  CurWFrame(e,
    LET T == CurTb(e.c) d == T.d h == HereE(e) IN
    IF h = <<-1, -1>>     \* position not determined: some pair (or none) is deleted
    THEN \/ e.r \in NoPos /\ CurW(e, e.r, d, Unk, TRUE)
         \/ \E k \in DOMAIN d : \E v \in d[k] :
              CurW(e, 0, [d EXCEPT ![k] = IF Bit(e.f, FALLDUPS) \/ Bit(e.f, FNODUP) THEN {} ELSE @ \ {v}], Unk, TRUE)
    ELSE IF h[1] < 0 THEN FALSE
    ELSE IF h[1] = 0 THEN e.r \in NoPos /\ CurW(e, e.r, d, Unk, TRUE)
    ELSE LET st == IF cu[e.c].st \in {"unk", "pos"} THEN "unk" ELSE "gap" IN
         IF Bit(e.f, FALLDUPS) \/ Bit(e.f, FNODUP) THEN CurW(e, 0, [d EXCEPT ![h[1]] = {}], [st |-> st, k |-> h[1], v |-> ev.V], TRUE)
         ELSE CurW(e, 0, [d EXCEPT ![h[1]] = @ \ {h[2]}], [st |-> st, k |-> h[1], v |-> h[2]], TRUE))
CCount(e) ==
  CurFrame(e,
    LET T == CurTb(e.c) h == Here(e.c) IN
    /\ cu' = cu
    /\ IF h[1] = -1 \/ cu[e.c].st = "gap" THEN e.r \in {0, ENODATA, EINVAL}
       ELSE IF h[1] = 0 THEN e.r \in {ENODATA, EINVAL} \/ (e.r = 0 /\ e.n = 0)
       ELSE IF cu[e.c].st = "at" THEN e.r = 0 /\ e.n = Cardinality(T.d[h[1]])
       ELSE TRUE)
(* predicates on the position: r is "at end of data" *)
CEof(e) ==
  /\ IF cu[e.c].t < 0 \/ ~CurOk(e.c) THEN TRUE
     ELSE LET d == CurTb(e.c).d q == cu[e.c] k == q.k v == q.v IN
       CASE q.st = "at" -> /\ e.r = 0 \/ (e.r = RTRUE /\ NextKeyP(d, k)[1] = 0)
                           /\ e.ol = IF NextKeyP(d, k)[1] = 0 THEN RTRUE ELSE 0
                           /\ e.of = IF PrevKeyP(d, k)[1] = 0 THEN RTRUE ELSE 0
                           /\ e.ofd = IF v = Min(d[k]) THEN RTRUE ELSE 0
                           /\ e.old = IF v = Max(d[k]) THEN RTRUE ELSE 0
         [] q.st = "eof" -> e.r = RTRUE
         [] OTHER -> TRUE
  /\ UNCHANGED vars

--------------------------------------------------------------------------
(* Operations on ranges.  The driver makes these calls only with cursors whose
   position has been confirmed and is not past the end of data. *)
HereB(c) == LET q == cu[c] IN IF q.st \in {"at", "eof", "pos"} THEN <<q.k, q.v>> ELSE <<-1, -1>>
LessP(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
OrdP(d, p) == Ord(d, p[1], p[2])
Deep == 42     \* deep enough for any tree: single entries are counted
SameTable(a, b) == CT(a) = CT(b) /\ dh[cu[a].d].n = dh[cu[b].d].n
(* the one or two cursors c, c2 (-1: none) of a range *)
RefC(e) == IF e.c >= 0 THEN e.c ELSE e.c2
RangeOk(e) == /\ e.c >= 0 \/ e.c2 >= 0
              /\ (e.c >= 0 /\ e.c2 >= 0) => SameTable(e.c, e.c2)
BadRange(e) == e.r = EINVAL /\ UNCHANGED <<tx, cu>>
LoP(e, d) == IF e.c >= 0 THEN HereB(e.c) ELSE FirstP(d)
HiP(e, d) == IF e.c2 >= 0 THEN HereB(e.c2) ELSE LastP(d)
CurEnv(c, e, P) ==      \* as CurFrame, for a read through cursor c
  /\ IF CurOk(c) THEN IF tx[CT(c)].st = "parka" /\ e.r = OUSTED THEN ev.oust /\ tx' = Oust(CT(c)) /\ cu' = cu
                      ELSE IF e.r = BADTXN /\ (\E a \in Ancestors(CT(c)) : tx[a].err) THEN UNCHANGED <<tx, cu>>
                      ELSE P
     ELSE e.r \notin {0, RTRUE, NOTFOUND} /\ UNCHANGED <<tx, cu>>
  /\ UNCHANGED <<cm, dh, ev, ce>>
(* delete [lo, hi) or [lo, hi] *)
CutPairs(d, P(_, _)) == [k \in DOMAIN d |-> {v \in d[k] : ~P(k, v)}]
Bulk(c, X, e, nd, n) ==     \* n: number of pairs deleted
  LET w == CT(c) t == dh[cu[c].d].n T == CurTb(c) IN
  /\ e.r = 0 /\ e.n = n
  /\ (nd = T.d /\ tx' = tx) \/ tx' = SetTb(w, t, [T EXCEPT !.d = nd])
  /\ cu' = LET q == Fix(X, t, w, T.d, nd, IsDup(T), e) IN [x \in CSlots |-> IF x \in X THEN [q[x] EXCEPT !.st = "unk"] ELSE q[x]]
CDelRange(e) ==
  IF ~RangeOk(e) THEN BadRange(e) /\ UNCHANGED <<cm, dh, ev, ce>> ELSE
  LET c == RefC(e) IN
  /\ IF ~CurWOk(c) THEN e.r \notin {0, RTRUE, NOTFOUND} /\ UNCHANGED <<tx, cu>>
     ELSE LET d == CurTb(c).d lo == LoP(e, d) hi == HiP(e, d)
              in(k, v) == ~LessP(<<k, v>>, lo) /\ (LessP(<<k, v>>, hi) \/ (e.inc # 0 /\ <<k, v>> = hi))
              nd == CutPairs(d, in) X == {x \in {e.c, e.c2} : x >= 0} IN
          IF LessP(hi, lo) THEN e.r = ENODATA /\ e.n = 0 /\ UNCHANGED <<tx, cu>>
          ELSE \/ Bulk(c, X, e, nd, Entries(d) - Entries(nd))
               \/ Exhaust(e.r) /\ tx' = BreakTx(CT(c)) /\ UNCHANGED cu
  /\ UNCHANGED <<cm, dh, ev, ce>>
CBunch(e) ==
  CurWFrame(e,
    LET T == CurTb(e.c) d == T.d h == HereB(e.c) key == h[1] a == e.a
        in(k, v) == CASE a = 0 -> <<k, v>> = h
                      [] a = 1 -> k = key /\ v < h[2]  [] a = 2 -> k = key /\ v <= h[2]
                      [] a = 3 -> k = key /\ v >= h[2] [] a = 4 -> k = key /\ v > h[2]
                      [] a = 5 -> k = key
                      [] a = 6 -> LessP(<<k, v>>, h)    [] a = 7 -> ~LessP(h, <<k, v>>)
                      [] a = 8 -> ~LessP(<<k, v>>, h)   [] a = 9 -> LessP(h, <<k, v>>)
                      [] OTHER -> TRUE
        nd == CutPairs(d, in) IN
    Bulk(e.c, {e.c}, e, nd, Entries(d) - Entries(nd)))
(* number of steps between two positions *)
CDist(e) ==
  IF ~RangeOk(e) THEN BadRange(e) /\ UNCHANGED <<cm, dh, ev, ce>> ELSE
  LET c == RefC(e) IN CurEnv(c, e,
    LET d == CurTb(c).d n == OrdP(d, HiP(e, d)) - OrdP(d, LoP(e, d)) IN
    /\ cu' = cu /\ tx' = Wake(CT(c))
    /\ e.r = 0
    /\ IF e.deep >= Deep THEN e.n = n ELSE IF n >= 0 THEN e.n \in 0..Entries(d) ELSE e.n \in (-Entries(d))..0)
CScroll(e) ==
  CurFrame(e,
    LET d == CurTb(e.c).d h == HereB(e.c) p == Nth(d, OrdP(d, h) + 1 + e.n) IN
    IF e.deep < Deep THEN e.r \in {0, NOTFOUND} /\ cu' = SetCu(e.c, Unk)
    ELSE IF p[1] = 0 THEN e.r = NOTFOUND /\ cu' = SetCu(e.c, Unk)
    ELSE e.r = 0 /\ cu' = SetCu(e.c, IF e.n = 0 THEN cu[e.c] ELSE At(p[1], p[2])))
(* spread cursors e.base.. over a range: the i-th of n is i n-ths of the way *)
CDistribute(e) ==
  IF ~RangeOk(e) THEN BadRange(e) /\ UNCHANGED <<cm, dh, ev, ce>> ELSE
  LET c == RefC(e) IN CurEnv(c, e,
    LET d == CurTb(c).d lo == LoP(e, d) hi == HiP(e, d) n == OrdP(d, hi) - OrdP(d, lo)
        X == e.base..(e.base + e.n - 1)
        at(i) == <<e.a[i][2], e.a[i][3]>>
        step(i) == OrdP(d, at(i)) - (IF i = 1 THEN OrdP(d, lo) ELSE OrdP(d, at(i - 1)))
        m == IF n < e.n THEN n ELSE e.n IN
    /\ tx' = Wake(CT(c))
    /\ IF n < 0 THEN e.r = ENODATA /\ cu' = [x \in CSlots |-> IF x \in X THEN [cu[x] EXCEPT !.st = "unk"] ELSE cu[x]]
       ELSE IF e.deep < Deep THEN e.r \in {0, RTRUE} /\ cu' = [x \in CSlots |-> IF x \in X THEN [cu[x] EXCEPT !.st = "unk"] ELSE cu[x]]
       ELSE IF n = 0 THEN e.r = RTRUE /\ cu' = [x \in CSlots |-> IF x \in X THEN [cu[x] EXCEPT !.st = "unk"] ELSE cu[x]]
       ELSE /\ e.r = IF n < e.n THEN RTRUE ELSE 0
            /\ \A i \in 1..e.n : e.a[i][1] = (IF i <= m THEN 0 ELSE -1)
            /\ \A i \in 1..m : InD(d, e.a[i][2], e.a[i][3]) /\ step(i) \in {n \div m, (n + m - 1) \div m}
            /\ at(m) = hi
            /\ cu' = [x \in CSlots |-> IF x \notin X THEN cu[x]
                                      ELSE IF x - e.base < m THEN [cu[x] EXCEPT !.st = "at", !.k = e.a[x - e.base + 1][2], !.v = e.a[x - e.base + 1][3]]
                                      ELSE [cu[x] EXCEPT !.st = "unk"]])
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
CCompare(e) ==
  LET c == e.c IN CurEnv(c, e,
    LET d == CurTb(c).d a == HereB(e.c) b == HereB(e.c2) IN
    /\ UNCHANGED <<tx, cu>>
    /\ SameTable(e.c, e.c2) => Sign(e.r) = IF e.ig # 0 THEN Sign(a[1] - b[1]) ELSE IF LessP(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1)
CEstimate(e) ==
  CurEnv(e.c, e, UNCHANGED <<tx, cu>> /\ (SameTable(e.c, e.c2) => e.r = 0 /\ (HereB(e.c) = HereB(e.c2) => e.n = 0)))
(* several pairs of a table without multi-values *)
PairNo(d, n) == Nth(d, n)
CBatch(e) ==
  CurFrame(e,
    LET T == CurTb(e.c) d == T.d q == cu[e.c] b == e.b m == Len(b) all == Entries(d)
        want == e.lim \div 2 IN
    IF IsDup(T) THEN e.r = INCOMPAT /\ cu' = cu
    ELSE IF e.r \in {0, RTRUE}
    THEN /\ m > 0
         /\ LET o == Ord(d, b[1][1], b[1][2]) IN
            /\ InD(d, b[1][1], b[1][2])
            /\ \A i \in 1..m : <<b[i][1], b[i][2]>> = Nth(d, o + i)
            /\ q.st = "fresh" => o = 0
            /\ q.st = "at" => o \in {Ord(d, q.k, q.v), Ord(d, q.k, q.v) + 1} \/ (e.op = 0 /\ o = 0)
            /\ e.r = 0 => m = want
            /\ e.r = RTRUE <=> o + m = all
            /\ cu' = SetCu(e.c, IF e.r = 0 THEN At(Nth(d, o + m + 1)[1], Nth(d, o + m + 1)[2]) ELSE Unk)
    ELSE /\ e.r \in {NOTFOUND, ENODATA} /\ m = 0 /\ cu' = SetCu(e.c, Unk)
         /\ q.st = "at" => NextP(d, q.k, q.v)[1] = 0
         /\ (q.st = "fresh" /\ e.op = 0) => all = 0)
(* search with a predicate: key >= pk and value >= pv *)
RECURSIVE ScanFrom(_, _, _, _, _, _)
ScanFrom(T, R, tn, pk, pv, n) ==      \* R: position reached, n: calls of the predicate so far
  IF R.r \notin {0, RTRUE} THEN [f |-> FALSE, n |-> n, k |-> 0, v |-> 0]
  ELSE IF R.k >= pk /\ R.v >= pv THEN [f |-> TRUE, n |-> n + 1, k |-> R.k, v |-> R.v]
  ELSE ScanFrom(T, MoveRes(T, [k |-> R.k, v |-> R.v, st |-> "at"], tn), tn, pk, pv, n + 1)
Scanned(e, T, R) ==
  IF R.r \notin {0, RTRUE} THEN e.n = 0 /\ e.r \in {R.r, 0, ENODATA, NOTFOUND} /\ cu' = SetCu(e.c, Unk) ELSE
  LET S == ScanFrom(T, R, e.tn, e.pk, e.pv, 0) IN
  /\ e.n = S.n
  /\ IF S.f THEN e.r = RTRUE /\ cu' = SetCu(e.c, At(S.k, S.v)) ELSE e.r = 0 /\ cu' = SetCu(e.c, Unk)
CScan(e) == CurFrame(e, Scanned(e, CurTb(e.c), MoveRes(CurTb(e.c), cu[e.c], e.s)))
CScanFrom(e) == CurFrame(e, Scanned(e, CurTb(e.c), SeekKey(CurTb(e.c), e.s, e.k, e.v)))

--------------------------------------------------------------------------
(* the whole environment *)
Chk(e) == e.r = 0 /\ e.prob = 0 /\ UNCHANGED vars

(* Defragmentation changes nothing but the place of data.  It commits, and
   with it the write transaction of the caller, or it does nothing.        *)
DefragR == {0, RTRUE, LAGGARD}
DefragOwn(e, t) ==
  /\ tx[t].p = -1
  /\ IF e.end = 1
     THEN (ev.fault \/ Exhaust(e.r)) /\ tx' = Ended({t}) /\ cu' = EndCu(cu, {t}) /\ dh' = AbortDh({t})
          /\ cm' \in {cm, [id |-> tx[t].id, db |-> tx[t].db, can |-> tx[t].can]}
     ELSE IF e.id > tx[t].id
     THEN /\ e.rec >= tx[t].id /\ e.rec < e.id
          /\ cm' = [id |-> e.rec, db |-> tx[t].db, can |-> tx[t].can]
          /\ tx' = [tx EXCEPT ![t].id = e.id, ![t].dirty = FALSE, ![t].err = e.err = 1]
          /\ cu' = UnbindCu(t) /\ dh' = CommitDh(t, -1)
     ELSE e.id = tx[t].id /\ tx' = [tx EXCEPT ![t].err = e.err = 1] /\ UNCHANGED <<cm, cu, dh>>
Defrag(e) ==
  /\ IF e.bad = 1 THEN e.r = EINVAL /\ UNCHANGED <<cm, tx, cu, dh>>
     ELSE IF e.t = -1
     THEN /\ e.r \in DefragR \/ Exhaust(e.r) \/ (ev.fault /\ e.r > 0) \/ (e.r = PANIC /\ ev.fault) \/ (e.io # 0 /\ e.r > 0)
          /\ e.rec >= cm.id
          /\ cm' = [cm EXCEPT !.id = e.rec]
          /\ UNCHANGED <<tx, cu, dh>>
     ELSE IF ~CanWrite(e.t) \/ tx[e.t].p # -1 THEN e.r # 0 /\ UNCHANGED <<cm, tx, cu, dh>>
     ELSE (e.r \in DefragR \/ Exhaust(e.r) \/ (e.io # 0 /\ e.r > 0)) /\ DefragOwn(e, e.t)
  /\ e.t = -1 /\ e.bad = 0 /\ e.r \in DefragR => e.shr = e.pg0 - e.pg1
  /\ e.r = 0 => e.why % 128 = e.why                 \* no error hidden
  /\ e.r = LAGGARD => \E t \in TSlots : Live(t) /\ ~IsWr(t)
  /\ UNCHANGED <<ev, ce>>

--------------------------------------------------------------------------
(* Copies.  A copy holds exactly one committed state: the one its reader
   sees, whatever is committed meanwhile, and however it is written.      *)
CPTHROTTLE == 8  CPDISPOSE == 16  CPRENEW == 32  CPOVER == 64  CPCOMPACT == 1
EXISTS == 17
Snap(t) == IF t = -1 THEN [id |-> cm.id, db |-> cm.db, can |-> cm.can] ELSE [id |-> tx[t].id, db |-> tx[t].db, can |-> tx[t].can]
SameContent(x, d) ==
  /\ Len(x) = Cardinality({k \in DOMAIN d : d[k] # {}})
  /\ \A i \in DOMAIN x : LET k == x[i][1] s == x[i][2] IN
       /\ k \in DOMAIN d /\ (i > 1 => x[i-1][1] < k)
       /\ Rng(s) = d[k] /\ \A j \in 2..Len(s) : s[j-1] < s[j]
(* one table of the copy as its user sees it *)
CopyTb(S, x) ==
  LET n == x[1] r == x[2] T == S.db[n] IN
  IF n \in DOMAIN S.db /\ T.ex
  THEN /\ r = 0 /\ x[4] = T.sq
       /\ \/ n = 0 /\ \E m \in DOMAIN S.db : m # 0 /\ S.db[m].ex    \* names among the content
          \/ x[3] = T.fl /\ SameContent(x[5], T.d)
  ELSE r = NOTFOUND \/ n = 0
CopyOf(e, S) ==
  /\ e.r2 = 0 /\ e.prob = 0
  /\ e.ctid = S.id \/ (ev.bump /\ e.t = -1 /\ e.ctid > S.id)
  /\ \A i \in DOMAIN e.cp : CopyTb(S, e.cp[i])
  /\ e.tables = Cardinality({n \in DOMAIN S.db : n # 0 /\ S.db[n].ex})
  /\ \A i \in 1..3 : e.can[i] = S.can[i]
  /\ IF S.can[4] = 0 THEN e.can[4] = 0 ELSE e.can[4] \in {S.can[4], e.ctid}
  /\ Bit(e.f, CPCOMPACT) => e.gcp = 0
  /\ e.wr \in {0, MAPFULL} /\ e.prob2 = 0                          \* and it works
IsDirty(t) == \E a \in Ancestors(t) : tx[a].dirty
CopyRefusal(e, ok) ==
  \/ e.r = EINVAL /\ IF e.t = -1 THEN (Bit(e.f, CPDISPOSE) \/ Bit(e.f, CPRENEW)) ELSE ~ok /\ tx[e.t].st = "none"
  \/ e.r = EINVAL /\ e.t # -1 /\ IsWr(e.t) /\ (Bit(e.f, CPTHROTTLE) \/ Bit(e.f, CPRENEW))
  \/ e.r = BADTXN /\ e.t # -1 /\ (IF e.t = -1 THEN FALSE ELSE tx[e.t].st # "none" /\ (IF ok THEN IsWr(e.t) ELSE TRUE))
  \/ e.r = OUSTED /\ ev.oust /\ (Bit(e.f, CPTHROTTLE) \/ (e.t # -1 /\ tx[e.t].st = "parka"))
CopyDone(e, ok) ==
  /\ tx' = IF e.t = -1 \/ tx[e.t].st = "none" THEN tx
           ELSE IF Bit(e.f, CPDISPOSE)
                THEN LET t == e.t S == {t} \cup Kids(t) p == tx[t].p IN IF p = -1 THEN Ended(S) ELSE [Ended(S) EXCEPT ![p].ch = -1]
           ELSE IF e.r = OUSTED THEN Oust(e.t)
           ELSE IF ok /\ ~IsWr(e.t) THEN [tx EXCEPT ![e.t].st = IF Bit(e.f, CPTHROTTLE) /\ e.r \notin {EXISTS, BADTXN} THEN "parka" ELSE "ro"] ELSE tx
  /\ IF e.t # -1 /\ tx[e.t].st # "none" /\ Bit(e.f, CPDISPOSE)
     THEN LET S == {e.t} \cup Kids(e.t) IN
          /\ cu' = IF tx[e.t].sv = <<>> THEN EndCu(cu, S) ELSE BackCu(tx[e.t].sv, S)
          /\ dh' = IF IsWr(e.t) THEN AbortDh(S) ELSE CommitDh(e.t, -1)
     ELSE UNCHANGED <<cu, dh>>
Copy(e) ==
  LET ok == IF e.t = -1 THEN TRUE ELSE CanRead(e.t) IN
  /\ \/ e.r = 0 /\ ok /\ CopyOf(e, Snap(e.t))
        /\ e.t # -1 => (IsWr(e.t) => (IsDirty(e.t) => tx[e.t].db = cm.db /\ tx[e.t].can = cm.can))
        /\ ~(e.mode = 3 /\ ~Bit(e.f, CPOVER))
     \/ e.r # 0 /\ CopyRefusal(e, ok) /\ (e.mode = 0 => e.left = 0)
     \/ e.r = EXISTS /\ ok /\ e.mode = 3 /\ ~Bit(e.f, CPOVER) /\ e.left = 1
  /\ CopyDone(e, ok)
  /\ UNCHANGED <<cm, ev, ce>>
(* the same in two steps, the copy being written while others commit *)
CopyBeg(e) == /\ e.r = 0 /\ ev.cp = NoTxn
              /\ ev' = [ev EXCEPT !.cp = IF e.t = -1 THEN Snap(-1) ELSE IF CanRead(e.t) THEN Snap(e.t) ELSE NoTxn]
              /\ UNCHANGED <<cm, tx, dh, cu, ce>>
CopyEnd(e) ==
  LET ok == IF e.t = -1 THEN TRUE ELSE CanRead(e.t) IN
  /\ \/ e.r = 0 /\ ev.cp # NoTxn /\ CopyOf(e, ev.cp)
     \/ e.r # 0 /\ CopyRefusal(e, ok)
  /\ CopyDone(e, ok)
  /\ ev' = [ev EXCEPT !.cp = NoTxn]
  /\ UNCHANGED <<cm, ce>>

Ignore(e) == UNCHANGED vars
EOpen(e) ==
  /\ e.r \in {0, RTRUE} \/ ev.fault
  /\ UNCHANGED vars
EClose(e) ==
  /\ IF e.r = 0 \/ (e.r = RTRUE) THEN tx' = [t \in TSlots |-> IF tx[t].w = e.w THEN NoTxn ELSE tx[t]] /\ dh' = [d \in DSlots |-> IF dh[d].w = e.w THEN NoDh ELSE dh[d]]
     ELSE e.r = BUSY /\ UNCHANGED <<tx, dh>>
  /\ ev' = IF e.r = BUSY THEN ev ELSE [ev EXCEPT !.fault = FALSE]
  /\ UNCHANGED <<cm, cu, ce>>
EGeo(e) == /\ e.r \in {0} \/ ev.full
           /\ ev' = [ev EXCEPT !.bump = TRUE] /\ UNCHANGED <<cm, tx, dh, cu, ce>>
ESync(e) == e.r \in {0, RTRUE} /\ UNCHANGED vars
EInfo(e) == e.r = 0 /\ (e.rec = cm.id \/ ev.bump) /\ UNCHANGED vars
============================================================================
