----------------------------- MODULE RanksTrace -----------------------------
(* Runs with several processes against the same run with one:              *)
(*  Serial [res]    the results of one process                             *)
(*  Par    [ranks, err, msg, ops, acc, res]                                *)
(*    ops: for each process the collectives it entered                     *)
(*    acc: file accesses <<rank, epoch, file, write>> (epoch: number of    *)
(*         collectives the process had gone through, see Ranks)            *)
EXTENDS TraceUtil, Integers, FiniteSets
VARIABLES l, base

Tuples(s) == {<<s[i][1], s[i][2], s[i][3], s[i][4]>> : i \in 1..Len(s)}
Races(acc) ==
  LET a == Tuples(acc)
      wr == {x \in a : x[4]}
  IN {<<x, y>> \in wr \X a : x[1] # y[1] /\ x[2] = y[2] /\ x[3] = y[3]}
(* results: records [k, v], v integers (scaled), last digit uncertain *)
Near(x, y) == x = y \/ x = y + 1 \/ y = x + 1
SameRec(a, b) ==
  a.k = b.k /\ Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) :
                                         Near(a.v[i], b.v[i])
SameRes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameRec(a[i], b[i])
Diff(a, b) == {i \in 1..Len(a) : i > Len(b) \/ (i <= Len(b) /\ ~SameRec(a[i], b[i]))}

TPar(e) ==
  \E races \in {Races(e.acc)} :
  /\ Chk(e.err = "", l, "Par:error", [err |-> e.err, msg |-> e.msg])
  /\ Chk(\A i \in 1..Len(e.ops) : e.ops[i] = e.ops[1], l, "Par:collectives",
         [n |-> [i \in 1..Len(e.ops) |-> Len(e.ops[i])]])
  /\ Chk(races = {}, l, "Par:race",
         [x |-> IF races = {} THEN <<>> ELSE CHOOSE x \in races : TRUE])
  /\ Chk(SameRes(e.res, base), l, "Par:result",
         [n |-> Len(e.res), m |-> Len(base), first |->
            IF SameRes(e.res, base) THEN <<>>
            ELSE LET d == Diff(e.res, base)
                 IN IF d = {} THEN <<>>
                    ELSE e.res[CHOOSE i \in d : \A j \in d : i <= j].k])

TraceInit == l = 1 /\ base = <<>>
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1
     THEN Done(Len(Trace)) /\ UNCHANGED base
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> base' = <<>>
         [] e.ev = "Serial" -> base' = e.res
                               /\ Chk(e.err = "", l, "Serial:error",
                                      [err |-> e.err, msg |-> e.msg])
         [] e.ev = "Par" -> TPar(e) /\ UNCHANGED base
TraceSpec == TraceInit /\ [][TraceNext]_<<l, base>>
=============================================================================
