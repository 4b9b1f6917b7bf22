------------------------------- MODULE CorrDB -------------------------------
(***************************************************************************)
(* The correlation database file: a map from keys to correlations, with    *)
(* the processing parameters of its first writer.                          *)
(*                                                                         *)
(* One action per public call (a sequential library: the linearization     *)
(* point is the return of the call):                                       *)
(*   Open(mode, co, force)  CorrelationDataBase(...).__enter__             *)
(*   Close                  __exit__                                       *)
(*   Add(tag, batch)        DBHandler.add_correlation                      *)
(*   Remove(tag, a, b, t)   DBHandler.remove_data                          *)
(* Queries (get_data, listings) are operators on the state.                *)
(*                                                                         *)
(* key == [tag, a, b, st, et]: a, b channel ids in canonical order, st/et  *)
(* window start and end as sequences of characters (the text of the time). *)
(***************************************************************************)
EXTENDS Names, Params, FiniteSets, TLC

VARIABLES
  db,     \* key -> token of (samples, header)
  co,     \* relevant parameters recorded in the file, or NoCo
  sess,   \* the current opening: [open, rw]
  log     \* history of successful mutations (for properties, generation)
vars == <<db, co, sess, log>>

Closed == [open |-> FALSE, rw |-> FALSE]

-----------------------------------------------------------------------------
(* operators: what each call does to the content *)

KeyOf(tag, r) ==
  LET p == Canon(r.a, r.b)
  IN  [tag |-> tag, a |-> p[1], b |-> p[2], st |-> r.st, et |-> r.et]

AddOne(d, tag, r) ==
  IF KeyOf(tag, r) \in DOMAIN d THEN d ELSE d @@ (KeyOf(tag, r) :> r.v)

RECURSIVE AddOp(_, _, _)
AddOp(d, tag, batch) ==
  IF batch = <<>> THEN d
  ELSE AddOp(AddOne(d, tag, batch[1]), tag, Tail(batch))

(* number of members of the batch that find their key occupied *)
RECURSIVE Dups(_, _, _)
Dups(d, tag, batch) ==
  IF batch = <<>> THEN 0
  ELSE (IF KeyOf(tag, batch[1]) \in DOMAIN d THEN 1 ELSE 0)
       + Dups(AddOne(d, tag, batch[1]), tag, Tail(batch))

Doomed(d, tag, a, b, pat) ==
  LET p == Canon(a, b)
  IN {k \in DOMAIN d : /\ k.tag = tag /\ k.a = p[1] /\ k.b = p[2]
                       /\ Glob(pat, k.st)}

RemoveOp(d, tag, a, b, pat) ==
  [k \in DOMAIN d \ Doomed(d, tag, a, b, pat) |-> d[k]]

(* queries: every code of a pair is a pattern. A pair may be named in       *)
(* either order; which order is meant is decided by the first codes that   *)
(* differ, unless there is a wildcard before.                              *)
Wild(p) == \E i \in 1..Len(p) : p[i] \in {42, 63}
Decided(q) ==
  CASE Wild(q.n1) \/ Wild(q.n2) -> FALSE
    [] q.n1 # q.n2 -> TRUE
    [] Wild(q.s1) \/ Wild(q.s2) -> FALSE
    [] q.s1 # q.s2 -> TRUE
    [] OTHER -> ~Wild(q.c1) /\ ~Wild(q.c2)

Query(d, q) ==
  LET x == [n |-> q.n1, s |-> q.s1, c |-> q.c1]
      y == [n |-> q.n2, s |-> q.s2, c |-> q.c2]
      Hit(k, u, w) ==
        /\ Glob(q.tag, k.tag) /\ Glob(q.st, k.st) /\ Glob(q.et, k.et)
        /\ Glob(u.n, k.a.n) /\ Glob(w.n, k.b.n)
        /\ Glob(u.s, k.a.s) /\ Glob(w.s, k.b.s)
        /\ Glob(u.c, k.a.c) /\ Glob(w.c, k.b.c)
  IN {k \in DOMAIN d : Hit(k, x, y) \/ (Decided(q) /\ Hit(k, y, x))}

PairKeys(d, tag, na, nb, sa, sb) ==
  {k \in DOMAIN d : /\ k.tag = tag /\ k.a.n = na /\ k.b.n = nb
                    /\ k.a.s = sa /\ k.b.s = sb}
Channels(d, tag, na, nb, sa, sb) ==
  {<<k.a.c, k.b.c>> : k \in PairKeys(d, tag, na, nb, sa, sb)}
Starts(d, tag, na, nb, sa, sb, ca, cb) ==
  {k.st : k \in {x \in PairKeys(d, tag, na, nb, sa, sb) :
                   x.a.c = ca /\ x.b.c = cb}}

(* opening a file with recorded parameters c (NoCo: none recorded) *)
OpenOutcome(c, newco, hasco, mode, force) ==
  LET m == IF ~hasco /\ mode # "r" /\ ~force THEN "r" ELSE mode
      new == Norm(newco)
  IN IF hasco /\ c # NoCo /\ c # new /\ ~force
     THEN [ok |-> FALSE, rw |-> FALSE, co |-> c]
     ELSE [ok |-> TRUE, rw |-> m # "r",
           co |-> IF hasco /\ c = NoCo /\ m # "r" THEN new ELSE c]

-----------------------------------------------------------------------------
(* the transition system *)
CONSTANTS Tags, Ids, Times, Ends, Vals, Cos, MaxLog

Init == /\ db = [k \in {} |-> 0] /\ co = NoCo /\ sess = Closed /\ log = <<>>

Open(mode, c, hasco, force) ==
  LET o == OpenOutcome(co, c, hasco, mode, force)
  IN /\ ~sess.open
     /\ hasco \/ co # NoCo   \* a file is created by a writer with parameters
     /\ co = NoCo => mode = "a"
     /\ sess' = IF o.ok THEN [open |-> TRUE, rw |-> o.rw] ELSE sess
     /\ co' = o.co
     /\ log' = Append(log, [op |-> "open", mode |-> mode, co |-> c,
                            hasco |-> hasco, force |-> force, ok |-> o.ok])
     /\ UNCHANGED db

Close == /\ sess.open /\ sess' = Closed /\ UNCHANGED <<db, co>>
         /\ log' = Append(log, [op |-> "close"])

Recs == [a : Ids, b : Ids, st : Times, et : Ends, v : Vals]

Add(tag, batch) ==
  /\ sess.open /\ sess.rw
  /\ db' = AddOp(db, tag, batch)
  /\ log' = Append(log, [op |-> "add", tag |-> tag, batch |-> batch])
  /\ UNCHANGED <<co, sess>>

Remove(tag, a, b, pat) ==
  /\ sess.open /\ sess.rw
  /\ db' = RemoveOp(db, tag, a, b, pat)
  /\ log' = Append(log, [op |-> "remove", tag |-> tag, a |-> a, b |-> b,
                         pat |-> pat])
  /\ UNCHANGED <<co, sess>>

Batches == {<<r>> : r \in Recs}
Pats == Times \cup {Star} \cup {<<t[1], 42>> : t \in Times}

Next == \/ \E m \in {"a", "r"}, c \in Cos, h, f \in BOOLEAN : Open(m, c, h, f)
        \/ Close
        \/ \E t \in Tags, b \in Batches : Add(t, b)
        \/ \E t \in Tags, x, y \in Ids, p \in Pats : Remove(t, x, y, p)
Spec == Init /\ [][Next]_vars
Bound == Len(log) < MaxLog

-----------------------------------------------------------------------------
(* properties (C01, C02), stated over the history, not over the operators *)

(* positions of the log that mention key k *)
AddsOf(k) == {i \in 1..Len(log) :
  /\ log[i].op = "add"
  /\ \E j \in 1..Len(log[i].batch) : KeyOf(log[i].tag, log[i].batch[j]) = k}
DelsOf(k) == {i \in 1..Len(log) :
  /\ log[i].op = "remove" /\ log[i].tag = k.tag
  /\ {log[i].a, log[i].b} = {k.a, k.b} /\ Glob(log[i].pat, k.st)}
LastDel(k) == IF DelsOf(k) = {} THEN 0 ELSE CHOOSE i \in DelsOf(k) :
                \A j \in DelsOf(k) : j <= i
Live(k) == {i \in AddsOf(k) : i > LastDel(k)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j

AllKeys == {[tag |-> t, a |-> x, b |-> y, st |-> u, et |-> w] :
              t \in Tags, x \in Ids, y \in Ids, u \in Times, w \in Ends}

(* the content is exactly the first correlation stored since removal *)
MapIsHistory ==
  /\ DOMAIN db = {k \in AllKeys : Live(k) # {}}
  /\ \A k \in DOMAIN db :
       LET e == log[First(Live(k))]
           j == CHOOSE j \in 1..Len(e.batch) :
                  /\ KeyOf(e.tag, e.batch[j]) = k
                  /\ \A i \in 1..j-1 : KeyOf(e.tag, e.batch[i]) # k
       IN db[k] = e.batch[j].v

(* no two keys for the same unordered pair, tag and window *)
Canonical == \A k \in DOMAIN db : IdLeq(k.a, k.b)

(* querying a stored correlation by its own names, in either order, finds it *)
Reachable == \A k \in DOMAIN db : \A sw \in BOOLEAN :
  LET x == IF sw THEN k.b ELSE k.a
      y == IF sw THEN k.a ELSE k.b
  IN k \in Query(db, [tag |-> k.tag, st |-> k.st, et |-> k.et,
       n1 |-> x.n, n2 |-> y.n, s1 |-> x.s, s2 |-> y.s, c1 |-> x.c, c2 |-> y.c])

(* the parameters of the file are those of the first accepted opening with *)
(* parameters, and each accepted opening agrees with them or is forced     *)
OpenLog == SelectSeq(log, LAMBDA e : e.op = "open" /\ e.ok /\ e.hasco)
NeverMixed ==
  /\ (co # NoCo => OpenLog # <<>> /\ co = Norm(OpenLog[1].co))
  /\ \A i \in 1..Len(OpenLog) : OpenLog[i].force \/ Norm(OpenLog[i].co) = co

StepProps == [][ /\ (log'[Len(log')].op = "add" =>
                       \A k \in DOMAIN db : k \in DOMAIN db' /\ db'[k] = db[k])
                 /\ (~sess.rw => db' = db)
                 /\ (co # NoCo => co' = co) ]_vars
=============================================================================
