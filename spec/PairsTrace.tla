----------------------------- MODULE PairsTrace -----------------------------
(* The functions that choose pairs, each call against PairsOf of Corr.     *)
EXTENDS Corr, TraceUtil
VARIABLE l

(* a call is a run without data; chans are the channels *)
Ids(e) == {c.id : c \in Rng(e.chans)}
Later(e, p) == Max2(e.start[p[1]], e.start[p[2]])

(* the pairs of traces (by index) that are to be correlated now *)
Want(e) ==
  LET n == Len(e.chans)
      id(i) == e.chans[i].id
      at(i) == e.start[i]
      stored(i, j) == \E x \in Rng(e.stored) :
          <<x.a, x.b>> = Canon(id(i), id(j)) /\ x.st = Max2(at(i), at(j))
      one == {p \in (1..n) \X (1..n) :
                /\ PairOk(e, id(p[1]), id(p[2]))
                /\ ~stored(p[1], p[2])}
  IN IF e.method = "allCombinations" THEN one
     ELSE {p \in one : p[1] <= p[2]}

StaPairs(e) ==
  LET ids == Ids(e)
      st(x) == [n |-> x.n, s |-> x.s]
  IN {<<st(Canon(p[1], p[2])[1]), st(Canon(p[1], p[2])[2])>> :
        p \in {p \in ids \X ids : PairOk(e, p[1], p[2])}}

TCombis(e) ==
  LET got == {<<p[1], p[2]>> : p \in Rng(e.res)}
      want == Want(e)
      srt == \A i \in 1..(Len(e.chans) - 1) :
                IdLeq(e.chans[i].id, e.chans[i + 1].id)
  IN /\ Chk(srt, l, "Combis:order", [x |-> 0])
     /\ Chk(got \subseteq want, l, "Combis:extra", [x |-> got \ want])
     /\ Chk(want \subseteq got, l, "Combis:missing", [x |-> want \ got])
     /\ Chk(Cardinality(got) = Len(e.res), l, "Combis:twice", [x |-> e.res])

TStations(e) ==
  LET got == {<<p[1], p[2]>> : p \in Rng(e.res)}
      want == StaPairs(e)
  IN /\ Chk(want \subseteq got, l, "Stations:missing", [x |-> want \ got])
     /\ Chk(got \subseteq want, l, "Stations:extra", [x |-> got \ want])

TInX(e) ==
  Chk(e.res = Requested(e, e.a, e.b), l, "Requested", [got |-> e.res])

TCanon(e) ==
  LET p == Canon(e.a, e.b)
  IN Chk(e.res = <<p[1], p[2]>>, l, "Canonical", [got |-> e.res])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> TRUE
         [] e.ev = "Combis" -> TCombis(e)
         [] e.ev = "Stations" -> TStations(e)
         [] e.ev = "InX" -> TInX(e)
         [] e.ev = "Canon" -> TCanon(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
