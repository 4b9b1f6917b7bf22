----------------------------- MODULE StitchTrace -----------------------------
(* Recorded corrections of velocity-change results.                          *)
EXTENDS Stitch, TraceUtil
VARIABLE l

Abs(x) == IF x < 0 THEN -x ELSE x
(* a and b: values; k: by how much a has moved to be b *)
Shifted(a, b) == {b[t] - a[t] : t \in Has(a) \cap Has(b)}
(* the similarities that stay in the middle of the axis                      *)
Inner(J, k) == {j \in 1..J : j > 12 /\ j <= J - 12 /\ j - k >= 1 /\ j - k <= J}
Follows(x, y, k) ==
  \A t \in DOMAIN x.sim : \A j \in Inner(Len(x.sim[t]), k) :
    y.sim[t][j] = x.sim[t][j - k]

(* x became y, relative to z                                                 *)
Right(x, y, z, n, method, what) ==
  LET v == x.value IN
  /\ Chk(y.corr = x.corr, l, what \o ":correlation", [x |-> x.corr])
  /\ Chk(Has(y.value) = Has(v), l, what \o ":value without data",
         [value |-> y.value])
  /\ Has(y.value) = Has(v) =>
     LET K == Shifted(v, y.value) IN
     /\ Chk(Cardinality(K) <= 1, l, what \o ":torn", [x |-> v, y |-> y.value])
     /\ Cardinality(K) = 1 =>
        LET k == CHOOSE k \in K : TRUE
            R == IF Refused(v, z.value, n) THEN {0}
                 ELSE Rolls(v, x.corr, z.value, z.corr, n, method)
        IN /\ Chk(k \in R, l, what \o ":offset",
                  [k |-> k, want |-> R, x |-> v, z |-> z.value, n |-> n,
                   method |-> method])
           /\ Chk(Follows(x, y, k), l, what \o ":similarities", [k |-> k])
Left(x, y, what) == Chk(x = y, l, what, [x |-> x.value, y |-> y.value])

Pair(e) ==
  LET a == e.ins[1] b == e.ins[2]
      no == Refused(a.value, b.value, e.n)
  IN /\ Chk(e.err = "", l, "Pair:failed", [err |-> e.err])
     /\ Chk(e.refsame /\ e.same, l, "Pair:reference changed", [n |-> e.n])
     /\ Chk(e.ok = ~no, l, IF no THEN "Pair:not refused" ELSE "Pair:refused",
            [a |-> a.value, b |-> b.value, n |-> e.n])
     /\ IF e.ok /\ ~no THEN Right(a, e.out, b, e.n, e.method, "Pair")
        ELSE Left(a, e.out, "Pair:changed")

(* the average of the curves as they are when they have been shifted         *)
Averaged(e) ==
  LET o == e.outs
      rows == {t \in 1..Len(e.av.sim) : TRUE}
      cell(t, j) == {i \in DOMAIN o : o[i].sim[t][j] # NaN}
  IN \A t \in rows :
       /\ Chk(e.av.n[t] = Cardinality({i \in DOMAIN o : o[i].value[t] # NaN}),
              l, "Average:members", [t |-> t, n |-> e.av.n[t]])
       /\ \A j \in 13..(Len(e.av.sim[t]) - 12) :
            LET C == cell(t, j)
                s == Total(C, [i \in C |-> o[i].sim[t][j]])
            IN IF C = {} THEN
                 Chk(e.av.sim[t][j] = NaN, l, "Average:invented", [t |-> t])
               ELSE Chk(e.av.sim[t][j] # NaN /\
                        Abs(e.av.sim[t][j] * Cardinality(C) - s * 1000) <= 8,
                        l, "Average:mean", [t |-> t, j |-> j])

Several(e) ==
  LET cs == [i \in 1..Len(e.ins) |-> e.ins[i].value]
      ref == [i \in DOMAIN cs |-> TLCEval(Reference(cs, i))]
      no == {i \in DOMAIN cs : ref[i] # 0 /\
               Refused(cs[i], cs[ref[i]], e.n)}
  IN /\ Chk(e.ok, l, "Several:failed", [err |-> e.err])
     /\ Chk(e.ok => (e.warned > 0 \/ no = {}), l, "Several:warnings",
            [n |-> e.warned, want |-> no])
     /\ e.ok => \A i \in DOMAIN cs :
          IF ref[i] = 0 \/ i \in no
          THEN Left(e.ins[i], e.outs[i], "Several:changed")
          ELSE Right(e.ins[i], e.outs[i], e.outs[ref[i]], e.n, e.method,
                     "Several")
     /\ Chk(e.aok, l, "Average:failed", [err |-> e.aerr])
     /\ (e.ok /\ e.aok) => Averaged(e)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Pair" -> Pair(e)
            [] e.ev = "Several" -> Several(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
