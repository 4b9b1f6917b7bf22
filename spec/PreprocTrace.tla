----------------------------- MODULE PreprocTrace -----------------------------
(* Recorded calls of steps of the matrix processing: against Preproc.tla,   *)
(* and the same step applied to some of the rows, in any order.             *)
EXTENDS Preproc, TraceUtil
VARIABLES l

Real(e, W(_, _), tol) ==
  \A i \in 1..Len(e.A) : Near(e.out[i], W(e.A[i], i), tol)
Complexes(e, W(_, _), tol) ==
  \A i \in 1..Len(e.A) : NearC(e.out[i], W(e.A[i], i), tol)

Right(e) ==
  CASE e.step = "sign" -> LET W(x, i) == Sign(x) IN Real(e, W, 0)
    [] e.step = "clip" -> LET W(x, i) == Clip(x, e.f2) IN Real(e, W, 4)
    [] e.step = "demean" -> LET W(x, i) == Demean(x) IN Real(e, W, 1)
    [] e.step = "linear" -> LET W(x, i) == Linear(x) IN Real(e, W, 3)
    [] e.step = "std" ->
         \A i \in 1..Len(e.A) : LET w == NormStd(e.A[i]) IN
           Near(e.out[i], w, 3)
    [] e.step = "tdnorm" ->
         \A i \in 1..Len(e.A) :
           LET w == TDNorm(e.A[i], e.w)
               zero == \A k \in 1..Len(w) : e.A[i][k] = 0
           IN IF zero THEN \A k \in 1..Len(w) : e.out[i][k] \in {0, M}
              ELSE Near(e.out[i], w, 6)
    [] e.step = "mute" ->
         \A i \in 1..Len(e.A) :
           MuteOk(e.A[i], e.out[i],
                  IF e.f2 >= 0 THEN Level(e.A[i], e.f2) ELSE S * e.level,
                  e.w, e.extend, IF e.f2 >= 0 THEN 2 ELSE 0)
    [] e.step = "taper" -> \A i \in 1..Len(e.A) :
                             TaperOk(e.A[i], e.out[i], e.m)
    [] e.step = "pad" -> LET W(x, i) == PadTo(x, PadLen(e.type, Len(x), e.lag2))
                         IN Real(e, W, 0)
    [] e.step = "white" ->
         LET g == IF e.joint THEN 3 ELSE 1
             W(z, i) == LET a == g * ((i - 1) \div g) + 1
                        IN WhiteRow(z, SubSeq(e.A, a, a + g - 1))
         IN Complexes(e, W, 2)
    [] e.step = "fdfilter" -> \A i \in 1..Len(e.A) :
                                FDFilterOk(e.A[i], e.out[i], e.corners)
    [] e.step = "fdsign" -> \A i \in 1..Len(e.A) : FDSignOk(e.A[i], e.out[i])
    (* filters and sequences of steps: only zero remains zero                *)
    [] OTHER -> \A i \in 1..Len(e.A) :
                  (\A k \in 1..Len(e.A[i]) : e.A[i][k] = 0) =>
                     \A k \in 1..Len(e.out[i]) : e.out[i][k] \in {0, M}
Alike(e, x, y) == IF e.complex THEN NearC(x, y, 1) ELSE Near(x, y, 1)
Step(e) ==
  /\ Chk(e.ok, l, e.step \o ":failed", [err |-> e.err])
  /\ e.ok =>
     IF Len(e.out) # Len(e.A) THEN Chk(FALSE, l, e.step \o ":rows", [n |-> 0])
     ELSE
       /\ Chk(Right(e), l, e.step, [in |-> e.A, out |-> e.out])
       /\ \A i \in 1..Len(e.some) :
            LET s == e.some[i] IN
            Chk(/\ s.ok /\ Len(s.out) = Len(s.rows)
                /\ \A j \in 1..Len(s.rows) :
                     Alike(e, s.out[j], e.out[s.rows[j]]),
                l, e.step \o ":depends on other rows",
                [rows |-> s.rows, err |-> s.err, out |-> s.out])

(* results of runs with all and with some of the channels                   *)
Pairs(e) ==
  /\ Chk(e.ok, l, "Pairs:failed", [err |-> e.err])
  /\ e.ok =>
     /\ \A i \in 1..Len(e.some) :
          Chk(\E j \in 1..Len(e.all) :
                e.all[j].k = e.some[i].k /\ Near(e.all[j].v, e.some[i].v, 1),
              l, "Pairs:depends on other channels", [k |-> e.some[i].k])
     /\ \A j \in 1..Len(e.all) :
          {e.all[j].a, e.all[j].b} \subseteq Range(e.chans) =>
            Chk(\E i \in 1..Len(e.some) : e.some[i].k = e.all[j].k,
                l, "Pairs:only with other channels", [k |-> e.all[j].k])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Step" -> Step(e)
            [] e.ev = "Pairs" -> Pairs(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
