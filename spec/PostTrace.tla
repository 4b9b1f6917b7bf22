------------------------------ MODULE PostTrace ------------------------------
(* Recorded post-processing of real matrices, against PostProc.tla.           *)
EXTENDS PostProc, TraceUtil
VARIABLES l

Rows(e, W(_), tol, p) == \A i \in 1..Len(e.A) : Close(e.out[i], W(e.A[i]), tol, p)
Same(e) == \A i \in 1..Len(e.A) : \A k \in 1..Len(e.A[i]) :
             e.out[i][k] = IF e.A[i][k] = M THEN M ELSE S * e.A[i][k]
Right(e) ==
  CASE e.step = "clip" ->
         LET w == ClipAll(e.A, e.f2, e.axis) IN
         \A i \in 1..Len(e.A) : Near(e.out[i], w[i], 4)
    [] e.step = "normalize" ->
         IF ~WithIn(e.h, e.a, e.b) THEN Same(e)
         ELSE LET W(x) == NormRow(x, From(e.h, e.a), Upto(e.h, e.b), e.type)
              IN Rows(e, W, 2, 100)
    [] e.step = "smooth" ->
         LET m == [i \in 1..Len(e.A) |-> Full(e.A[i])]
             n == IF e.axis = 0 THEN Len(m) ELSE Len(m[1])
             X(i) == IF e.axis = 0 THEN m[i] ELSE Column(m, i)
             Y(i) == IF e.axis = 0 THEN e.out[i] ELSE Column(e.out, i)
         IN \A i \in 1..n :
              IF e.type \in {"flat", "bartlett"} \/ e.w < 3
              THEN Near(Y(i), SmoothRow(X(i), e.w, e.type), 1)
              ELSE SmoothIn(X(i), Y(i), e.w)
    [] e.step = "envelope" ->
         \A i \in 1..Len(e.A) : EnvelopeOk(e.A[i], e.out[i])
    [] e.step = "decay" -> DecayOk(e.h, e.env, e.ratio)
    [] e.step = "taper" ->
         IF e.w = 0 THEN Same(e)
         ELSE /\ SameFactor(e.A, e.out)
              /\ \A i \in 1..Len(e.A) :
                   IF Empty(e.A[i]) THEN e.out[i] = Nothing(e.A[i])
                   ELSE TaperOk(e.A[i], e.out[i], e.w)
              /\ EndsOk(e.A[1][1], e.out[1], IF e.w = 1 THEN 2 ELSE e.w)
    [] e.step = "center" ->
         IF e.half = 0 THEN Same(e)
         ELSE /\ SameFactor(e.A, e.out)
              /\ CenterOk(e.A[1][1], e.out[1], e.z, e.half, e.slope)
    (* the third row is the sum of the first two                             *)
    [] e.step = "filter" ->
         /\ \A k \in 1..Len(e.out[1]) :
              Abs(e.out[1][k] + e.out[2][k] - e.out[3][k]) <= 3
         /\ \A i \in 1..Len(e.A) : Empty(e.A[i]) =>
              \E k \in 1..Len(e.out[i]) : e.out[i][k] = M
    [] OTHER -> TRUE
Axes(e) ==
  LET g == Axis(e.h, e) IN
  /\ e.h2.n = g.n /\ Abs(e.h2.start - g.start) <= 1
  /\ Abs(e.h2.dt - g.dt) <= 1 /\ Abs(e.h2.last - Last(e.h2)) <= g.n
  /\ \A i \in 1..Len(e.out) : Len(e.out[i]) = g.n
Alike(x, y) == Near(x, y, 1)
Step(e) ==
  /\ Chk(e.ok # e.refused, l, e.step \o (IF e.ok THEN ":accepted" ELSE ":failed"),
         [err |-> e.err])
  /\ e.ok =>
     IF Len(e.out) # Len(e.A) THEN Chk(FALSE, l, e.step \o ":rows", [n |-> 0])
     ELSE IF ~Axes(e) THEN Chk(FALSE, l, e.step \o ":lag axis", [h |-> e.h2])
     ELSE
       /\ Chk(Right(e), l, e.step, [in |-> e.A, out |-> e.out])
       /\ \A i \in 1..Len(e.some) :
            LET s == e.some[i] IN
            Chk(/\ s.ok /\ Len(s.out) = Len(s.rows)
                /\ \A j \in 1..Len(s.rows) : Alike(s.out[j], e.out[s.rows[j]]),
                l, e.step \o ":depends on other rows",
                [rows |-> s.rows, err |-> s.err, out |-> s.out])

(* a sinusoid: samples of the middle of the row                              *)
Signal(e) ==
  /\ Chk(e.ok, l, "Signal:failed", [err |-> e.err])
  /\ e.ok /\ e.inside /\ e.step = "rate" =>
       Chk(\A k \in 1..Len(e.x) : Abs(e.x[k] - e.y[k]) <= 120, l,
           "Signal:not the same signal", [x |-> e.x, y |-> e.y])
  /\ e.ok => Chk(IF e.inside THEN Passes(e.x, e.y) ELSE Stopped(e.x, e.y),
                 l, "Signal:" \o e.step, [x |-> Power(e.x), y |-> Power(e.y)])

(* A matrix and a sequence of steps: headers after each step, and the rows    *)
(* of some alone. The first row has a single arrival at lag e.peak.           *)
RECURSIVE AxisIn(_, _, _)
AxisIn(h, ops, k) == IF k = 0 THEN h ELSE Axis(AxisIn(h, ops, k - 1), ops[k])
Chain(e) ==
  /\ Chk(e.ok, l, "Chain:failed", [err |-> e.err])
  /\ \A k \in 1..Len(e.heads) :
       LET g == AxisIn(e.h, e.ops, k)
           o == e.heads[k]
       IN Chk(/\ o.n = g.n /\ o.cols = g.n /\ Abs(o.start - g.start) <= k
              /\ Abs(o.dt - g.dt) <= k /\ Abs(o.last - Last(g)) <= k * (g.n + 1)
              /\ o.rows = e.rows /\ o.ntrcs = e.rows /\ o.steps = k + e.before
              /\ o.labels = e.labels,
              l, "Chain:header:" \o e.ops[k].op, [want |-> g, got |-> o])
  /\ e.ok =>
     /\ e.peak # M =>
          LET g == e.heads[Len(e.heads)]
              k == Peak(e.first)
              p == IF \E i \in 1..Len(e.ops) : e.ops[i].op = "mirror"
                   THEN Abs(e.peak) ELSE e.peak
              lag == g.start + (k - 1) * g.dt
          IN Chk(Abs(lag - p) <= (6 * g.dt) \div 10 + e.tol, l,
                 "Chain:arrival moved", [want |-> p, got |-> lag, ops |-> e.ops])
     /\ \A i \in 1..Len(e.some) :
          LET s == e.some[i] IN
          Chk(/\ s.ok /\ Len(s.out) = Len(s.rows)
              /\ \A j \in 1..Len(s.rows) : Near(s.out[j], e.out[s.rows[j]], 2),
              l, "Chain:depends on other rows",
              [rows |-> s.rows, err |-> s.err, ops |-> e.ops])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Step" -> Step(e)
            [] e.ev = "Signal" -> Signal(e)
            [] e.ev = "Chain" -> Chain(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
