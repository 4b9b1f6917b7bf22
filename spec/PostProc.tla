------------------------------ MODULE PostProc ------------------------------
(***************************************************************************)
(* Post-processing of correlation matrices. The samples of a row are         *)
(* numbered by their lag: a header is [start, dt, n] (lag of the first       *)
(* sample, interval in us, number of samples).  Steps change samples row by  *)
(* row, or the lag axis of all rows. Samples are integers, results in 1/S.   *)
(***************************************************************************)
EXTENDS Preproc

None == -1999999999                         \* an argument that is not given

FloorDiv(a, b) == a \div b                  \* TLC's \div rounds down
SumSeq(x) == LET V(k) == x[k] IN Sum(V, 1, Len(x))
(* n / m rounded, m of any sign                                              *)
Quot(n, m) == IF m < 0 THEN Round(-n, -m) ELSE Round(n, m)
Empty(x) == \E k \in 1..Len(x) : x[k] = M
Nothing(x) == [k \in 1..Len(x) |-> M]
(* about equal: relative to the value, 1/p                                   *)
Close(x, y, tol, p) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) :
       IF x[k] = M \/ y[k] = M THEN x[k] = y[k]
       ELSE Abs(x[k] - y[k]) <= tol + Abs(y[k]) \div p
Column(m, c) == [i \in 1..Len(m) |-> m[i][c]]

(* -- the lag axis ---------------------------------------------------------- *)
Last(h) == h.start + (h.n - 1) * h.dt
Lag(h, k) == h.start + (k - 1) * h.dt
Decimated(h, f) ==
  IF f = 1 THEN h
  ELSE [start |-> h.start, dt |-> f * h.dt, n |-> (h.n + f - 1) \div f - 1]
(* new interval p / q of the old one                                         *)
Resampled(h, p, q) ==
  IF p % q = 0 THEN Decimated(h, p \div q)
  ELSE [start |-> h.start, dt |-> Round(h.dt * p, q), n |-> (h.n * q) \div p]
Trimmed(h, a, b) ==
  LET i == -((h.start - a) \div h.dt)       \* samples left out
      j == (b - h.start) \div h.dt
  IN IF i < 0 \/ j >= h.n THEN h
     ELSE [start |-> h.start + i * h.dt, dt |-> h.dt, n |-> j - i + 1]
Mirrored(h) ==
  LET z == -(h.start \div h.dt) IN
  IF h.start >= 0 \/ Last(h) <= 0 THEN h
  ELSE [start |-> 0, dt |-> h.dt,
        n |-> IF z + 1 > h.n - z THEN z + 1 ELSE h.n - z]
Axis(h, op) ==
  CASE op.op = "decimate" -> Decimated(h, op.f)
    [] op.op = "resample" -> Resampled(h, op.p, op.q)
    [] op.op = "trim" -> Trimmed(h, op.a, op.b)
    [] op.op = "mirror" -> Mirrored(h)
    [] OTHER -> h

(* -- normalisation ----------------------------------------------------------*)
(* samples (1..n) of the window [a, b) or all                                *)
From(h, a) == IF a = None THEN 1 ELSE (a - h.start) \div h.dt + 1
Upto(h, b) == IF b = None THEN h.n ELSE (b - h.start) \div h.dt
WithIn(h, a, b) ==
  /\ a # None => From(h, a) >= 1
  /\ b # None => Upto(h, b) >= 1 /\ Upto(h, b) < h.n
NormRow(x, a, b, type) ==
  LET m == b - a + 1
      w == SubSeq(x, a, b)
      abs == [k \in 1..m |-> Abs(w[k])]
      q == Power(w)
      D(num, den) == [k \in 1..Len(x) |-> IF den = 0 THEN S * x[k]
                                          ELSE Quot(S * x[k] * num, den)]
  IN IF Empty(w) THEN Nothing(x)
     ELSE CASE type = "energy" -> IF q = 0 THEN D(1, 1) ELSE D(100 * m, Root(m * q))
            [] type = "abssum" -> D(m, SumSeq(abs))
            [] type = "max" -> D(1, Top(w))
            [] type = "absmax" -> D(1, Top(abs))

(* -- clipping over rows, columns or everything --------------------------------*)
Some1(x) == SelectSeq(x, LAMBDA v : v # M)
ClipBy(x, t) ==
  [k \in 1..Len(x) |-> IF x[k] = M THEN M
                       ELSE IF S * x[k] > t THEN t
                       ELSE IF S * x[k] < -t THEN -t ELSE S * x[k]]
RECURSIVE Flat(_)
Flat(m) == IF m = <<>> THEN <<>> ELSE Head(m) \o Flat(Tail(m))
ClipAll(m, f2, axis) ==
  LET cols == [c \in 1..Len(m[1]) |-> Level(Some1(Column(m, c)), f2)]
      all == Level(Some1(Flat(m)), f2)
      rows == [i \in 1..Len(m) |-> Level(Some1(m[i]), f2)]
  IN [i \in 1..Len(m) |->
        [k \in 1..Len(m[i]) |->
           ClipBy(<<m[i][k]>>,
                  IF axis = 0 THEN cols[k] ELSE IF axis = 1 THEN rows[i]
                  ELSE all)[1]]]

(* -- smoothing ---------------------------------------------------------------*)
(* rows are continued by their reflection in the first and last sample       *)
Ext(x, j) ==
  LET n == Len(x) IN
  IF j < 1 THEN 2 * x[1] - x[2 - j]
  ELSE IF j > n THEN 2 * x[n] - x[2 * n - j] ELSE x[j]
(* weights of the window                                                     *)
Weight(type, w, i) ==                       \* i = 0..w-1
  CASE type = "flat" -> 1
    [] type = "bartlett" -> (w - 1) - Abs(2 * i - (w - 1))
Full(x) == [k \in 1..Len(x) |-> IF x[k] = M THEN 0 ELSE x[k]]
SmoothRow(x, w, type) ==
  IF w < 3 THEN [k \in 1..Len(x) |-> S * x[k]]
  ELSE LET W(i) == Weight(type, w, i)
           t == Sum(W, 0, w - 1)
       IN [k \in 1..Len(x) |->
             LET V(i) == W(i) * Ext(x, k - w \div 2 + i)
             IN Round(S * Sum(V, 0, w - 1), t)]
(* any window: a mean of what is under the window                            *)
SmoothIn(x, y, w) ==
  \A k \in 1..Len(x) :
    LET v == {Ext(x, k - w \div 2 + i) : i \in 0..(w - 1)} IN
    /\ \E u \in v : S * u >= y[k] - 2
    /\ \E u \in v : S * u <= y[k] + 2

(* -- envelope: e^2 = x^2 + h^2, h is the Hilbert transform --------------------*)
(* 10^5 (2 / n) cot(pi k / n) of odd k < n / 2                                *)
Kernel(n) == CASE n = 2 -> <<0>> [] n = 4 -> <<50000>>
               [] n = 8 -> <<60355, 0, 10355>>
               [] n = 12 -> <<62201, 0, 16667, 0, 4466>>
Quadrature(x) ==                             \* 1/100
  LET n == Len(x)
      kern == Kernel(n)
      At(k) == x[((k - 1 + 2 * n) % n) + 1]
  IN [k \in 1..n |->
        LET V(j) == IF j % 2 = 1 /\ j <= Len(kern)
                    THEN kern[j] * (At(k - j) - At(k + j)) ELSE 0
        IN Round(Sum(V, 1, n \div 2), 1000)]
Known(n) == n \in {2, 4, 8, 12}
EnvelopeOk(x, y) ==
  LET n == Len(x) IN
  IF Empty(x) THEN y = Nothing(x)
  ELSE
  /\ \A k \in 1..n : y[k] # M /\ y[k] >= S * Abs(x[k]) - 1
  /\ Known(n) =>
       LET h == Quadrature(x) IN
       \A k \in 1..n :
         Abs(y[k] - ISqrtIn(10000 * x[k] * x[k] + h[k] * h[k], 0, 46000)) <= 2
  /\ LET alt == [k \in 1..n |-> IF k % 2 = 0 THEN x[k] ELSE -x[k]]
         E2(k) == (y[k] * y[k]) \div 100
         R(k) == y[k] \div 100 + 2
         a == SumSeq(alt)
     IN Abs(n * Sum(E2, 1, n)
            - 100 * (2 * n * Power(x) - Total(x) * Total(x)
                     - (IF n % 2 = 0 THEN a * a ELSE 0)))
          <= 2 * n * Sum(R, 1, n)

(* -- decay --------------------------------------------------------------------*)
(* 1000 ln(v), v > 0                                                         *)
RECURSIVE LnIn(_, _)
LnIn(v, k) ==                                \* v / 10^6 in [1, 2) then
  IF v >= 2000000 THEN LnIn(v \div 2, k + 1)
  ELSE IF v < 1000000 THEN LnIn(v * 2, k - 1)
  ELSE LET z == ((v - 1000000) * 100) \div ((v + 1000000) \div 100)   \* 10^4
           z2 == (z * z) \div 10000
           p == z + (z * z2) \div 30000 + (((z * z2) \div 10000) * z2) \div 50000
       IN (2 * p + 5) \div 10 + (69315 * k) \div 100
Ln(v) == LnIn(v, 0)                          \* 1000 ln(v / 10^6)
(* the mean envelope of all rows by absolute lag, from the lag axis h         *)
Spots(h) == [k \in 1..h.n |-> Abs(h.start + (k - 1) * h.dt) \div h.dt]
MeanAt(env, h, t) ==
  LET at == {k \in 1..h.n : Spots(h)[k] = t}
      rows == {i \in 1..Len(env) : ~Empty(env[i])}
      R(k) == LET V(i) == IF i \in rows THEN env[i][k] ELSE 0
              IN Sum(V, 1, Len(env))
      A(k) == IF k \in at THEN R(k) ELSE 0
  IN Round(Sum(A, 1, h.n), Cardinality(at) * Cardinality(rows))
(* ratio: 1000 ln(x / y) for the samples of a row, M if x is 0                *)
DecayOk(h, env, ratio) ==
  LET sp == Spots(h)
      ts == {sp[k] : k \in 1..h.n}
      top == CHOOSE t \in ts : \A u \in ts : u <= t
      In(t) == t \in ts
      l == [t \in ts |-> Ln(MeanAt(env, h, t))]
      m == Cardinality(ts)
      C(F(_)) == LET V(t) == IF In(t) THEN F(t) ELSE 0 IN Sum(V, 0, top)
      T(t) == t
      T2(t) == t * t
      L(t) == l[t]
      TL(t) == t * l[t]
      st == C(T)
      den == m * C(T2) - st * st
      num == m * C(TL) - st * C(L)
      sl == C(L)
      Fit(t) == Round(sl, m) + Quot(num * t - Round(num * st, m), den)
  IN \A i \in 1..Len(ratio) : \A k \in 1..h.n :
       ratio[i][k] = M \/ Abs(ratio[i][k] - Fit(sp[k])) <= 12

(* -- tapers -----------------------------------------------------------------*)
(* y = x f: the factor is the same in all rows                               *)
SameFactor(m, out) ==
  \A i \in 2..Len(m) : \A k \in 1..Len(m[1]) :
    (m[i][k] # M /\ m[1][k] # M) =>
    Abs(out[i][k] * m[1][k] - out[1][k] * m[i][k])
      <= Abs(m[i][k]) + Abs(m[1][k]) + 1
(* ends: x is constant (v); the first and last w samples                      *)
EndsOk(v, y, w) ==
  LET n == Len(y) IN
  /\ \A k \in 1..n : Abs(y[k] - y[n + 1 - k]) <= 1
  /\ \A k \in 1..n : (k >= w /\ n + 1 - k >= w) => Abs(y[k] - S * v) <= 1
  /\ w >= 2 => y[1] = 0
  /\ \A k \in 1..w : 2 * w <= n =>
       /\ Abs(y[k] + y[w + 1 - k] - S * v) <= 2
       /\ (k > 1 /\ w > 2) => y[k] > y[k - 1]
(* center: zero lag is sample z (1 if it is the first), half: half width,     *)
(* slope: samples with a slope                                               *)
CenterOk(v, y, z, half, slope) ==
  LET n == Len(y)
      D(k) == Abs(k - z)
  IN \A k \in 1..n :
       /\ 0 <= y[k] /\ y[k] <= S * v + 1
       /\ (D(k) > half \/ (D(k) = half /\ slope > 0)) => Abs(y[k] - S * v) <= 1
       /\ (D(k) <= half - slope) => y[k] = 0
       /\ \A j \in 1..n : /\ D(j) = D(k) => Abs(y[k] - y[j]) <= 1
                          /\ D(j) < D(k) => y[j] <= y[k] + 1

(* -- signals ------------------------------------------------------------------*)
Inner(x, y) == LET V(k) == x[k] * y[k] IN Sum(V, 1, Len(x))
(* a sinusoid inside of the band passes without a shift, one outside does not *)
Passes(x, y) ==
  LET p == Power(x) IN
  /\ Abs(Power(y) - p) <= p \div 4
  /\ Inner(x, y) >= p - p \div 5
Stopped(x, y) == Power(y) <= Power(x) \div 20
Peak(x) == CHOOSE k \in 1..Len(x) : /\ \A j \in 1..Len(x) : x[j] <= x[k]
                                    /\ \A j \in 1..(k - 1) : x[j] < x[k]
=============================================================================
