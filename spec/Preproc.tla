------------------------------- MODULE Preproc -------------------------------
(***************************************************************************)
(* Steps of the processing of a matrix of traces (rows).  Each step is a    *)
(* function of one row (joint whitening: of three rows), whatever the other *)
(* rows are. Values are integers; results are counted in 1/S.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S == 100
M == -2000000000                          \* not a number

Abs(v) == IF v < 0 THEN -v ELSE v
Ceil(a, b) == -((-a) \div b)
(* n / m rounded                                                            *)
Round(n, m) == (2 * n + m) \div (2 * m)
RECURSIVE Sum(_, _, _)
Sum(F(_), a, b) == IF b < a THEN 0 ELSE F(b) + Sum(F, a, b - 1)
Total(x) == LET V(k) == x[k] IN Sum(V, 1, Len(x))
Power(x) == LET V(k) == x[k] * x[k] IN Sum(V, 1, Len(x))
Top(x) == CHOOSE v \in {x[k] : k \in 1..Len(x)} :
            \A k \in 1..Len(x) : x[k] <= v
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, a, b) ==                       \* a^2 <= n < b^2
  IF b - a <= 1 THEN a
  ELSE LET m == (a + b) \div 2 IN
       IF m * m <= n THEN ISqrtIn(n, m, b) ELSE ISqrtIn(n, a, m)
(* 100 sqrt(n)                                                              *)
Root(n) == IF n < 200000 THEN ISqrtIn(n * 10000, 0, 46000)
           ELSE 100 * ISqrtIn(n, 0, 46000)
Near(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) :
       IF x[k] = M \/ y[k] = M THEN x[k] = y[k] ELSE Abs(x[k] - y[k]) <= tol

(* -- time domain ----------------------------------------------------------*)
Sign(x) == [k \in 1..Len(x) |-> IF x[k] > 0 THEN S
                                ELSE IF x[k] < 0 THEN -S ELSE 0]
(* Len(x) times the standard deviation, squared                             *)
Spread(x) == Len(x) * Power(x) - Total(x) * Total(x)
(* f2 / 2 standard deviations                                               *)
Level(x, f2) == Round(f2 * Root(Spread(x)) * (S \div 100), 2 * Len(x))
Clip(x, f2) ==
  LET t == Level(x, f2) IN
  [k \in 1..Len(x) |-> IF S * x[k] > t THEN t
                       ELSE IF S * x[k] < -t THEN -t ELSE S * x[k]]
Demean(x) == [k \in 1..Len(x) |->
                Round(S * (x[k] * Len(x) - Total(x)), Len(x))]
Linear(x) ==
  LET n == Len(x)
      s0 == Total(x)
      W(k) == (k - 1) * x[k]
      num == 12 * Sum(W, 1, n) - 6 * (n - 1) * s0
      den == n * (n * n - 1)
  IN IF n = 1 THEN <<0>>
     ELSE [k \in 1..n |->
             LET p == num * (2 * k - n - 1)
                 q == p \div (2 * den)
                 r == p % (2 * den)
             IN S * x[k] - Round(S * s0, n) - S * q - Round(S * r, 2 * den)]
NormStd(x) ==
  LET v == Spread(x) IN
  IF v = 0 THEN [k \in 1..Len(x) |-> S * x[k]]
  ELSE [k \in 1..Len(x) |-> Round(x[k] * Len(x) * S * 100, Root(v))]
(* smoothed over w samples, forth and back                                  *)
Smooth(x, a, b) ==
  [k \in 1..Len(x) |->
     LET V(j) == IF j \in 1..Len(x) THEN x[j] ELSE 0 IN Sum(V, k - a, k + b)]
TDNorm(x, w) ==
  LET h == (w - 1) \div 2
      q == [k \in 1..Len(x) |-> x[k] * x[k]]
      b == Smooth(Smooth(q, w - 1 - h, h), h, w - 1 - h)
      top == Top(b)
  IN [k \in 1..Len(x) |->
        IF x[k] = 0 THEN 0
        ELSE Round(x[k] * w * S * 100, Root(b[k] + top \div 1000000))]

(* What exceeds the level is zero (if gaps are extended), nothing grows, and *)
(* what is farther than a taper from the edges and from what exceeds is as   *)
(* it was. y: in 1/S, tol: uncertainty of the level                          *)
MuteOk(x, y, level, w, extend, tol) ==
  LET n == Len(x)
      Above(k) == S * Abs(x[k]) > level + tol
      Perhaps(k) == S * Abs(x[k]) > level - tol
  IN IF n <= w THEN \A k \in 1..n : y[k] = 0
     ELSE \A k \in 1..n :
            /\ Abs(y[k]) <= Abs(S * x[k]) + 1 /\ y[k] * x[k] >= 0
            /\ (extend /\ Above(k)) => y[k] = 0
            /\ (/\ k > w + 1 /\ k + w + 1 <= n
                /\ \A j \in (k - w - 1)..(k + w + 1) : ~Perhaps(j)) =>
                 Abs(y[k] - S * x[k]) <= 1
(* the first and last m of n samples are tapered, alike                      *)
TaperOk(x, y, m) ==
  LET n == Len(x) IN
  \A k \in 1..n :
    /\ Abs(y[k]) <= Abs(S * x[k]) + 1 /\ y[k] * x[k] >= 0
    /\ (k > m /\ k + m <= n) => Abs(y[k] - S * x[k]) <= 1
    /\ (k = 1 /\ m > 1) => y[k] = 0
    (* y / x is the same at both ends                                        *)
    /\ Abs(y[k] * x[n + 1 - k] - y[n + 1 - k] * x[k])
         <= Abs(x[k]) + Abs(x[n + 1 - k]) + 1

(* -- padding ----------------------------------------------------------------*)
RECURSIVE Smooth5(_)
Smooth5(n) == IF n % 2 = 0 THEN Smooth5(n \div 2)
              ELSE IF n % 3 = 0 THEN Smooth5(n \div 3)
              ELSE IF n % 5 = 0 THEN Smooth5(n \div 5) ELSE n = 1
RECURSIVE Fast(_)
Fast(n) == IF Smooth5(n) THEN n ELSE Fast(n + 1)
(* lag: in half samples                                                     *)
PadLen(type, n, lag2) ==
  IF type = "nextFastLen" THEN Fast(n)
  ELSE IF type = "avoidWrapAround" THEN n + Ceil(lag2, 2)
  ELSE Fast(n + Ceil(lag2, 2))
PadTo(x, n) == [k \in 1..n |-> IF k <= Len(x) THEN S * x[k] ELSE 0]

(* -- frequency domain: rows of <<re, im>> ------------------------------------*)
Amp(z) == Root(z[1] * z[1] + z[2] * z[2])          \* in 1/100
(* group: the rows that are normalized together                              *)
White(z, group, k) ==
  LET A(i) == Amp(group[i][k])
      a == Sum(A, 1, Len(group))
      g == Len(group)
  IN IF k = 1 \/ a = 0 THEN <<0, 0>>
     ELSE <<Round(z[k][1] * g * S * 100, a), Round(z[k][2] * g * S * 100, a)>>
WhiteRow(z, group) == [k \in 1..Len(z) |-> White(z, group, k)]
NearC(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) : \A c \in 1..2 :
       IF x[k][c] = M \/ y[k][c] = M THEN x[k][c] = y[k][c]
       ELSE Abs(x[k][c] - y[k][c]) <= tol
(* corners f[1] <= f[2] < f[3] <= f[4] on the frequencies 0, 1, ...           *)
FDFilterOk(z, y, f) ==
  \A k \in 1..Len(z) :
    LET q == k - 1 IN
    IF q < f[1] \/ q > f[4] THEN y[k] = <<0, 0>>
    ELSE IF f[2] <= q /\ q <= f[3]
    THEN \A c \in 1..2 : Abs(y[k][c] - S * z[k][c]) <= 1
    ELSE /\ \A c \in 1..2 : /\ Abs(y[k][c]) <= Abs(S * z[k][c]) + 1
                            /\ y[k][c] * z[k][c] >= 0
         /\ Abs(y[k][1] * z[k][2] - y[k][2] * z[k][1])
              <= Abs(z[k][1]) + Abs(z[k][2]) + 1
(* y: the samples (in 1/S) of the traces after the step                       *)
FDSignOk(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) :
       IF x[k] # 0 THEN y[k] = Sign(x)[k]
       ELSE IF \A j \in 1..Len(x) : x[j] = 0 THEN y[k] = 0 ELSE TRUE
=============================================================================
