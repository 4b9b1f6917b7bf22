------------------------------ MODULE Estimate ------------------------------
(***************************************************************************)
(* Velocity and shift estimates.  Each row of a matrix is compared with      *)
(* modified versions of a reference; the similarity is the normalised        *)
(* correlation over the samples of a lag window (in 1/1000); the estimate is *)
(* the modification of the greatest similarity.  Samples are integers; rows  *)
(* and lags are counted from 1 here, windows from 0 (zero lag).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

M == -2000000000                            \* not a number

Abs(v) == IF v < 0 THEN -v ELSE v
Least(a, b) == IF a < b THEN a ELSE b
Biggest(a, b) == IF a < b THEN b ELSE a
MaxIn(s) == CHOOSE v \in s : \A w \in s : w <= v
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, a, b) ==                         \* a^2 <= n < b^2
  IF b - a <= 1 THEN a
  ELSE LET m == (a + b) \div 2 IN
       IF m * m <= n THEN ISqrtIn(n, m, b) ELSE ISqrtIn(n, a, m)
(* <<root, scale>>: root / scale is the square root of n                     *)
Root(n) ==
  IF n < 2000 THEN <<ISqrtIn(n * 1000000, 0, 46000), 1000>>
  ELSE IF n < 200000 THEN <<ISqrtIn(n * 10000, 0, 46000), 100>>
  ELSE IF n < 20000000 THEN <<ISqrtIn(n * 100, 0, 46000), 10>>
  ELSE <<ISqrtIn(n, 0, 46000), 1>>
(* n / m rounded                                                             *)
Round(n, m) == (n + m \div 2) \div m

(* missing samples count as 0                                                *)
Sample(x, k) == IF x[k] = M THEN 0 ELSE x[k]
RECURSIVE Dot(_, _, _)
Dot(x, y, idx) ==
  IF idx = {} THEN 0
  ELSE LET k == CHOOSE j \in idx : TRUE
       IN Sample(x, k) * Sample(y, k) + Dot(x, y, idx \ {k})
(* the similarity of two rows over the samples idx                           *)
Sim(x, y, idx) ==
  LET f == Dot(x, x, idx)
      s == Dot(y, y, idx)
      d == Dot(x, y, idx)
      rf == Root(f)
      rs == Root(s)
      q == rf[1] * rs[1]
      n == Abs(d) * rf[2] * rs[2]
      g == Biggest(1, q \div 200000)
      r == Round((n \div g) * 1000, q \div g)
  IN IF f = 0 \/ s = 0 THEN M ELSE IF d < 0 THEN -r ELSE r

(* the samples (1..n) of a window tw of samples counted from zero lag         *)
Center(n) == (n - 1) \div 2
Window(tw, sides, n) ==
  LET c == Center(n) + 1 IN
  CASE sides = "both" -> {c - w : w \in tw} \cup {c + w : w \in tw}
    [] sides = "left" -> {c - w : w \in tw}
    [] sides = "right" -> {c + w : w \in tw}
    [] sides = "single" -> {1 + w : w \in tw}
Fits(tw, sides, n) == Window(tw, sides, n) \subseteq 1..n
(* the window if none is given                                               *)
Whole(sides, n) == 0..((IF sides = "single" THEN n ELSE n \div 2) - 1)

(* -- modified references ----------------------------------------------------*)
(* shifted by m samples to the right; the first and last sample go on         *)
Shifted(x, m) == [k \in 1..Len(x) |-> x[Biggest(1, Least(Len(x), k - m))]]
(* P[i]: coefficients of a polynomial of 2 * 2^r * (lag in samples); the      *)
(* reference at lag v / 2 / 2^r                                              *)
Poly(P, v) == P[1] + P[2] * v + P[3] * v * v
RECURSIVE Pow2(_)
Pow2(r) == IF r = 0 THEN 1 ELSE 2 * Pow2(r - 1)
(* the reference (known at lags lo2/2 to hi2/2) at lag u / 2 times 2^(j - r),  *)
(* zero where it is not known                                                *)
Stretched(P, j, r, lo2, hi2, u) ==
  LET v == u * Pow2(j) IN
  IF v < lo2 * Pow2(r) \/ v > hi2 * Pow2(r) THEN 0 ELSE Poly(P, v)

SumRows(m) == [k \in 1..Len(m[1]) |->
                 LET RECURSIVE G(_)
                     G(i) == IF i = 0 THEN 0 ELSE Sample(m[i], k) + G(i - 1)
                 IN G(Len(m))]
Cut(x, a, b) == SubSeq(x, a, b)
(* the part of a row (first lag lo, in samples) that is compared: lags >= 0,  *)
(* or as far as there are lags of both signs                                 *)
PartOf(sides, lo, n) ==
  LET hi == lo + n - 1 IN
  IF sides = "single" THEN <<0, hi>>
  ELSE LET d == Least(-lo, hi) IN <<-d, d>>

(* -- the estimate -------------------------------------------------------------*)
(* one row against references over idx. corr, sims: in 1/1000000             *)
(* value: the number of the chosen reference, 0 for none                      *)
(* a version that is zero in the window is compared with (nearly) nothing:    *)
(* anything, unless exact                                                     *)
Dead(x, idx) == \A k \in idx : Sample(x, k) = 0
SimsOk(row, refs, idx, sims, tol, exact) ==
  \A s \in 1..Len(refs) :
    LET w == Sim(row, refs[s], idx) IN
    IF ~exact /\ Dead(refs[s], idx) /\ ~Dead(row, idx) THEN TRUE
    ELSE IF w = M THEN sims[s] = M
    ELSE sims[s] # M /\ Abs(Round(sims[s], 1000) - w) <= tol
BestOk(sims, corr, value) ==
  LET good == {s \in 1..Len(sims) : sims[s] # M} IN
  IF good = {} THEN corr = M /\ value = 0
  ELSE LET top == MaxIn({sims[s] : s \in good})
           nothing == corr = M /\ value = 0
           best == /\ corr # M /\ Abs(corr - top) <= 1
                   /\ value \in good /\ Abs(sims[value] - top) <= 1
       IN IF good = 1..Len(sims) THEN best ELSE nothing \/ best
(* without similarities                                                       *)
ChoiceOk(row, refs, idx, corr, value, tol) ==
  LET w == [s \in 1..Len(refs) |-> Sim(row, refs[s], idx)]
      good == {s \in 1..Len(refs) : w[s] # M}
  IN IF good = {} THEN corr = M /\ value = 0
     ELSE LET top == MaxIn({w[s] : s \in good})
              nothing == corr = M /\ value = 0
              best == /\ corr # M /\ Abs(Round(corr, 1000) - top) <= tol
                      /\ value \in good /\ Abs(w[value] - top) <= 2 * tol
              dead == value \in 1..Len(refs) \ good
          IN IF good = 1..Len(refs) THEN best ELSE nothing \/ best \/ dead

(* -- measured shifts: windows [a, b), references x(t + m) ---------------------*)
(* zero: the (1-based) sample of zero lag                                     *)
Span(a, b, sides, zero) ==
  {zero + k : k \in a..(b - 1)} \cup
    (IF sides = "both" THEN {zero - k : k \in a..(b - 1)} ELSE {})
Moved(x, m) == [k \in 1..Len(x) |->
                  IF k + m \in 1..Len(x) THEN x[k + m] ELSE M]
MeanSim(row, ref, m, wins) ==
  LET y == Moved(ref, m)
      w == [i \in 1..Len(wins) |-> Sim(row, y, wins[i])]
      good == {i \in 1..Len(wins) : w[i] # M}
      RECURSIVE G(_)
      G(i) == IF i = 0 THEN 0 ELSE (IF w[i] = M THEN 0 ELSE w[i]) + G(i - 1)
  IN IF good = {} THEN M ELSE Round(G(Len(wins)), Cardinality(good))
DeadSomewhere(ref, m, wins) ==
  \E i \in 1..Len(wins) : Dead(Moved(ref, m), wins[i])
MeasureOk(row, ref, R, wins, corr, shift, tol) ==
  LET w == [s \in 1..(2 * R + 1) |-> MeanSim(row, ref, s - R - 1, wins)]
      good == {s \in 1..Len(w) : w[s] # M}
  IN IF \A i \in 1..Len(wins) : Dead(row, wins[i])
     THEN corr = M /\ shift = 0
     ELSE IF \E s \in 1..Len(w) : DeadSomewhere(ref, s - R - 1, wins)
     THEN TRUE
     ELSE LET top == MaxIn({w[s] : s \in good})
              nothing == corr = M /\ shift = 0
              best == /\ corr # M /\ Abs(Round(corr, 1000) - top) <= tol
                      /\ shift \in good /\ Abs(w[shift] - top) <= 2 * tol
          IN IF good = 1..Len(w) THEN best ELSE nothing \/ best

(* -- corrections: 100 times the samples ----------------------------------------*)
(* x at k + h/2 samples, linear in between; M outside                         *)
At2(x, k, h) ==
  LET p == 2 * k + h
      a == p \div 2
  IN IF p < 2 \/ p > 2 * Len(x) THEN M
     ELSE IF p % 2 = 0 THEN 100 * Sample(x, a)
     ELSE 50 * (Sample(x, a) + Sample(x, a + 1))
(* moved to the right by h/2 samples, zero comes in                           *)
ShiftApplied(x, h) == [k \in 1..Len(x) |->
                         LET v == At2(x, k, -h[k]) IN IF v = M THEN 0 ELSE v]
(* corrected for a shift of h/2 samples; what comes in is not known           *)
ShiftCorrected(x, h) == [k \in 1..Len(x) |-> At2(x, k, -h)]
Near(x, y, tol) == /\ Len(x) = Len(y)
                   /\ \A k \in 1..Len(x) : y[k] = M \/
                                           (x[k] # M /\ Abs(x[k] - y[k]) <= tol)

(* -- several references ----------------------------------------------------------*)
(* panels[j][row]: similarities (1/1000); offs[j]: by how many steps the       *)
(* curve of reference j differs from a common curve                           *)
Rolls(offs) ==
  LET m == Len(offs)
      RECURSIVE G(_)
      G(j) == IF j = 0 THEN 0 ELSE offs[j] + G(j - 1)
  IN [j \in 1..m |-> G(m) \div m - offs[j]]
Combined(panels, offs, i, s) ==
  LET n == Len(panels[1][i])
      r == Rolls(offs)
      V(j) == panels[j][i][((s - 1 - r[j] + 10 * n) % n) + 1]
      good == {j \in 1..Len(panels) : V(j) # M}
      RECURSIVE G(_)
      G(j) == IF j = 0 THEN 0 ELSE (IF V(j) = M THEN 0 ELSE V(j)) + G(j - 1)
  IN IF good = {} THEN M ELSE Round(G(Len(panels)), Cardinality(good))
=============================================================================
