------------------------------ MODULE Inversion ------------------------------
(***************************************************************************)
(* The spatial inversion. A curve is a series of windows (start, end, value, *)
(* correlation) of a station pair. At a time the curves with a value enter:   *)
(* d = G m + error, where G holds one sensitivity kernel for each pair.       *)
(* The variance of the error follows from the correlation, that of the grid    *)
(* m from the distance of its cells.  m is the solution if                     *)
(*        m = Cm G' w   with   w_i = (d_i - (G m)_i) / variance_i.            *)
(* Fixed point: G, E and weights in 1/10000.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

M == -2000000000                            \* not a number

Abs(v) == IF v < 0 THEN -v ELSE v
Round(n, m) == (n + m \div 2) \div m
Mul(a, b) == (a \div 10000) * b + (a % 10000) * (b \div 10000)
             + ((a % 10000) * (b % 10000)) \div 10000
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Sums(f) == Sum([k \in 1..Len(f) |-> Abs(f[k])])

(* -- curves --------------------------------------------------------------------*)
Nearest(c, utc) ==
  CHOOSE i \in 1..Len(c.starts) :
    /\ \A j \in 1..Len(c.starts) : Abs(c.starts[i] - utc) <= Abs(c.starts[j] - utc)
    /\ \A j \in 1..(i - 1) : Abs(c.starts[j] - utc) > Abs(c.starts[i] - utc)
Covers(c, utc) == c.starts[1] <= utc /\ utc <= c.ends[Len(c.ends)]
(* correlations in 1/100                                                     *)
Enters(c, utc) ==
  /\ Covers(c, utc)
  /\ LET i == Nearest(c, utc) IN
     /\ c.vals[i] # M /\ c.corr[i] # M
     /\ c.corr[i] > 0 /\ c.corr[i] < 100
RECURSIVE EnteringIn(_, _, _)
EnteringIn(cs, utc, k) ==
  IF k > Len(cs) THEN <<>>
  ELSE (IF Enters(cs[k], utc) THEN <<k>> ELSE <<>>) \o EnteringIn(cs, utc, k + 1)
Entering(cs, utc) == EnteringIn(cs, utc, 1)

(* -- variances: of the model over that of a datum (1/10000) ----------------------*)
(* s2: (1000 std * scale / length)^2; window [a, b] s; band f1, f2 in 1/10 Hz    *)
Quality(s2, a, b, f1, f2) ==
  LET x == s2 * (b * b * b - a * a * a)
      f == f1 + f2
      y == f * f * (f2 - f1)
      z == (x \div 1000) * y + ((x % 1000) * y) \div 1000
  IN Round(Round(z, 10) * 1312, 10000)
Weight(quality, c) == Round(quality * 4 * c * c, 10000 - c * c)

(* -- the grid: cells are numbered from the first row ---------------------------*)
Dist(j, k, nx) ==
  LET dc == ((j - 1) % nx) - ((k - 1) % nx)
      dr == ((j - 1) \div nx) - ((k - 1) \div nx)
  IN dc * dc + dr * dr
(* G m                                                                       *)
Forward(g, m) == Sum([k \in 1..Len(m) |-> Mul(m[k], g[k])])
RowSum(g) == Sum(g)
(* by how much may the left side differ from the right side: rounding errors   *)
(* of m, G, E and the weights                                                *)
Solved(m, d, q, G, E, nx, add) ==
  LET n == Len(m)
      p == Len(d)
      mm == Sums(m)
      r == [i \in 1..p |-> d[i] - Forward(G[i], m)]
      tr == [i \in 1..p |-> 2 + n + RowSum(G[i]) \div 20000 + mm \div 20000]
      w == [i \in 1..p |-> Mul(q[i], r[i])]
      tw == [i \in 1..p |-> Mul(q[i], tr[i]) + Abs(w[i]) \div 1500 + 1
                             + Round(Abs(r[i]), 20000)]
      ww == Sums(w)
      h == [k \in 1..n |-> Sum([i \in 1..p |-> Mul(w[i], G[i][k])])]
      th == [k \in 1..n |-> Sum([i \in 1..p |-> Mul(tw[i], G[i][k])])
                            + ww \div 20000 + p]
      hh == Sums(h)
      v == [j \in 1..n |->
              Sum([k \in 1..n |-> Mul(h[k], E[Dist(j, k, nx) + 1])])]
      tv == [j \in 1..n |->
              Sum([k \in 1..n |-> Mul(th[k], E[Dist(j, k, nx) + 1])])
              + hh \div 20000 + n + 1]
  IN \A j \in 1..n : Abs(m[j] - add[j] - v[j]) <= tv[j]

(* -- alignment -------------------------------------------------------------------*)
Available(c) == Cardinality({i \in 1..Len(c.corr) : c.corr[i] # M})
Begins(c, utc, thr) ==
  /\ Available(c) >= 6 /\ Covers(c, utc)
  /\ LET i == Nearest(c, utc) IN c.corr[i] # M /\ c.corr[i] >= thr
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
(* the mean of the windows around a time, weighted with the correlation        *)
Around(c, utc, steps) ==
  LET i == Nearest(c, utc)
      idx == {j \in Max2(1, i - steps)..Min2(Len(c.vals), i + steps) :
                c.vals[j] # M /\ c.corr[j] # M}
      RECURSIVE S(_, _)
      S(f, s) == IF s = {} THEN 0
                 ELSE LET j == CHOOSE x \in s : TRUE IN f[j] + S(f, s \ {j})
      weight == S(c.corr, idx)
      total == S([j \in idx |-> c.vals[j] * c.corr[j]], idx)
  IN IF weight = 0 THEN M ELSE Round(total, weight)
=============================================================================
