------------------------------ MODULE Coherence ------------------------------
(***************************************************************************)
(* Waveform coherence: the similarity (Estimate) of each row of a matrix     *)
(* with reference traces over lag windows; the references, averages over     *)
(* time, references and components, and the groups that are averaged.        *)
(***************************************************************************)
EXTENDS Estimate

(* -- reference traces (1/1000) ------------------------------------------------*)
RECURSIVE SumSet(_, _)
SumSet(f, s) == IF s = {} THEN 0
                ELSE LET i == CHOOSE j \in s : TRUE
                     IN f[i] + SumSet(f, s \ {i})
RECURSIVE Sorted(_, _)
Sorted(f, s) == IF s = {} THEN <<>>
                ELSE LET i == CHOOSE j \in s : \A h \in s : f[j] <= f[h]
                     IN <<f[i]>> \o Sorted(f, s \ {i})
Column(m, k) == [i \in 1..Len(m) |-> m[i][k]]
Valid(col, rows) == {i \in rows : col[i] # M}
MeanOver(m, rows) ==
  [k \in 1..Len(m[1]) |->
     LET c == Column(m, k)
         s == Valid(c, rows)
     IN IF s = {} THEN M ELSE Round(1000 * SumSet(c, s), Cardinality(s))]
MedianOver(m, rows) ==
  [k \in 1..Len(m[1]) |->
     LET c == Column(m, k)
         s == Valid(c, rows)
         o == Sorted(c, s)
         n == Len(o)
     IN IF s = {} THEN M
        ELSE IF n % 2 = 1 THEN 1000 * o[(n + 1) \div 2]
        ELSE 500 * (o[n \div 2] + o[n \div 2 + 1])]
(* a row divided by its greatest amplitude (1/1000); rows without data M       *)
Top(x) == MaxIn({Abs(Sample(x, k)) : k \in 1..Len(x)})
Normed(x) == IF \E k \in 1..Len(x) : x[k] = M THEN [k \in 1..Len(x) |-> M]
             ELSE [k \in 1..Len(x) |-> Round(1000 * x[k], Biggest(1, Top(x)))]
(* mean over rows in 1/1000                                                  *)
NormMean(m, rows) ==
  [k \in 1..Len(m[1]) |->
     LET c == [i \in 1..Len(m) |-> Normed(m[i])[k]]
         s == Valid(c, rows)
     IN IF s = {} THEN M ELSE Round(SumSet(c, s), Cardinality(s))]
(* the rows that are more similar to the mean than the percentile of the      *)
(* similarities; the most similar ones if that is none. Rows are of equal      *)
(* similarity if the difference is small                                       *)
Chosen(m, perc) ==
  LET all == 1..Len(m)
      mean == NormMean(m, all)
      c == [i \in all |-> IF m[i][1] = M THEN M
                          ELSE Sim(m[i], mean, 1..Len(mean))]
      s == Valid(c, all)
      o == Sorted(c, s)
      n == Cardinality(s)
      p == (n - 1) * perc                   \* position (0..n-1) * 100
      a == p \div 100
      t == IF a + 1 >= n THEN o[n]
           ELSE o[a + 1] + Round((o[a + 2] - o[a + 1]) * (p % 100), 100)
      clear == \A i, j \in s : i = j \/ Abs(c[i] - c[j]) > 4
      above == {i \in s : 100 * Cardinality({j \in s : c[j] < c[i]}) > p}
      sure == {i \in s : c[i] > t + 4}
      maybe == {i \in s : Abs(c[i] - t) <= 4}
  IN IF s = {} THEN {{}}
     ELSE IF clear
     THEN {IF above = {} THEN {i \in s : c[i] = o[n]} ELSE above}
     ELSE {sure \cup x : x \in SUBSET maybe} \ {{}}

(* windows of correlations (times in hours): start and end of each            *)
RECURSIVE Starts(_, _, _)
Starts(from, until, inc) ==
  IF from >= until THEN <<>> ELSE <<from>> \o Starts(from + inc, until, inc)
RefWindows(starts, ends, incs, each) ==
  LET from == CHOOSE v \in {starts[i] : i \in 1..Len(starts)} :
                \A i \in 1..Len(starts) : v <= starts[i]
      until == MaxIn({ends[i] : i \in 1..Len(ends)})
      RECURSIVE G(_, _)
      G(k, t) == IF k > Len(incs) THEN <<>>
                 ELSE <<<<t, incs[k]>>>> \o G(k + 1, t + incs[k])
      st == Starts(from, until, incs[1])
  IN IF each THEN G(1, from)
     ELSE [k \in 1..Len(st) |-> <<st[k], incs[1]>>]
(* the correlations that reach into a window, which begins half an increment  *)
(* before and ends half an increment after                                    *)
InRef(starts, ends, w) ==
  {i \in 1..Len(starts) : /\ 2 * ends[i] >= 2 * w[1] - w[2]
                          /\ 2 * starts[i] <= 2 * w[1] + 3 * w[2]}

(* -- averages (1/1000000) --------------------------------------------------------*)
MeanValid(v) ==
  LET s == Valid(v, 1..Len(v)) IN
  IF s = {} THEN M ELSE Round(SumSet(v, s), Cardinality(s))
Close(a, b, tol) == IF a = M THEN b = M ELSE b # M /\ Abs(a - b) <= tol

(* -- samples of a window [a, a + len) (in 1/1000 s) at sr Hz -------------------*)
Lags(a, len, sr) ==
  {k \in 0..(((a + len) * sr) \div 1000 + 1) :
     k * 1000 >= a * sr /\ k * 1000 < (a + len) * sr}
=============================================================================
