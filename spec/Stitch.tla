------------------------------- MODULE Stitch -------------------------------
(***************************************************************************)
(* Velocity-change curves that are shifted onto one another. A curve has a *)
(* value and a weight (its correlation) at each time; NaN where it has no  *)
(* data. The shift is measured over the times at which both have data and  *)
(* n more on either side, or across the gap between them if it is not      *)
(* larger than n. Curves are corrected in the order of their mean times,   *)
(* each relative to the first of those before it.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NaN == 999999999
Has(c) == {t \in DOMAIN c : c[t] # NaN}
Low(S) == CHOOSE x \in S : \A y \in S : x <= y
High(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Total(_, _)
Total(S, f) == IF S = {} THEN 0
               ELSE LET x == Low(S) IN f[x] + Total(S \ {x}, f)

(* the times over which a is compared with b; none if this is refused *)
Overlap(a, b, n) ==
  LET A == Has(a) B == Has(b) T == DOMAIN a
      cut(x, y) == {t \in T : t >= x /\ t <= y}
  IN IF A = {} \/ B = {} THEN {}
     ELSE IF A \cap B # {} THEN cut(Low(A \cap B) - n, High(A \cap B) + n)
     ELSE IF Low(A) > High(B) THEN
            IF Low(A) - High(B) > n THEN {} ELSE cut(High(B) - n, Low(A) + n)
     ELSE IF Low(B) > High(A) THEN
            IF Low(B) - High(A) > n THEN {} ELSE cut(High(A) - n, Low(B) + n)
     (* they take turns: times around the first change, if there are any *)
     ELSE cut(High(A) - n, Low(B) + n)

(* offset of a relative to b as <<numerator, denominator>>, denominator > 0 *)
MeanOff(a, wa, b, wb, S) ==
  LET A == S \cap Has(a) B == S \cap Has(b)
      va == Total(A, [t \in A |-> a[t] * wa[t]])
      ca == Total(A, [t \in A |-> wa[t]])
      vb == Total(B, [t \in B |-> b[t] * wb[t]])
      cb == Total(B, [t \in B |-> wb[t]])
  IN <<va * cb - vb * ca, ca * cb>>

(* twice the median *)
Median2(c, S) ==
  LET less(x) == Cardinality({t \in S : c[t] < c[x]})
      upto(x) == Cardinality({t \in S : c[t] <= c[x]})
      m == Cardinality(S)
      at(k) == c[CHOOSE t \in S : less(t) < k /\ upto(t) >= k]
  IN at((m + 1) \div 2) + at(m \div 2 + 1)
MedianOff(a, b, S) ==
  <<Median2(a, S \cap Has(a)) - Median2(b, S \cap Has(b)), 2>>

Refused(a, b, n) ==
  LET S == Overlap(a, b, n) IN S \cap Has(a) = {} \/ S \cap Has(b) = {}

(* whole numbers of steps that bring a onto b; two if it is in between *)
Rolls(a, wa, b, wb, n, method) ==
  LET S == Overlap(a, b, n)
      o == IF method = "mean" THEN MeanOff(a, wa, b, wb, S)
           ELSE MedianOff(a, b, S)
      q == o[1] \div o[2]
      r == o[1] - q * o[2]
      k == 2 * r - o[2]
      near == IF method = "mean" THEN (IF k < 0 THEN -k ELSE k) * 1000 <= o[2]
              ELSE k = 0
  IN IF near THEN {-q, -(q + 1)} ELSE IF k < 0 THEN {-q} ELSE {-(q + 1)}

Moved(c, k) == [t \in DOMAIN c |-> IF c[t] = NaN THEN NaN ELSE c[t] + k]

(* curves by the mean of their times: which come before i                   *)
Earlier(cs, i, j) ==
  LET A == Has(cs[i]) B == Has(cs[j]) IN
  Total(A, [t \in A |-> t]) * Cardinality(B) <
  Total(B, [t \in B |-> t]) * Cardinality(A)
Stitched(cs) == {i \in DOMAIN cs : Has(cs[i]) # {}}
(* the curve that i is compared with; 0 if there is none *)
Reference(cs, i) ==
  LET E == {j \in Stitched(cs) : Earlier(cs, j, i)}
      P == {j \in E : \A k \in E : ~Earlier(cs, j, k)}
  IN IF i \notin Stitched(cs) \/ P = {} THEN 0 ELSE Low(P)
=============================================================================
