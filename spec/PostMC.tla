------------------------------ MODULE PostMC ------------------------------
(* Sequences of steps on the lag axis: every sample knows its true lag.       *)
EXTENDS PostProc, TLC
CONSTANTS MaxN, MaxSteps, FromLast, KeepInterval, ResetStart
VARIABLES h, lags, steps
vars == <<h, lags, steps>>

Init ==
  /\ h \in [start : {-12 * k : k \in 0..4} \cup {12, -6}, dt : {12},
            n : 1..MaxN]
  /\ lags = [k \in 1..h.n |-> Lag(h, k)]
  /\ steps = 0

(* samples 1, 1 + f, ... the last one is dropped                             *)
Deci(f) ==
  LET n == (Len(lags) + f - 1) \div f - 1
      o == IF FromLast THEN (Len(lags) - 1) % f ELSE 0
      g == Decimated(h, f)
  IN /\ n >= 1
     /\ lags' = [k \in 1..n |-> lags[1 + o + (k - 1) * f]]
     /\ h' = IF KeepInterval THEN [g EXCEPT !.dt = h.dt] ELSE g
(* the signal at p / q of the interval                                       *)
Resa(p, q) ==
  LET g == Resampled(h, p, q) IN
  /\ p % q # 0 /\ (h.dt * p) % q = 0 /\ g.n >= 1
  /\ lags' = [k \in 1..g.n |-> lags[1] + ((k - 1) * p * h.dt) \div q]
  /\ h' = g
Trim1(i, j) ==
  LET g == Trimmed(h, Lag(h, i) - 3, Lag(h, j) + 2) IN
  /\ i <= j /\ j <= h.n
  /\ h' = IF ResetStart THEN [g EXCEPT !.start = h.start] ELSE g
  /\ lags' = IF Lag(h, i) - 3 <= h.start - h.dt THEN lags
             ELSE SubSeq(lags, i, j)
Mirr ==
  /\ h.start % h.dt = 0
  /\ h' = Mirrored(h)
  /\ lags' = IF h.start >= 0 \/ Last(h) <= 0 THEN lags
             ELSE LET A == {Abs(lags[k]) : k \in 1..Len(lags)} IN
                  [k \in 1..Cardinality(A) |->
                     CHOOSE a \in A : Cardinality({b \in A : b < a}) = k - 1]
Next ==
  /\ steps < MaxSteps
  /\ steps' = steps + 1
  /\ \/ \E f \in 2..3 : Deci(f)
     \/ \E p \in 3..4, q \in 2..3 : Resa(p, q)
     \/ \E i, j \in 1..h.n : Trim1(i, j)
     \/ Mirr
Spec == Init /\ [][Next]_vars

TrueLags == h.n = Len(lags) /\ \A k \in 1..h.n : lags[k] = Lag(h, k)
Span == [][/\ h'.dt >= h.dt
           /\ (h'.n >= 1 /\ h'.start # 0) => h'.start >= h.start
           /\ \A k \in 1..Len(lags') :
                Abs(lags'[k]) <= LET a == Abs(h.start) b == Abs(Last(h))
                                 IN (IF a > b THEN a ELSE b)]_vars
=============================================================================
