-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* A correlation matrix and its operations.  A matrix is a record          *)
(*   [rows, lag, dt, data]                                                 *)
(* rows: sequence of labels [cs, ce, loc, cha] (start and end in tenths of *)
(* seconds), lag: lag of the first column and dt: distance of the columns  *)
(* (milliseconds), data[r][c]: samples (thousandths) or NaN.               *)
(* An operation yields the exact matrix, except for means: a mean is       *)
(* written [s, n] (sum and number).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

NaN == 999999999
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x

NRow(B) == Len(B.rows)
(* the number of columns is recorded, as there may be no rows *)
NCol(B) == B.ncol
Lag(B, c) == B.lag + (c - 1) * B.dt
LastLag(B) == Lag(B, NCol(B))

(* rows R (a sequence of indices) of B *)
Take(B, R) ==
  [B EXCEPT !.rows = [i \in 1..Len(R) |-> B.rows[R[i]]],
            !.data = [i \in 1..Len(R) |-> B.data[R[i]]]]
Where(B, P(_)) == SelectSeq([i \in 1..NRow(B) |-> i], LAMBDA i : P(B.rows[i]))
(* columns from a to b *)
Cols(B, a, b) ==
  [B EXCEPT !.lag = Lag(B, a), !.ncol = b - a + 1,
            !.data = [i \in 1..NRow(B) |-> SubSeq(B.data[i], a, b)]]

(* -- trimming: exactly the samples with a lag in [s, e]; a range that is  *)
(* not covered changes nothing                                             *)
Trim(B, s, e) ==
  IF s <= B.lag - B.dt \/ e >= LastLag(B) + B.dt THEN B
  ELSE LET C == {c \in 1..NCol(B) : s <= Lag(B, c) /\ Lag(B, c) <= e}
       IN Cols(B, Min(C), Max(C))
TrimDefined(B, s, e) ==
  \/ s <= B.lag - B.dt \/ e >= LastLag(B) + B.dt
  \/ \E c \in 1..NCol(B) : s <= Lag(B, c) /\ Lag(B, c) <= e

(* -- mirroring: sample pairs of equal absolute lag are averaged ---------- *)
HasBoth(B) == B.lag < 0 /\ LastLag(B) > 0
Aligned(B) == B.lag % B.dt = 0
(* column of lag k * dt *)
Col(B, k) == k - (B.lag \div B.dt) + 1
In(B, k) == Col(B, k) \in 1..NCol(B)
MirrorLen(B) == Max({-(B.lag \div B.dt), LastLag(B) \div B.dt}) + 1
(* the samples that enter lag k of row r *)
MirrorOf(B, r, k) ==
  LET both == In(B, k) /\ In(B, -k)
  IN IF both THEN <<B.data[r][Col(B, k)], B.data[r][Col(B, -k)]>>
     ELSE IF In(B, k) THEN <<B.data[r][Col(B, k)]>>
     ELSE <<B.data[r][Col(B, -k)]>>

(* got is the mean of the samples S (NaN as soon as one of them is) *)
MeanAll(got, S) ==
  IF \E i \in 1..Len(S) : S[i] = NaN THEN got = NaN
  ELSE got # NaN /\ Abs(got * Len(S) - Sum(S)) <= 2 * Len(S)
(* got is the mean of those samples of S that are not NaN *)
MeanSome(got, S) ==
  LET D == SelectSeq(S, LAMBDA x : x # NaN)
  IN IF D = <<>> THEN got = NaN ELSE got # NaN /\
     Abs(got * Len(D) - Sum(D)) <= 2 * Len(D)
(* got is the median of those samples of S that are not NaN *)
Median(got, S) ==
  LET D == SelectSeq(S, LAMBDA x : x # NaN)
      O == SortSeq(D, LAMBDA x, y : x < y)
      n == Len(O)
  IN IF D = <<>> THEN got = NaN ELSE got # NaN /\
     IF n % 2 = 1 THEN Abs(got - O[(n + 1) \div 2]) <= 2
     ELSE Abs(2 * got - O[n \div 2] - O[n \div 2 + 1]) <= 4

(* -- time slices ------------------------------------------------------- *)
Slice(B, s, e, partial) ==
  Take(B, Where(B, LAMBDA w : IF partial THEN w.ce >= s /\ w.cs <= e
                              ELSE w.cs >= s /\ w.ce <= e))
(* in the order of their starts (those of equal start in the order of B)   *)
SelectCorr(B, s, e, partial) ==
  LET R == Where(B, LAMBDA w : IF partial THEN s < w.ce /\ w.ce <= e
                               ELSE s <= w.cs /\ w.ce <= e)
  IN Take(B, SetToSortSeq(ToSet(R), LAMBDA i, j :
       \/ B.rows[i].cs < B.rows[j].cs
       \/ B.rows[i].cs = B.rows[j].cs /\ i < j))

(* -- bins of a resampling: bin i is half open, and implied ends follow    *)
(* from the first two starts                                               *)
BinEnd(B, S, E, i) ==
  IF E # <<>> THEN E[i]
  ELSE IF Len(S) = 1 THEN Max({B.rows[j].ce : j \in 1..NRow(B)})
  ELSE S[i] + S[2] - S[1]
BinRows(B, S, E, i) ==
  Where(B, LAMBDA w : S[i] <= w.cs /\ w.cs < BinEnd(B, S, E, i))

(* -- reference traces: window i of increment inc reaches half an          *)
(* increment further to both sides                                         *)
RefStarts(B, inc) ==
  LET s0 == Min({B.rows[i].cs : i \in 1..NRow(B)})
      e0 == Max({B.rows[i].ce : i \in 1..NRow(B)})
      n == (e0 - s0 + inc - 1) \div inc
  IN [i \in 1..n |-> s0 + (i - 1) * inc]
RefRows(B, s, inc) ==
  Where(B, LAMBDA w : 2 * w.ce >= 2 * s - inc /\ 2 * w.cs <= 2 * s + 3 * inc)
=============================================================================
