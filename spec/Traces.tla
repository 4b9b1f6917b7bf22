------------------------------- MODULE Traces -------------------------------
(***************************************************************************)
(* Streams of traces with gaps. A trace is [id, t0, d, x]: its samples      *)
(* x[1], x[2], ... are taken at the ticks t0, t0 + d, ...; M is a sample    *)
(* without data (masked, or not a number). Values are counted in 1/S.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

M == -2000000000
S == 600

Abs(v) == IF v < 0 THEN -v ELSE v
Ceil(a, b) == -((-a) \div b)
Least(A) == CHOOSE a \in A : \A b \in A : a <= b
Most(A) == CHOOSE a \in A : \A b \in A : a >= b
RECURSIVE Sum(_, _, _)
Sum(F(_), a, b) == IF b < a THEN 0 ELSE F(b) + Sum(F, a, b - 1)
(* n / m rounded                                                            *)
Round(n, m) == (2 * n + m) \div (2 * m)

Last(tr) == tr.t0 + tr.d * (Len(tr.x) - 1)
Has(tr) == {k \in 1..Len(tr.x) : tr.x[k] # M}
TimeOf(tr, k) == tr.t0 + tr.d * (k - 1)
(* the samples of a trace: time -> value                                    *)
Samples(tr) == {<<TimeOf(tr, k), tr.x[k]>> : k \in Has(tr)}

(* -- pieces of data -------------------------------------------------------*)
Starts(x) == {k \in 1..Len(x) : x[k] # M /\ (k = 1 \/ x[k - 1] = M)}
EndOf(x, a) == Most({b \in a..Len(x) : \A j \in a..b : x[j] # M})
RECURSIVE Ordered(_)
Ordered(A) == IF A = {} THEN <<>>
              ELSE <<Least(A)>> \o Ordered(A \ {Least(A)})
Piece(tr, a, b) == [tr EXCEPT !.t0 = TimeOf(tr, a), !.x = SubSeq(tr.x, a, b)]
SplitTrace(tr) ==
  LET s == Ordered(Starts(tr.x)) IN
  [i \in 1..Len(s) |-> Piece(tr, s[i], EndOf(tr.x, s[i]))]
RECURSIVE Split(_)
Split(st) == IF st = <<>> THEN <<>>
             ELSE SplitTrace(Head(st)) \o Split(Tail(st))

(* -- all traces of one channel become one --------------------------------- *)
Ids(st) == {st[i].id : i \in 1..Len(st)}
MergeId(st, id) ==
  LET I == {i \in 1..Len(st) : st[i].id = id}
      a == Least({st[i].t0 : i \in I})
      b == Most({Last(st[i]) : i \in I})
      d == st[CHOOSE i \in I : TRUE].d
      V(t) == UNION {{p[2] : p \in {q \in Samples(st[i]) : q[1] = t}} :
                     i \in I}
  IN [id |-> id, t0 |-> a, d |-> d,
      x |-> [k \in 1..((b - a) \div d + 1) |->
               LET W == V(a + d * (k - 1)) IN
               (* conflicting data are no data                              *)
               IF Cardinality(W) = 1 THEN CHOOSE w \in W : TRUE ELSE M]]
RECURSIVE MergeAll(_, _)
MergeAll(st, ids) ==
  IF ids = {} THEN <<>>
  ELSE LET i == CHOOSE i \in ids : TRUE IN
       <<MergeId(st, i)>> \o MergeAll(st, ids \ {i})
Merge(st) == MergeAll(st, Ids(st))

(* -- marking intervals ----------------------------------------------------- *)
(* An interval <<s, e>> marks the samples in it; ends between two samples    *)
(* reach to the enclosing ones.                                              *)
Marks(tr, iv, k) ==
  /\ iv[1] <= Last(tr) /\ iv[2] >= tr.t0
  /\ k - 1 >= (iv[1] - tr.t0) \div tr.d
  /\ k - 1 <= Ceil(iv[2] - tr.t0, tr.d)
MarkTrace(tr, ivs, reverse) ==
  [tr EXCEPT !.x = [k \in 1..Len(tr.x) |->
     IF (\E i \in 1..Len(ivs) : Marks(tr, ivs[i], k)) # reverse THEN M
     ELSE tr.x[k]]]

(* -- interpolation --------------------------------------------------------- *)
(* gaps of at most max samples (any number if max = -1) that have data on    *)
(* both sides                                                                *)
Interp(x, max) ==
  [k \in 1..Len(x) |->
     IF x[k] # M THEN x[k]
     ELSE LET B == {j \in 1..(k - 1) : x[j] # M}
              A == {j \in (k + 1)..Len(x) : x[j] # M}
          IN IF B = {} \/ A = {} THEN M
             ELSE LET b == Most(B)
                      a == Least(A)
                  IN IF max # -1 /\ a - b - 1 > max THEN M
                     ELSE x[b] + Round((x[a] - x[b]) * (k - b), a - b)]
InterpTrace(tr, max) == [tr EXCEPT !.x = Interp(tr.x, max)]

(* -- discarding ------------------------------------------------------------ *)
(* traces that last at most len                                              *)
Discard(st, len) == SelectSeq(st, LAMBDA tr : tr.d * Len(tr.x) > len)
Valid(st) == SelectSeq(st, LAMBDA tr : Has(tr) # {})

(* -- tapers ---------------------------------------------------------------- *)
(* sin(pi k / (2 n - 1)) in 1/10000                                          *)
Sine == <<<<0>>, <<0, 8660>>, <<0, 5878, 9511>>, <<0, 4339, 7818, 9749>>,
          <<0, 3420, 6428, 8660, 9848>>,
          <<0, 2817, 5406, 7557, 9096, 9898>>>>
TaperX(x, n) ==
  IF n = 0 \/ 2 * n > Len(x) THEN x
  ELSE [k \in 1..Len(x) |->
          IF x[k] = M THEN M
          ELSE IF k <= n THEN Round(x[k] * Sine[n][k], 10000)
          ELSE IF Len(x) - k < n
               THEN Round(x[k] * Sine[n][Len(x) - k + 1], 10000)
          ELSE x[k]]
TaperTrace(tr, n) == [tr EXCEPT !.x = TaperX(tr.x, n)]
(* apply f to every piece of a trace on its own                              *)
ByPiece(tr, F(_)) ==
  [tr EXCEPT !.x = [k \in 1..Len(tr.x) |->
     IF tr.x[k] = M THEN M
     ELSE LET a == Most({s \in Starts(tr.x) : s <= k})
          IN F(SubSeq(tr.x, a, EndOf(tr.x, a)))[k - a + 1]]]

(* -- trends ---------------------------------------------------------------- *)
Demean(x) ==
  LET V(k) == x[k]
      m == Sum(V, 1, Len(x))
  IN [k \in 1..Len(x) |-> Round(x[k] * Len(x) - m, Len(x))]
Simple(x) ==
  LET n == Len(x) IN
  IF n = 1 THEN x
  ELSE [k \in 1..n |->
          Round((x[k] - x[1]) * (n - 1) - (k - 1) * (x[n] - x[1]), n - 1)]
Linear(x) ==
  LET n == Len(x)
      V(k) == x[k]
      W(k) == (k - 1) * x[k]
      s0 == Sum(V, 1, n)
      s1 == Sum(W, 1, n)
      (* slope = (12 s1 - 6 (n - 1) s0) / (n (n^2 - 1)), about the middle    *)
      num == 12 * s1 - 6 * (n - 1) * s0
      den == n * (n * n - 1)
  IN IF n = 1 THEN <<0>>
     ELSE [k \in 1..n |->
             x[k] - Round(s0, n)
             - Round(Round(num * (2 * k - n - 1), den), 2)]
DetrendTrace(tr, type) ==
  IF type = "demean" THEN ByPiece(tr, Demean)
  ELSE IF type = "simple" THEN ByPiece(tr, Simple)
  ELSE ByPiece(tr, Linear)

(* -- cutting --------------------------------------------------------------- *)
(* to the samples from a to b; with pad the missing ones are added           *)
Cut(tr, a, b) ==
  LET K == {k \in 1..Len(tr.x) : a <= TimeOf(tr, k) /\ TimeOf(tr, k) <= b}
  IN IF K = {} THEN [tr EXCEPT !.x = <<>>]
     ELSE Piece(tr, Least(K), Most(K))
Pad(tr, a, b) ==
  [tr EXCEPT !.t0 = a, !.x = [k \in 1..((b - a) \div tr.d + 1) |->
     LET j == (a - tr.t0) \div tr.d + k IN
     IF j \in 1..Len(tr.x) THEN tr.x[j] ELSE M]]
Every(x, f) == [k \in 1..Ceil(Len(x), f) |-> x[(k - 1) * f + 1]]

Each(st, F(_)) == [i \in 1..Len(st) |-> F(st[i])]

(* -- gaps of a whole stream ------------------------------------------------ *)
GapHandler(st, max, retain, n) ==
  LET I(tr) == InterpTrace(tr, max)
      T(tr) == TaperTrace(tr, n)
      P == Discard(Split(Each(Merge(st), I)), retain)
  IN Merge(Each(P, T))
(* the processing of the stream before it is cut into windows                *)
Prepare(st, n, short, marks, a, b) ==
  LET L(tr) == DetrendTrace(tr, "linear")
      G == GapHandler(Each(st, L), 1, 4 * n * st[1].d, n)
      K(tr) == IF marks = <<>> THEN tr
               ELSE MarkTrace(tr, marks[1].ivs, marks[1].reverse)
      C == Each(Discard(Split(G), short), K)
      F(tr) == Pad(tr, a, b)
  IN IF st = <<>> \/ G = <<>> THEN <<>>
     ELSE Discard(Each(Merge(C), F), short)
=============================================================================
