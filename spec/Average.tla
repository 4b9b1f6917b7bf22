------------------------------ MODULE Average ------------------------------
(***************************************************************************)
(* Averages of velocity change results.  A result is a record              *)
(*   [tok, net, sta, cha, method, axis, sim, corr, value, stla, ...]       *)
(* sim[t][j]: similarity at time t for axis point j (hundredths, or NaN).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

NaN == 999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Data(s) == SelectSeq(s, LAMBDA x : x # NaN)

AV == <<97, 118>>
GEOAV == <<103, 101, 111, 97, 118>>
IsAverage(d) == \E c \in {d.net, d.sta, d.cha} : c \in {AV, GEOAV}
SameShape(a, b) == Len(a.sim) = Len(b.sim) /\ a.axis = b.axis

(* the members of the average of the sequence D: those that are no         *)
(* averages and fit the first of them                                      *)
Eligible(D) ==
  LET E == SelectSeq(D, LAMBDA d : ~IsAverage(d))
  IN SelectSeq(E, LAMBDA d : SameShape(d, E[1]))
Mixed(D) == \E i, j \in 1..Len(D) : D[i].method # D[j].method

InBox(d, lat, lon, el) ==
  /\ \A x \in {d.stla, d.evla} : lat[1] <= x /\ x <= lat[2]
  /\ \A x \in {d.stlo, d.evlo} : lon[1] <= x /\ x <= lon[2]
  /\ \A x \in {d.stel, d.evel} : el[1] <= x /\ x <= el[2]

(* sum and number of the similarities of members M at (t, j)               *)
Cell(M, t, j) == Data([i \in 1..Len(M) |-> M[i].sim[t][j]])
Num(M, t, j) == Len(Cell(M, t, j))
Tot(M, t, j) == Sum(Cell(M, t, j))

(* axis points of maximum mean similarity at time t                        *)
Best(n(_), s(_), J) ==
  LET D == {j \in J : n(j) > 0}
  IN {j \in D : \A k \in D : s(j) * n(k) >= s(k) * n(j)}
Avail(d, t) == d.corr[t] # NaN
NStat(M, t) == Cardinality({i \in 1..Len(M) : Avail(M[i], t)})
Label(M, F(_), v) == IF \A i \in 1..Len(M) : F(M[i]) = F(M[1])
                     THEN F(M[1]) ELSE v

(* smoothing along time with half length h, after leaving out similarities *)
(* below the threshold                                                     *)
Kept(x, thres, has) == IF has /\ x # NaN /\ x < thres THEN NaN ELSE x
SmoothCell(d, t, j, h, thres, has) ==
  LET a == Max({1, t - h}) b == Min({Len(d.sim), t + h})
  IN Data([i \in 1..(b - a + 1) |-> Kept(d.sim[a + i - 1][j], thres, has)])
=============================================================================
