------------------------------ MODULE AverageMC ------------------------------
(* All triples of small results: the average does not depend on their order *)
(* and is that of the results with data.                                    *)
EXTENDS Average, TLC
CONSTANT Vals
VARIABLE D

Res(v, c) == [net |-> <<1>>, sta |-> <<2>>, cha |-> c, method |-> "m",
              axis |-> <<1, 2>>, sim |-> <<v>>,
              corr |-> <<IF \A j \in 1..2 : v[j] = NaN THEN NaN
                         ELSE Max({v[j] : j \in {i \in 1..2 : v[i] # NaN}})>>]
Sims == [1..2 -> Vals \cup {NaN}]
Init == D \in {<<Res(a, c), Res(b, <<3>>), Res(x, e)>> :
                 a \in Sims, b \in Sims, x \in Sims,
                 c \in {<<3>>, AV}, e \in {<<3>>, <<4>>}}
Next == UNCHANGED D
Spec == Init /\ [][Next]_D

BestOf(M) == Best(LAMBDA j : Num(M, 1, j), LAMBDA j : Tot(M, 1, j), 1..2)
Perms == {p \in [1..3 -> 1..3] : Cardinality({p[i] : i \in 1..3}) = 3}
OrderFree ==
  LET M == Eligible(D) IN
  \A p \in Perms : LET N == Eligible([i \in 1..3 |-> D[p[i]]]) IN
    /\ Len(M) = Len(N) /\ NStat(M, 1) = NStat(N, 1)
    /\ \A j \in 1..2 : Num(M, 1, j) = Num(N, 1, j) /\ Tot(M, 1, j) = Tot(N, 1, j)
    /\ BestOf(M) = BestOf(N)
Bounds ==
  LET M == Eligible(D) IN
  /\ \A i \in 1..Len(M) : ~IsAverage(M[i])
  /\ (BestOf(M) = {}) = (NStat(M, 1) = 0)
  /\ \A j \in 1..2 : Num(M, 1, j) <= NStat(M, 1)
=============================================================================
