----------------------------- MODULE EstimateMC -----------------------------
(* Estimates for the rows of small matrices (all shifts of a reference by up *)
(* to R samples) while rows, samples, and amplitudes change: what may change *)
(* an estimate, and what may not.                                           *)
EXTENDS Estimate, TLC
CONSTANTS N, Levels, R, Wrap, Shared, Few
VARIABLES m, ref, sides, tw, est, before, op
Vals == {v - 1 : v \in Levels}               \* no negative numbers in a cfg
vars == <<m, ref, sides, tw, est, before, op>>

Refs(x) == [s \in 1..(2 * R + 1) |-> Shifted(x, s - R - 1)]
(* Wrap (refuted): samples before the first are taken from the end           *)
WrapIdx(i) == IF i < 1 THEN i + N ELSE i
Idx(w, sd) == IF Wrap THEN {WrapIdx(i) : i \in Window(w, sd, N)} \cap (1..N)
              ELSE Window(w, sd, N)
Energy(x, idx) == Dot(x, x, idx)
(* the whole matrix at once, as with masks and products of matrices;         *)
(* Shared (refuted): all rows are normalized by the strongest                 *)
Sims(mat, x, idx) ==
  [i \in 1..Len(mat) |->
     [s \in 1..(2 * R + 1) |->
        IF Shared
        THEN LET e == Biggest(1, MaxIn({Energy(mat[j], idx) :
                                          j \in 1..Len(mat)}))
             IN Round(1000 * Dot(mat[i], Refs(x)[s], idx), e)
        ELSE Sim(mat[i], Refs(x)[s], idx)]]
Estimate1(sims) ==
  LET good == {s \in 1..Len(sims) : sims[s] # M}
  IN IF good = {} THEN [sims |-> sims, corr |-> M, at |-> {}]
     ELSE LET top == MaxIn({sims[s] : s \in good})
          IN [sims |-> sims, corr |-> top,
              at |-> {s \in good : sims[s] = top}]
Est(mat, x, w, sd) ==
  LET z == Sims(mat, x, Idx(w, sd))
  IN [i \in 1..Len(mat) |-> Estimate1(z[i])]

Windows == {a..b : <<a, b>> \in {p \in (0..(N - 1)) \X (0..(N - 1)) :
                                   p[1] < p[2]}}
SideSet == {"both", "left", "right", "single"}
References ==
  {x \in [1..N -> Vals] :
     /\ Cardinality({x[k] : k \in 1..N}) > 2
     /\ \A k \in 1..N : k > 2 \/ x[k] # 0
     /\ Few => x[1] = -1 /\ x[2] = 2 /\ x[3] = 0}
Rows ==
  LET kinds == {x \in [1..N -> Vals] : x[1] # x[N] \/ x[2] = 0} IN kinds
Init ==
  /\ ref \in References
  /\ sides \in SideSet
  /\ tw \in {w \in Windows : (Wrap \/ Fits(w, sides, N)) /\
                              (~Few \/ Cardinality(w) \in {2, N})}
  /\ m \in {<<x>> : x \in Rows}
  /\ est = TLCEval(Est(m, ref, tw, sides))
  /\ before = est /\ op = "start"
Change(mm, x, sd, o) ==
  /\ m' = mm /\ ref' = x /\ sides' = sd /\ op' = o
  /\ est' = TLCEval(Est(mm, x, tw, sd))
  /\ before' = est /\ UNCHANGED tw
Mirror(x) == [k \in 1..N |-> x[N + 1 - k]]
Scale(x, f) == [k \in 1..N |-> f * x[k]]
Next ==
  /\ op = "start"
  /\ \/ \E y \in {Scale(ref, 3), [k \in 1..N |-> 0]} :
          Change(<<m[1], y>>, ref, sides, "other")
     \/ \E k \in 1..N : \E v \in Vals :
          /\ k \notin Window(tw, sides, N)
          /\ Change(<<[m[1] EXCEPT ![k] = v]>>, ref, sides, "outside")
     \/ Change(<<Scale(m[1], 3)>>, ref, sides, "scale")
     \/ /\ N % 2 = 1 /\ sides \in {"left", "right"}
        /\ Change(<<Mirror(m[1])>>, Mirror(ref),
                  IF sides = "left" THEN "right" ELSE "left", "mirror")
     \/ \E d \in (-R)..R :
          Change(<<Shifted(ref, d)>>, ref, sides, "copy")
     \/ Change(<<[k \in 1..N |-> IF k \in Window(tw, sides, N) THEN 0
                                  ELSE 1]>>, ref, sides, "dead")
Spec == Init /\ [][Next]_vars

Bounded == \A i \in 1..Len(est) :
             \A s \in 1..Len(est[i].sims) :
               est[i].sims[s] = M \/ Abs(est[i].sims[s]) <= 1001
Rev(x) == [s \in 1..Len(x) |-> x[Len(x) + 1 - s]]
Same(a, b) == /\ Len(a) = Len(b)
              /\ \A s \in 1..Len(a) :
                   IF a[s] = M \/ b[s] = M THEN a[s] = b[s]
                   ELSE Abs(a[s] - b[s]) <= 1
Steady ==
  /\ op \in {"other", "outside", "scale"} => Same(est[1].sims, before[1].sims)
  (* mirrored, the other way                                                  *)
  /\ op = "mirror" => Same(est[1].sims, Rev(before[1].sims))
(* a copy has the similarity 1 with the version it is a copy of: nothing is   *)
(* more similar                                                               *)
Copies ==
  op = "copy" =>
    LET idx == Idx(tw, sides) IN
    IF Energy(m[1], idx) = 0 THEN est[1].at = {}
    ELSE /\ est[1].corr >= 999
         /\ \E s \in est[1].at : Refs(ref)[s] = m[1] \/
              Sim(m[1], Refs(ref)[s], idx) >= 999
         /\ \A s \in 1..(2 * R + 1) :
              Refs(ref)[s] = m[1] => est[1].sims[s] >= 999
Deads == op = "dead" => est[1].corr = M /\ est[1].at = {}

(* a shift that is measured, corrected and measured again is zero             *)
Corrected ==
  op = "copy" =>
    \A d \in (-R)..R :
      LET x == Moved(ref, d)
          idx == {k \in 1..N : k > 2 * R /\ k + 2 * R <= N}
          w == [s \in 1..(2 * R + 1) |-> Sim(x, Moved(ref, s - R - 1), idx)]
          y == Moved(x, -d)
          again == Sim(y, ref, idx)
      IN idx = {} \/ (/\ w[d + R + 1] \in {M} \cup 999..1001
                      /\ again \in {M} \cup 999..1001)

(* identical panels, whatever the (equal) offsets, combine to one of them      *)
Panels ==
  LET p == [i \in 1..Len(est) |-> est[i].sims]
  IN \A j \in 1..2 : \A o \in {0, 3} :
       LET ps == [k \in 1..(j + 1) |-> p]
           offs == [k \in 1..(j + 1) |-> o]
       IN \A i \in 1..Len(est) : \A s \in 1..(2 * R + 1) :
            Combined(ps, offs, i, s) = p[i][s]
=============================================================================
