------------------------------ MODULE PreprocMC ------------------------------
(* Sequences of steps on small matrices, whole and in parts (processes).    *)
EXTENDS Preproc, TLC
CONSTANTS N, Vals, Rows, MaxSteps, GiveUp, Torn, All
VARIABLES whole, parts, cut, steps
vars == <<whole, parts, cut, steps>>

Scaled(x) == [k \in 1..Len(x) |-> Round(x[k], 10)]   \* keeps numbers small
Mute1(x) ==
  LET t == Level(x, 2)
      A(k) == S * Abs(x[k]) > t
  IN [k \in 1..Len(x) |->
        IF \E j \in {k - 1, k, k + 1} : j \notin 1..Len(x) \/ A(j) THEN 0
        ELSE S * x[k]]
(* amplitudes of three consecutive rows                                      *)
Joint(m, i, n) ==
  LET a == 3 * ((i - 1) \div 3) + 1
      b == IF a + 2 <= n THEN a + 2 ELSE n
      J(j) == LET x == m[j] IN Root(Power(x))
      s == Sum(J, a, b)
  IN IF s = 0 THEN m[i]
     ELSE [k \in 1..Len(m[i]) |-> Round(m[i][k] * (b - a + 1) * 1000, s)]
Do(step, m) ==
  CASE step = "sign" -> [i \in 1..Len(m) |-> Sign(m[i])]
    [] step = "clip" -> [i \in 1..Len(m) |-> Clip(m[i], 2)]
    [] step = "demean" -> [i \in 1..Len(m) |-> Demean(m[i])]
    [] step = "linear" -> [i \in 1..Len(m) |-> Linear(m[i])]
    [] step = "std" -> [i \in 1..Len(m) |-> NormStd(m[i])]
    [] step = "tdnorm" -> [i \in 1..Len(m) |-> TDNorm(m[i], 2)]
    [] step = "mute" -> [i \in 1..Len(m) |-> Mute1(m[i])]
    (* refuted: nothing is whitened if one amplitude is zero                 *)
    [] step = "white" ->
         IF GiveUp /\ \E i \in 1..Len(m) : Power(m[i]) = 0
         THEN [i \in 1..Len(m) |-> [k \in 1..Len(m[i]) |-> S * m[i][k]]]
         ELSE [i \in 1..Len(m) |->
                 LET z == [k \in 1..Len(m[i]) |-> <<m[i][k], 0>>]
                     w == WhiteRow(z, <<z>>)
                 IN [k \in 1..Len(z) |-> w[k][1]]]
    [] step = "joint" -> [i \in 1..Len(m) |-> Joint(m, i, Len(m))]
Steps == {"sign", "clip", "demean", "linear", "std", "tdnorm", "mute",
          "white", "joint"}

(* rows that differ in what matters: dead, constant, burst, ramp            *)
Kind(x) ==
  \/ \A k \in 1..N : x[k] = x[1]
  \/ All
  \/ \A k \in 1..N : k = N \/ x[k] = 0
  \/ \A k \in 1..N : k = 1 \/ x[k] > x[k - 1]
Init ==
  /\ whole \in [1..Rows -> {x \in [1..N -> Vals] : Kind(x)}]
  (* the first part has c rows; Torn: joint sets are torn apart (refuted)    *)
  /\ cut \in {c \in 1..(Rows - 1) : Torn \/ c % 3 = 0}
  /\ parts = <<SubSeq(whole, 1, cut), SubSeq(whole, cut + 1, Rows)>>
  /\ steps = <<>>
Tame(m) == [i \in 1..Len(m) |-> Scaled(m[i])]
Next ==
  /\ Len(steps) < MaxSteps
  /\ \E s \in Steps :
       /\ whole' = TLCEval(Tame(Do(s, whole)))
       /\ parts' = TLCEval([p \in 1..2 |-> Tame(Do(s, parts[p]))])
       /\ steps' = Append(steps, s)
  /\ UNCHANGED cut
Spec == Init /\ [][Next]_vars

Independent == whole = parts[1] \o parts[2]
(* a trace without data never gets any                                       *)
Zero == [][\A i \in 1..Rows : Power(whole[i]) = 0 => Power(whole'[i]) = 0]_vars
Signs ==
  [][\A i \in 1..Rows : Len(whole'[i]) = N /\
       (steps' = Append(steps, "sign") =>
          \A k \in 1..N : whole'[i][k] * whole[i][k] >= 0)]_vars
(* steps that do not amplify what is in the range of the level               *)
Bounded ==
  [][\A i \in 1..Rows : steps' \in {Append(steps, "clip"),
                                    Append(steps, "mute")} =>
       \A k \in 1..N : Abs(whole'[i][k]) <= Abs(10 * whole[i][k])]_vars
=============================================================================
