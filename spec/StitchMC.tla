------------------------------ MODULE StitchMC ------------------------------
(***************************************************************************)
(* Curves of the same place that differ by constant offsets are shifted    *)
(* one after the other. Modes other than "right": in the order of the list *)
(* ("list"), relative to the uncorrected reference ("stale"), the last     *)
(* common time left out ("open"), the gap not tested ("gap").              *)
(***************************************************************************)
EXTENDS Stitch, TLC
CONSTANTS N, C, Offsets, Mode

VARIABLES curves, start, n, done
vars == <<curves, start, n, done>>

(* truth: a step at one time *)
Make(A, o, s, d) == [t \in 1..N |-> IF t \notin A THEN NaN
                                    ELSE o + IF t >= s THEN d ELSE 0]
Init == \E A \in [1..C -> SUBSET (1..N)], o \in [1..C -> Offsets],
           s \in 2..N, d \in 0..1 :
          /\ o[1] = 0
          /\ curves = [i \in 1..C |-> TLCEval(Make(A[i], o[i], s, d))]
          /\ start = curves
          /\ n \in IF d = 0 THEN 0..2 ELSE {0}
          /\ done = {}
Ref(i) == IF Mode = "list" THEN i - 1 ELSE Reference(start, i)
Seen(i) == IF Mode = "stale" THEN start[i] ELSE curves[i]
Window(i, r) ==
  LET S == Overlap(start[i], start[r], n) IN
  IF Mode = "open" /\ S # {} THEN S \ {High(S)} ELSE S
Shift(i, r) ==
  LET a == start[i] b == Seen(r) S == Window(i, r)
      A == S \cap Has(a) B == S \cap Has(b)
      o == MeanOff(a, [t \in 1..N |-> 1], b, [t \in 1..N |-> 1], S)
  IN IF A = {} \/ B = {} THEN {0}
     ELSE IF Mode = "open" THEN {-(o[1] \div o[2])}
     ELSE Rolls(a, [t \in 1..N |-> 1], b, [t \in 1..N |-> 1], n, "mean")
Correct(i) ==
  LET r == Ref(i) IN
  /\ i \notin done
  /\ r # 0 => r \in done
  /\ done' = done \cup {i}
  /\ UNCHANGED <<start, n>>
  /\ IF r = 0 \/ i \notin Stitched(start) THEN UNCHANGED curves
     ELSE IF Refused(start[i], start[r], n) THEN
       IF Mode = "gap" THEN curves' = [curves EXCEPT ![i] = Moved(@, 1)]
       ELSE UNCHANGED curves
     ELSE \E k \in Shift(i, r) :
            curves' = [curves EXCEPT ![i] = Moved(start[i], k)]
Next == \E i \in 1..C : Correct(i)
Spec == Init /\ [][Next]_vars

(* the curves that hang together *)
RECURSIVE Root(_)
Root(i) == LET r == Reference(start, i) IN
           IF r = 0 \/ Refused(start[i], start[r], n) THEN i ELSE Root(r)
All == done = 1..C
(* curves that hang together agree where they overlap, and the first is kept *)
Agree == All => \A i, j \in Stitched(start) :
           Root(i) = Root(j) =>
             \A t \in Has(curves[i]) \cap Has(curves[j]) :
               curves[i][t] = curves[j][t]
Kept == All => \A i \in Stitched(start) :
          Root(i) = i => curves[i] = start[i]
(* only ever whole curves *)
Rigid == \A i \in 1..C : \E k \in -20..20 : curves[i] = Moved(start[i], k)
(* everything is corrected, once *)
Ends == All \/ ENABLED Next
=============================================================================
