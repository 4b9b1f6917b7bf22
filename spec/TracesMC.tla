------------------------------ MODULE TracesMC ------------------------------
(* All sequences of steps on small streams: nothing but what a step says is *)
(* changed, and marked data never come back.                                *)
EXTENDS Traces, TLC
CONSTANTS N, Steps
VARIABLES st, orig, marked, touched, steps
vars == <<st, orig, marked, touched, steps>>

Val(t) == 7 * t + t * t
Init ==
  /\ \E X \in SUBSET (1..N) : X # {} /\
       st = <<[id |-> 1, t0 |-> 0, d |-> 2,
               x |-> [k \in 1..N |-> IF k \in X THEN Val(k) ELSE M]],
              [id |-> 2, t0 |-> 2, d |-> 2, x |-> <<5, 6, 7>>]>>
  /\ orig = UNION {{<<st[i].id>> \o p : p \in Samples(st[i])} : i \in 1..2}
  /\ marked = {} /\ touched = {} /\ steps = 0

All(s) == UNION {{<<s[i].id>> \o p : p \in Samples(s[i])} : i \in 1..Len(s)}
Where(s) == {<<p[1], p[2]>> : p \in All(s)}

Mark(a, b, r) ==
  LET F(tr) == MarkTrace(tr, <<<<a, b>>>>, r)
      new == Each(st, F)
  IN /\ st' = new
     /\ marked' = marked \cup {p \in All(st) : p \notin All(new)}
     (* exactly the inside: a tick of a sample marks that sample             *)
     /\ Assert(\A p \in All(st) :
                 (p \in All(new)) = (((p[2] < a /\ p[2] <= a - 2) \/
                    (p[2] > b /\ p[2] >= b + 2) \/
                    (LET tr == st[CHOOSE i \in 1..Len(st) :
                        st[i].id = p[1] /\
                        (\E q \in Samples(st[i]) : q[1] = p[2])]
                     IN a > Last(tr) \/ b < tr.t0)) # r), <<st, a, b, r>>)
     /\ UNCHANGED touched
Fill(max) ==
  LET F(tr) == InterpTrace(tr, max)
      new == Each(st, F)
  IN /\ st' = new
     /\ touched' = touched \cup (Where(new) \ Where(st))
     /\ Assert(All(st) \subseteq All(new), "interpolation changed data")
     /\ UNCHANGED marked
Tapers(n) ==
  LET F(tr) == LET T(x) == TaperX(x, n) IN ByPiece(tr, T)
      new == Each(st, F)
  IN /\ st' = new
     /\ Assert(Where(st) = Where(new), "taper lost data")
     /\ touched' = touched \cup {<<p[1], p[2]>> : p \in All(st) \ All(new)}
     /\ UNCHANGED marked
Drop(len) == st' = Discard(Split(st), len) /\ UNCHANGED <<marked, touched>>
Join ==
  /\ st' = Merge(st)
  /\ Assert(All(st') = All(st), "merge changed data")
  /\ UNCHANGED <<marked, touched>>
Pieces ==
  /\ st' = Split(st)
  /\ Assert(All(st') = All(st), "split changed data")
  /\ UNCHANGED <<marked, touched>>
Next ==
  /\ steps < Steps /\ steps' = steps + 1 /\ UNCHANGED orig
  /\ \/ \E a, b \in 0..(2 * N) : a <= b /\ \E r \in BOOLEAN : Mark(a, b, r)
     \/ \E m \in {-1, 1, 2} : Fill(m)
     \/ Tapers(1) \/ Drop(2) \/ Join \/ Pieces
Spec == Init /\ [][Next]_vars

(* what was not interpolated or tapered is as it was                         *)
Unaltered == \A p \in All(st) : <<p[1], p[2]>> \notin touched => p \in orig
(* marked samples can only come back interpolated                            *)
Hidden == \A p \in All(st) : p \in marked => <<p[1], p[2]>> \in touched
(* nothing is known beyond the data: no extrapolation                        *)
Inside == \A p \in All(st) :
  \E q, r \in orig : q[1] = p[1] /\ r[1] = p[1] /\ q[2] <= p[2] /\ p[2] <= r[2]
(* refuted: marked samples never have a value again (interpolation may fill  *)
(* them)                                                                     *)
NeverBack == \A p \in All(st) : \A m \in marked :
               <<p[1], p[2]>> # <<m[1], m[2]>>
=============================================================================
