------------------------------ MODULE MirrorMC ------------------------------
(***************************************************************************)
(* A database that is filled with correlations in any order of the two     *)
(* channels.  Whichever way a pair is computed, there is one record, its   *)
(* samples have the lag with the sign of the physical delay.               *)
(* "delay" of a channel: when it records the one wavelet that everybody    *)
(* records (a correlation is the wavelet at the difference of the delays). *)
(***************************************************************************)
EXTENDS Mirror, TLC, FiniteSets
CONSTANTS Ids, Delays, K0s, Ns
VARIABLES delay, db
MCIds == {[n |-> <<65>>, s |-> <<65>>, c |-> <<90>>],
          [n |-> <<65>>, s |-> <<65, 66>>, c |-> <<69>>],
          [n |-> <<65, 66>>, s |-> <<65>>, c |-> <<69>>]}
MCK0s == {-3, -1, 0, 2}

Wave(x, y, k0, n) ==
  [i \in 1..n |-> IF k0 + i - 1 = delay[y] - delay[x] THEN 1 ELSE 0]

Init == /\ delay \in [Ids -> Delays]
        /\ db = {}

Compute(x, y, k0, n) ==
  LET r == Stored(x, y, k0, Wave(x, y, k0, n))
  IN db' = db \cup {r}

Next == \E x, y \in Ids, k0 \in K0s, n \in Ns :
          Cardinality(db) < 2 /\ Compute(x, y, k0, n) /\ UNCHANGED delay

Spec == Init /\ [][Next]_<<delay, db>>

(* the peak is at the delay of b relative to a *)
Physical ==
  \A r \in db : \A k \in Lags(r) :
     At(r, k) = IF k = delay[r.b] - delay[r.a] THEN 1 ELSE 0
Ordered == \A r \in db : IdLeq(r.a, r.b)
(* records of the same pair agree wherever both have a sample *)
OneTruth ==
  \A r, s \in db : (r.a = s.a /\ r.b = s.b) =>
     \A k \in Lags(r) \cap Lags(s) : At(r, k) = At(s, k)
Involution ==
  db = {} => \A x, y \in Ids, k0 \in K0s, n \in Ns :
    LET c == [x |-> x, y |-> y, k0 |-> k0, v |-> Wave(x, y, k0, n)]
        e == Exchange(c)
    IN /\ Exchange(e) = c
       /\ x # y => Stored(c.x, c.y, c.k0, c.v) = Stored(e.x, e.y, e.k0, e.v)
Inv == Physical /\ Ordered /\ OneTruth
=============================================================================
