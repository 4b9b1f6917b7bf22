------------------------------- MODULE Mirror -------------------------------
(***************************************************************************)
(* What is stored of a correlation of channel x with channel y.            *)
(*                                                                         *)
(* A computed correlation is [x, y, k0, v]: v[i] belongs to lag k0 + i - 1 *)
(* (in samples); positive lags mean that y records later than x.  The      *)
(* record that is stored names the channels in canonical order; if that    *)
(* exchanges them, the lag axis is mirrored.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Names

Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]

Stored(x, y, k0, v) ==
  IF Swapped(x, y)
  THEN [a |-> y, b |-> x, k0 |-> -(k0 + Len(v) - 1), v |-> Rev(v)]
  ELSE [a |-> x, b |-> y, k0 |-> k0, v |-> v]

(* the same measurement with the channels exchanged *)
Exchange(c) == [x |-> c.y, y |-> c.x, k0 |-> -(c.k0 + Len(c.v) - 1),
                v |-> Rev(c.v)]

(* the sample at lag k *)
At(r, k) == r.v[k - r.k0 + 1]
Lags(r) == r.k0..(r.k0 + Len(r.v) - 1)
=============================================================================
