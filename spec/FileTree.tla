------------------------------ MODULE FileTree ------------------------------
(***************************************************************************)
(* Reading a channel from files that hold one section of time each (hours, *)
(* days, months, years). First[k] is the first tick of section k; a record *)
(* lies in the file of the section it begins in, so file k may begin late  *)
(* and go on into the next section. A request reads the file of the        *)
(* section it starts in, the one before if data at its start is missing,   *)
(* and the next ones until there is data at its end, or its end is passed. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y

SecOf(First, t) == Greatest({k \in DOMAIN First : First[k] <= t})

(* one request as a machine: got, section, whether it goes on               *)
Between(s, e, S) == {t \in S : t >= s /\ t <= e}

(* runs <<a, b>> of ticks, both ends included, of the runs R within s..e    *)
Clip(R, s, e) == {<<IF r[1] < s THEN s ELSE r[1],
                    IF r[2] > e THEN e ELSE r[2]>> :
                  r \in {r \in R : r[2] >= s /\ r[1] <= e}}
(* runs that follow each other without a gap are one                        *)
RECURSIVE Joined(_)
Joined(R) ==
  IF \E p, q \in R : p[2] + 1 = q[1]
  THEN LET p == CHOOSE p \in R : \E q \in R : p[2] + 1 = q[1]
           q == CHOOSE q \in R : p[2] + 1 = q[1]
       IN Joined((R \ {p, q}) \cup {<<p[1], q[2]>>})
  ELSE R
=============================================================================
