------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* The local archive of waveforms.  Time is counted in ticks (half sample  *)
(* intervals); a channel's data are the ticks at which it has samples.     *)
(* The archive keeps them in one file per day; the sample at midnight may  *)
(* be in the files of both days.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

In(S, s, e) == {t \in S : s <= t /\ t <= e}
(* A request is served from the archive if the archive has data at both of *)
(* its ends (one sample may be missing at either).                         *)
Covered(S, s, e, step) ==
  LET L == In(S, s, e) IN
  /\ L # {}
  /\ Min(L) - step <= s
  /\ Max(L) + step >= e

(* what a file of a day may hold                                           *)
DayOf(d, len) == (d * len)..((d + 1) * len)
Content(files) == UNION {files[d] : d \in DOMAIN files}

(* the days of a contiguous piece of data                                  *)
Days(S, len) == {t \div len : t \in S}
(* storing new samples: each day's file is extended                        *)
Extend(files, S, len) ==
  [d \in DOMAIN files \cup Days(S, len) |->
     (IF d \in DOMAIN files THEN files[d] ELSE {})
     \cup (S \cap DayOf(d, len))]
=============================================================================
