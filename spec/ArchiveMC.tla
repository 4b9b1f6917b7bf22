----------------------------- MODULE ArchiveMC -----------------------------
(***************************************************************************)
(* Histories of fetching from a remote that gains, loses and regains data. *)
(* Writing a day is one step, a fetch may die between two days.  With      *)
(* Gaps = FALSE a day's file is replaced by a gapless piece only (as when  *)
(* gappy data cannot be written): refuted.                                  *)
(***************************************************************************)
EXTENDS Archive, TLC
CONSTANTS N, L, Gaps, Depth
VARIABLES files, remote, pending, got, local, depth

T == 0..N
Init == /\ files = [d \in {} |-> {}] /\ remote \in {T, In(T, 1, N)}
        /\ pending = {} /\ got = {} /\ local = {} /\ depth = 0
Gapless(S) == S = {} \/ S = Min(S)..Max(S)
Fetch(s, e) ==
  /\ pending = {}
  /\ IF Covered(Content(files), s, e, 1)
     THEN /\ local' = In(Content(files), s, e) /\ UNCHANGED pending
     ELSE /\ pending' = {<<d, In(remote, s, e) \cap DayOf(d, L)>> :
                          d \in Days(In(remote, s, e), L)}
          /\ local' = {}
  /\ UNCHANGED <<files, remote, got>>
Write == \E p \in pending :
  LET new == (IF p[1] \in DOMAIN files THEN files[p[1]] ELSE {}) \cup p[2]
  IN /\ pending' = pending \ {p}
     /\ IF Gaps \/ Gapless(new)
        THEN files' = (p[1] :> new) @@ files ELSE UNCHANGED files
     /\ got' = got \cup p[2]
     /\ UNCHANGED <<remote, local>>
Die == pending # {} /\ pending' = {} /\ UNCHANGED <<files, remote, got, local>>
Change == /\ pending = {}
          /\ \E s \in T, e \in T : s <= e /\
               (remote' = remote \ (s..e) \/ remote' = remote \cup (s..e))
          /\ UNCHANGED <<files, pending, got, local>>
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ \/ \E s \in T, e \in T : s < e /\ Fetch(s, e)
           \/ Write \/ Die \/ Change
Spec == Init /\ [][Next]_<<files, remote, pending, got, local, depth>>

(* nothing that was written is lost, nothing is invented                   *)
Exact == Content(files) = got
Ordered == \A d \in DOMAIN files : files[d] # {} /\ files[d] \subseteq DayOf(d, L)
(* what is stored is served again without the remote                       *)
Served == \A s \in T, e \in T :
  s < e /\ (s..e) \subseteq got => Covered(Content(files), s, e, 1)
=============================================================================
