----------------------------- MODULE FileTreeMC -----------------------------
(***************************************************************************)
(* Requests from all trees of a few files. Modes other than "right": the   *)
(* next file is looked for in the wrong direction ("back"), reading ends   *)
(* at the first section without a file ("absent"), the file before is not  *)
(* looked at ("only"), or only if there is nothing ("empty").              *)
(***************************************************************************)
EXTENDS FileTree, TLC
CONSTANTS First, End, Late, Mode

VARIABLES file, s, e, got, this, pc
vars == <<file, s, e, got, this, pc>>
K == DOMAIN First
Sections == <<0, 2, 5>>
Sections4 == <<0, 2, 5, 7>>
Next1(k) == IF k + 1 \in K THEN First[k + 1] ELSE End
Ticks == First[1]..(End - 1)
Stored == UNION {file[k] : k \in K}
Take(k) == IF k \in K THEN Between(s, e, file[k]) ELSE {}

Init == /\ \E late \in [K -> 0..Late], A \in SUBSET Ticks :
             file = [k \in K |-> {t \in A : t >= First[k] + late[k] /\
                       t < Next1(k) + IF k + 1 \in K THEN late[k + 1] ELSE 0}]
        /\ s \in Ticks /\ e \in Ticks /\ s < e
        /\ got = {} /\ this = 0 /\ pc = "first"
ReadFirst == /\ pc = "first"
             /\ got' = Take(SecOf(First, s))
             /\ this' = s
             /\ pc' = "before"
             /\ UNCHANGED <<file, s, e>>
(* data at the start is missing                                             *)
Starts == IF got = {} THEN FALSE ELSE Mode = "empty" \/ Smallest(got) <= s
ReadBefore == /\ pc = "before"
              /\ got' = IF Starts \/ Mode = "only" THEN got
                        ELSE got \cup Take(SecOf(First, s) - 1)
              /\ pc' = "next"
              /\ UNCHANGED <<file, s, e, this>>
More == this < e /\ IF got = {} THEN TRUE ELSE Greatest(got) < e
(* any time of the next section                                             *)
ReadNext == /\ pc = "next" /\ More
            /\ LET k == SecOf(First, this)
                   j == IF Mode = "back" THEN k - 1 ELSE k + 1
               IN /\ got' = got \cup Take(j)
                  /\ IF j \in K /\ (Mode = "absent" => file[j] # {})
                     THEN \E t \in First[j]..(Next1(j) - 1) : this' = t
                     ELSE this' = e
            /\ UNCHANGED <<file, s, e, pc>>
Stop == /\ pc = "next" /\ ~More /\ pc' = "done"
        /\ UNCHANGED <<file, s, e, got, this>>
Next == ReadFirst \/ ReadBefore \/ ReadNext \/ Stop
Spec == Init /\ [][Next]_vars

Exact == pc = "done" => got = Between(s, e, Stored)
Sound == got \subseteq Between(s, e, Stored)
Runs(S) == {r \in S \X S : /\ r[1] <= r[2] /\ (r[1]..r[2]) \subseteq S
                           /\ r[1] - 1 \notin S /\ r[2] + 1 \notin S}
(* what is decided for the trace: joined runs                               *)
Clipped == pc = "done" =>
  Joined(Clip(UNION {Runs(file[k]) : k \in K}, s, e)) = Runs(got)
Ends == pc # "done" => ENABLED Next
=============================================================================
