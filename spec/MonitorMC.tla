----------------------------- MODULE MonitorMC -----------------------------
(***************************************************************************)
(* Runs over all small sets of files: the list of tasks is made file by    *)
(* file, then every task is computed.  Isolated = FALSE is a monitor in    *)
(* which one failure ends the run (refuted).  Two runs follow each other,  *)
(* the second may find more files or other failures.                       *)
(***************************************************************************)
EXTENDS Monitor, TLC
CONSTANTS Isolated
VARIABLES F, req, pc, list, todo, res, runs, count

A == <<65>>
B == <<66>>
AB == <<65, 66>>
Codes == {A, AB}
Reqs == {<<A>>, <<AB>>, <<A, AB>>, <<<<42>>>>, <<<<65, 63>>>>}
Chs == {[c |-> <<c>>, t |-> {0}, ok |-> o] : c \in {1, 2}, o \in BOOLEAN}
Chans == {S \in SUBSET Chs : Cardinality(S) <= 2 /\
            \A x, y \in S : x.c = y.c => x = y}
Files == {[n |-> <<A, A>>, s |-> <<s, t>>, bad |-> b, chans |-> C] :
            s, t \in Codes, b \in BOOLEAN, C \in Chans}
Pairs2 == {<<A, A>>, <<A, AB>>}
FileSets ==
  {{[n |-> <<A, A>>, s |-> p, bad |-> x[p][1], chans |-> x[p][2]] :
      p \in DOMAIN x} :
    x \in UNION {[D -> BOOLEAN \X Chans] : D \in SUBSET Pairs2}}
N == <<A>>

Init ==
  /\ F \in FileSets /\ req \in Reqs
  /\ pc = "list" /\ list = F /\ todo = {} /\ res = {} /\ runs = 1
  /\ count = [x \in {} |-> 0]
ListFile(f) ==
  /\ pc = "list" /\ f \in list
  /\ list' = list \ {f}
  /\ IF ~Selected(f, N, req) THEN UNCHANGED <<todo, pc>>
     ELSE IF f.bad THEN /\ UNCHANGED todo
                        /\ pc' = IF Isolated THEN pc ELSE "dead"
     ELSE todo' = todo \cup {[i |-> Item(f, c), ok |-> c.ok] : c \in f.chans}
          /\ UNCHANGED pc
  /\ UNCHANGED <<F, req, res, runs, count>>
Listed ==
  /\ pc = "list" /\ list = {} /\ pc' = "work"
  /\ UNCHANGED <<F, req, list, todo, res, runs, count>>
Work(x) ==
  /\ pc = "work" /\ x \in todo
  /\ todo' = todo \ {x}
  /\ count' = (x.i :> (IF x.i \in DOMAIN count THEN count[x.i] + 1 ELSE 1))
                @@ count
  /\ IF x.ok THEN res' = res \cup {x.i} /\ UNCHANGED pc
     ELSE UNCHANGED res /\ pc' = IF Isolated THEN pc ELSE "dead"
  /\ UNCHANGED <<F, req, list, runs>>
Finish ==
  /\ pc = "work" /\ todo = {} /\ pc' = "end"
  /\ UNCHANGED <<F, req, list, todo, res, runs, count>>
Again ==
  /\ pc \in {"end", "dead"} /\ runs = 1 /\ runs' = 2
  /\ pc' = "list" /\ list' = F /\ todo' = {} /\ count' = [x \in {} |-> 0]
  /\ UNCHANGED <<F, req, res>>
Next == (\E f \in F : ListFile(f)) \/ Listed \/ (\E x \in todo : Work(x))
          \/ Finish \/ Again
Spec == Init /\ [][Next]_<<F, req, pc, list, todo, res, runs, count>>
             /\ WF_<<F, req, pc, list, todo, res, runs, count>>(Next)

Exact == pc = "end" => res = Good(F, N, req)
Never == res \subseteq Good(F, N, req)
Once == \A i \in DOMAIN count : count[i] = 1
All == pc = "end" => DOMAIN count = Items(F, N, req)
Alive == pc # "dead"
Ends == <>(pc = "end" /\ res = Good(F, N, req))

(* the grid *)
GridOK ==
  \A s \in 0..3, d \in 1..7, i \in 1..4, n \in 1..3 :
    LET G == Grid(s, s + d, i, n) IN
      /\ \A k \in DOMAIN G : G[k][1] >= s /\ G[k][1] < s + d
                             /\ G[k][2] = G[k][1] + n
      /\ \A x \in s..(s + d - 1) :
           (x - s) % i = 0 <=> \E k \in DOMAIN G : G[k][1] = x
=============================================================================
