----------------------------- MODULE CoherenceMC -----------------------------
(***************************************************************************)
(* The bulk computation: each process computes the coherences of its         *)
(* combinations (all windows, any of which may fail), all of them are         *)
(* gathered, and each process averages and writes its share of the groups.   *)
(* A group consists of the components of a pair with the same window.         *)
(* Midpoint: windows told apart by their midpoint; FirstKeys: only references *)
(* of the first member (both refuted).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NRanks, Pairs, Chans, Wins, MaxRefs, Midpoint, FirstKeys
VARIABLES refs, queue, ok, phase, groups, file, count

vars == <<refs, queue, ok, phase, groups, file, count>>

R == 1..NRanks
Combis == Pairs \X Chans
None == {}
RECURSIVE Seqs(_)
Seqs(s) == IF s = {} THEN <<>>
           ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Seqs(s \ {x})
Share(q, r) == LET n == Len(q)
                   RECURSIVE G(_)
                   G(i) == IF i > n THEN <<>>
                           ELSE (IF ((i - 1) * NRanks) \div n = r - 1
                                 THEN <<q[i]>> ELSE <<>>) \o G(i + 1)
               IN G(1)
Robin(q, r) == LET RECURSIVE G(_)
                   G(i) == IF i > Len(q) THEN <<>> ELSE <<q[i]>> \o G(i + NRanks)
               IN G(r)
(* windows: 10 * start + length                                              *)
Key(w) == IF Midpoint THEN 2 * (w \div 10) + (w % 10) ELSE w
Group(m) == <<m[1][1], Key(m[2])>>

Init == /\ refs \in [Combis -> 1..MaxRefs]
        /\ queue = [r \in R |-> Share(Seqs(Combis), r)]
        /\ ok = [r \in R |-> <<>>]
        /\ phase = "compute"
        /\ groups = [r \in R |-> <<>>]
        /\ file = {}
        /\ count = 0
(* the windows that can be computed (the others are logged)                   *)
Compute(r) ==
  /\ phase = "compute" /\ queue[r] # <<>>
  /\ \E good \in SUBSET Wins :
       ok' = [ok EXCEPT ![r] = @ \o Seqs({<<Head(queue[r]), w>> : w \in good})]
  /\ queue' = [queue EXCEPT ![r] = Tail(@)]
  /\ UNCHANGED <<refs, phase, groups, file, count>>
RECURSIVE Concat(_)
Concat(r) == IF r = 0 THEN <<>> ELSE Concat(r - 1) \o ok[r]
All == Concat(NRanks)
Members == {All[i] : i \in 1..Len(All)}
Gather ==
  /\ phase = "compute" /\ \A r \in R : queue[r] = <<>>
  /\ phase' = "write"
  /\ LET g == Seqs({Group(m) : m \in Members})
     IN groups' = [r \in R |-> Robin(g, r)]
  /\ UNCHANGED <<refs, queue, ok, file, count>>
Content(g) ==
  LET ms == {m \in Members : Group(m) = g}
      fst == All[CHOOSE i \in 1..Len(All) :
                   /\ All[i] \in ms
                   /\ \A j \in 1..(i - 1) : All[j] \notin ms]
      keys == IF FirstKeys THEN 1..refs[fst[1]]
              ELSE UNION {1..refs[m[1]] : m \in ms}
  IN [group |-> g, keys |-> [k \in keys |-> {m \in ms : k <= refs[m[1]]}]]
Write(r) ==
  /\ phase = "write" /\ groups[r] # <<>>
  /\ file' = file \cup {Content(Head(groups[r]))}
  /\ groups' = [groups EXCEPT ![r] = Tail(@)]
  /\ count' = count + 1
  /\ UNCHANGED <<refs, queue, ok, phase>>
Next == Gather \/ \E r \in R : Compute(r) \/ Write(r)
Spec == Init /\ [][Next]_vars

Finished == phase = "write" /\ \A r \in R : groups[r] = <<>>
(* every member that was computed is in the average of its pair and window,   *)
(* with each of its references, and only there                               *)
EachOnce == Finished => \A m \in Members : \A k \in 1..refs[m[1]] :
  Cardinality({f \in file : k \in DOMAIN f.keys /\ m \in f.keys[k]}) = 1
(* an average is of one pair and window                                      *)
Alike == \A f \in file : \A k \in DOMAIN f.keys :
  Cardinality({<<m[1][1], m[2]>> : m \in f.keys[k]}) = 1
(* nothing is written twice                                                  *)
Once == count = Cardinality(file)
(* failing windows do not concern others                                      *)
Complete == Finished => {<<m[1][1], m[2]>> : m \in Members} =
  {<<m[1][1], m[2]>> : m \in UNION {f.keys[1] : f \in file}}
=============================================================================
