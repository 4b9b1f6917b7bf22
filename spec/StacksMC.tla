------------------------------ MODULE StacksMC ------------------------------
(* Correlations arrive one by one; the stacks of any collection partition  *)
(* the correlations that end after the start of the stacking.              *)
EXTENDS Stacks, TLC
CONSTANTS Times, Ids, Locs, MaxLen, N
VARIABLE T
All == {t \in [id : Ids, loc : Locs, cs : Times, ce : Times] :
          t.ce > t.cs /\ t.ce - t.cs <= MaxLen}
Init == T = {}
Next == Cardinality(T) < N /\ \E t \in All : T' = T \cup {t}
Spec == Init /\ [][Next]_T
Partition ==
  T # {} =>
    \A regard \in BOOLEAN, len \in {0, MaxLen, MaxLen + 1}, s \in Times :
      LET s0 == IF len = 0 THEN Earliest(T) ELSE s
          G == StackGroups(T, len, FALSE, s0, Latest(T), regard)
          M == {t \in T : len = 0 \/ t.ce > s0}
      IN /\ \A t \in M : Cardinality({g \in G : t \in g}) = 1
         /\ UNION G = M
         /\ \A g \in G : \A t, u \in g : KeyOf(t, regard) = KeyOf(u, regard)
         /\ \A g \in G : len # 0 => Max({t.ce : t \in g}) - Min({t.ce : t \in g}) < len
(* slid windows with overlap: everything is in some window *)
Covered ==
  T # {} => \A step \in 1..MaxLen :
     UNION {Slide(T, MaxLen, step, TRUE, Earliest(T), Latest(T))[i] :
              i \in DOMAIN Slide(T, MaxLen, step, TRUE, Earliest(T), Latest(T))}
       = T
=============================================================================
