----------------------------- MODULE InversionMC -----------------------------
(***************************************************************************)
(* A grid in use: inversions of sets of curves with several lapse windows     *)
(* fill the store of kernels; curves are aligned to the forward model at      *)
(* several times. ByPair: kernels are stored without their lapse time; Zip:    *)
(* curves without value at the time are dropped from the forward model only;  *)
(* Falsy: a curve aligned to 0 does not count as aligned (all refuted).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NCurves, Pairs, Lapses, Epochs, Calls, ByPair, Zip, Falsy
VARIABLES pair, usable, starts, zero, store, used, model, aligned, calls

vars == <<pair, usable, starts, zero, store, used, model, aligned, calls>>
Curves == 1..NCurves
None == <<>>
Kernel(p, t) == <<p, t>>
Key(p, t) == IF ByPair THEN p ELSE <<p, t>>

Init == /\ pair \in [Curves -> Pairs]
        /\ usable \in [Curves -> SUBSET Epochs]
        /\ starts \in [Curves -> SUBSET Epochs]
        /\ zero \in {{}, {1}}
        /\ store = <<>>
        /\ used = {}
        /\ model = None
        /\ aligned = [c \in Curves |-> <<>>]
        /\ calls = 0

RECURSIVE Pick(_, _)
Pick(s, k) == IF k > NCurves THEN <<>>
              ELSE (IF k \in s THEN <<k>> ELSE <<>>) \o Pick(s, k + 1)
Stored(k) == \E i \in 1..Len(store) : store[i][1] = k
Get(k) == store[CHOOSE i \in 1..Len(store) : store[i][1] = k][2]
Give(p, t) == IF Stored(Key(p, t)) THEN Get(Key(p, t)) ELSE Kernel(p, t)
RECURSIVE Extend(_, _, _, _)
Extend(st, cs, t, i) ==
  IF i > Len(cs) THEN st
  ELSE LET p == pair[cs[i]]
           k == Key(p, t)
       IN Extend(IF \E j \in 1..Len(st) : st[j][1] = k THEN st
                 ELSE Append(st, <<k, Kernel(p, t)>>), cs, t, i + 1)
(* kernels for a sequence of curves at a lapse time                          *)
Kernels(cs, t) == /\ store' = Extend(store, cs, t, 1)
                  /\ used' = {<<pair[cs[i]], t, Give(pair[cs[i]], t)>> :
                                i \in 1..Len(cs)}

Invert(s, u, t) ==
  LET cs == Pick({c \in s : u \in usable[c]}, 1) IN
  /\ calls < Calls /\ cs # <<>>
  /\ Kernels(cs, t)
  /\ model' = <<u, t>>
  /\ calls' = calls + 1
  /\ UNCHANGED <<pair, usable, starts, zero, aligned>>

Done(c) == IF Falsy THEN aligned[c] # <<>> /\ aligned[c][Len(aligned[c])][2] # <<0, 0>>
           ELSE aligned[c] # <<>>
Value(k) == IF model = None \/ k[1] \in zero THEN <<0, 0>> ELSE k
Align(u, t) ==
  LET todo == Pick({c \in Curves : ~Done(c) /\ u \in starts[c]}, 1)
      have == Pick({c \in Curves : ~Done(c) /\ u \in starts[c]
                                   /\ u \in usable[c]}, 1)
      cs == IF model = None THEN todo ELSE have
      sh == [i \in 1..Len(cs) |-> Value(Give(pair[cs[i]], t))]
      to == IF Zip /\ model # None THEN todo ELSE cs
      n == IF Len(to) < Len(sh) THEN Len(to) ELSE Len(sh)
  IN /\ calls < Calls /\ cs # <<>>
     /\ IF model = None THEN UNCHANGED <<store, used>> ELSE Kernels(cs, t)
     /\ aligned' = [c \in Curves |->
          IF \E i \in 1..n : to[i] = c
          THEN Append(aligned[c], <<u, sh[CHOOSE i \in 1..n : to[i] = c],
                                    IF model = None THEN 0 ELSE t>>)
          ELSE aligned[c]]
     /\ calls' = calls + 1
     /\ UNCHANGED <<pair, usable, starts, zero, model>>

Next == \/ \E s \in SUBSET Curves, u \in Epochs, t \in Lapses : Invert(s, u, t)
        \/ \E u \in Epochs, t \in Lapses : Align(u, t)
Spec == Init /\ [][Next]_vars

(* kernels are those of the pair and lapse time asked for                      *)
Own == \A x \in used : x[3] = Kernel(x[1], x[2])
(* a curve is aligned at most once                                           *)
Once == \A c \in Curves : Len(aligned[c]) <= 1
(* to the value of its own pair, at a time it has a value (if there is a grid)  *)
Shift == \A c \in Curves : \A i \in 1..Len(aligned[c]) :
  LET a == aligned[c][i] IN
  IF a[3] = 0 THEN a[2] = <<0, 0>>
  ELSE /\ a[2] = (IF pair[c] \in zero THEN <<0, 0>> ELSE Kernel(pair[c], a[3]))
       /\ a[1] \in usable[c]
(* the store only grows and never changes                                    *)
Kept == [][\A i \in 1..Len(store) : store'[i] = store[i]]_vars
=============================================================================
