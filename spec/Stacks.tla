------------------------------- MODULE Stacks -------------------------------
(***************************************************************************)
(* Selecting and stacking correlations.  A correlation is a record         *)
(*   [tok, id, loc, cs, ce, v]                                             *)
(* tok: its token, id: <<network, station, channel>>, cs/ce: start and end *)
(* in tenths of seconds since a midnight, v: samples (NaN: no data).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

NaN == 99999
Day == 864000
(* duration in units of the weights (100 s)                                *)
Unit == 1000

Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(* -- selections --------------------------------------------------------- *)
InWindow(t, s, e, partial) ==
  IF partial THEN s < t.ce /\ t.ce <= e ELSE s <= t.cs /\ t.ce <= e
SelectCorr(T, s, e, partial) == {t \in T : InWindow(t, s, e, partial)}

(* inside of the daily period from s to e (times of day), not across       *)
(* midnight; an end at midnight is 0 o'clock                               *)
InTod(t, s, e) ==
  /\ (t.cs % Day) >= s
  /\ (t.ce % Day) <= e
  /\ t.ce <= ((t.cs \div Day) + 1) * Day
SelectTod(T, s, e, exclude) == {t \in T : InTod(t, s, e) # exclude}

Pop(T, U) == {t \in T : ~ \E u \in U : t.cs < u /\ u < t.ce}

(* -- windows ------------------------------------------------------------ *)
WinStarts(s, e, step) == [i \in 1..(IF e > s THEN CeilDiv(e - s, step) ELSE 0)
                            |-> s + (i - 1) * step]
Slide(T, len, step, partial, s, e) ==
  LET w == WinStarts(s, e, step)
  IN SelectSeq([i \in 1..Len(w) |-> SelectCorr(T, w[i], w[i] + len, partial)],
               LAMBDA x : x # {})
Earliest(T) == Min({t.cs : t \in T})
Latest(T) == Max({t.ce : t \in T})

(* -- stacks ------------------------------------------------------------- *)
KeyOf(t, regard) == IF regard THEN <<t.id, t.loc>> ELSE <<t.id>>
Groups(T, regard) ==
  {{t \in T : KeyOf(t, regard) = k} : k \in {KeyOf(t, regard) : t \in T}}

(* the windows of a stack with length len (0: all in one)                  *)
StackGroups(T, len, daily, s, e, regard) ==
  IF len = 0 THEN Groups(T, regard)
  ELSE LET s0 == IF daily THEN (s \div Day) * Day ELSE s
           W == {SelectCorr(T, x, x + len, TRUE) :
                   x \in {WinStarts(s0, e, len)[i] :
                            i \in DOMAIN WinStarts(s0, e, len)}}
       IN UNION {Groups(w, regard) : w \in W}

Weight(t, weight) == IF weight = "by_length" THEN (t.ce - t.cs) \div Unit ELSE 1
(* sample i of the stack of G: sums of weighted samples and of weights     *)
SumW(G, i, weight) ==
  MapThenSumSet(LAMBDA t : Weight(t, weight), {t \in G : t.v[i] # NaN})
SumV(G, i, weight) ==
  MapThenSumSet(LAMBDA t : Weight(t, weight) * t.v[i],
                {t \in G : t.v[i] # NaN})
=============================================================================
