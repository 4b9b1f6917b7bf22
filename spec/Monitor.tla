------------------------------ MODULE Monitor ------------------------------
(***************************************************************************)
(* Monitoring a project.  A correlation file is a record                   *)
(*   [n, s : pairs of codes, bad : unreadable,                             *)
(*    chans : set of [c, t, ok]]                                           *)
(* with t the starts of the correlations of the channel c, and ok whether  *)
(* the velocity change of the channel can be computed.                     *)
(***************************************************************************)
EXTENDS Names, Integers, FiniteSets

(* a request is a sequence of patterns; each code must match one of them   *)
Requested(pair, req) ==
  \A i \in {1, 2} : \E j \in 1..Len(req) : Glob(req[j], pair[i])
Selected(f, net, sta) == Requested(f.n, net) /\ Requested(f.s, sta)
Name(pair) == Join(pair[1], pair[2])

Item(f, ch) == [n |-> Name(f.n), s |-> Name(f.s), c |-> ch.c]
Items(F, net, sta) ==
  UNION {{Item(f, ch) : ch \in f.chans} :
           f \in {g \in F : ~g.bad /\ Selected(g, net, sta)}}
Good(F, net, sta) ==
  UNION {{Item(f, ch) : ch \in {h \in f.chans : h.ok}} :
           f \in {g \in F : ~g.bad /\ Selected(g, net, sta)}}

(* the windows: one per increment, the end exclusive                       *)
NWin(start, end, inc) == (end - start + inc - 1) \div inc
Grid(start, end, inc, len) ==
  [i \in 1..NWin(start, end, inc) |->
     <<start + (i - 1) * inc, start + (i - 1) * inc + len>>]
(* a window has data if a correlation starts in it                         *)
Avail(w, t) == \E x \in t : w[1] <= x /\ x < w[2]
=============================================================================
