---------------------------- MODULE HeaderTrace ----------------------------
(* Histories of assignments on real headers; after each event all slots    *)
(* are observed.  The state follows the observation after a report.        *)
EXTENDS Header, TraceUtil
VARIABLES l, hs

Abs(x) == IF x < 0 THEN -x ELSE x
(* an observation o: the fields and the derived ones *)
Extra(x) == {<<p[1], p[2]>> : p \in Range(x)}
Hdr(o) == [dt |-> o.dt, lag0 |-> o.lag0, npts |-> o.npts, cs |-> o.cs,
           ce |-> o.ce, net |-> o.net, sta |-> o.sta, loc |-> o.loc,
           cha |-> o.cha, extra |-> Extra(o.extra)]
ObsAll(e) == [i \in 1..Len(e.obs) |-> Hdr(e.obs[i])]

(* rate * dt = 1 s; rates are observed in millionths of Hz *)
Derived(o) ==
  /\ Chk(IF o.dt = 0 THEN o.rate = 0
         ELSE /\ o.rate > 0
              /\ Abs(o.rateXdt - 1000000) <= 1,
         l, "rate", [o |-> o])
  /\ Chk(Abs(o.lag1 - EndLag(Hdr(o))) <= 1, l, "end_lag",
         [got |-> o.lag1, want |-> EndLag(Hdr(o))])
  /\ Chk(o.start = o.cs, l, "starttime", [o |-> o])
  /\ Chk(o.end = o.ce, l, "endtime", [o |-> o])
  /\ Chk(o.asitem, l, "item and attribute", [o |-> o])
  /\ Chk(o.idok, l, "id", [o |-> o])

New(e) ==
  CASE e.ev = "Set" ->
         IF e.f \in ReadOnly \/ e.bad THEN hs
         ELSE [hs EXCEPT ![e.s] = Assign(@, e.f, e.v)]
    [] e.ev = "Update" -> [hs EXCEPT ![e.s] = AssignAll(@, e.ops)]
    [] e.ev = "Make" -> [hs EXCEPT ![e.s] = AssignAll(Default, e.ops)]
    [] e.ev = "Copy" -> [hs EXCEPT ![e.t] = hs[e.s]]
    [] e.ev = "Nothing" -> hs

TOp(e) ==
  LET want == New(e)
      got == ObsAll(e)
      refused == e.ev = "Set" /\ (e.f \in ReadOnly \/ e.bad)
  IN /\ Chk(e.ok = ~refused, l, "accepted", [ok |-> e.ok, f |-> e])
     /\ \A i \in 1..Len(got) :
          Chk(got[i] = want[i], l, "fields",
              [slot |-> i, got |-> got[i], want |-> want[i]])
     /\ \A i \in 1..Len(got) : Derived(e.obs[i])
     /\ hs' = got

TraceInit == l = 1 /\ hs = <<>>
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace)) /\ hs' = hs
     ELSE LET e == Trace[l] IN
       IF e.ev = "Reset" THEN hs' = [i \in 1..e.n |-> Default]
       ELSE TOp(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, hs>>
=============================================================================
