---------------------------- MODULE MirrorTrace ----------------------------
(* Correlation traces built by the code, against Mirror.                   *)
EXTENDS Mirror, TraceUtil
VARIABLE l

Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y) == Abs(x - y) <= 1
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

(* e: x, y (ids), lx, ly (locations), dt in us, k0, v, px, py (coordinates *)
(* <<lat, lon, elev>> or <<>>), tx, ty (<<start, end>>); g: what was built *)
TBuilt(e) ==
  LET r == Stored(e.x, e.y, e.k0, e.v)
      sw == Swapped(e.x, e.y)
      P == IF sw THEN <<e.py, e.px>> ELSE <<e.px, e.py>>
      L == IF sw THEN <<e.ly, e.lx>> ELSE <<e.lx, e.ly>>
      g == e.g
  IN /\ Chk(g.id = <<r.a, r.b>>, l, "Name", g.id)
     /\ Chk(g.loc = Join(L[1], L[2]), l, "Location", g.loc)
     /\ Chk(g.v = r.v, l, "Samples", [got |-> g.v, want |-> r.v])
     /\ Chk(g.npts = Len(r.v), l, "Npts", g.npts)
     /\ Chk(Near(g.lag0, r.k0 * e.dt), l, "StartLag",
            [got |-> g.lag0, want |-> r.k0 * e.dt])
     /\ Chk(Near(g.lag1, (r.k0 + Len(r.v) - 1) * e.dt), l, "EndLag",
            [got |-> g.lag1, want |-> (r.k0 + Len(r.v) - 1) * e.dt])
     /\ Chk(\A i \in 1..Len(r.v) : Near(g.times[i], (r.k0 + i - 1) * e.dt),
            l, "LagAxis", g.times)
     /\ Chk(g.start = Mx(e.tx[1], e.ty[1]), l, "CorrStart", g.start)
     /\ Chk(g.end = Mn(e.tx[2], e.ty[2]), l, "CorrEnd", g.end)
     /\ IF P[1] = <<>> THEN TRUE
        ELSE /\ Chk(g.p = P, l, "Coordinates", [got |-> g.p, want |-> P])
             (* all stations are on one meridian *)
             /\ IF P[1][1] = P[2][1] THEN Chk(g.dist = 0, l, "Distance", g.dist)
                ELSE LET north == P[2][1] > P[1][1]
                     IN /\ Chk(g.az = IF north THEN 0 ELSE 180, l,
                               "Azimuth", [got |-> g.az, p |-> P])
                        /\ Chk(g.baz = IF north THEN 180 ELSE 0, l,
                               "BackAzimuth", [got |-> g.baz, p |-> P])
                        /\ Chk(g.dist > 0, l, "Distance", g.dist)

(* names: the canonical pair according to several stages *)
TStages(e) ==
  LET p == Canon(e.x, e.y)
  IN \A i \in 1..Len(e.names) :
       Chk(e.names[i].id = p, l, "Stage:" \o e.names[i].who, e.names[i].id)

(* retrieval: what was stored is found under either order, with its lags *)
TFetch(e) ==
  LET r == Stored(e.x, e.y, e.k0, e.v)
  IN \A i \in 1..Len(e.got) :
      LET g == e.got[i]
      IN /\ Chk(g.n = 1, l, "Fetch:count", [g |-> g])
         /\ IF g.n # 1 THEN TRUE
            ELSE /\ Chk(g.v = r.v, l, "Fetch:samples", [g |-> g])
                 /\ Chk(Near(g.lag0, r.k0 * e.dt), l, "Fetch:lag", [g |-> g])
                 /\ Chk(g.id = <<r.a, r.b>>, l, "Fetch:name", [g |-> g])

(* a run of the correlator with two stations: y records delay us after x.  *)
(* Twice, with the station codes exchanged. one/two: [id, lag0, lag1, n,   *)
(* dt, peak, v], v in parts of 10000 of the largest sample                  *)
TRun(e) ==
  LET w(g, d) ==
        /\ Chk(g.id = Canon(e.x, e.y), l, "Run:name", g.id)
        /\ Chk(Abs(g.peak - d) <= e.tol, l, "Run:delay",
               [got |-> g.peak, want |-> d])
        /\ Chk(Near(g.lag1, g.lag0 + (g.n - 1) * g.dt), l, "Run:lags",
               [lag0 |-> g.lag0, lag1 |-> g.lag1, n |-> g.n])
        /\ Chk(g.n = Len(g.v), l, "Run:npts", g.n)
      d == IF Swapped(e.x, e.y) THEN -e.delay ELSE e.delay
  IN IF Len(e.one) # Len(e.two) \/ e.one = <<>>
     THEN Chk(FALSE, l, "Run:count", [a |-> Len(e.one), b |-> Len(e.two)])
     ELSE \A i \in 1..Len(e.one) :
       LET p == e.one[i]
           q == e.two[i]
       IN /\ w(p, d)
          /\ w(q, -d)
          /\ Chk(Near(q.lag0, -p.lag1) /\ Near(q.lag1, -p.lag0), l,
                 "Run:mirrored lags", [p |-> p.lag0, q |-> q.lag1])
          /\ Chk(Len(p.v) = Len(q.v) /\
                 \A k \in 1..Len(p.v) :
                    Abs(p.v[k] - q.v[Len(p.v) + 1 - k]) <= e.vtol,
                 l, "Run:mirrored samples", [i |-> i])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> TRUE
         [] e.ev = "Built" -> TBuilt(e)
         [] e.ev = "Stages" -> TStages(e)
         [] e.ev = "Fetch" -> TFetch(e)
         [] e.ev = "Run" -> TRun(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
