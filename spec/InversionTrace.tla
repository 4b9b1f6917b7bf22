---------------------------- MODULE InversionTrace ----------------------------
(* Recorded use of a grid: values in 1/1000000, kernels in 1/10000.          *)
EXTENDS Inversion, TraceUtil
VARIABLES l, seen                   \* the stations of the grid

Set(s) == {s[i] : i \in 1..Len(s)}
Tw(e) == IF e.argtw # <<>> THEN e.argtw ELSE e.own.tw
Freq(e, k) == IF e.argf[k] # 0 THEN e.argf[k]
              ELSE IF e.own.f = <<>> THEN 0 ELSE e.own.f[k]
Kern(e) == IF e.argtw # <<>> THEN e.kernarg ELSE e.kernown
Enough(e) == Tw(e) # <<>> /\ Freq(e, 1) # 0 /\ Freq(e, 2) # 0
Rows(e, cs) == [i \in 1..Len(cs) |-> Kern(e)[e.curves[cs[i]].pair]]
Data(e, cs) == [i \in 1..Len(cs) |->
                  LET c == e.curves[cs[i]] IN c.vals[Nearest(c, e.utc)]]
Weights(e, cs) ==
  LET q == Quality(e.s2, Tw(e)[1], Tw(e)[2], Freq(e, 1), Freq(e, 2))
  IN [i \in 1..Len(cs) |->
        LET c == e.curves[cs[i]] IN Weight(q, c.corr[Nearest(c, e.utc)])]
Zeros(n) == [k \in 1..n |-> 0]
Stations(e, cs) == UNION {{e.pairs[e.curves[cs[i]].pair][1],
                           e.pairs[e.curves[cs[i]].pair][2]} : i \in 1..Len(cs)}

Fails(e, err) == Chk(~e.ok /\ e.err = err, l, "Invert:" \o e.what \o ":" \o err,
                     [ok |-> e.ok, err |-> e.err])
Invert(cs) == LET e == Trace[l]
              IN
  IF cs = <<>> THEN Fails(e, "IndexError")
  ELSE IF ~Enough(e) THEN Fails(e, "AttributeError")
  ELSE
  /\ Chk(e.ok, l, "Invert:" \o e.what \o ":failed", [err |-> e.err])
  /\ e.ok =>
     LET G == Rows(e, cs)
         n == Len(G[1])
         p == Len(cs)
         q == Weights(e, cs)
     IN
     /\ CASE e.what = "grid" ->
               Chk(Len(e.out) = n /\
                   Solved(e.out, Data(e, cs), q, G, e.E, e.nx, Zeros(n)), l,
                   "Invert:grid", [m |-> e.out, d |-> Data(e, cs), q |-> q])
          [] e.what = "resolution" ->
               Chk(Len(e.out) = n /\
                   Solved(e.out, [i \in 1..p |-> RowSum(G[i])], q, G, e.E,
                          e.nx, Zeros(n)), l,
                   "Invert:resolution", [m |-> e.out, q |-> q])
          [] e.what = "covariance" ->
               /\ Chk(\A c \in Set(e.cols) :
                        Len(c.x) = n /\
                        Solved(c.x, Zeros(p), q, G, e.E, e.nx,
                               [j \in 1..n |-> e.E[Dist(j, c.k, e.nx) + 1]]),
                      l, "Invert:covariance", [c |-> e.cols, q |-> q])
               /\ Chk(e.symmetric, l, "Invert:covariance not symmetric",
                      [n |-> n])
          [] e.what = "tsvd" ->
               (* in the directions with a large singular value the data are   *)
               (* met, in the others they are not                              *)
               LET gm == [i \in 1..p |-> Forward(G[i], e.out)]
                   d == Data(e, cs)
                   tol == 5 + n + Sums(e.out) \div 10000 + Sums(d) \div 1000
               IN Chk(/\ Len(e.out) = n
                      /\ \A k \in 1..Len(e.u) :
                           LET um == Sum([i \in 1..p |-> Mul(gm[i], e.u[k][i])])
                               ud == Sum([i \in 1..p |-> Mul(d[i], e.u[k][i])])
                           IN Abs(um - (IF 1000 * e.s[k] >= e.cutoff * e.s[1]
                                        THEN ud ELSE 0)) <= p * tol
                      (* and nothing that the curves do not see                *)
                      /\ \A k \in 1..n :
                           Abs(e.out[k] - Sum([i \in 1..p |-> Mul(e.w[i], G[i][k])]))
                             <= 5 + p + Sums(e.w) \div 10000, l,
                      "Invert:tsvd", [m |-> e.out, d |-> d])
          [] OTHER -> TRUE
     /\ (e.what = "grid" /\ e.res # <<>>) =>
          Chk(Solved(e.res, [i \in 1..p |-> RowSum(G[i])], q, G, e.E, e.nx,
                     Zeros(n)), l, "Invert:joint resolution", [r |-> e.res])
     /\ Chk(e.kept, l, "Invert:" \o e.what \o ":not kept in the grid",
            [n |-> 0])
     /\ Chk(e.same, l, "Invert:" \o e.what \o ":curves changed", [n |-> 0])

(* from: stations or curves                                                  *)
ForwardOk(e, G) ==
  /\ Len(e.out) = Len(G)
  /\ \A i \in 1..Len(G) :
       Abs(e.out[i] - Forward(G[i], e.m)) <= 3 + Len(e.m) + Sums(e.m) \div 10000
Forwards(cs) == LET e == Trace[l] IN
  IF e.shape \/ (~e.stations /\ ~e.dvs)
  THEN Chk(~e.ok, l, "Forward:not refused", [shape |-> e.shape])
  ELSE IF e.stations
  THEN Chk(e.ok /\ ForwardOk(e, [i \in 1..Len(e.which) |->
                                   e.kernarg[e.which[i]]]), l,
           "Forward:stations", [out |-> e.out, err |-> e.err])
  ELSE IF cs = <<>>
  THEN Chk(~e.ok /\ e.err = "IndexError", l, "Forward:no curves",
           [ok |-> e.ok, err |-> e.err])
  ELSE IF Tw(e) = <<>>
  THEN Chk(~e.ok /\ e.err = "TypeError", l, "Forward:no window",
           [ok |-> e.ok, err |-> e.err])
  ELSE Chk(e.ok /\ ForwardOk(e, Rows(e, cs)), l, "Forward:curves",
           [out |-> e.out, err |-> e.err])

Align(todo) == LET e == Trace[l]
                   ready == {k \in todo : Enters(e.curves[k], e.utc)}
                   on == IF e.model = <<>> THEN todo ELSE ready
                   lost == e.model # <<>> /\ ready # {} /\ e.own.tw = <<>>
                   val(k) == IF e.model = <<>> THEN 0
                             ELSE Forward(e.kernown[e.curves[k].pair], e.model)
                   tol == IF e.model = <<>> THEN 3
                          ELSE 5 + Len(e.model) + Sums(e.model) \div 10000
                   now == IF lost THEN {} ELSE on
  IN /\ Chk(e.ok = ~lost, l, "Align:failed", [err |-> e.err])
     /\ e.ok => Chk(Set(e.ret) = now /\ Len(e.ret) = Cardinality(now), l,
                    "Align:returned",
                    [want |-> now, got |-> e.ret])
     /\ \A k \in 1..Len(e.curves) :
          LET c == e.curves[k]
              a == e.after[k]
          IN IF k \notin now
             THEN Chk(a.vals = c.vals /\ a.corr = c.corr /\
                      a.aligned = c.aligned /\ a.flag = c.flag, l,
                      "Align:other curve changed", [k |-> k])
             ELSE LET s == Around(c, e.utc, e.steps) IN
                  /\ Chk(a.aligned /\ Abs(a.flag - val(k)) <= tol, l,
                         "Align:mark", [k |-> k, flag |-> a.flag, v |-> val(k)])
                  /\ Chk(a.corr = c.corr /\ Len(a.vals) = Len(c.vals) /\
                         (s # M => \A i \in 1..Len(c.vals) :
                            IF c.vals[i] = M THEN a.vals[i] = M
                            ELSE Abs(a.vals[i] - (c.vals[i] - s + val(k)))
                                   <= tol), l,
                         "Align:curve", [k |-> k, was |-> c.vals,
                                         now |-> a.vals, s |-> s, v |-> val(k)])
     /\ e.save /\ e.ok =>
          Chk({f.k : f \in Set(e.files)} = now /\
              \A f \in Set(e.files) :
                f.vals = e.after[f.k].vals /\ f.flag = e.after[f.k].flag,
              l, "Align:saved", [files |-> e.files])

(* -- kernels: K in 1/100000 of the greatest value, variants of the geometry --- *)
Flip(K, nx, ny, how) ==
  CASE how \in {"swap", "shift", "same"} -> K
    [] how = "mirror" ->
         [k \in 1..(nx * ny) |->
            K[((k - 1) \div nx) * nx + nx - ((k - 1) % nx)]]
    [] how = "transpose" ->              \* of a grid of ny columns, nx rows
         [k \in 1..(nx * ny) |->
            K[((k - 1) % nx) * ny + ((k - 1) \div nx) + 1]]
(* squared distances to both stations, length c of the way (same units)        *)
Within(n1, n2, c) == LET r == c * c - n1 - n2
                     IN c > 0 /\ r > 0 /\ 4 * n1 * n2 < r * r
Kernel == LET e == Trace[l]
              n == e.nx * e.ny
              Sq(k, s) == LET x == ((k - 1) % e.nx) * e.step - s[1]
                              y == ((k - 1) \div e.nx) * e.step - s[2]
                          IN x * x + y * y
              s12 == LET x == e.s1[1] - e.s2[1]
                         y == e.s1[2] - e.s2[2] IN x * x + y * y
  IN /\ Chk(e.ok, l, "Kernel:failed", [err |-> e.err])
     /\ e.ok =>
        /\ Chk(Len(e.K) = n /\ \A k \in 1..n : e.K[k] >= 0, l, "Kernel:negative",
               [K |-> e.K])
        (* nothing beyond the ellipse, something within                          *)
        /\ Chk(\A k \in 1..n :
                 (e.K[k] > 0) => Within(Sq(k, e.s1), Sq(k, e.s2), e.way + e.slack),
               l, "Kernel:outside", [K |-> e.K, s1 |-> e.s1, s2 |-> e.s2])
        /\ Chk((s12 < (e.way - e.slack) * (e.way - e.slack) /\ e.way > e.slack) =>
               \A k \in 1..n :
                 Within(Sq(k, e.s1), Sq(k, e.s2), e.way - e.slack) => e.pos[k],
               l, "Kernel:inside", [K |-> e.K, s1 |-> e.s1, s2 |-> e.s2])
        /\ Chk((s12 > (e.way + e.slack) * (e.way + e.slack)) =>
               \A k \in 1..n : e.K[k] = 0, l, "Kernel:not arrived", [K |-> e.K])
        /\ \A v \in Set(e.variants) :
             LET F == Flip(v.K, e.nx, e.ny, v.how) IN
             Chk(Len(v.K) = n /\ \A k \in 1..n : Abs(e.K[k] - F[k]) <= 3, l,
                 "Kernel:" \o v.how, [K |-> e.K, v |-> v.K])
        (* the integral of the product over the way, over the whole             *)
        /\ \A c \in Set(e.cells) :
             LET m == Len(c.p1)
                 t == [i \in 1..m |-> IF i \in {1, m}
                         THEN Round(c.p1[i] * c.p2[i], 20000)
                         ELSE Round(c.p1[i] * c.p2[i], 10000)]
             IN Chk(Abs(c.got - Sum(t)) <= 2 * m + Sum(t) \div 300, l,
                    "Kernel:integral", [got |-> c.got, want |-> Sum(t)])

(* -- the probability (log of 2 pi p, 1/100000); sides of right triangles -------- *)
Probability == LET e == Trace[l] IN
  Chk(CASE e.r > e.d /\ e.s > 0 -> e.log # M /\
             Abs(e.log - (Round(100000 * (e.s - e.r), e.mfp)
                          - e.lnmfp - e.lns)) <= 3
        [] e.d = e.r /\ e.d > 0 -> e.log # M /\
             Abs(e.log - (Round(-100000 * e.d, e.mfp) - e.lnd)) <= 3
        [] e.d > e.r -> e.log = M
        [] OTHER -> TRUE, l, "Probability", [log |-> e.log, r |-> e.r, d |-> e.d])

(* -- local coordinates in m, degrees in 1/10000 ---------------------------------- *)
Geo == LET e == Trace[l]
           out == \E i \in 1..Len(e.lat) : e.lat[i] < 0 \/ e.lon[i] < 0
       IN IF out THEN Chk(~e.ok /\ e.err = "ValueError", l, "Geo:not refused",
                          [lat |-> e.lat, lon |-> e.lon])
          ELSE /\ Chk(e.ok, l, "Geo:failed", [err |-> e.err])
               /\ e.ok => Chk(\A i \in 1..Len(e.lat) :
                    /\ Abs(e.y[i] - Round(e.lat[i] * 111195, 10000)) <= 1
                    /\ Abs(e.x[i] - Round(e.lon[i] * 111195,
                                          10000 * e.shrink)) <= 1,
                    l, "Geo:position", [x |-> e.x, y |-> e.y])
Refused == LET e == Trace[l] IN
  Chk(e.ok = e.valid, l, "Refused:" \o e.what, [ok |-> e.ok])

(* the stations of the curves that entered, each once, with its position        *)
Known == LET e == Trace[l]
             k == Set(e.stat)
         IN Chk({s.id : s \in k} = seen' /\ Len(e.stat) = Cardinality(seen')
                /\ \A s \in k : s.right, l, "Stations",
                [want |-> seen', got |-> e.stat])

TraceInit == l = 1 /\ seen = {}
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace)) /\ seen' = {}
     ELSE LET e == Trace[l]
              cs == IF e.ev \in {"Invert", "Forward"}
                    THEN Entering(e.curves, e.utc) ELSE <<>>
              todo == IF e.ev # "Align" THEN {}
                      ELSE {k \in 1..Len(e.curves) :
                              /\ ~e.curves[k].aligned
                              /\ Begins(e.curves[k], e.utc, e.thr)}
          IN
          /\ seen' = CASE e.ev = "Reset" -> {}
                       [] e.ev = "Invert" -> seen \cup Stations(e, cs)
                       [] e.ev = "Forward" ->
                            IF ~e.stations /\ e.dvs /\ ~e.shape
                            THEN seen \cup Stations(e, cs) ELSE seen
                       [] e.ev = "Align" ->
                            IF e.model = <<>> THEN seen
                            ELSE seen \cup UNION {
                              {e.pairs[e.curves[k].pair][1],
                               e.pairs[e.curves[k].pair][2]} :
                              k \in {h \in todo : Enters(e.curves[h], e.utc)}}
                       [] OTHER -> seen
          /\ CASE e.ev = "Reset" -> TRUE
               [] e.ev = "Invert" -> Invert(cs)
               [] e.ev = "Forward" -> Forwards(cs)
               [] e.ev = "Align" -> Align(todo)
               [] e.ev = "Kernel" -> Kernel
               [] e.ev = "Probability" -> Probability
               [] e.ev = "Geo" -> Geo
               [] e.ev = "Refused" -> Refused
          /\ (e.ev \in {"Invert", "Forward", "Align"}) => Known
TraceSpec == TraceInit /\ [][TraceNext]_<<l, seen>>
=============================================================================
