---------------------------- MODULE CoherenceTrace ----------------------------
(* Recorded coherences, their averages and groups.                           *)
EXTENDS Coherence, TraceUtil
VARIABLES l

Set(s) == {s[i] : i \in 1..Len(s)}
RowOk(x, y, tol) == /\ Len(x) = Len(y)
                    /\ \A k \in 1..Len(x) : Close(x[k], y[k], tol)

(* e.out: in 1/1000                                                          *)
ExtractOk(e, mat, rows, out) ==
  LET n == Len(mat[1])
      no == [k \in 1..n |-> M]
      sub == IF rows = {} THEN <<>>
             ELSE LET RECURSIVE G(_)
                      G(i) == IF i > Len(mat) THEN <<>>
                              ELSE (IF i \in rows THEN <<mat[i]>> ELSE <<>>)
                                   \o G(i + 1)
                  IN G(1)
      all == 1..Len(sub)
  IN IF rows = {} THEN RowOk(no, out, 0)
     ELSE CASE e.method = "mean" -> RowOk(MeanOver(sub, all), out, 1)
            [] e.method = "median" -> RowOk(MedianOver(sub, all), out, 1)
            [] e.method = "norm_mean" -> RowOk(NormMean(sub, all), out, 2)
            [] e.method = "similarity_percentile" ->
                 \E c \in Chosen(sub, e.perc) :
                   RowOk(IF c = {} THEN no ELSE NormMean(sub, c), out, 2)
Extract == LET e == Trace[l] IN
  /\ Chk(e.ok, l, "Extract:failed", [err |-> e.err])
  /\ Chk(e.same, l, "Extract:input changed", [n |-> 0])
  /\ e.ok =>
     LET w == IF e.incs = <<>> THEN <<>>
              ELSE RefWindows(e.starts, e.ends, e.incs, e.each)
     IN IF e.incs = <<>>
        THEN Chk(Len(e.out) = 1 /\
                 ExtractOk(e, e.mat, 1..Len(e.mat), e.out[1]), l,
                 "Extract:" \o e.method, [out |-> e.out])
        ELSE IF Len(e.out) # Len(w)
        THEN Chk(FALSE, l, "Extract:number", [n |-> Len(e.out), w |-> w])
        ELSE Chk(\A k \in 1..Len(w) :
                   ExtractOk(e, e.mat, InRef(e.starts, e.ends, w[k]), e.out[k]),
                 l, "Extract:windows", [w |-> w, out |-> e.out])

(* obs[reference][window][row]                                               *)
Values(e, idx) ==
  IF Len(e.obs) # Len(e.refs)
  THEN Chk(FALSE, l, e.ev \o ":references", [n |-> Len(e.obs)])
  ELSE \A q \in 1..Len(e.refs) :
    IF Len(e.obs[q]) # Len(idx)
    THEN Chk(FALSE, l, e.ev \o ":windows", [n |-> Len(e.obs[q])])
    ELSE \A w \in 1..Len(idx) :
      IF Len(e.obs[q][w]) # Len(e.mat)
      THEN Chk(FALSE, l, e.ev \o ":rows", [n |-> Len(e.obs[q][w])])
      ELSE \A i \in 1..Len(e.mat) :
        LET o == e.obs[q][w][i]
            gap == \E k \in 1..Len(e.mat[i]) : e.mat[i][k] = M
            v == IF ~e.remove /\ gap THEN M
                 ELSE Sim(e.mat[i], e.refs[q], idx[w])
        IN Chk(IF v = M THEN o = M
               ELSE o # M /\ Abs(Round(o, 1000) - v) <= 2,
               l, e.ev \o ":value", [o |-> o, v |-> v, q |-> q, w |-> w, i |-> i])
Wfc == LET e == Trace[l]
           n == Len(e.mat[1])
       IN IF \E w \in 1..Len(e.tws) : ~Fits(Set(e.tws[w]), e.sides, n)
          THEN Chk(~e.ok, l, "Wfc:window beyond the trace", [obs |-> e.obs])
          ELSE /\ Chk(e.ok, l, "Wfc:failed", [err |-> e.err])
               /\ e.ok =>
                  /\ Values(e, [w \in 1..Len(e.tws) |->
                                  Window(Set(e.tws[w]), e.sides, n)])
                  /\ Chk(e.same, l, "Wfc:input changed", [n |-> 0])

(* vals[reference]: all values; av[reference]; mean                           *)
Average == LET e == Trace[l] IN
  /\ Chk(Len(e.av) = Len(e.vals), l, "Average:references", [n |-> Len(e.av)])
  /\ Len(e.av) = Len(e.vals) =>
     /\ \A q \in 1..Len(e.vals) :
          Chk(Close(MeanValid(e.vals[q]), e.av[q], 2), l, "Average:reference",
              [v |-> e.vals[q], o |-> e.av[q]])
     /\ Chk(Close(MeanValid(e.av), e.mean, 2), l, "Average:mean",
            [v |-> e.av, o |-> e.mean])

(* members: [par, keys, vals]; the average of each key over those having it    *)
AverageOk(ms, out) ==
  LET keys == UNION {Set(ms[j].keys) : j \in 1..Len(ms)}
      Val(r, q) == r.vals[CHOOSE h \in 1..Len(r.keys) : r.keys[h] = q]
      has(q) == {j \in 1..Len(ms) : q \in Set(ms[j].keys)}
  IN /\ Set(out.keys) = keys /\ Len(out.keys) = Cardinality(keys)
     /\ \A q \in keys :
          LET f == CHOOSE j \in has(q) : TRUE
              n == Len(Val(ms[f], q))
              RECURSIVE C(_, _)
              C(i, j) == IF j > Len(ms) THEN <<>>
                         ELSE (IF j \in has(q) THEN <<Val(ms[j], q)[i]>>
                               ELSE <<>>) \o C(i, j + 1)
          IN RowOk([i \in 1..n |-> MeanValid(C(i, 1))], Val(out, q), 2)
Components == LET e == Trace[l] IN
  IF \E j \in 1..Len(e.members) : e.members[j].par # e.members[1].par
  THEN Chk(~e.ok, l, "Components:different windows", [n |-> 0])
  ELSE /\ Chk(e.ok, l, "Components:failed", [err |-> e.err])
       /\ e.ok => /\ Chk(AverageOk(e.members, e.out), l, "Components",
                         [m |-> e.members, out |-> e.out])
                  /\ Chk(e.out.par = e.members[1].par, l, "Components:window",
                         [p |-> e.out.par])

(* members: [lw, fr, mean] (midpoints); cells[frequency][lag]                  *)
Grid == LET e == Trace[l]
            ms == Set(e.members)
            lw == Sorted([x \in {m.lw : m \in ms} |-> x], {m.lw : m \in ms})
            fr == Sorted([x \in {m.fr : m \in ms} |-> x], {m.fr : m \in ms})
        IN /\ Chk(e.ok, l, "Grid:failed", [err |-> e.err])
           /\ e.ok =>
              /\ Chk(e.lw = lw /\ e.fr = fr, l, "Grid:axes",
                     [lw |-> e.lw, fr |-> e.fr])
              /\ Chk(/\ Len(e.cells) = Len(fr)
                     /\ \A i \in 1..Len(fr) :
                          /\ Len(e.cells[i]) = Len(lw)
                          /\ \A j \in 1..Len(lw) :
                               LET s == {m \in ms : m.lw = lw[j] /\ m.fr = fr[i]}
                               IN IF s = {} THEN e.cells[i][j] = M
                                  ELSE \E m \in s :
                                         Close(m.mean, e.cells[i][j], 2),
                     l, "Grid:cells", [cells |-> e.cells])

(* The monitor on rows of equal amplitude, without filter. wins: [a, len];     *)
(* obs: one for each window that could be computed: [win, refs]               *)
Monitored == LET e == Trace[l]
                 n == Len(e.mat[1])
                 c == Center(n) + 1
                 L == Center(n)
                 idx(w) == LET g == Lags(w[1], w[2], e.sr)
                           IN {c + k : k \in g} \cup {c - k : k \in g}
                 long(w) == LET h == ((w[1] + w[2]) * e.sr) \div 1000
                            IN 2 * (IF h > L THEN L ELSE h) + 1 > 20
                 fits(w) == long(w) /\ idx(w) \subseteq 1..n /\ idx(w) # {}
                 wins == {w \in Set(e.wins) : fits(w)}
                 (* proportional to the mean                                 *)
                 Total(rows) ==
                   [k \in 1..n |-> SumSet([i \in rows |-> Sample(e.mat[i], k)],
                                          rows)]
                 rw == RefWindows(e.starts, e.ends, e.incs, FALSE)
                 refs == IF e.incs = <<>>
                         THEN <<Total(1..Len(e.mat))>>
                         ELSE [k \in 1..Len(rw) |->
                                 Total(InRef(e.starts, e.ends, rw[k]))]
  IN /\ Chk({o.win : o \in Set(e.obs)} = wins /\ Len(e.obs) = Cardinality(wins),
            l, "Monitored:windows",
            [want |-> wins, got |-> {o.win : o \in Set(e.obs)}])
     /\ \A o \in Set(e.obs) : o.win \in wins =>
          IF Len(o.refs) # Len(refs)
          THEN Chk(FALSE, l, "Monitored:references", [n |-> Len(o.refs)])
          ELSE \A q \in 1..Len(refs) : \A i \in 1..Len(e.mat) :
                 LET v == Sim(e.mat[i], refs[q], idx(o.win)) IN
                 Chk(IF v = M THEN o.refs[q][i] = M
                     ELSE o.refs[q][i] # M /\
                          Abs(Round(o.refs[q][i], 1000) - v) <= 3,
                     l, "Monitored:value",
                     [win |-> o.win, ref |-> q, row |-> i, want |-> v,
                      got |-> o.refs[q][i]])

(* comps: the coherences of all components; avs: the written averages          *)
(* (par: all of network, station, frequencies and window)                      *)
Grouped == LET e == Trace[l]
               pars == {c.par : c \in Set(e.comps)}
               RECURSIVE S(_, _)
               S(p, i) == IF i > Len(e.comps) THEN <<>>
                          ELSE (IF e.comps[i].par = p THEN <<e.comps[i]>>
                                ELSE <<>>) \o S(p, i + 1)
  IN /\ Chk({c.par : c \in Set(e.avs)} = pars /\
            Len(e.avs) = Cardinality(pars), l, "Grouped:averages",
            [want |-> pars, got |-> {c.par : c \in Set(e.avs)}])
     /\ Chk(pars = Set(e.want), l, "Grouped:computed",
            [want |-> e.want, got |-> pars])
     (* a window and band alone: the same                                      *)
     /\ Chk(\A c \in Set(e.comps1) :
              \E d \in Set(e.comps) :
                /\ d.par = c.par /\ d.cha = c.cha /\ d.keys = c.keys
                /\ \A q \in 1..Len(c.keys) : RowOk(c.vals[q], d.vals[q], 2),
            l, "Grouped:alone", [n |-> Len(e.comps1)])
     /\ Chk({a.par : a \in Set(e.avs1)} = {c.par : c \in Set(e.comps1)} /\
            e.comps1 # <<>>, l, "Grouped:averages alone", [n |-> 0])
     /\ \A a \in Set(e.avs) : a.par \in pars =>
          /\ Chk(AverageOk(S(a.par, 1), a), l, "Grouped:average",
                 [par |-> a.par])
          /\ Chk(a.named, l, "Grouped:name", [par |-> a.par])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Extract" -> Extract
            [] e.ev = "Wfc" -> Wfc
            [] e.ev = "Average" -> Average
            [] e.ev = "Components" -> Components
            [] e.ev = "Grid" -> Grid
            [] e.ev = "Monitored" -> Monitored
            [] e.ev = "Grouped" -> Grouped
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
