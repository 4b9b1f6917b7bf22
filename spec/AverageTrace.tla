---------------------------- MODULE AverageTrace ----------------------------
EXTENDS Folder, TraceUtil
VARIABLE l

(* o: the result; M: its members; n, s: number and sum of the contributions *)
(* to a cell                                                                *)
Values(o, axis, T, n(_, _), s(_, _), what) ==
  LET J == 1..Len(axis) IN
  /\ Chk(\A t \in 1..T, j \in J :
           IF n(t, j) = 0 THEN o.sim[t][j] = NaN
           ELSE /\ o.sim[t][j] # NaN
                /\ Abs(o.sim[t][j] * n(t, j) - 1000 * s(t, j)) <= 2 * n(t, j),
         l, what \o ":similarity", [got |-> o.sim])
  /\ Chk(\A t \in 1..T :
           LET B == Best(LAMBDA j : n(t, j), LAMBDA j : s(t, j), J) IN
           IF B = {} THEN o.value[t] = NaN /\ o.corr[t] = NaN
           ELSE /\ \E j \in B : o.value[t] = axis[j]
                /\ \E j \in B : /\ o.corr[t] # NaN
                                /\ Abs(o.corr[t] * n(t, j) - 1000 * s(t, j))
                                     <= 2 * n(t, j),
         l, what \o ":value", [value |-> o.value, corr |-> o.corr,
                               sim |-> o.sim, axis |-> axis])

Same(D, what, e) == Chk(e.unchanged, l, what \o ":input changed", [x |-> 0])

Average(e, D, what) ==
  LET M == Eligible(D)
      o == e.out
      T == Len(M[1].sim)
  IN IF Mixed(SelectSeq(D, LAMBDA d : ~IsAverage(d))) THEN
       Chk(~e.ok, l, what \o ":mixed methods", [x |-> 0])
     ELSE IF Mixed(D) THEN TRUE
     ELSE IF M = <<>> THEN Chk(~e.ok, l, what \o ":nothing to average", [x |-> 0])
     ELSE
       /\ Chk(e.ok, l, what \o ":failed", [err |-> e.err])
       /\ e.ok =>
          /\ Chk(Len(o.sim) = T /\ Len(o.value) = T /\ Len(o.corr) = T
                 /\ Len(o.nstat) = T /\ o.axis = M[1].axis
                 /\ o.method = M[1].method /\ o.uniform,
                 l, what \o ":shape", [o |-> o])
          /\ (Len(o.sim) = T /\ Len(o.value) = T /\ Len(o.corr) = T
              /\ Len(o.nstat) = T /\ o.axis = M[1].axis) =>
             /\ Values(o, M[1].axis, T, LAMBDA t, j : Num(M, t, j),
                       LAMBDA t, j : Tot(M, t, j), what)
             /\ Chk(o.nstat = [t \in 1..T |-> NStat(M, t)], l,
                    what \o ":number of members",
                    [got |-> o.nstat, want |-> [t \in 1..T |-> NStat(M, t)]])
          /\ Chk(e.scatter =>
                 /\ o.corrs = [i \in 1..Len(M) |-> M[i].corr]
                 /\ o.stretches = [i \in 1..Len(M) |-> M[i].value],
                 l, what \o ":scatter", [corrs |-> o.corrs])
          /\ Chk(~e.scatter => o.corrs = <<>> /\ o.stretches = <<>>, l,
                 what \o ":scatter", [corrs |-> o.corrs])
          /\ Chk(e.warned = e.skipped + Len(D) - Len(M), l,
                 what \o ":warnings",
                 [got |-> e.warned, skipped |-> Len(D) - Len(M)])
          /\ Chk(o.cha = Label(M, LAMBDA d : d.cha, AV) /\
                 IF e.geo THEN
                   /\ o.net = GEOAV /\ o.sta = GEOAV
                   /\ o.lat = e.lat /\ o.lon = e.lon /\ o.el = e.el
                 ELSE /\ o.net = Label(M, LAMBDA d : d.net, AV)
                      /\ o.sta = Label(M, LAMBDA d : d.sta, AV)
                      /\ o.times = M[1].times,
                 l, what \o ":header", [net |-> o.net, sta |-> o.sta,
                                        cha |-> o.cha])

(* the similarities of d shifted by k columns; NaN rows stay NaN            *)
Rolled(d, k) == [t \in 1..Len(d.sim) |-> LET n == Len(d.axis) IN
                  [j \in 1..n |-> d.sim[t][((j - 1 - k) % n) + 1]]]
(* the same, but as one long row (not what it should be)                    *)
FlatRolled(d, k) ==
  LET n == Len(d.axis) N == n * Len(d.sim)
  IN [t \in 1..Len(d.sim) |-> [j \in 1..n |->
        LET p == ((t - 1) * n + j - 1 - k) % N
        IN d.sim[(p \div n) + 1][(p % n) + 1]]]
Shift(e) ==
  LET d == e.in[1] IN
  /\ Chk(e.ok, l, "Shift:failed", [err |-> e.err])
  /\ e.ok =>
     /\ Chk(e.refsame, l, "Shift:reference changed", [x |-> 0])
     /\ LET sim == [t \in 1..Len(d.sim) |-> [j \in 1..Len(d.axis) |->
                      IF e.out.sim[t][j] = NaN THEN NaN
                      ELSE e.out.sim[t][j] \div 1000]]
        IN IF sim = Rolled(d, e.k) THEN TRUE
           ELSE Chk(FALSE, l, IF sim = FlatRolled(d, e.k)
                              THEN "Shift:one long row" ELSE "Shift:rows",
                    [got |-> sim, k |-> e.k])
     /\ Chk(\A t \in 1..Len(d.sim) : Avail(d, t) <=> e.out.value[t] # NaN,
            l, "Shift:value without data", [value |-> e.out.value])

Smooth(e) ==
  LET d == e.in[1] o == e.out T == Len(d.sim)
      c(t, j) == SmoothCell(d, t, j, e.h, e.thres, e.hasthres)
  IN /\ Chk(e.ok, l, "Smooth:failed", [err |-> e.err])
     /\ e.ok =>
        /\ Chk(Len(o.sim) = T /\ o.axis = d.axis, l, "Smooth:shape", [x |-> 0])
        /\ Values(o, d.axis, T, LAMBDA t, j : Len(c(t, j)),
                  LAMBDA t, j : Sum(c(t, j)), "Smooth")
        /\ Chk(o.avail = [t \in 1..T |-> o.corr[t] # NaN], l, "Smooth:avail",
               [avail |-> o.avail])

(* e.files: the files before, e.new: files that appeared                   *)
FolderRun(e) ==
  LET F == Range(e.files)
      W == Writes(F, e.method)
      N == Range(e.new)
  IN /\ Chk(e.ok, l, "Folder:failed", [err |-> e.err])
     /\ Chk(e.kept, l, "Folder:file changed", [x |-> 0])
     /\ Chk({<<f.net, f.sta, f.name>> : f \in N} =
            {<<p[1], p[2], Out(e.method)>> : p \in W}, l, "Folder:files",
            [got |-> {<<f.net, f.sta, f.name>> : f \in N}, want |-> W,
             method |-> e.method])
     /\ \A f \in N : <<f.net, f.sta>> \in W =>
          LET S == Members(F, <<f.net, f.sta>>, e.method)
              M == SetToSeq(S)
              T == Len(M[1].sim)
              o == f.out
          IN /\ Chk(Len(o.sim) = T /\ Len(o.value) = T /\ Len(o.corr) = T
                    /\ Len(o.nstat) = T /\ o.axis = M[1].axis, l,
                    "Folder:shape", [o |-> o])
             /\ (Len(o.sim) = T /\ Len(o.value) = T /\ Len(o.corr) = T
                 /\ Len(o.nstat) = T /\ o.axis = M[1].axis) =>
                /\ Values(o, M[1].axis, T, LAMBDA t, j : Num(M, t, j),
                          LAMBDA t, j : Tot(M, t, j), "Folder")
                /\ Chk(o.nstat = [t \in 1..T |-> NStat(M, t)], l,
                       "Folder:number of members",
                       [got |-> o.nstat,
                        want |-> [t \in 1..T |-> NStat(M, t)]])
             (* every member once *)
             /\ Chk({o.corrs[i] : i \in 1..Len(o.corrs)} =
                    {g.corr : g \in S} /\ Len(o.corrs) = Cardinality(S), l,
                    "Folder:members", [corrs |-> o.corrs])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
       IF e.ev = "Reset" THEN TRUE
       ELSE CASE e.ev \in {"Average", "MemSave"} ->
                   Average(e, e.in, e.ev) /\ Same(e.in, e.ev, e)
              [] e.ev = "Box" ->
                   (LET D == SelectSeq(e.in, LAMBDA d : ~IsAverage(d) /\
                                       InBox(d, e.lat, e.lon, e.el))
                    IN Average(e, D, "Box"))
                   /\ Same(e.in, "Box", e)
              [] e.ev = "Folder" -> FolderRun(e)
              [] e.ev = "Shift" -> Shift(e)
              [] e.ev = "Smooth" -> Smooth(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
