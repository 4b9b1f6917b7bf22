---------------------------- MODULE EstimateTrace ----------------------------
(* Recorded estimates of velocity changes and shifts, and corrections.       *)
(* Windows are lists of samples; tws: several windows; obs[w][i]: window w,  *)
(* row i: corr and sims in 1/1000000 (sims = <<>>: not returned), value: the *)
(* number of the chosen reference (0: none, -1: not one of them).            *)
EXTENDS Estimate, TraceUtil
VARIABLES l

Set(s) == {s[i] : i \in 1..Len(s)}
(* rows i of e against refs, windows idx[w]                                   *)
AllOk(e, rows, refs, idx, tol) ==
  IF Len(e.obs) # Len(idx)
  THEN Chk(FALSE, l, e.ev \o ":windows", [n |-> Len(e.obs)])
  ELSE \A w \in 1..Len(idx) :
    IF Len(e.obs[w]) # Len(rows)
    THEN Chk(FALSE, l, e.ev \o ":rows", [n |-> Len(e.obs[w])])
    ELSE \A i \in 1..Len(rows) :
      LET o == e.obs[w][i] IN
      IF o.sims = <<>>
      THEN Chk(ChoiceOk(rows[i], refs, idx[w], o.corr, o.value, tol),
               l, e.ev \o ":choice", [o |-> o, row |-> rows[i], idx |-> idx[w]])
      ELSE IF Len(o.sims) # Len(refs)
      THEN Chk(FALSE, l, e.ev \o ":references", [n |-> Len(o.sims)])
      ELSE /\ Chk(SimsOk(rows[i], refs, idx[w], o.sims, tol,
                         e.ev = "Estimate"), l,
                  e.ev \o ":similarity",
                  [o |-> o, row |-> rows[i], idx |-> idx[w],
                   want |-> [s \in 1..Len(refs) |->
                               Sim(rows[i], refs[s], idx[w])]])
           /\ Chk(BestOk(o.sims, o.corr, o.value), l, e.ev \o ":best",
                  [o |-> o])
(* the windows: given, or everything; FALSE if one does not fit               *)
Wins(e, sides, n) ==
  IF e.tws = <<>> THEN <<Window(Whole(sides, n), sides, n)>>
  ELSE [w \in 1..Len(e.tws) |-> Window(Set(e.tws[w]), sides, n)]
AllFit(e, sides, n) ==
  \A w \in 1..Len(e.tws) : Fits(Set(e.tws[w]), sides, n)

(* ok: the call succeeded. A window that does not fit is refused              *)
Judge(e, rows, refs, sides, tol) ==
  LET n == Len(refs[1]) IN
  IF ~AllFit(e, sides, n)
  THEN Chk(~e.ok, l, e.ev \o ":window beyond the trace", [obs |-> e.obs])
  ELSE /\ Chk(e.ok, l, e.ev \o ":failed", [err |-> e.err])
       /\ e.ok => AllOk(e, rows, refs, Wins(e, sides, n), tol)

Unchanged(e) == /\ Chk(e.axis, l, e.ev \o ":tested values", [n |-> 0])
                /\ Chk(e.same, l, e.ev \o ":input changed", [n |-> 0])

RowRef(e) == IF e.ref = <<>> THEN SumRows(e.mat) ELSE e.ref
ShiftRefs(x, R) == [s \in 1..(2 * R + 1) |-> Shifted(x, s - R - 1)]

Estimate == LET e == Trace[l] IN
  Judge(e, e.mat, e.refs, e.sides, 2)
(* the samples that are compared: e.cut: only those lags                     *)
Part(e) == LET p == PartOf(e.sides, e.lo, Len(e.mat[1]))
           IN IF e.cut THEN <<p[1] - e.lo + 1, p[2] - e.lo + 1>>
              ELSE <<1, Len(e.mat[1])>>
ShiftEstimate == LET e == Trace[l]
                     a == Part(e)[1]
                     b == Part(e)[2]
                     ref == Cut(RowRef(e), a, b)
  IN /\ Judge(e, [i \in 1..Len(e.mat) |-> Cut(e.mat[i], a, b)],
              ShiftRefs(ref, e.R), e.sides, 2)
     /\ Unchanged(e)
(* e.lo: first lag (samples); e.P: the polynomial of the reference, known at  *)
(* the lags e.rlo2/2 to e.rhi2/2; e.zlo2: twice the lag of the first sample,  *)
(* if all are compared (lags of direct calls may be halves)                   *)
StretchEstimate == LET e == Trace[l]
                       a == Part(e)[1]
                       b == Part(e)[2]
                       n == b - a + 1
                       z == IF e.cut THEN 2 * (e.lo + a - 1) ELSE e.zlo2
                       J == 2 * e.r + 1
                       refs == [s \in 1..J |->
                         [k \in 1..n |->
                            (* the factors descend                            *)
                            Stretched(e.P, J - s, e.r, e.rlo2, e.rhi2,
                                      z + 2 * (k - 1))]]
  IN /\ Judge(e, [i \in 1..Len(e.mat) |-> Cut(e.mat[i], a, b)], refs,
              e.sides, 2)
     /\ Unchanged(e)
(* nothing but the similarities and the choice; rows that are copies of the   *)
(* reference have the value e.zero                                            *)
General == LET e == Trace[l] IN
  /\ Chk(e.ok, l, "General:failed", [err |-> e.err])
  /\ Unchanged(e)
  /\ e.ok => \A w \in 1..Len(e.obs) : \A i \in 1..Len(e.obs[w]) :
       LET o == e.obs[w][i]
           idx == Wins(e, e.sides, Len(e.ref))[w]
           d == Dot(e.mat[i], e.mat[i], idx)
           x == Dot(e.ref, e.ref, idx)
       IN /\ Chk(BestOk(o.sims, o.corr, o.value), l, "General:best", [o |-> o])
          /\ Chk(\A s \in 1..Len(o.sims) :
                   o.sims[s] = M \/ Abs(o.sims[s]) <= 1000001,
                 l, "General:similarity", [o |-> o])
          (* the unchanged reference                                           *)
          /\ Chk(o.sims[e.zero] = M \/ x = 0 \/
                 Abs(Round(o.sims[e.zero], 1000) -
                     Sim(e.mat[i], e.ref, idx)) <= 2,
                 l, "General:reference itself",
                 [o |-> o, w |-> Sim(e.mat[i], e.ref, idx)])
          /\ Chk(d # 0 \/ (o.value = 0 /\ o.corr = M), l, "General:dead row",
                 [o |-> o])
          /\ Chk(~(i \in Set(e.copies) /\ x # 0) \/ o.value = e.zero \/
                 (* others may be the same                                   *)
                 (/\ o.value > 0 /\ o.sims[e.zero] >= 999999
                  /\ Abs(o.sims[o.value] - o.sims[e.zero]) <= 1) \/
                 (* a dead version                                           *)
                 (o.value = 0 /\ \E s \in 1..Len(o.sims) : o.sims[s] = M),
                 l, "General:copy of the reference", [o |-> o])
          (* the same row alone, or the others in another order                *)
          /\ Chk(\A v \in 1..Len(e.again) :
                   \A j \in 1..Len(e.again[v].rows) :
                     e.again[v].rows[j] = i =>
                       LET q == e.again[v].obs[w][j] IN
                       /\ Len(q.sims) = Len(o.sims)
                       /\ \A s \in 1..Len(q.sims) :
                            IF q.sims[s] = M \/ o.sims[s] = M
                            THEN q.sims[s] = o.sims[s]
                            ELSE Abs(q.sims[s] - o.sims[s]) <= 1
                       /\ (q.corr = M) = (o.corr = M)
                       /\ (q.value = 0) = (o.value = 0),
                 l, "General:depends on other rows", [o |-> o])

MeasureShift == LET e == Trace[l]
                    ref == RowRef(e)
                    wins == [w \in 1..Len(e.spans) |->
                               Span(e.spans[w][1], e.spans[w][2], e.sides,
                                    e.zero)]
  IN /\ Chk(e.ok, l, "MeasureShift:failed", [err |-> e.err])
     /\ Unchanged(e)
     /\ e.ok => \A i \in 1..Len(e.mat) :
          LET o == e.obs[1][i] IN
          /\ Chk(MeasureOk(e.mat[i], ref, e.R, wins, o.corr, o.value, 2), l,
                 "MeasureShift", [o |-> o, row |-> i, wins |-> wins,
                   want |-> [s \in 1..(2 * e.R + 1) |->
                        MeanSim(e.mat[i], ref, s - e.R - 1, wins)]])
          (* similarities with single windows                                  *)
          /\ Chk(o.sims = <<>> \/ \A s \in 1..(2 * e.R + 1) :
                   LET w == MeanSim(e.mat[i], ref, s - e.R - 1, wins) IN
                   IF DeadSomewhere(ref, s - e.R - 1, wins) THEN TRUE
                   ELSE IF w = M THEN o.sims[s] = M
                   ELSE o.sims[s] # M /\ Abs(Round(o.sims[s], 1000) - w) <= 2,
                 l, "MeasureShift:similarity", [o |-> o])
          (* an exact copy, unlike the others                                  *)
          /\ LET c == e.shift[i]
                 clear(x) == \A s \in 1..(2 * e.R + 1) :
                               LET w == MeanSim(x, ref, s - e.R - 1, wins) IN
                               /\ ~DeadSomewhere(ref, s - e.R - 1, wins)
                               /\ w # M /\ (s - e.R - 1 = c \/ w <= 990)
             IN c # M =>
                /\ Chk(clear(e.mat[i]) => o.value - e.R - 1 = c,
                       l, "MeasureShift:copy", [o |-> o, m |-> c])
                (* corrected and measured again                                *)
                /\ Chk((e.after # <<>> /\ clear(e.mat[i])) =>
                         LET w == [s \in 1..(2 * e.R + 1) |->
                                     MeanSim(ref, ref, s - e.R - 1, wins)]
                         IN e.after[i] = e.R + 1 \/
                            \E s \in 1..(2 * e.R + 1) :
                              w[s] = M \/ (s # e.R + 1 /\ w[s] > 990),
                       l, "MeasureShift:after the correction",
                       [v |-> IF e.after = <<>> THEN 0 ELSE e.after[i]])

Apply == LET e == Trace[l] IN
  /\ Chk(e.ok, l, e.what \o ":failed", [err |-> e.err])
  /\ e.ok =>
     Chk(/\ Len(e.out) = Len(e.mat)
         /\ \A i \in 1..Len(e.mat) :
              Near(e.out[i],
                   CASE e.what = "time_shift_apply" ->
                          ShiftApplied(e.mat[i], e.h[i])
                     [] e.what = "correct_shift" ->
                          ShiftCorrected(e.mat[i], e.h[i][1])
                     (* corrected by the factor 2^h: a polynomial row          *)
                     [] e.what = "correct_stretch" ->
                          [k \in 1..Len(e.out[i]) |->
                             LET u == e.rlo2 + 2 * (k - 1)
                                 v == u * Pow2(e.r + e.h[i][1])
                             IN IF e.h[i][1] # 0 /\
                                   v \in {e.rlo2 * Pow2(e.r),
                                          e.rhi2 * Pow2(e.r)}
                                THEN M                  \* at the very end
                                ELSE 100 * Stretched(e.P[i], e.r + e.h[i][1],
                                              e.r, e.rlo2, e.rhi2, u)],
                   IF e.what = "correct_stretch" THEN 5 ELSE 1),
         l, e.what, [out |-> e.out])

Combine == LET e == Trace[l] IN
  /\ Chk(e.ok, l, "Combine:failed", [err |-> e.err])
  /\ e.ok => \A i \in 1..Len(e.panels[1]) :
       LET o == e.obs[1][i]
           n == Len(e.panels[1][i])
           w == [s \in 1..n |-> Combined(e.panels, e.offs, i, s)]
       IN /\ Chk(\A s \in 1..n :
                   IF w[s] = M THEN o.sims[s] = M
                   ELSE o.sims[s] # M /\
                        Abs(Round(o.sims[s], 1000) - w[s]) <= 1,
                 l, "Combine:similarity", [o |-> o, want |-> w])
          /\ Chk(BestOk(o.sims, o.corr, o.value), l, "Combine:best", [o |-> o])

(* windows: samples from each start, of each length; or all of one length      *)
Creation == LET e == Trace[l] IN
  IF \E i \in 1..Len(e.lens) : e.lens[i] <= 0
  THEN Chk(~e.ok, l, "Creation:length", [n |-> 0])
  ELSE IF ~(Len(e.lens) \in {1, Len(e.starts)})
  THEN Chk(~e.ok, l, "Creation:lengths", [n |-> 0])
  ELSE Chk(/\ e.ok
           /\ e.out = [i \in 1..Len(e.starts) |->
                LET w == IF Len(e.lens) = 1 THEN e.lens[1] ELSE e.lens[i]
                IN [k \in 1..w |-> e.starts[i] + k - 1]],
           l, "Creation", [out |-> e.out])

(* The monitor on rows of equal amplitude, without filter and without          *)
(* stretching. win: <<start, end>> in 1/1000 s (end 0: of the correlation);    *)
(* the start is later by the travel time e.tt (1/1000 s)                       *)
Monitored == LET e == Trace[l]
                 n == Len(e.mat[1])
                 c == Center(n) + 1
                 a == e.win[1] + e.tt
                 b == IF e.win[2] = 0 THEN (1000 * Center(n)) \div e.sr
                      ELSE e.win[2] + e.tt
                 g == {k \in 0..((b * e.sr) \div 1000 + 1) :
                         k * 1000 >= a * e.sr /\
                         (IF e.win[2] = 0 THEN k < Center(n)
                          ELSE k * 1000 < b * e.sr)}
                 h == IF e.win[2] = 0 THEN Center(n)
                      ELSE (b * e.sr) \div 1000
                 idx == (IF e.sides = "right" THEN {} ELSE {c - k : k \in g})
                        \cup
                        (IF e.sides = "left" THEN {} ELSE {c + k : k \in g})
                 ref == SumRows(e.mat)
                 fits == h <= Center(n) /\ 2 * h + 1 > 20 /\ g # {}
  IN IF ~fits THEN Chk(~e.ok, l, "Monitored:window", [h |-> h])
     ELSE IF ~e.ok THEN Chk(FALSE, l, "Monitored:failed", [err |-> e.err])
     ELSE IF Len(e.sims) # Len(e.mat)
     THEN Chk(FALSE, l, "Monitored:rows", [n |-> Len(e.sims)])
     ELSE \A i \in 1..Len(e.mat) :
            LET v == Sim(e.mat[i], ref, idx) IN
            /\ Chk(\A s \in 1..Len(e.sims[i]) :
                     IF v = M THEN e.sims[i][s] = M
                     ELSE e.sims[i][s] # M /\
                          Abs(Round(e.sims[i][s], 1000) - v) <= 3,
                   l, "Monitored:similarity",
                   [row |-> i, want |-> v, got |-> e.sims[i], idx |-> idx])
            /\ Chk(IF v = M THEN e.corr[i] = M
                   ELSE e.corr[i] # M /\ Abs(Round(e.corr[i], 1000) - v) <= 3,
                   l, "Monitored:corr",
                   [row |-> i, want |-> v, got |-> e.corr[i]])

(* each of several references gives what it gives alone, and together they     *)
(* are combined                                                                *)
Several == LET e == Trace[l] IN
  /\ Chk(e.ok, l, "Several:failed", [err |-> e.err])
  /\ Chk(e.same, l, "Several:changed", [ok |-> e.ok])
  /\ e.ok =>
     /\ Chk(Len(e.one) = Len(e.many), l, "Several:references",
            [n |-> Len(e.many)])
     /\ \A j \in 1..Len(e.one) : j <= Len(e.many) =>
          Chk(e.one[j] = e.many[j], l, "Several:alone",
              [j |-> j, one |-> e.one[j], many |-> e.many[j]])
     /\ Chk(e.whole = e.parts, l, "Several:together",
            [whole |-> e.whole, parts |-> e.parts])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Estimate" -> Estimate
            [] e.ev = "ShiftEstimate" -> ShiftEstimate
            [] e.ev = "StretchEstimate" -> StretchEstimate
            [] e.ev = "General" -> General
            [] e.ev = "MeasureShift" -> MeasureShift
            [] e.ev = "Apply" -> Apply
            [] e.ev = "Combine" -> Combine
            [] e.ev = "Several" -> Several
            [] e.ev = "Creation" -> Creation
            [] e.ev = "Monitored" -> Monitored
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
