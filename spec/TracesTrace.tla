----------------------------- MODULE TracesTrace -----------------------------
(* Recorded calls of the functions that mask, interpolate, taper, detrend,  *)
(* discard and cut, each compared with Traces.tla.                          *)
EXTENDS Traces, TraceUtil
VARIABLES l

Near(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ \A k \in 1..Len(x) :
       IF x[k] = M \/ y[k] = M THEN x[k] = y[k]
       ELSE Abs(x[k] - y[k]) <= tol
SameTrace(g, w, tol) ==
  /\ g.id = w.id /\ g.t0 = w.t0 /\ g.d = w.d /\ Near(g.x, w.x, tol)
(* where the first difference lies                                          *)
Diff(g, w) ==
  IF Len(g) # Len(w) THEN "number of traces"
  ELSE IF \E i \in 1..Len(g) : g[i].id # w[i].id THEN "order of traces"
  ELSE IF \E i \in 1..Len(g) : g[i].t0 # w[i].t0 \/ g[i].d # w[i].d
            \/ Len(g[i].x) # Len(w[i].x) THEN "times"
  ELSE IF \E i \in 1..Len(g) : Has(g[i]) # Has(w[i]) THEN "samples with data"
  ELSE "values"
Compare(e, got, want, tol) ==
  Chk(Len(got) = Len(want) /\
      \A i \in 1..Len(got) : SameTrace(got[i], want[i], tol), l,
      e.ev \o ":" \o Diff(got, want), [in |-> e.st, got |-> got, want |-> want])
(* the order of the traces does not matter                                  *)
CompareAny(e, got, want, tol) ==
  Chk(Len(got) = Len(want) /\
      \A j \in 1..Len(want) : \E i \in 1..Len(got) :
         SameTrace(got[i], want[j], tol), l,
      e.ev, [in |-> e.st, got |-> got, want |-> want])

Plain(e, want, tol) ==
  /\ Chk(e.ok, l, e.ev \o ":failed", [err |-> e.err, in |-> e.st])
  /\ e.ok => Compare(e, e.out, want, tol)
Unordered(e, want, tol) ==
  /\ Chk(e.ok, l, e.ev \o ":failed", [err |-> e.err, in |-> e.st])
  /\ e.ok => CompareAny(e, e.out, want, tol)

Step(e) ==
  CASE e.ev = "Mark" ->
         LET F(tr) == MarkTrace(tr, e.ivs, e.reverse)
         IN Plain(e, Each(e.st, F), 0)
    [] e.ev = "Interpolate" ->
         (* data that were marked stay marked                               *)
         LET F(tr) == IF e.hard THEN tr ELSE InterpTrace(tr, e.max)
         IN Plain(e, Each(e.st, F), IF e.int THEN S ELSE 2)
    [] e.ev = "Gaps" -> Unordered(e, GapHandler(e.st, e.max, e.retain, e.n), 4)
    [] e.ev = "Discard" -> Plain(e, Discard(e.st, e.len), 0)
    [] e.ev = "Valid" -> Plain(e, Valid(e.st), 0)
    [] e.ev = "Taper" ->
         LET F(tr) == IF e.masked THEN LET T(x) == TaperX(x, e.n)
                                       IN ByPiece(tr, T)
                      ELSE TaperTrace(tr, e.n)
         IN Plain(e, Each(e.st, F), 4)
    [] e.ev = "Detrend" ->
         LET F(tr) == DetrendTrace(tr, e.type) IN Plain(e, Each(e.st, F), 4)
    [] e.ev = "Cut" ->
         LET F(tr) == Cut(tr, tr.t0 + e.a, Last(tr) - e.b)
         IN Plain(e, SelectSeq(Each(e.st, F), LAMBDA tr : tr.x # <<>>), 0)
    [] e.ev = "Decimate" ->
         LET F(tr) == [tr EXCEPT !.d = e.d, !.x = Every(tr.x, e.d \div tr.d)]
             G(tr) == IF tr.d < e.d THEN F(tr) ELSE tr
         IN IF \E i \in 1..Len(e.st) : e.st[i].d <= e.d THEN
              Plain(e, Each(e.st, G), 0)
            ELSE IF e.ok THEN Compare(e, e.out, Each(e.st, G), 0)
            ELSE TRUE
    [] e.ev = "Polarity" ->
         LET F(tr) == IF \E i \in 1..Len(e.down) : e.down[i] = tr.id THEN
                        [tr EXCEPT !.x = [k \in 1..Len(tr.x) |->
                           IF tr.x[k] = M THEN M ELSE -tr.x[k]]]
                      ELSE tr
         IN Plain(e, Each(e.st, F), 0)
    [] e.ev = "Filter" ->
         (* every piece is filtered as if it was alone; masked ends are cut *)
         LET F(tr) == [tr EXCEPT !.x = [k \in 1..Len(tr.x) |->
                        IF tr.x[k] = M THEN M ELSE 0]]
             want == [i \in 1..Len(e.alone) |->
                        LET tr == e.alone[i] IN
                        Piece(tr, Least(Has(tr)), Most(Has(tr)))]
         IN Plain(e, want, 2)
    [] e.ev = "Matrix" ->
         /\ Chk(e.ok, l, "Matrix:failed", [err |-> e.err])
         /\ e.ok =>
            Chk(/\ Len(e.rows) = Len(e.st)
                /\ \A i \in 1..Len(e.rows) :
                     /\ Len(e.rows[i]) = e.npts
                     /\ \A k \in 1..e.npts :
                          LET w == IF k <= Len(e.st[i].x) THEN e.st[i].x[k]
                                   ELSE M
                          IN IF w = M THEN e.rows[i][k] \in {0, M}
                             ELSE Abs(e.rows[i][k] - w) <= 1,
                l, "Matrix:rows", [in |-> e.st, rows |-> e.rows])
    [] e.ev = "Prepare" ->
         Unordered(e, Prepare(e.st, e.n, e.short, e.marks, e.a, e.b), 12)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace)) ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
