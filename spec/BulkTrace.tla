----------------------------- MODULE BulkTrace -----------------------------
(***************************************************************************)
(* Recorded histories of several correlation matrices.  e.obs holds every  *)
(* matrix after the event; the state is that of the last event.            *)
(***************************************************************************)
EXTENDS Bulk, TraceUtil
VARIABLES l, st

Absent == [ncol |-> -1]
(* what the specification knows of an observed matrix *)
Mat(o) == [rows |-> o.rows, lag |-> o.lag, dt |-> o.dt, ncol |-> o.ncol,
           data |-> o.data]
Labels(o) == [rows |-> o.rows, lag |-> o.lag, dt |-> o.dt, ncol |-> o.ncol,
              id |-> o.id]
LabelsOf(B, id) ==
  [rows |-> B.rows, lag |-> B.lag, dt |-> B.dt, ncol |-> B.ncol, id |-> id]

(* the header fits the data *)
Header(o, what, count) ==
  /\ Chk(o.nrow = Len(o.rows) /\ o.uniform, l, what \o ":rows",
         [nrow |-> o.nrow, labels |-> Len(o.rows)])
  /\ Chk(o.ntrcs = count, l, what \o ":count",
         [ntrcs |-> o.ntrcs, want |-> count])
  /\ Chk(o.npts = o.ncol, l, what \o ":npts",
         [npts |-> o.npts, ncol |-> o.ncol])
  /\ Chk(o.last = o.lag + (o.ncol - 1) * o.dt, l, what \o ":last lag",
         [last |-> o.last])

(* got is exactly the matrix B *)
Equal(o, B, id, what) ==
  /\ Chk(Labels(o) = LabelsOf(B, id), l, what \o ":labels",
         [got |-> Labels(o), want |-> LabelsOf(B, id)])
  /\ Chk(o.data = B.data, l, what \o ":data",
         [got |-> o.data, want |-> B.data])

Bins(e, B, o, what) ==
  LET n == Len(e.S) IN
  /\ Chk(o.nrow = n /\ Len(o.rows) = n /\ o.ncol = B.ncol /\ o.lag = B.lag
         /\ o.dt = B.dt /\ o.id = e.id, l, what \o ":shape", [nrow |-> o.nrow])
  /\ o.nrow = n /\ Len(o.rows) = n /\ o.ncol = B.ncol =>
     \A i \in 1..n :
       LET R == BinRows(B, e.S, e.E, i) IN
       /\ Chk(o.rows[i].cs = e.S[i] /\
              (Len(e.S) > 1 \/ e.E # <<>> \/ NRow(B) > 0 =>
               o.rows[i].ce = BinEnd(B, e.S, e.E, i)), l, what \o ":times",
              [i |-> i, got |-> o.rows[i]])
       /\ Chk(R # <<>> =>
              \E j \in 1..Len(R) : /\ o.rows[i].loc = B.rows[R[j]].loc
                                   /\ o.rows[i].cha = B.rows[R[j]].cha,
              l, what \o ":channel", [i |-> i, got |-> o.rows[i]])
       /\ Chk(\A c \in 1..B.ncol :
                MeanSome(o.data[i][c],
                         [j \in 1..Len(R) |-> B.data[R[j]][c]]),
              l, what \o ":values",
              [i |-> i, rows |-> R, got |-> o.data[i],
               cs |-> [j \in 1..NRow(B) |-> B.rows[j].cs]])

MirrorOk(o, B, id) ==
  IF ~HasBoth(B) THEN Equal(o, B, id, "Mirror")
  ELSE /\ Chk(o.rows = B.rows /\ o.lag = 0 /\ o.dt = B.dt /\ o.id = id
              /\ o.ncol = MirrorLen(B), l, "Mirror:labels",
              [lag |-> o.lag, ncol |-> o.ncol, want |-> MirrorLen(B)])
       /\ o.ncol = MirrorLen(B) /\ o.nrow = NRow(B) =>
          Chk(\A r \in 1..NRow(B), k \in 1..o.ncol :
                MeanAll(o.data[r][k], MirrorOf(B, r, k - 1)),
              l, "Mirror:values", [got |-> o.data, of |-> B.data])

(* reference traces e.refs, e.wins: <<start, increment>> *)
Refs(e, B) ==
  LET W == IF e.single THEN <<>>
           ELSE IF e.list THEN
             [i \in 1..Len(e.inc) |->
                <<Min({B.rows[j].cs : j \in 1..NRow(B)})
                  + Sum(SubSeq(e.inc, 1, i - 1)), e.inc[i]>>]
           ELSE [i \in 1..Len(RefStarts(B, e.inc[1])) |->
                   <<RefStarts(B, e.inc[1])[i], e.inc[1]>>]
      n == IF e.single THEN 1 ELSE Len(W)
  IN /\ Chk(e.ok /\ Len(e.refs) = n, l, "Refs:count",
            [got |-> Len(e.refs), want |-> n, err |-> e.err])
     /\ Len(e.refs) = n => \A i \in 1..n :
          LET R == IF e.single THEN [j \in 1..NRow(B) |-> j]
                   ELSE RefRows(B, W[i][1], W[i][2])
          IN Chk(Len(e.refs[i]) = B.ncol /\ \A c \in 1..B.ncol :
                   LET S == [j \in 1..Len(R) |-> B.data[R[j]][c]]
                   IN IF e.method = "mean" THEN MeanSome(e.refs[i][c], S)
                      ELSE Median(e.refs[i][c], S),
                 l, "Refs:" \o e.method, [i |-> i, rows |-> R,
                                          got |-> e.refs[i]])

Effect(e) ==
  LET o == e.obs[e.dst]
      B == Mat(st[e.src])
      id == st[e.src].id
      n == st[e.src].ntrcs
      res == e.res
  IN CASE e.ev = "New" ->
            Equal(o, e.want, e.id, "New") /\ Header(o, "New", Len(e.want.rows))
       [] e.ev = "Trim" ->
            Equal(o, Trim(B, e.s, e.e), id, "Trim") /\ Header(o, "Trim", n)
       [] e.ev = "Mirror" ->
            IF ~e.ok THEN
              /\ Chk(HasBoth(B) /\ ~Aligned(B), l, "Mirror:refused",
                     [err |-> e.err])
              /\ Chk(e.obs[e.dst] = st[e.src], l, "Mirror:failed", [x |-> 0])
            ELSE MirrorOk(o, B, id) /\ Header(o, "Mirror", n)
       [] e.ev = "Slice" ->
            Equal(o, Slice(B, e.s, e.e, e.partial), id, "Slice")
            /\ (LET m == Len(Slice(B, e.s, e.e, e.partial).rows) IN
                IF o.ntrcs # m /\ o.ntrcs = n
                THEN Chk(FALSE, l, "Slice:count of the source",
                         [ntrcs |-> o.ntrcs, want |-> m])
                     /\ Header(o, "Slice", n)
                ELSE Header(o, "Slice", m))
       [] e.ev = "Select" ->
            LET w == SelectCorr(B, e.s, e.e, e.partial) IN
            IF w.rows = <<>> THEN Chk(~e.ok, l, "Select:nothing", [x |-> 0])
            ELSE /\ Chk(e.ok, l, "Select:failed", [err |-> e.err])
                 /\ e.ok => Equal(o, w, id, "Select")
                            /\ Header(o, "Select", Len(w.rows))
       [] e.ev = "Index" ->
            Equal(o, Take(B, e.R), id, "Index")
            /\ Header(o, "Index", Len(e.R))
       [] e.ev = "Row" ->
            Equal(res, Take(B, e.R), id, "Row")
            /\ Chk(res.npts = res.ncol /\ res.last = LastLag(B), l,
                   "Row:header", [res |-> res])
       [] e.ev = "Split" ->
            Equal(o, Take(B, e.R), id, "Split")
            /\ Header(o, "Split", Len(e.R))
       [] e.ev = "Copy" ->
            Equal(o, B, id, "Copy") /\ Header(o, "Copy", n)
       [] e.ev = "Save" ->
            Equal(o, B, id, "Save") /\ Header(o, "Save", n)
            /\ Chk(e.same, l, "Save:header", [diff |-> e.diff])
       [] e.ev = "Resample" ->
            Chk(e.ok, l, "Resample:failed", [err |-> e.err])
            /\ (e.ok => Bins(e, B, o, "Resample")
                        /\ Header(o, "Resample", Len(e.S)))
       [] e.ev = "Refs" -> Refs(e, B)
       [] e.ev = "Other" ->
            Chk(e.ok, l, "Other:failed", [op |-> e.op, err |-> e.err])
            /\ Chk(Labels(o) = Labels(st[e.src]), l, "Other:labels",
                   [op |-> e.op, got |-> Labels(o)])
            /\ Header(o, "Other", n)
       (* another sampling interval: the first lag stays *)
       [] e.ev = "Rate" ->
            Chk(e.ok, l, "Rate:failed", [err |-> e.err])
            /\ (e.ok => Chk(o.lag = B.lag /\ o.rows = B.rows /\ o.dt = e.dt,
                            l, "Rate:labels", [got |-> Labels(o)])
                        /\ Header(o, "Rate", n))
       [] OTHER -> Assert(FALSE, e.ev)

TraceInit == l = 1 /\ st = <<>>
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace)) /\ UNCHANGED st
     ELSE LET e == Trace[l] IN
       IF e.ev = "Reset" THEN st' = <<>>
       ELSE
         /\ Chk(e.ok \/ e.ev \in {"Select", "Mirror", "Resample", "Other",
                                  "Rate", "Refs"}, l, e.ev \o ":failed",
                [err |-> e.err])
         /\ (e.ok \/ e.ev \in {"Select", "Mirror", "Resample", "Other",
                               "Rate", "Refs"} => Effect(e))
         (* nothing else changes *)
         /\ \A s \in DOMAIN st :
              (s # e.dst \/ (e.src = e.dst /\ e.ev \in {"Refs", "Row"})) =>
              Chk(e.obs[s] = st[s], l, e.ev \o ":side effect",
                  [slot |-> s, op |-> e.op, got |-> e.obs[s], want |-> st[s]])
         /\ st' = e.obs
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
=============================================================================
