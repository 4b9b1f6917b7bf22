---------------------------- MODULE MonitorTrace ----------------------------
(* Recorded runs of the real monitor:                                      *)
(*  Grid [start, end, inc, len, ok, got]                                   *)
(*  Find [files, net, sta, got]     got: <<network, station, file>>        *)
(*  Bulk [files, net, sta, err, grid, res, alone, writes]                  *)
(*    res/alone: [file, n, s, c, times, avail, v]                          *)
(*  Wfc  [files, net, sta, err, groups, av]                                *)
EXTENDS Monitor, TraceUtil
VARIABLES l

Chan(x) == [c |-> x.c, t |-> Range(x.t), ok |-> x.ok]
FileOf(x) ==
  [n |-> <<x.n[1], x.n[2]>>, s |-> <<x.s[1], x.s[2]>>, bad |-> x.bad,
   chans |-> {Chan(x.chans[i]) : i \in 1..Len(x.chans)}]
FilesOf(s) == {FileOf(s[i]) : i \in 1..Len(s)}
SeqSet(s) == {s[i] : i \in 1..Len(s)}

TGrid(e) ==
  LET valid == e.start < e.end /\ e.inc > 0 /\ e.len > 0
      G == Grid(e.start, e.end, e.inc, e.len)
  IN /\ Chk(e.ok = valid, l, "Grid:valid", [ok |-> e.ok])
     /\ (e.ok /\ valid) =>
          Chk(Len(e.got) = Len(G) /\ \A i \in 1..Len(G) :
                 e.got[i][1] = G[i][1] /\ e.got[i][2] = G[i][2],
              l, "Grid:windows", [n |-> Len(e.got), m |-> Len(G)])

TFind(e) ==
  LET F == FilesOf(e.files)
      want == {<<Name(f.n), Name(f.s)>> :
                 f \in {g \in F : Selected(g, e.net, e.sta)}}
      got == {<<e.got[i][1], e.got[i][2]>> : i \in 1..Len(e.got)}
  IN /\ Chk(want \subseteq got, l, "Find:missing", [x |-> want \ got])
     /\ Chk(got \subseteq want, l, "Find:not requested", [x |-> got \ want])
     /\ Chk(\A i, j \in 1..Len(e.got) : i # j => e.got[i] # e.got[j], l,
            "Find:twice", [n |-> Len(e.got)])
     /\ Chk(\A i \in 1..Len(e.got) : e.got[i][3], l, "Find:path", [x |-> 0])

Id(r) == [n |-> r.n, s |-> r.s, c |-> r.c]
Near(x, y) == x = y \/ x = y + 1 \/ y = x + 1
Same(a, b) ==
  /\ a.times = b.times /\ a.avail = b.avail /\ Len(a.v) = Len(b.v)
  /\ \A i \in 1..Len(a.v) : Near(a.v[i], b.v[i])
ChanOf(F, id) ==
  CHOOSE ch \in UNION {{c \in f.chans : Item(f, c) = id} : f \in F} : TRUE

TBulk(e) ==
  LET F == FilesOf(e.files)
      want == Good(F, e.net, e.sta)
      got == {Id(e.res[i]) : i \in 1..Len(e.res)}
      W == e.grid
  IN /\ Chk(e.err = "", l, "Bulk:error", [err |-> e.err])
     /\ Chk(want \subseteq got, l, "Bulk:missing", [x |-> want \ got])
     /\ Chk(got \subseteq want, l, "Bulk:not requested", [x |-> got \ want])
     /\ Chk(\A i, j \in 1..Len(e.writes) :
              i # j => e.writes[i] # e.writes[j], l, "Bulk:written twice",
            [n |-> Len(e.writes)])
     /\ \A i \in 1..Len(e.res) :
          LET r == e.res[i] IN
          Id(r) \in want =>
            LET ch == ChanOf(F, Id(r)) IN
            /\ Chk(r.file = <<r.n, r.s, r.c>>, l, "Bulk:file name",
                   [f |-> r.file])
            /\ Chk(r.times = W, l, "Bulk:times", [n |-> Len(r.times)])
            /\ Chk(Len(r.avail) = Len(W) /\ \A k \in 1..Len(W) :
                     (k <= Len(r.avail)) =>
                       r.avail[k] = Avail(W[k], ch.t), l, "Bulk:windows",
                   [a |-> r.avail])
            /\ \A j \in 1..Len(e.alone) :
                 Id(e.alone[j]) = Id(r) =>
                   Chk(Same(e.alone[j], r), l, "Bulk:not as alone",
                       [id |-> Id(r)])

(* coherence: one average for each pair with any channel and each group    *)
TWfc(e) ==
  LET F == FilesOf(e.files)
      G == {<<g.n, g.s>> : g \in Good(F, e.net, e.sta)}
      want == {<<p[1], p[2], e.groups[k]>> : p \in G, k \in 1..Len(e.groups)}
      got == {<<e.av[i][1], e.av[i][2], e.av[i][3]>> : i \in 1..Len(e.av)}
  IN /\ Chk(e.err = "", l, "Wfc:error", [err |-> e.err])
     /\ Chk(want \subseteq got, l, "Wfc:missing", [n |-> want \ got])
     /\ Chk(got \subseteq want, l, "Wfc:not requested", [n |-> got \ want])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> TRUE
         [] e.ev = "Grid" -> TGrid(e)
         [] e.ev = "Find" -> TFind(e)
         [] e.ev = "Bulk" -> TBulk(e)
         [] e.ev = "Wfc" -> TWfc(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
=============================================================================
