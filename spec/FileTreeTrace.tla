---------------------------- MODULE FileTreeTrace ----------------------------
(* Recorded requests. have: runs of ticks that were stored (by file), in     *)
(* sequence; got: <<first tick, last tick, first value>> of runs of rising   *)
(* values; a stored sample has the value of its tick and channel.            *)
EXTENDS FileTree, TraceUtil
VARIABLE l

Read(e) ==
  LET want == Joined(Range(e.have))
      asked == Joined(Clip(Range(e.have), e.s, e.e))
      got == {<<r[1], r[2]>> : r \in Range(e.got)}
  IN /\ Chk(e.ok, l, "Read:failed", [err |-> e.err])
     /\ e.ok =>
       /\ Chk(\A r \in Range(e.got) : r[3] = r[1] + 100000 * e.channel, l,
              "Read:other data", [got |-> e.got, channel |-> e.channel])
       /\ Chk(Cardinality(got) = Len(e.got) /\ e.id, l,
              "Read:other channels", [got |-> e.got])
       /\ IF e.trim
          THEN Chk(got = asked, l, "Read:samples",
                   [got |-> got, want |-> asked, s |-> e.s, e |-> e.e])
          ELSE /\ Chk(\A r \in got : \E w \in want :
                        r[1] >= w[1] /\ r[2] <= w[2],
                      l, "Read:invented", [got |-> got])
               /\ Chk(\A w \in asked : \E r \in got :
                        r[1] <= w[1] /\ r[2] >= w[2],
                      l, "Read:lost", [got |-> got, want |-> asked])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Read" -> Read(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
