---------------------------- MODULE ArchiveTrace ----------------------------
(* Recorded histories of an archive. After every event the files are read  *)
(* with obspy and compared; the state then follows what was observed.      *)
EXTENDS Archive, Names, TraceUtil
VARIABLES l, st, invm, invd, env

Val(c, t) == ((c * 37 + t * 11) % 251) - 120
NChan == Len(env.chans)
C(i) == env.chans[i]
IdOf(i) == <<C(i).n, C(i).s, C(i).l, C(i).c>>

Pairs(i, S) == {<<t, Val(i, t)>> : t \in S}
AsSet(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
Times(s) == {s[k][1] : k \in 1..Len(s)}
Sorted(s) == \A k \in 1..Len(s) - 1 : s[k][1] < s[k + 1][1]

(* what was read is exactly S, in order, nothing twice                      *)
Exactly(out, i, S, what) ==
  /\ Chk(S \ Times(out) = {}, l, what \o ":samples missing",
         [missing |-> S \ Times(out), want |-> S])
  /\ Chk(Times(out) \ S = {}, l, what \o ":other samples",
         [extra |-> Times(out) \ S])
  /\ Chk(\A k \in 1..Len(out) : out[k][2] = Val(i, out[k][1]), l,
         what \o ":values", [out |-> out])
  /\ Chk(Sorted(out), l, what \o ":order", [times |-> [k \in 1..Len(out) |->
                                                        out[k][1]]])

(* -- the observed archive ------------------------------------------------ *)
Files(o, i) == SelectSeq(o.files, LAMBDA f : f.i = i)
Seen(o, i) == UNION {Times(Files(o, i)[k].x) : k \in 1..Len(Files(o, i))}
SeenInv(o) == {o.inv[k] : k \in 1..Len(o.inv)}
Legit(o) ==
  /\ Chk(\A k \in 1..Len(o.files) :
           LET f == o.files[k] IN
           /\ f.i > 0 /\ f.x # <<>>
           /\ Times(f.x) \subseteq DayOf(f.day, env.len)
           /\ Sorted(f.x), l, "Files:day", [f |-> o.files])
  /\ Chk(\A k \in 1..Len(o.files) : \A m \in 1..Len(o.files[k].x) :
           o.files[k].x[m][2] = Val(o.files[k].i, o.files[k].x[m][1]),
         l, "Files:values", [f |-> o.files])

(* want(i): what must be stored afterwards, may(i): what may be             *)
State(e, must(_), may(_), inv, may2) ==
  /\ Legit(e.obs)
  /\ Chk(\A i \in 1..NChan : must(i) \subseteq Seen(e.obs, i), l,
         e.ev \o ":stored samples lost",
         [lost |-> [i \in 1..NChan |-> must(i) \ Seen(e.obs, i)]])
  /\ Chk(\A i \in 1..NChan : Seen(e.obs, i) \subseteq may(i), l,
         e.ev \o ":stored samples invented",
         [new |-> [i \in 1..NChan |-> Seen(e.obs, i) \ may(i)]])
  /\ Chk(inv \subseteq SeenInv(e.obs) /\ SeenInv(e.obs) \subseteq may2, l,
         e.ev \o ":stored inventory",
         [got |-> e.obs.inv, want |-> inv])
Same(e) == State(e, LAMBDA i : st[i], LAMBDA i : st[i], invd, invd)

Follow(e) == /\ st' = [i \in 1..NChan |-> Seen(e.obs, i)]
             /\ invd' = SeenInv(e.obs)

(* -- fetching ------------------------------------------------------------- *)
Fetch(e) ==
  LET S == In(st[e.i], e.s, e.e)
      R == In({e.remote[k] : k \in 1..Len(e.remote)}, e.s, e.e)
  IN IF Covered(st[e.i], e.s, e.e, env.step) THEN
       /\ Chk(e.ok, l, "Fetch:local:failed", [err |-> e.err])
       /\ Chk(e.asked = <<>>, l, "Fetch:local data requested", [a |-> e.asked])
       /\ e.ok => Exactly(e.out, e.i, S, "Fetch:local")
       /\ e.ok => Chk(\A k \in 1..Len(e.resp) :
                        e.resp[k] = (e.i \in invm), l,
                      "Fetch:local:response", [resp |-> e.resp])
       /\ Same(e) /\ Follow(e) /\ UNCHANGED <<invm, env>>
     ELSE
       /\ Chk(e.asked = <<[i |-> e.i, s |-> e.s, e |-> e.e]>>, l,
              "Fetch:missing data requested", [a |-> e.asked])
       /\ IF e.mode = "nodata" \/ (e.mode = "fine" /\ R = {}) THEN
            /\ Chk(e.ok, l, "Fetch:no data:failed", [err |-> e.err])
            /\ e.ok => Chk(e.out = <<>>, l, "Fetch:no data", [o |-> e.out])
            /\ Same(e) /\ UNCHANGED invm
          ELSE IF e.mode = "broken"
                  \/ (e.mode = "noinv" /\ R # {} /\ e.i \notin invm) THEN
            /\ Chk(~e.ok, l, "Fetch:failure of the remote hidden", [x |-> 0])
            /\ Same(e) /\ UNCHANGED invm
          ELSE
            LET newinv == IF R # {} /\ e.i \notin invm THEN {e.i} ELSE {}
                disk == IF env.ro THEN invd ELSE invd \cup newinv
            IN
            /\ Chk({e.asked2[k] : k \in 1..Len(e.asked2)} = newinv, l, "Fetch:inventory requested",
                   [a |-> e.asked2, want |-> newinv])
            /\ invm' = invm \cup newinv
            /\ IF e.mode = "dies" /\ ~env.ro THEN
                 (* somewhere between two files                              *)
                 State(e, LAMBDA i : st[i],
                       LAMBDA i : IF i = e.i THEN st[i] \cup R ELSE st[i],
                       disk, disk)
               ELSE
                 /\ Chk(e.ok, l, "Fetch:failed", [err |-> e.err])
                 /\ e.ok => Chk(AsSet(e.out) = Pairs(e.i, R), l,
                                "Fetch:remote", [out |-> e.out, want |-> R])
                 /\ e.ok => Chk(\A k \in 1..Len(e.resp) : e.resp[k], l,
                                "Fetch:remote:response", [resp |-> e.resp])
                 /\ LET new(i) == IF i = e.i /\ ~env.ro THEN st[i] \cup R
                                  ELSE st[i]
                    IN State(e, new, new, disk, disk)
       /\ Follow(e) /\ UNCHANGED env

(* -- reading -------------------------------------------------------------- *)
Read(e) ==
  /\ Chk(e.ok, l, e.ev \o ":failed", [err |-> e.err])
  /\ e.ok => Exactly(e.out, e.i, In(st[e.i], e.s, e.e), e.ev)
Windows(e) ==
  LET n == IF e.e <= e.s THEN 0 ELSE (e.e - e.s + e.inc - 1) \div e.inc IN
  /\ Chk(e.ok, l, "Windows:failed", [err |-> e.err])
  /\ e.ok =>
     /\ Chk(Len(e.wins) = n, l, "Windows:number", [got |-> Len(e.wins),
                                                    want |-> n])
     /\ \A k \in 1..Len(e.wins) : Len(e.wins) = n =>
          Exactly(e.wins[k], e.i, In(st[e.i], e.s + (k - 1) * e.inc,
                 IF e.s + k * e.inc < e.e THEN e.s + k * e.inc ELSE e.e),
                  "Windows")

(* -- listings -------------------------------------------------------------- *)
Have == {i \in 1..NChan : st[i] # {}}
AsPairs(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
AsTriples(s) == {<<s[k][1], s[k][2], s[k][3]>> : k \in 1..Len(s)}
Stations(e) ==
  LET W == {<<C(i).n, C(i).s>> : i \in {j \in Have : Glob(e.net, C(j).n)}}
      G == AsPairs(e.out)
      (* empty directories of stations may be listed                        *)
      E == AsPairs(e.obs.empty)
  IN IF e.ok THEN
       /\ Chk(W \subseteq G /\ G \subseteq W \cup E, l, "Stations:listed",
              [got |-> e.out, want |-> W])
       /\ Chk(Cardinality(G) = Len(e.out), l, "Stations:twice",
              [got |-> e.out])
     ELSE Chk(W = {}, l, "Stations:failed", [err |-> e.err])
Channels(e) ==
  LET W == {<<C(i).n, C(i).s, C(i).c>> : i \in {j \in Have :
             /\ Glob(e.net, C(j).n) /\ Glob(e.sta, C(j).s)
             /\ Glob(<<63, 63>> \o e.comp, C(j).c)}}
  IN /\ Chk(e.ok, l, "Channels:failed", [err |-> e.err])
     (* a write that died may leave a channel's directory without files     *)
     /\ e.ok => Chk(/\ W \subseteq AsTriples(e.out)
                    /\ AsTriples(e.out) \subseteq W \cup AsTriples(e.obs.emptyc),
                    l, "Channels:listed", [got |-> e.out, want |-> W])
(* first and last day with a file of the station                            *)
Span(e) ==
  LET F == {k \in 1..Len(e.obs.files) :
             LET c == C(e.obs.files[k].i) IN c.n = e.net /\ c.s = e.sta}
      D == {e.obs.files[k].day : k \in F}
  IN /\ Chk(e.ok, l, "Times:failed", [err |-> e.err])
     /\ e.ok =>
        IF D = {} THEN Chk(e.out = <<>>, l, "Times:of nothing", [got |-> e.out])
        ELSE Chk(e.out = <<Min(D), Max(D) + 1>>, l, "Times:days",
                 [got |-> e.out, days |-> D])
(* the inventory of a station, from memory or the remote                    *)
Inventory(e) ==
  LET I == {i \in invm : C(i).n = e.net /\ C(i).s = e.sta}
      A == {i \in 1..NChan : C(i).n = e.net /\ C(i).s = e.sta}
      new == IF I = {} THEN A ELSE {}
      disk == IF env.ro THEN invd ELSE invd \cup new
  IN /\ Chk(e.ok, l, "Inventory:failed", [err |-> e.err])
     /\ Chk((e.nasked = 0) <=> (I # {}), l, "Inventory:requested",
            [n |-> e.nasked])
     /\ e.ok => Chk({e.out[k] : k \in 1..Len(e.out)} =
                    (IF I # {} THEN I ELSE A), l, "Inventory:channels",
                    [got |-> e.out, want |-> IF I # {} THEN I ELSE A])
     /\ invm' = invm \cup new
     /\ State(e, LAMBDA i : st[i], LAMBDA i : st[i], disk, disk)
     /\ Follow(e) /\ UNCHANGED env

Step(e) ==
  CASE e.ev = "Reset" ->
         /\ env' = [chans |-> e.chans, len |-> e.len, step |-> e.step,
                    ro |-> FALSE]
         /\ st' = [i \in 1..Len(e.chans) |-> {}]
         /\ invm' = {} /\ invd' = {}
    [] e.ev = "Open" ->
         /\ Chk(e.ok, l, "Open:failed", [err |-> e.err])
         /\ env' = [env EXCEPT !.ro = e.ro] /\ invm' = SeenInv(e.obs)
         /\ Same(e) /\ Follow(e)
    [] e.ev = "Empty" ->
         Same(e) /\ UNCHANGED <<st, invm, invd, env>>
    [] e.ev = "Fetch" -> Fetch(e)
    [] e.ev = "Inventory" -> Inventory(e)
    [] OTHER ->
         /\ CASE e.ev \in {"Local", "FS"} -> Read(e)
              [] e.ev = "Windows" -> Windows(e)
              [] e.ev = "Stations" -> Stations(e)
              [] e.ev = "Channels" -> Channels(e)
              [] e.ev = "Times" -> Span(e)
         /\ Same(e) /\ Follow(e) /\ UNCHANGED <<invm, env>>

TraceInit == /\ l = 1 /\ st = <<>> /\ invm = {} /\ invd = {}
             /\ env = [chans |-> <<>>, len |-> 1, step |-> 1, ro |-> FALSE]
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1
     THEN Done(Len(Trace)) /\ UNCHANGED <<st, invm, invd, env>>
     ELSE Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, invm, invd, env>>
=============================================================================
