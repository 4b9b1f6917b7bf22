------------------------------ MODULE FolderMC ------------------------------
(***************************************************************************)
(* Histories of averaging a small folder by all methods, with results      *)
(* appearing in between: no file is a member of two averages of one        *)
(* method, averages are never members, and running again writes nothing    *)
(* new.                                                                    *)
(***************************************************************************)
EXTENDS Folder, TLC
VARIABLES F, made

Net == <<1>>
F0(n, s1, s2, c1, c2) ==
  [net |-> n, sta |-> <<s1, s2>>, cha |-> <<c1, c2>>, name |-> <<c1, c2>>,
   n1 |-> 1, n2 |-> 1, s1 |-> s1, s2 |-> s2, c1 |-> c1, c2 |-> c2,
   method |-> "m", bad |-> FALSE]
All == {F0(Net, s, t, c, d) : s, t \in {1, 2}, c, d \in {1, 2}}
Cand == {f \in All : f.s1 <= f.s2 /\ (f.s1 = f.s2 => f.c1 <= f.c2)}
AvOf(p, method) ==
  [net |-> p[1], sta |-> p[2], cha |-> AV, name |-> Out(method),
   n1 |-> 0, n2 |-> 0, s1 |-> 0, s2 |-> 0, c1 |-> 0, c2 |-> 0,
   method |-> "m", bad |-> FALSE]
Methods == {"auto", "xc", "station", "cross"}

Init == F \in SUBSET Cand /\ made = {}
Run(m) ==
  LET W == Writes(F, m) IN
  /\ made' = made \cup {[p |-> p, m |-> m, of |-> Members(F, p, m)] : p \in W}
  /\ F' = F \cup {AvOf(p, m) : p \in W}
Next == \E m \in Methods : Run(m)
Spec == Init /\ [][Next]_<<F, made>>

Single == \A a, b \in made :
  a # b /\ a.m = b.m => a.p # b.p /\ a.of \cap b.of = {}
Pure == \A a \in made : \A f \in a.of : PairOf(f) = a.p /\ ~IsAvFile(f)
Stable == \A a \in made : a.p \notin Writes(F, a.m)
(* auto and intercomponent results together are those of the station        *)
Parts == \A p \in Pairs(F) :
  Members(F, p, "auto") \cup Members(F, p, "xc") = Members(F, p, "station")
=============================================================================
