----------------------------- MODULE SavedTrace -----------------------------
(* Recorded histories of saving, loading and damaging result files. Saved  *)
(* shows that an archive can keep an object exactly; here the disk keeps    *)
(* the objects themselves.                                                  *)
EXTENDS Names, TraceUtil, Integers, FiniteSets
VARIABLES l, mem, disk

Bad == [kind |-> "bad", hdr |-> [x |-> "x"], att |-> [x |-> "x"]]
IsPattern(p) == \E i \in 1..Len(p) : p[i] \in {42, 63}

Diff(a, b) == {k \in DOMAIN a \cup DOMAIN b :
                 IF k \in DOMAIN a /\ k \in DOMAIN b THEN a[k] # b[k] ELSE TRUE}
Show(a, D) == [k \in D \cap DOMAIN a |-> a[k]]
Same(got, want, what) ==
  LET H == Diff(got.hdr, want.hdr) A == Diff(got.att, want.att) IN
  /\ Chk(got.kind = want.kind, l, what \o ":kind", [got |-> got.kind])
  /\ Chk(H = {}, l, what \o ":" \o want.kind \o ":header",
         [got |-> Show(got.hdr, H), want |-> Show(want.hdr, H)])
  /\ Chk(A = {}, l, what \o ":" \o want.kind \o ":attributes",
         [got |-> Show(got.att, A), want |-> Show(want.att, A)])

Count(s, o) == Cardinality({i \in 1..Len(s) : s[i] = o})

Load(e) ==
  LET M == {p \in DOMAIN disk : Glob(e.pat, p)}
      G == {p \in M : disk[p] # Bad}
  IN IF ~IsPattern(e.pat) THEN
       IF e.pat \in G THEN
         /\ Chk(e.ok, l, "Load:failed", [err |-> e.err])
         /\ e.ok => /\ Chk(e.single /\ Len(e.out) = 1, l, "Load:one object",
                           [n |-> Len(e.out)])
                    /\ Len(e.out) = 1 => Same(e.out[1], disk[e.pat], "Load")
       ELSE Chk(~e.ok, l, "Load:no such result", [n |-> Len(e.out)])
     ELSE IF e.kind = "DV" /\ G = {} THEN
       Chk(~e.ok, l, "Load:nothing matches", [n |-> Len(e.out)])
     ELSE IF e.kind # "DV" /\ M # G THEN TRUE
     ELSE
       /\ Chk(e.ok, l, "Load:failed", [err |-> e.err])
       /\ e.ok =>
          /\ Chk(~e.single /\ Len(e.out) = Cardinality(G), l,
                 "Load:number of results",
                 [got |-> Len(e.out), want |-> Cardinality(G)])
          /\ Chk(\A i \in 1..Len(e.out) :
                   Count(e.out, e.out[i]) =
                   Cardinality({p \in G : disk[p] = e.out[i]}), l,
                 "Load:results", [n |-> Len(e.out)])

Update(e) ==
  CASE e.ev = "Reset" -> mem' = [x \in {} |-> 0] /\ disk' = [x \in {} |-> 0]
    [] e.ev = "Make" -> mem' = (e.slot :> e.o) @@ mem /\ UNCHANGED disk
    [] e.ev = "Save" ->
         /\ Chk(e.ok, l, "Save:failed", [err |-> e.err])
         /\ Same(e.o, mem[e.slot], "Save")
         /\ disk' = (IF e.ok THEN (e.path :> mem[e.slot]) @@ disk ELSE disk)
         /\ UNCHANGED mem
    [] e.ev = "Damage" -> disk' = (e.path :> Bad) @@ disk /\ UNCHANGED mem
    [] e.ev = "Load" -> Load(e) /\ UNCHANGED <<mem, disk>>

TraceInit == l = 1 /\ mem = [x \in {} |-> 0] /\ disk = [x \in {} |-> 0]
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace)) /\ UNCHANGED <<mem, disk>>
     ELSE Update(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mem, disk>>
=============================================================================
