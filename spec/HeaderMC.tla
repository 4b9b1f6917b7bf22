------------------------------ MODULE HeaderMC ------------------------------
(* All histories of a few assignments on two headers, one a copy.           *)
(* The header is modelled with stored derived fields that are refreshed on  *)
(* assignment, as an implementation does it; the invariants are the         *)
(* property.  Refresh is the set of fields whose assignment refreshes.      *)
EXTENDS Header, TLC, FiniteSets
CONSTANTS Slots, Refresh
VARIABLES h, d

Fields == {"delta", "start_lag", "npts", "corr_start", "corr_end"}
Vals(f) == CASE f = "delta" -> {0, 250000, 1000000}
             [] f = "start_lag" -> {-500000, 0}
             [] f = "npts" -> {0, 1, 3}
             [] f = "corr_start" -> {0, 5}
             [] f = "corr_end" -> {0, 9}
Derive(x) == [end_lag |-> EndLag(x), endtime |-> x.ce, starttime |-> x.cs]
Init == /\ h = [s \in Slots |-> Default]
        /\ d = [s \in Slots |-> Derive(Default)]
Set(s, f, v) ==
  /\ h' = [h EXCEPT ![s] = Assign(@, f, v)]
  /\ d' = IF f \in Refresh THEN [d EXCEPT ![s] = Derive(h'[s])] ELSE d
Copy(s, t) == /\ h' = [h EXCEPT ![t] = h[s]]
              /\ d' = [d EXCEPT ![t] = d[s]]
Next == \/ \E s \in Slots, f \in Fields : \E v \in Vals(f) : Set(s, f, v)
        \/ \E s, t \in Slots : s # t /\ Copy(s, t)
Spec == Init /\ [][Next]_<<h, d>>
Consistent == \A s \in Slots : d[s] = Derive(h[s])
=============================================================================
