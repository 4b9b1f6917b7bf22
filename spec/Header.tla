------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* Correlation headers.  A header is a record                              *)
(*  [dt, lag0, npts, cs, ce, net, sta, loc, cha, extra]                    *)
(* dt: sampling interval in us (0: rate 0), lag0 in us, cs/ce in s, cha a  *)
(* sequence of two channel codes, extra a set of <<name, value>>.  Several *)
(* headers live in slots; each action works on one slot.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Default == [dt |-> 1000000, lag0 |-> 0, npts |-> 0, cs |-> 0, ce |-> 0,
            net |-> <<>>, sta |-> <<>>, loc |-> <<>>, cha |-> <<<<>>>>,
            extra |-> {}]

(* derived fields *)
EndLag(h) == h.lag0 + (IF h.npts = 0 THEN 0 ELSE (h.npts - 1) * h.dt)

(* op: [f, v] - an assignment to one field *)
Assign(h, f, v) ==
  CASE f = "delta" -> [h EXCEPT !.dt = v]
    [] f = "rate" -> [h EXCEPT !.dt = v]
    [] f = "start_lag" -> [h EXCEPT !.lag0 = v]
    [] f = "npts" -> [h EXCEPT !.npts = v]
    [] f = "corr_start" -> [h EXCEPT !.cs = v]
    [] f = "corr_end" -> [h EXCEPT !.ce = v]
    [] f = "network" -> [h EXCEPT !.net = v]
    [] f = "station" -> [h EXCEPT !.sta = v]
    [] f = "location" -> [h EXCEPT !.loc = v]
    [] f = "channel" -> [h EXCEPT !.cha = v]
    [] f = "component" ->
         [h EXCEPT !.cha = [i \in 1..2 |->
            SubSeq(h.cha[i], 1, Len(h.cha[i]) - 1) \o v[i]]]
    [] f = "extra" -> [h EXCEPT !.extra =
            {x \in h.extra : x[1] # v[1]} \cup {v}]

(* end_lag, endtime and starttime can not be assigned *)
ReadOnly == {"end_lag", "endtime", "starttime"}

RECURSIVE AssignAll(_, _)
AssignAll(h, ops) ==
  IF ops = <<>> THEN h
  ELSE AssignAll(IF ops[1].f \in ReadOnly THEN h
                 ELSE Assign(h, ops[1].f, ops[1].v), Tail(ops))
=============================================================================
