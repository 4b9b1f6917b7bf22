----------------------------- MODULE TraceUtil -----------------------------
(* Total verdicts for recorded traces: every failing clause of an event is *)
(* reported as a line BAD {...}; validation always runs to the end.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(l, clause, detail) ==
  PrintT("BAD " \o ToJson([l |-> l, clause |-> clause, detail |-> detail]))

(* the verdict on one clause; always TRUE, so that the trace goes on *)
Chk(ok, l, clause, detail) == IF ok THEN TRUE ELSE Report(l, clause, detail)

Done(n) == PrintT("DONE " \o ToJson([n |-> n]))
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
