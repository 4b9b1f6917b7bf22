----------------------------- MODULE SpectraTrace -----------------------------
(* Recorded spectrograms of data whose ticks have signals of known frequency. *)
EXTENDS Spectra, TraceUtil
VARIABLE l

Code(e) == [t \in 0..(Len(e.code) - 1) |-> e.code[t + 1]]
RECURSIVE Rising(_, _)
Rising(s, k) == IF k >= Len(s) THEN TRUE
                ELSE s[k] < s[k + 1] /\ Rising(s, k + 1)
(* power[c], in thousandths of the largest, is high for the signals of the   *)
(* window and low for all others                                              *)
Made(e, t, power) ==
  LET m == Members(Code(e), t, e.L) IN
  \A c \in 1..Len(power) :
    LET k == Cardinality({i \in 1..e.L : m[i] = c}) IN
    IF k = 0 THEN power[c] <= 60 ELSE power[c] >= 100

Spectrum(e) ==
  LET C == Columns(Code(e), e.a, e.e, e.inc, e.L)
      T == Range(e.times)
  IN /\ Chk(e.ok = (C # {}), l, IF e.ok THEN "Spectrum:not refused"
                                ELSE "Spectrum:failed", [err |-> e.err])
     /\ Chk(e.none, l, "Spectrum:result on another process", [p |-> e.p])
     /\ e.ok =>
          /\ Chk(Rising(e.times, 1), l, "Spectrum:order", e.times)
          /\ Chk(T \subseteq C, l, "Spectrum:invented windows",
                 [times |-> T \ C])
          /\ Chk(C \subseteq T, l, "Spectrum:lost windows",
                 [times |-> C \ T])
          /\ Chk(e.axis, l, "Spectrum:frequencies", [n |-> Len(e.times)])
          /\ \A k \in 1..Len(e.times) :
               e.times[k] \in C =>
                 Chk(Made(e, e.times[k], e.power[k]), l,
                     "Spectrum:other data", [t |-> e.times[k],
                                            power |-> e.power[k]])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
          CASE e.ev = "Reset" -> TRUE
            [] e.ev = "Spectrum" -> Spectrum(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
