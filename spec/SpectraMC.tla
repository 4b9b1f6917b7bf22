------------------------------ MODULE SpectraMC ------------------------------
(***************************************************************************)
(* Several processes read the blocks of a spectrogram and send what they   *)
(* have to the first. Modes other than "right": blocks that go on beyond   *)
(* the requested end, increments that are no whole windows, gaps that      *)
(* count as data, a first process without windows of its own that fails,   *)
(* and results in the order of the processes.                              *)
(***************************************************************************)
EXTENDS Spectra, TLC, SequencesExt
CONSTANTS N, L, MaxP, Mode

VARIABLES code, a, e, inc, p, next, have, sent, result
vars == <<code, a, e, inc, p, next, have, sent, result>>

W == IF Mode = "remainder" THEN inc ELSE Whole(inc, L)
NB == Blocks(a, e, W)
(* the data as it is taken *)
Seen == IF Mode = "masked" THEN [t \in 0..N |-> IF code[t] = 0 /\ t > 0 /\ t < N
                                               THEN 9 ELSE code[t]]
        ELSE code
UpTo(i) == IF Mode = "beyond" THEN Least(From(a, W, i) + W, N)
           ELSE To(a, e, W, i)

Init == /\ code \in [0..N -> {-1, 0, 1}]
        /\ Cardinality({t \in 0..N : code[t] = -1}) <= 1
        /\ a \in 0..2 /\ e \in (a + 1)..N
        /\ inc \in L..(2 * L + 1)
        /\ p \in 1..MaxP
        /\ next = [r \in 1..p |-> r]
        /\ have = [r \in 1..p |-> <<>>]
        /\ sent = {} /\ result = <<>>
Read(r) == /\ r \notin sent /\ next[r] <= NB
           /\ have' = [have EXCEPT ![r] = @ \o SetToSortSeq(Windows(
                 Seen, From(a, W, next[r]), UpTo(next[r]), L), <)]
           /\ next' = [next EXCEPT ![r] = @ + p]
           /\ UNCHANGED <<code, a, e, inc, p, sent, result>>
Send(r) == /\ r \notin sent /\ next[r] > NB
           /\ sent' = sent \cup {r}
           /\ UNCHANGED <<code, a, e, inc, p, next, have, result>>
RECURSIVE All(_)
All(r) == IF r = 0 THEN <<>> ELSE All(r - 1) \o have[r]
Collect == /\ sent = 1..p /\ result = <<>>
           /\ result' = << IF Mode = "root" /\ have[1] = <<>> THEN <<>>
                           ELSE IF Mode = "order" THEN All(p)
                           ELSE SortSeq(All(p), <) >>
           /\ UNCHANGED <<code, a, e, inc, p, next, have, sent>>
Next == (\E r \in 1..p : Read(r) \/ Send(r)) \/ Collect
Spec == Init /\ [][Next]_vars

C == Columns(code, a, e, inc, L)
Right == result # <<>> => result[1] = SetToSortSeq(C, <)
(* windows lie within the request and do not overlap *)
Within == \A t \in C : t >= a /\ t + L <= e
Apart == \A t, u \in C : t = u \/ t + L <= u \/ u + L <= t
(* only data: no column touches missing or unsound ticks *)
Data == \A t \in C : \A u \in t..(t + L) : code[u] > 0
(* without gaps the result does not depend on how the data was read *)
Free == (\A t \in a..e : code[t] = 1) =>
        C = {t \in a..e : (t - a) % L = 0 /\ t + L <= e}
=============================================================================
