----------------------------- MODULE CorrRunGen -----------------------------
(* Random behaviours of CorrRun, to be replayed on the real Correlator: the *)
(* available data are drawn in a first step.                                *)
EXTENDS CorrRun, Randomization
VARIABLE drawn
GInit == /\ avail = {} /\ drawn = FALSE
         /\ subs = {} /\ stacks = {} /\ ex = {} /\ run = Idle /\ pc = 0
         /\ todo = {} /\ writes = 0 /\ log = <<>>
Draw == /\ ~drawn /\ drawn' = TRUE
        /\ \E n \in (Cardinality(Subs) \div 2)..Cardinality(Subs) :
             avail' = RandomSubset(n, Subs)
        /\ UNCHANGED <<subs, stacks, ex, run, pc, todo, writes, log>>
(* runs die at a tenth of the steps *)
GStep == \/ Start \/ WriteSub \/ WriteStack \/ NextRead \/ CompleteStack
         \/ Finish
         \/ (RandomElement(1..10) = 1 /\ Crash)
GNext == Draw \/ (drawn /\ GStep /\ UNCHANGED drawn)
GSpec == GInit /\ [][GNext]_<<vars, drawn>>
=============================================================================
