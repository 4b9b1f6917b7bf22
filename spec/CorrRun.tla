------------------------------ MODULE CorrRun ------------------------------
(***************************************************************************)
(* The resumable run as an algorithm: pairs (one file each) are written    *)
(* one read window after the other; within a read window the new           *)
(* subdivisions of a pair are written one at a time, then their stack.     *)
(* A run may die between any two writes and the files of a read window     *)
(* may be written in any interleaving (parallel processes).  What existed  *)
(* when the run started (ex) is left out.  Read windows with older         *)
(* correlations are stacked after the run.                                 *)
(* Resumed = FALSE is the algorithm without that last step; it violates    *)
(* StackComplete.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Pairs, NRead, NSub, MaxRuns, Resumed

VARIABLES avail,   \* subdivisions <<p, r, k>> for which there are data
          subs,    \* stored subdivisions
          stacks,  \* stored stacks <<p, r, members>>
          ex,      \* stored subdivisions when the run started
          run,     \* [sel, end]: selected pairs, number of read windows
          pc,      \* 0 idle, 1..NRead read window, NRead + 1 final stacks
          todo,    \* pairs of this read window that are not written yet
          writes,  \* number of writes in this run
          log
vars == <<avail, subs, stacks, ex, run, pc, todo, writes, log>>

Subs == Pairs \X (1..NRead) \X (1..NSub)
In(S, p, r) == {x \in S : x[1] = p /\ x[2] = r}
Idle == [sel |-> {}, end |-> 0]

Init == /\ avail \in SUBSET Subs
        /\ subs = {} /\ stacks = {} /\ ex = {} /\ run = Idle /\ pc = 0
        /\ todo = {} /\ writes = 0 /\ log = <<>>

Start == /\ pc = 0 /\ Len(log) < MaxRuns
         /\ \E sel \in SUBSET Pairs \ {{}}, e \in 1..NRead :
              /\ run' = [sel |-> sel, end |-> e] /\ todo' = sel
              /\ log' = Append(log, [sel |-> sel, end |-> e, crash |-> 0])
         /\ ex' = subs /\ pc' = 1 /\ writes' = 0
         /\ UNCHANGED <<avail, subs, stacks>>

(* what is missing of pair p in read window r *)
New(p, r) == In(avail, p, r) \ ex
StackNow(p, r) == /\ New(p, r) # {}
                  /\ Resumed => In(ex, p, r) = {}
HasStack(p, r, m) == <<p, r, m>> \in stacks

WriteSub == /\ pc \in 1..run.end
            /\ \E p \in todo : \E x \in New(p, pc) \ subs :
                 /\ \A y \in New(p, pc) \ subs : x[3] <= y[3]
                 /\ subs' = subs \cup {x}
            /\ writes' = writes + 1
            /\ UNCHANGED <<avail, stacks, ex, run, pc, todo, log>>
(* the stack, then this file is done *)
WriteStack == /\ pc \in 1..run.end
              /\ \E p \in todo :
                   /\ New(p, pc) \subseteq subs
                   /\ todo' = todo \ {p}
                   /\ stacks' = IF StackNow(p, pc)
                                THEN stacks \cup {<<p, pc, New(p, pc)>>}
                                ELSE stacks
                   /\ writes' = writes + (IF stacks' # stacks THEN 1 ELSE 0)
              /\ UNCHANGED <<avail, subs, ex, run, pc, log>>
NextRead == /\ pc \in 1..run.end /\ todo = {}
            /\ pc' = IF pc < run.end THEN pc + 1 ELSE NRead + 1
            /\ todo' = IF pc < run.end THEN run.sel ELSE {}
            /\ UNCHANGED <<avail, subs, stacks, ex, run, writes, log>>
(* read windows that held something before and whose stack is missing *)
Incomplete == {pr \in run.sel \X (1..run.end) :
                 /\ In(ex, pr[1], pr[2]) # {}
                 /\ ~HasStack(pr[1], pr[2], In(subs, pr[1], pr[2]))}
CompleteStack ==
  /\ pc = NRead + 1 /\ Resumed
  /\ \E pr \in Incomplete :
       stacks' = stacks \cup {<<pr[1], pr[2], In(subs, pr[1], pr[2])>>}
  /\ writes' = writes + 1
  /\ UNCHANGED <<avail, subs, ex, run, pc, todo, log>>
Finish == /\ pc = NRead + 1 /\ (Resumed => Incomplete = {})
          /\ pc' = 0 /\ UNCHANGED <<avail, subs, stacks, ex, run, todo,
                                    writes, log>>
Crash == /\ pc > 0
         /\ pc' = 0 /\ todo' = {} /\ run' = Idle
         /\ log' = [log EXCEPT ![Len(log)].crash = writes + 1]
         /\ UNCHANGED <<avail, subs, stacks, ex, writes>>

Next == Start \/ WriteSub \/ WriteStack \/ NextRead \/ CompleteStack
        \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

(* a stack holds all subdivisions of its read window that have data *)
StackComplete == \A s \in stacks : s[3] = In(avail, s[1], s[2])
OnlyData == subs \subseteq avail
(* after a run that was not interrupted nothing is missing *)
Complete == pc = 0 /\ run.sel # {} =>
  \A p \in run.sel, r \in 1..run.end :
     /\ In(avail, p, r) \subseteq subs
     /\ In(avail, p, r) # {} => HasStack(p, r, In(avail, p, r))
(* nothing that is stored is computed again or removed *)
Monotone == [][subs \subseteq subs' /\ stacks \subseteq stacks']_vars
NoRecompute == [][\A x \in subs' \ subs : x \notin ex]_vars

Emit == pc = 0 /\ Len(log) = MaxRuns =>
          PrintT("GEN " \o ToJson([log |-> log, avail |-> avail]))
=============================================================================
