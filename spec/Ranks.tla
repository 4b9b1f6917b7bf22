-------------------------------- MODULE Ranks --------------------------------
(***************************************************************************)
(* A run on P parallel processes: every process reads its share of the     *)
(* channels, all exchange what they have with collective operations for    *)
(* every correlation window, share the work on traces and pairs and write  *)
(* the files of a read window, each its own.  A collective completes when  *)
(* all have entered it; entering different ones is a deadlock.             *)
(*                                                                         *)
(* data[c][w]: whether channel c has data in read window w ("ok", "none")  *)
(* or data that cannot be processed ("bad").                               *)
(* Mode "all": every process goes through all windows whatever its data.   *)
(* Modes "local" and "fail" leave out windows without own data and the     *)
(* rest of a read window after a failure; they deadlock.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxP, Chans, W, K, Mode

VARIABLES p, data, pos, at, st, out, epoch, written
vars == <<p, data, pos, at, st, out, epoch, written>>

(* the process that handles item i (from 0) of n *)
Owner(i, n, np) == (i * np) \div n
Items(r, n, np) == {i \in 0..(n - 1) : Owner(i, n, np) = r}
Ranks == 0..(p - 1)
Mine(r) == {c \in 1..Chans : Owner(c - 1, Chans, p) = r}

Partition ==
  \A n \in 1..9, np \in 1..9 :
    /\ \A i \in 0..(n - 1) : Owner(i, n, np) \in 0..(np - 1)
    /\ \A r, q \in 0..(np - 1) : r # q =>
          Items(r, n, np) \cap Items(q, n, np) = {}
    /\ UNION {Items(r, n, np) : r \in 0..(np - 1)} = 0..(n - 1)
ASSUME Partition

Ops == <<"gather", "combis", "spectra", "correlations", "share">>
Init == /\ p \in 1..MaxP
        /\ data \in [1..Chans -> [1..W -> {"ok", "none", "bad"}]]
        /\ pos = [r \in 0..(p - 1) |-> [w |-> 0, k |-> 0, op |-> 1]]
        /\ at = [r \in 0..(p - 1) |-> <<>>]     \* the collective it waits in
        /\ st = [r \in 0..(p - 1) |-> {}]       \* channels read
        /\ out = {}
        /\ epoch = [r \in 0..(p - 1) |-> 0]
        /\ written = {}                         \* <<rank, epoch, file>>

Ok(w) == {c \in 1..Chans : data[c][w] = "ok"}
NWin(r, w) ==
  CASE Mode = "local" -> IF \E c \in Mine(r) : data[c][w] = "ok"
                         THEN K ELSE 0
    [] Mode = "fail" -> IF \E c \in Mine(r) : data[c][w] = "bad"
                        THEN 0 ELSE K
    [] OTHER -> K
Done(r) == pos[r].w > W

(* read the next read window and write the results of the last one *)
Read(r) ==
  /\ at[r] = <<>> /\ ~Done(r)
  /\ IF pos[r].w = 0 THEN TRUE ELSE pos[r].k > NWin(r, pos[r].w)
  /\ LET w == pos[r].w + 1
         files == {f \in 1..Chans : f \in Ok(w - 1)}
     IN /\ pos' = [pos EXCEPT ![r] = [w |-> w, k |-> 1, op |-> 1]]
        /\ st' = [st EXCEPT ![r] = IF w > W THEN {} ELSE Mine(r) \cap Ok(w)]
        /\ written' = IF w = 1 \/ Ok(w - 1) = {} THEN written
                      ELSE written \cup
                           {<<r, epoch[r], f>> : f \in Mine(r) \cap files}
  /\ UNCHANGED <<p, data, at, out, epoch>>
Enter(r) ==
  /\ at[r] = <<>> /\ ~Done(r) /\ pos[r].w > 0
  /\ pos[r].k <= NWin(r, pos[r].w)
  /\ at' = [at EXCEPT ![r] = <<Ops[pos[r].op]>>]
  /\ UNCHANGED <<p, data, pos, st, out, epoch, written>>
(* all have entered the same collective *)
Complete ==
  /\ \A r \in Ranks : at[r] # <<>> /\ at[r] = at[0]
  /\ LET all == UNION {st[r] : r \in Ranks}
         op == pos[0].op
         skip == op = 2 /\ all = {}
     IN /\ pos' = [r \in Ranks |->
                     IF op = Len(Ops) \/ skip
                     THEN [pos[r] EXCEPT !.k = @ + 1, !.op = 1]
                     ELSE [pos[r] EXCEPT !.op = @ + 1]]
        /\ out' = IF op = 4 THEN out \cup {<<pos[0].w, pos[0].k, c>> : c \in all}
                  ELSE out
  /\ at' = [r \in Ranks |-> <<>>]
  /\ epoch' = [r \in Ranks |-> epoch[r] + 1]
  /\ UNCHANGED <<p, data, st, written>>
Next == Complete \/ \E r \in Ranks : Read(r) \/ Enter(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

End == \A r \in Ranks : Done(r)
NoDeadlock == ~ENABLED Next => End
(* nobody waits for processes that cannot come any more *)
Together == \A r, q \in Ranks : at[r] # <<>> => ~Done(q)
Same == \A r, q \in Ranks : at[r] # <<>> /\ at[q] # <<>> => at[r] = at[q]
(* the result of any number of processes is that of one *)
Result == End => out = {x \in (1..W) \X (1..K) \X (1..Chans) : x[3] \in Ok(x[1])}
NoRace == \A x, y \in written : x[2] = y[2] /\ x[3] = y[3] => x[1] = y[1]
Terminates == <>End
=============================================================================
