------------------------------ MODULE SavedMC ------------------------------
(***************************************************************************)
(* Histories of saving, overwriting and loading small results.  What is    *)
(* loaded is the object that was last saved under the name, whatever its   *)
(* optional parts are; saving leaves the object alone.                     *)
(* With Reserved not holding every attribute ("n_stat"), arrays of the     *)
(* object turn up in its header, and with ListTimes empty a result of one  *)
(* window has a single time: both variants are refuted.                    *)
(***************************************************************************)
EXTENDS Saved, TLC
CONSTANTS Reserved, ListTimes
VARIABLES mem, disk, ghost, depth

Times == {"cs"}
Atts == {"corr", "n_stat"}
Paths == {"p", "q"}
Slots == {1, 2}
Objects == {[hdr |-> h, att |-> a] :
  h \in {[net |-> n, cs |-> c, loc |-> l] :
          n \in {Scal(1), Scal(2)}, c \in {Row(<<5>>), Row(<<5, 6>>)},
          l \in {Scal(3), Row(<<>>), Row(<<3>>), Row(<<3, 4>>)}},
  a \in [{"corr"} -> {[kind |-> "array", v |-> <<Scal(7)>>],
                      [kind |-> "array", v |-> <<Scal(7), Scal(8)>>]}]}
Full == UNION {{[hdr |-> o.hdr, att |-> [corr |-> o.att["corr"], n_stat |-> n]] :
          n \in {None, o.att["corr"]}} : o \in Objects}
Some == {o \in Full : Len(o.hdr["cs"].v) = Len(o.att["corr"].v)}

Init == /\ mem \in [Slots -> Some] /\ mem[2].hdr["net"] = Scal(2)
        /\ mem[1].hdr["net"] = Scal(1)
        /\ disk = [p \in {} |-> 0] /\ ghost = [p \in {} |-> 0] /\ depth = 0
Save(s, p) == /\ disk' = (p :> File(mem[s], Times)) @@ disk
              /\ ghost' = (p :> mem[s]) @@ ghost
              /\ UNCHANGED mem
Load(s, p) == /\ p \in DOMAIN disk
              /\ mem' = [mem EXCEPT ![s] =
                   Object(disk[p], Reserved, Atts, Times, ListTimes)]
              /\ UNCHANGED <<disk, ghost>>
Next == /\ depth < 4 /\ depth' = depth + 1
        /\ \E s \in Slots, p \in Paths : Save(s, p) \/ Load(s, p)
Spec == Init /\ [][Next]_<<mem, disk, ghost, depth>>

Faithful == \A p \in DOMAIN disk :
  Object(disk[p], Reserved, Atts, Times, ListTimes) = ghost[p]
(* saving what was loaded yields the same archive                           *)
Fixpoint == \A p \in DOMAIN disk :
  File(Object(disk[p], Reserved, Atts, Times, ListTimes), Times) = disk[p]
=============================================================================
