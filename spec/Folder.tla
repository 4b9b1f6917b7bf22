------------------------------- MODULE Folder -------------------------------
(***************************************************************************)
(* Averaging the results of a folder.  A file is a result (see Average)    *)
(* with the codes of both channels n1, s1, c1, n2, s2, c2, the channel     *)
(* part of its name (name) and whether it is readable (bad).               *)
(***************************************************************************)
EXTENDS Average

AVAUTO == <<97, 118, 45, 97, 117, 116, 111>>
AVXC == <<97, 118, 45, 120, 99>>
Out(method) == CASE method = "auto" -> AVAUTO
                 [] method = "xc" -> AVXC
                 [] OTHER -> AV
IsAvFile(f) == f.name \in {AV, AVAUTO, AVXC} \/ IsAverage(f)

Calls(f, method) ==
  LET same == f.n1 = f.n2 /\ f.s1 = f.s2
  IN ~IsAvFile(f) /\
     CASE method = "auto" -> same /\ f.c1 = f.c2
       [] method = "xc" -> same /\ f.c1 # f.c2
       [] method = "station" -> same
       [] method = "cross" -> ~same

PairOf(f) == <<f.net, f.sta>>
Pairs(F) == {PairOf(f) : f \in F}
Averaged(F, p, method) == \E f \in F : PairOf(f) = p /\ f.name = Out(method)
Members(F, p, method) ==
  {f \in F : PairOf(f) = p /\ Calls(f, method) /\ ~f.bad}
SameMethod(M) == \A f, g \in M : f.method = g.method
(* pairs of which an average is written *)
Writes(F, method) ==
  {p \in Pairs(F) : /\ ~Averaged(F, p, method)
                    /\ Cardinality(Members(F, p, method)) >= 2
                    /\ SameMethod(Members(F, p, method))}
=============================================================================
