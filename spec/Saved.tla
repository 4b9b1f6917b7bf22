------------------------------- MODULE Saved -------------------------------
(***************************************************************************)
(* Result objects and the archives (named arrays) they are saved as.       *)
(* An object has a header (field name -> value) and attributes (arrays,    *)
(* some of which may be None).  Both share the one name space of the       *)
(* archive.  Header values are scalars or sequences; each is kept as the   *)
(* only element of an array, except for times, which are kept one by one.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == [kind |-> "none", v |-> <<>>]
Scal(x) == [kind |-> "scalar", v |-> <<x>>]
Row(s) == [kind |-> "seq", v |-> s]

Encode(k, x, Times) ==
  IF k \in Times THEN [i \in 1..Len(x.v) |-> Scal(x.v[i])] ELSE <<x>>
(* in results the times of ListTimes are sequences, even of length one      *)
Decode(k, a, Times, ListTimes) ==
  IF k \in Times THEN
    IF Len(a) = 1 /\ k \notin ListTimes THEN a[1]
    ELSE Row([i \in 1..Len(a) |-> a[i].v[1]])
  ELSE a[1]

(* the archive of an object: attributes win over fields of the same name    *)
File(o, Times) ==
  LET A == {k \in DOMAIN o.att : o.att[k] # None}
  IN [k \in DOMAIN o.hdr \cup A |->
        IF k \in A THEN o.att[k].v ELSE Encode(k, o.hdr[k], Times)]

(* the object in an archive; Reserved names do not belong to the header     *)
Object(f, Reserved, Atts, Times, ListTimes) ==
  [hdr |-> [k \in {n \in DOMAIN f \ Reserved : Len(f[n]) > 0} |->
              Decode(k, f[k], Times, ListTimes)],
   att |-> [k \in Atts |->
              IF k \in DOMAIN f THEN [kind |-> "array", v |-> f[k]]
              ELSE None]]
=============================================================================
