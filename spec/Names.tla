------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Codes (network, station, channel, ...) are sequences of character codes *)
(* so that the specification itself can compare and match them.            *)
(* A channel id is a record [n, s, c].  The canonical order of the two     *)
(* members of a correlation compares network, then station, then channel.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE LexLeq(_, _)
LexLeq(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLeq(Tail(a), Tail(b))

IdLeq(x, y) ==
  IF x.n # y.n THEN LexLeq(x.n, y.n)
  ELSE IF x.s # y.s THEN LexLeq(x.s, y.s)
  ELSE LexLeq(x.c, y.c)

(* the canonical order of a pair: the smaller id first *)
Canon(x, y) == IF IdLeq(x, y) THEN <<x, y>> ELSE <<y, x>>
Swapped(x, y) == ~IdLeq(x, y)

(* whole-field wildcard "*" (42), exact otherwise *)
Star == <<42>>
FieldMatch(pat, val) == pat = Star \/ pat = val

(* a shell pattern with "*" and "?" (63) against a code *)
RECURSIVE Glob(_, _)
Glob(pat, val) ==
  IF pat = <<>> THEN val = <<>>
  ELSE IF pat[1] = 42
       THEN \/ Glob(Tail(pat), val)
            \/ val # <<>> /\ Glob(pat, Tail(val))
  ELSE /\ val # <<>>
       /\ (pat[1] = 63 \/ pat[1] = val[1])
       /\ Glob(Tail(pat), Tail(val))

Dash == <<45>>
Join(a, b) == a \o Dash \o b
=============================================================================
