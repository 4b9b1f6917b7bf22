------------------------------- MODULE Spectra -------------------------------
(***************************************************************************)
(* Spectrograms. Time is counted in ticks; a window has L ticks. Tick t of *)
(* the data has the code code[t] of its signal, is missing (0) or cannot   *)
(* be processed (-1). Data is read in blocks (both ends included), each by *)
(* one of several processes; in a block windows follow each other from the *)
(* first sample. A window has a column iff its block can be processed and  *)
(* all of its samples, including the one that closes it, exist.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Least(a, b) == IF a < b THEN a ELSE b

(* the increment blocks are read with: whole windows *)
Whole(inc, L) == (inc \div L) * L

(* number of blocks of a request from a up to e *)
Blocks(a, e, inc) == (e - a + inc - 1) \div inc
From(a, inc, i) == a + (i - 1) * inc
To(a, e, inc, i) == Least(a + i * inc, e)

There(code, t) == t \in DOMAIN code /\ code[t] # 0
Sound(code, t) == t \in DOMAIN code /\ code[t] > 0

(* first ticks of the windows of the block that has the ticks b up to c *)
Windows(code, b, c, L) ==
  LET A == {t \in b..c : There(code, t)} IN
  IF \E t \in A : ~Sound(code, t) THEN {}
  ELSE IF A = {} THEN {}
  ELSE LET f == Min(A) IN
       {t \in b..c : /\ t >= f /\ (t - f) % L = 0 /\ t + L <= c
                     /\ \A u \in t..(t + L) : There(code, u)}

Columns(code, a, e, inc, L) ==
  LET w == Whole(inc, L) IN
  UNION {Windows(code, From(a, w, i), To(a, e, w, i), L) :
         i \in 1..Blocks(a, e, w)}

(* the signals a column is made of *)
Members(code, t, L) == [k \in 1..L |-> code[t + k - 1]]
=============================================================================
