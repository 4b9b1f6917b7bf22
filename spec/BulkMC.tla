------------------------------- MODULE BulkMC -------------------------------
(***************************************************************************)
(* All sequences of operations on a small matrix: a sample is always that  *)
(* of its row and lag (value 1000 * token + lag; a mirrored one is the     *)
(* mean of two of them), and the header fits the shape.                    *)
(***************************************************************************)
EXTENDS Bulk, TLC
CONSTANTS MaxRows, HalfCols
VARIABLES B, mirrored

Val(t, k) == 1000 * t + k
Row(t) == [cs |-> 10 * t, ce |-> 10 * t + 15, loc |-> t, cha |-> t]
Start(n, a, b) ==
  [rows |-> [i \in 1..n |-> Row(i)], lag |-> a, dt |-> 1, ncol |-> b - a + 1,
   data |-> [i \in 1..n |-> [c \in 1..(b - a + 1) |-> Val(i, a + c - 1)]]]

Init == /\ mirrored = FALSE
        /\ \E n \in 1..MaxRows, a \in -HalfCols..0, b \in 1..HalfCols :
             B = Start(n, a, b)
Times == {x * 5 : x \in 1..(2 * MaxRows + 4)}

(* the mirrored matrix (means of integers stay exact: doubled samples) *)
Mirrored ==
  [B EXCEPT !.lag = 0, !.ncol = MirrorLen(B),
     !.data = [r \in 1..NRow(B) |-> [k \in 1..MirrorLen(B) |->
        LET S == MirrorOf(B, r, k - 1) IN Sum(S) \div Len(S)]]]
Next ==
  \/ \E s \in -HalfCols..HalfCols, e \in -HalfCols..HalfCols :
       TrimDefined(B, s, e) /\ B' = Trim(B, s, e) /\ UNCHANGED mirrored
  \/ \E s \in Times, e \in Times, p \in BOOLEAN :
       s < e /\ B' = Slice(B, s, e, p) /\ UNCHANGED mirrored
  \/ \E s \in Times, e \in Times, p \in BOOLEAN :
       s < e /\ B' = SelectCorr(B, s, e, p) /\ UNCHANGED mirrored
  \/ \E R \in SUBSET (1..NRow(B)) :
       B' = Take(B, SetToSortSeq(R, <)) /\ UNCHANGED mirrored
  \/ NRow(B) > 1 /\ B' = Take(B, Reverse([i \in 1..NRow(B) |-> i]))
     /\ UNCHANGED mirrored
  \/ HasBoth(B) /\ B' = Mirrored /\ mirrored' = TRUE
Spec == Init /\ [][Next]_<<B, mirrored>>

Shape == /\ Len(B.data) = NRow(B)
         /\ \A r \in 1..NRow(B) : Len(B.data[r]) = B.ncol
         /\ B.ncol >= 1
Provenance ==
  \A r \in 1..NRow(B) : LET t == B.rows[r].loc IN
    /\ B.rows[r] = Row(t)
    /\ \A c \in 1..B.ncol :
         B.data[r][c] \in (IF mirrored
           THEN {Val(t, 0), Val(t, Lag(B, c)), Val(t, -Lag(B, c))}
           ELSE {Val(t, Lag(B, c))})
(* a partial slice contains the full one, and disjoint bins share nothing *)
Bins ==
  \A s \in Times, m \in Times, e \in Times : s < m /\ m < e =>
    LET S == <<s, m>> E == <<m, e>>
        a == ToSet(BinRows(B, S, E, 1)) b == ToSet(BinRows(B, S, E, 2))
    IN /\ a \cap b = {}
       /\ a \cup b = ToSet(BinRows(B, <<s>>, <<e>>, 1))
Slices ==
  \A s \in Times, e \in Times : s < e =>
    ToSet(Slice(B, s, e, FALSE).rows) \subseteq ToSet(Slice(B, s, e, TRUE).rows)
=============================================================================
