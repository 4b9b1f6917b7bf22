---------------------------- MODULE StacksTrace ----------------------------
EXTENDS Stacks, TraceUtil
VARIABLE l

Abs(x) == IF x < 0 THEN -x ELSE x
In(e) == Range(e.in)
Toks(T) == {t.tok : t \in T}
Same(e, want, what) ==
  LET got == Range(e.res)
  IN /\ Chk(got \subseteq Toks(want), l, what \o ":extra", got \ Toks(want))
     /\ Chk(Toks(want) \subseteq got, l, what \o ":missing",
            Toks(want) \ got)
     /\ Chk(Len(e.res) = Cardinality(got), l, what \o ":twice", e.res)

(* of identical correlations (equal token) one remains *)
TDup(e) ==
  /\ Chk(Range(e.res) = {t.tok : t \in In(e)}, l, "Duplicates:lost", e.res)
  /\ Chk(Len(e.res) = Cardinality(Range(e.res)), l, "Duplicates:left", e.res)

TSlide(e) ==
  LET T == In(e)
      s == IF e.hass THEN e.s ELSE Earliest(T)
      x == IF e.hase THEN e.e ELSE Latest(T)
      refused == e.step <= 0 \/ \E t \in T : t.ce - t.cs > e.len
      want == Slide(T, e.len, e.step, e.partial, s, x)
  IN IF refused THEN Chk(~e.ok, l, "Slide:accepted", [x |-> 0])
     ELSE /\ Chk(e.ok, l, "Slide:failed", [err |-> e.err])
          /\ Chk([i \in 1..Len(e.wins) |-> Range(e.wins[i])] =
                 [i \in 1..Len(want) |-> Toks(want[i])], l, "Slide:windows",
                 [got |-> e.wins, want |-> [i \in 1..Len(want) |-> Toks(want[i])]])

(* one stack r of the correlations G *)
ValueOk(r, G, weight, norm) ==
  LET n == Len(r.v)
      D == [i \in 1..n |-> SumW(G, i, weight)]
      W == [i \in 1..n |-> SumV(G, i, weight)]
      data == {i \in 1..n : D[i] > 0}
      (* the sample with the largest value *)
      m == CHOOSE i \in data : \A j \in data :
                 Abs(W[i]) * D[j] >= Abs(W[j]) * D[i]
      wm == IF norm THEN Abs(W[m]) ELSE 1
      dm == IF norm THEN D[m] ELSE 1
  IN \A i \in 1..n :
       IF i \notin data \/ wm = 0 THEN r.v[i] = NaN
       ELSE /\ r.v[i] # NaN
            /\ Abs(r.v[i] * D[i] * wm - 10000 * W[i] * dm)
                 <= 2 * D[i] * wm

StackOk(r, G, weight, norm) ==
  /\ Len(r.v) = Len((CHOOSE t \in G : TRUE).v)
  /\ \E t \in G : r.id = t.id /\ r.loc = t.loc
  /\ r.cs = Min({t.cs : t \in G})
  /\ r.ce = Max({t.ce : t \in G})
  /\ r.lags
Label(G, regard) == [k |-> KeyOf(CHOOSE t \in G : TRUE, regard),
                     cs |-> Min({t.cs : t \in G}),
                     ce |-> Max({t.ce : t \in G})]
RLabel(r, regard) == [k |-> KeyOf(r, regard), cs |-> r.cs, ce |-> r.ce]

TStack(e) ==
  LET T == In(e)
      s == IF e.hass THEN e.s ELSE Earliest(T)
      x == IF e.hase THEN e.e ELSE Latest(T)
      G == IF e.single THEN {T}
           ELSE StackGroups(T, e.len, e.daily, s, x, e.regard)
      want == {Label(g, e.regard) : g \in G}
      got == {RLabel(e.stacks[i], e.regard) : i \in 1..Len(e.stacks)}
  IN IF ~e.ok THEN Chk(FALSE, l, "Stack:failed", [err |-> e.err])
     ELSE
     /\ Chk(want = got, l, "Stack:labels",
            [missing |-> want \ got, extra |-> got \ want])
     /\ Chk(Len(e.stacks) = Cardinality(G), l, "Stack:count",
            [got |-> Len(e.stacks), want |-> Cardinality(G)])
     /\ \A i \in 1..Len(e.stacks) :
          LET r == e.stacks[i]
              mine == {g \in G : Label(g, e.regard) = RLabel(r, e.regard)}
          IN \A g \in mine :
               /\ Chk(StackOk(r, g, e.weight, e.norm), l, "Stack:header",
                      [r |-> r])
               /\ Chk(Len(r.v) = Len((CHOOSE t \in g : TRUE).v)
                      /\ ValueOk(r, g, e.weight, e.norm), l, "Stack:values",
                      [r |-> r, g |-> g])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1 THEN Done(Len(Trace))
     ELSE LET e == Trace[l] IN
       IF e.ev = "Reset" THEN TRUE
       ELSE /\ Chk(e.unchanged, l, e.ev \o ":input changed", [x |-> 0])
            /\ CASE e.ev = "Corr" -> Same(e, SelectCorr(
                         In(e), e.s, e.e, e.partial), "SelectCorr")
                 [] e.ev = "Tod" -> Same(e, SelectTod(
                         In(e), e.s, e.e, e.exclude), "SelectTime")
                 [] e.ev = "Pop" -> Same(e, Pop(In(e), Range(e.utcs)), "Pop")
                 [] e.ev = "Dup" -> TDup(e)
                 [] e.ev = "Slide" -> TSlide(e)
                 [] e.ev = "Stack" -> TStack(e)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
