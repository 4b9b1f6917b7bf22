-------------------------------- MODULE Corr --------------------------------
(***************************************************************************)
(* A correlation project: what is in the database after a run.             *)
(*                                                                         *)
(* Times are integer seconds, sampling rate 1 Hz.  A channel is            *)
(*   [id, segs, x, d0, d]: its id [n, s, c], the recorded segments <<a, b>>*)
(*   (first and last sample), its non-zero samples <<t, v>>, and the same  *)
(*   as a sequence d of all samples from time d0 on.                       *)
(* The configuration cfg:                                                  *)
(*   start, inc, len  first read window, increment and length              *)
(*   ci, cl           increment and length of the correlation windows      *)
(*   S                lags to keep (samples to each side)                  *)
(*   recomb, dele     store stacks of read windows / no subdivisions       *)
(* A run: [end, method, hasx, xcombis, chans, subdiv].                     *)
(* Records are keyed [tag, a, b, st, et]; their value is a sparse vector:  *)
(* a function from sample index to the amplitude times 60.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Names

Rng(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

(* -- availability ------------------------------------------------------ *)
(* snippets of up to Short samples are dropped                              *)
Short == 80
Cut(segs, lo, hi) ==
  {<<Max2(s[1], lo), Min2(s[2], hi)>> : s \in
     {s \in segs : s[1] <= hi /\ s[2] >= lo}}

RECURSIVE Joined(_)
Joined(segs) ==
  LET adj == {p \in segs \X segs : p[1] # p[2] /\ p[1][1] <= p[2][1]
                                   /\ p[2][1] <= p[1][2] + 1}
  IN IF adj = {} THEN segs
     ELSE LET p == CHOOSE p \in adj : TRUE
          IN Joined((segs \ {p[1], p[2]}) \cup
                    {<<p[1][1], Max2(p[1][2], p[2][2])>>})

(* the data of a channel that are used from the range lo..hi *)
Snippets(ch, lo, hi) ==
  {s \in Joined(Cut(Rng(ch.segs), lo, hi)) : s[2] - s[1] + 1 > Short}

(* -- the schedule ------------------------------------------------------- *)
ReadStarts(cfg, run) ==
  {cfg.start + i * cfg.inc :
     i \in 0..Max2(0, CeilDiv(run.end - cfg.start, cfg.inc)) - 1}
WinStarts(cfg, r) == {r + j * cfg.ci : j \in 0..CeilDiv(cfg.len, cfg.ci) - 1}

(* the samples <<t, v>> that channel ch contributes to the window at s of  *)
(* the read window at r                                                    *)
Avail(cfg, run, ch, r, s) ==
  IF run.subdiv
  THEN Snippets(ch, Max2(s, r), Min2(s + cfg.cl - 1, r + cfg.len))
  ELSE Cut(Snippets(ch, r, r + cfg.len), s, s + cfg.cl - 1)
InSome(t, av) == \E s \in av : s[1] <= t /\ t <= s[2]
Sample(ch, t) == IF ch.d0 <= t /\ t < ch.d0 + Len(ch.d)
                 THEN ch.d[t - ch.d0 + 1] ELSE 0
(* [nz, f]: the non-zero samples and all samples (0 if missing) of s..e    *)
Used(ch, av, s, e) ==
  [nz |-> SelectSeq(ch.x, LAMBDA p : InSome(p[1], av)),
   f |-> TLCEval([t \in s..e |-> IF InSome(t, av) THEN Sample(ch, t)
                                 ELSE 0])]

(* the correlation: at lag k the sum over t of a(t) * b(t + k) *)
RECURSIVE LagSum(_, _, _, _, _, _)
LagSum(nz, i, g, k, lo, hi) ==
  IF i = 0 THEN 0
  ELSE LET u == nz[i][1] + k
       IN (IF lo <= u /\ u <= hi THEN nz[i][2] * g[u] ELSE 0)
          + LagSum(nz, i - 1, g, k, lo, hi)
CorrVec(cfg, xa, xb, s) ==
  LET e == s + cfg.cl - 1
      v == TLCEval([i \in 0..(2 * cfg.S) |->
                      60 * LagSum(xa.nz, Len(xa.nz), xb.f, i - cfg.S,
                                  s, e)])
  IN TLCEval([i \in {i \in 0..(2 * cfg.S) : v[i] # 0} |-> v[i]])

(* -- which pairs -------------------------------------------------------- *)
Last(c) == c[Len(c)]
SameStation(x, y) == x.n = y.n /\ x.s = y.s
XMatch(xc, x, y) ==
  /\ FieldMatch(xc.n1, x.n) /\ FieldMatch(xc.n2, y.n)
  /\ FieldMatch(xc.s1, x.s) /\ FieldMatch(xc.s2, y.s)
  /\ FieldMatch(xc.c1, x.c) /\ FieldMatch(xc.c2, y.c)
Requested(run, x, y) ==
  ~run.hasx \/ \E xc \in Rng(run.xcombis) : XMatch(xc, x, y)
                                            \/ XMatch(xc, y, x)
PairOk(run, x, y) ==
  CASE run.method = "betweenStations" ->
         ~SameStation(x, y) /\ Requested(run, x, y)
    [] run.method = "betweenComponents" ->
         SameStation(x, y) /\ Last(x.c) # Last(y.c)
    [] run.method = "autoComponents" -> x = y
    [] OTHER -> TRUE       \* all simple, all combinations
(* canonical, each unordered pair once *)
PairsOf(run, ids) ==
  {p \in ids \X ids : IdLeq(p[1], p[2]) /\ PairOk(run, p[1], p[2])}

ChanOf(run, id) == CHOOSE c \in Rng(run.chans) : c.id = id
RunIds(run) == {c.id : c \in Rng(run.chans)}

(* -- all subdivisions of a run ------------------------------------------ *)
SubKey(cfg, p, s) == [tag |-> "subdivision", a |-> p[1], b |-> p[2],
                      st |-> s, et |-> s + cfg.cl]

(* the windows of the schedule as pairs <<read start, window start>>; of   *)
(* overlapping read windows the first that has data for both               *)
Full(cfg, run) ==
  LET ids == RunIds(run)
      rw == {w \in ReadStarts(cfg, run) \X
               UNION {WinStarts(cfg, r) : r \in ReadStarts(cfg, run)} :
               w[2] \in WinStarts(cfg, w[1])}
      av == TLCEval([w \in rw |-> TLCEval([id \in ids |->
               Avail(cfg, run, ChanOf(run, id), w[1], w[2])])])
      us == TLCEval([w \in rw |-> TLCEval([id \in ids |->
               Used(ChanOf(run, id), av[w][id], w[2],
                    w[2] + cfg.cl - 1)])])
      has(p, w) == av[w][p[1]] # {} /\ av[w][p[2]] # {}
      wins == {w[2] : w \in rw}
      prs == PairsOf(run, ids)
      ok == {ps \in prs \X wins :
               \E w \in rw : w[2] = ps[2] /\ has(ps[1], w)}
      first(p, s) == CHOOSE w \in rw :
          /\ w[2] = s /\ has(p, w)
          /\ \A v \in rw : v[2] = s /\ has(p, v) => w[1] <= v[1]
      keys == {SubKey(cfg, ps[1], ps[2]) : ps \in ok}
  IN TLCEval([k \in keys |->
        LET p == <<k.a, k.b>>
            w == first(p, k.st)
        IN CorrVec(cfg, us[w][p[1]], us[w][p[2]], k.st)])

(* -- stacks --------------------------------------------------------------- *)
At(v, i) == IF i \in DOMAIN v THEN v[i] ELSE 0
(* the stack of the subdivisions sub (a set of keys of one pair) *)
StackKey(sub) ==
  LET k == CHOOSE k \in sub : TRUE
  IN [tag |-> "stack", a |-> k.a, b |-> k.b,
      st |-> Min({x.st : x \in sub}), et |-> Max({x.et : x \in sub})]
(* the sum over its members; the stack is this, scaled to a maximum of 1  *)
RECURSIVE SumAt(_, _)
SumAt(vs, i) == IF vs = {} THEN 0
                ELSE LET v == CHOOSE v \in vs : TRUE
                     IN At(v[2], i) + SumAt(vs \ {v}, i)
StackSum(content, sub) ==
  LET vs == {<<k, content[k]>> : k \in sub}
      idx == UNION {DOMAIN v[2] : v \in vs}
  IN TLCEval([i \in idx |-> SumAt(vs, i)])

(* the groups of subdivisions of `content` to be stacked: per pair and     *)
(* read window                                                             *)
Groups(cfg, run, content) ==
  LET subs == {k \in DOMAIN content : k.tag = "subdivision"}
      prs == {<<k.a, k.b>> : k \in subs}
  IN {g \in {{k \in subs : /\ k.a = p[1] /\ k.b = p[2]
                           /\ r <= k.st /\ k.st < r + cfg.len} :
               p \in prs, r \in ReadStarts(cfg, run)} : g # {}}

(* -- what a run may and must do ------------------------------------------- *)
Tol == 4
Abs(x) == IF x < 0 THEN -x ELSE x
CloseSub(v, w) ==
  \A i \in DOMAIN v \cup DOMAIN w : Abs(At(v, i) - At(w, i)) <= Tol
CloseStack(v, w) ==
  LET m == IF DOMAIN w = {} THEN 0 ELSE Max({Abs(w[i]) : i \in DOMAIN w})
  IN m = 0 \/ \A i \in DOMAIN v \cup DOMAIN w :
                 Abs(At(v, i) * m - 60 * At(w, i)) <= Tol * m

Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |->
                  IF k \in DOMAIN f THEN f[k] ELSE g[k]]

(* [must, may, val]: keys that must (may) be in the database after a       *)
(* complete run, and the value of each that is new                         *)
Expected(cfg, run, old) ==
  LET f == Full(cfg, run)
      new == TLCEval([k \in DOMAIN f \ DOMAIN old |-> f[k]])
      all == TLCEval(IF cfg.dele THEN f ELSE Merge(old, new))
      grp == TLCEval(IF cfg.recomb THEN Groups(cfg, run, all) ELSE {})
      prs == {<<k.a, k.b>> : k \in DOMAIN f}
      req == {g \in grp : \E k \in g : <<k.a, k.b>> \in prs}
      subs == IF cfg.dele THEN {} ELSE DOMAIN new
  IN [must |-> DOMAIN old \cup subs \cup {StackKey(g) : g \in req},
      may |-> DOMAIN old \cup subs \cup {StackKey(g) : g \in grp},
      subs |-> subs, all |-> all,
      grp |-> [k \in {StackKey(g) : g \in grp} |->
                 CHOOSE g \in grp : StackKey(g) = k]]
ValueOf(x, k) ==
  IF k.tag = "subdivision" THEN x.all[k] ELSE StackSum(x.all, x.grp[k])
ValueOk(x, k, v) ==
  IF k.tag = "subdivision" THEN CloseSub(v, ValueOf(x, k))
  ELSE CloseStack(v, ValueOf(x, k))
=============================================================================
