------------------------------ MODULE CorrTrace ------------------------------
(* Validates recorded runs of the real Correlator against Corr.            *)
EXTENDS Corr, TraceUtil

VARIABLES l, cfg, content
tvars == <<l, cfg, content>>

KeyOf(c) == [tag |-> c.tag, a |-> c.a, b |-> c.b, st |-> c.st, et |-> c.et]
Vec(c) == [i \in {p[1] : p \in Rng(c.nz)} |->
             (CHOOSE p \in Rng(c.nz) : p[1] = i)[2]]
Content(cs) ==
  TLCEval([k \in {KeyOf(c) : c \in Rng(cs)} |->
     Vec(CHOOSE c \in Rng(cs) : KeyOf(c) = k)])

Show(ks) == IF Cardinality(ks) <= 3 THEN ks
            ELSE CHOOSE s \in {{a, b} : a, b \in ks} : Cardinality(s) = 2

TRun(e) ==
  \* bound by quantifiers, so that they are evaluated once
  \E got \in {Content(e.content)}, x \in {Expected(cfg, e, content)} :
  LET old == content
      add == DOMAIN got \ DOMAIN old
      att == {KeyOf(a) : a \in {a \in Rng(e.attempts) :
                                  a.tag = "subdivision"}}
      natt == Len(SelectSeq(e.attempts, LAMBDA a : a.tag = "subdivision"))
      wrong == {k \in add \cap x.may : ~ValueOk(x, k, got[k])}
      badkind == {c \in Rng(e.content) : KeyOf(c) \in x.may /\
                    ~(c.lag0 = -1000 * cfg.S /\ c.npts = 2 * cfg.S + 1)}
  IN /\ Chk(e.ok \/ e.crash, l, "Run:error", [err |-> e.err, msg |-> e.msg])
     /\ Chk(Len(e.content) = Cardinality(DOMAIN got), l, "Run:stored-twice",
            [n |-> Len(e.content)])
     /\ Chk(DOMAIN old \subseteq DOMAIN got, l, "Run:lost",
            [lost |-> Show(DOMAIN old \ DOMAIN got)])
     /\ Chk(\A k \in DOMAIN old \cap DOMAIN got : got[k] = old[k], l,
            "Run:altered",
            [altered |-> Show({k \in DOMAIN old \cap DOMAIN got :
                                 got[k] # old[k]})])
     /\ Chk(DOMAIN got \subseteq x.may, l, "Run:extra",
            [extra |-> Show(DOMAIN got \ x.may)])
     /\ Chk(e.crash \/ ~e.ok \/ x.must \subseteq DOMAIN got, l,
            "Run:missing", [missing |-> Show(x.must \ DOMAIN got)])
     /\ Chk(wrong = {}, l, "Run:wrong-data",
            [keys |-> Show(wrong),
             got |-> IF wrong = {} THEN <<>>
                     ELSE LET k == CHOOSE k \in Show(wrong) : TRUE
                          IN <<k, got[k], ValueOf(x, k)>>])
     /\ Chk(badkind = {}, l, "Run:lag-axis", [n |-> Cardinality(badkind)])
     /\ Chk(\A c \in Rng(e.content) :
                 c.hdr /\ (c.finite \/ c.tag = "stack"), l,
            "Run:incomplete-record", [x |-> 0])
     /\ Chk(att \cap DOMAIN old = {}, l, "Run:recomputed",
            [keys |-> Show(att \cap DOMAIN old)])
     \* that method computes both orders of a pair and stores one
     /\ Chk(\/ cfg.inc < cfg.len
            \/ natt = Cardinality(att)
            \/ /\ e.method = "allCombinations"
               /\ natt <= 2 * Cardinality(att), l,
            "Run:computed-twice", [n |-> natt, m |-> Cardinality(att)])
     /\ content' = got /\ UNCHANGED cfg

TraceInit == l = 1 /\ cfg = [x |-> 0] /\ content = <<>>
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ IF l = Len(Trace) + 1
     THEN Done(Len(Trace)) /\ UNCHANGED <<cfg, content>>
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> cfg' = e.cfg /\ content' = <<>>
         [] e.ev = "Run" -> TRun(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
