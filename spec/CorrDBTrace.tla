---------------------------- MODULE CorrDBTrace ----------------------------
(* Validates recorded histories of the real database against CorrDB.       *)
(* Every event carries the call, its outcome and the projected content of  *)
(* the file after the call (read with plain h5py, not through the code     *)
(* under test).                                                            *)
EXTENDS CorrDB, TraceUtil

VARIABLE l
tvars == <<vars, l>>

Content(cs) == [k \in {[tag |-> c.tag, a |-> c.a, b |-> c.b, st |-> c.st,
                        et |-> c.et] : c \in Range(cs)} |->
                 (CHOOSE c \in Range(cs) :
                    /\ c.tag = k.tag /\ c.a = k.a /\ c.b = k.b
                    /\ c.st = k.st /\ c.et = k.et).v]

KeysOf(ks) == {[tag |-> c.tag, a |-> c.a, b |-> c.b, st |-> c.st,
                et |-> c.et] : c \in Range(ks)}

Diff(exp, got) ==
  [missing |-> DOMAIN exp \ DOMAIN got, extra |-> DOMAIN got \ DOMAIN exp,
   altered |-> {k \in DOMAIN exp \cap DOMAIN got : exp[k] # got[k]}]

(* the content after the call: the expected one, reported and replaced by  *)
(* the observed one if they differ                                         *)
Settle(e, exp) ==
  LET got == Content(e.content)
  IN /\ Chk(got = exp, l, e.ev \o ":content", Diff(exp, got))
     /\ db' = got

Leaf(c) == [leaves |-> Range(c.leaves), pre |-> c.pre]

TReset(e) == /\ db' = [k \in {} |-> 0] /\ co' = NoCo /\ sess' = Closed

TOpen(e) ==
  LET o == OpenOutcome(co, Leaf(e.co), e.hasco, e.mode, e.force)
  IN /\ Chk(e.ok = o.ok, l, IF o.ok THEN "Open:refused-although-compatible"
              ELSE "Open:accepted-although-different",
            [err |-> e.err, mode |-> e.mode, force |-> e.force,
             hasco |-> e.hasco])
     /\ sess' = IF e.ok THEN [open |-> TRUE, rw |-> o.rw] ELSE sess
     /\ Chk(e.filecoset => Norm(Leaf(e.fileco)) = o.co, l,
            "Open:recorded-parameters", [file |-> e.fileco])
     /\ Chk(e.unchanged, l, "Open:file-modified", [mode |-> e.mode])
     /\ co' = IF e.filecoset THEN Norm(Leaf(e.fileco)) ELSE o.co
     /\ Settle(e, db)

TClose(e) ==
  /\ sess' = Closed /\ UNCHANGED co
  /\ Chk(sess.rw \/ e.unchanged, l, "Close:read-only-modified", [x |-> 0])
  /\ Settle(e, db)

TAdd(e) ==
  LET d == Dups(db, e.tag, e.batch)
  IN /\ IF sess.rw
        THEN /\ Chk(e.ok, l, "Add:error", [err |-> e.err])
             /\ Chk(d = 0 <=> ~e.warned, l, "Add:warning", [dups |-> d])
             /\ Settle(e, AddOp(db, e.tag, e.batch))
        ELSE Settle(e, db)
     /\ UNCHANGED <<co, sess>>

TRemove(e) ==
  LET gone == Doomed(db, e.tag, e.a, e.b, e.pat)
  IN /\ IF sess.rw
        THEN /\ Chk(gone = {} \/ e.ok, l, "Remove:error", [err |-> e.err])
             /\ Settle(e, RemoveOp(db, e.tag, e.a, e.b, e.pat))
        ELSE Settle(e, db)
     /\ UNCHANGED <<co, sess>>

(* a query returns exactly what matches, as stored; where nothing matches, *)
(* an empty answer or a key error                                          *)
TGet(e) ==
  LET exp == Query(db, e.q)
      got == KeysOf(e.res)
  IN /\ IF exp = {}
        THEN Chk(got = {} /\ (e.ok \/ e.err = "KeyError"), l,
                 "Get:nothing-matches", [got |-> got, err |-> e.err])
        ELSE /\ Chk(e.ok, l, "Get:error", [err |-> e.err, expected |-> exp])
             /\ Chk(~e.ok \/ exp \subseteq got, l, "Get:missing",
                    [missing |-> exp \ got])
             /\ Chk(~e.ok \/ got \subseteq exp, l, "Get:extra",
                    [extra |-> got \ exp])
             /\ Chk(~e.ok \/ Len(e.res) = Cardinality(got), l,
                    "Get:repeated", [n |-> Len(e.res)])
     /\ Chk(\A c \in Range(e.res) :
              LET k == [tag |-> c.tag, a |-> c.a, b |-> c.b, st |-> c.st,
                        et |-> c.et]
              IN k \in DOMAIN db => c.v = db[k], l, "Get:altered", [x |-> 0])
     /\ UNCHANGED <<db, co, sess>>

TChannels(e) ==
  LET exp == Channels(db, e.tag, e.na, e.nb, e.sa, e.sb)
  IN /\ Chk(e.ok /\ Range(e.res) = exp /\ Len(e.res) = Cardinality(exp), l,
            "Channels", [exp |-> exp, err |-> e.err])
     /\ UNCHANGED <<db, co, sess>>

(* starts: a list of [ca, cb, starts] for the channels that match *)
TStarts(e) ==
  LET chans == {c \in Channels(db, e.tag, e.na, e.nb, e.sa, e.sb) :
                  \E p \in Range(e.pats) : Glob(p, Join(c[1], c[2]))}
      exp == {<<c[1], c[2], Starts(db, e.tag, e.na, e.nb, e.sa, e.sb,
                                   c[1], c[2])>> : c \in chans}
      got == {<<c.ca, c.cb, Range(c.starts)>> : c \in Range(e.res)}
  IN /\ IF exp = {}
        THEN Chk({x \in got : x[3] # {}} = {} /\ (e.ok \/ e.err = "KeyError"),
                 l, "Starts:nothing-matches", [got |-> got, err |-> e.err])
        ELSE Chk(e.ok /\ {x \in got : x[3] # {}} = exp, l, "Starts",
                 [exp |-> exp, got |-> got, err |-> e.err])
     /\ UNCHANGED <<db, co, sess>>

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= Len(Trace) + 1
  /\ l' = l + 1
  /\ UNCHANGED log
  /\ IF l = Len(Trace) + 1
     THEN Done(Len(Trace)) /\ UNCHANGED <<db, co, sess>>
     ELSE LET e == Trace[l] IN
       CASE e.ev = "Reset" -> TReset(e)
         [] e.ev = "Open" -> TOpen(e)
         [] e.ev = "Close" -> TClose(e)
         [] e.ev = "Add" -> TAdd(e)
         [] e.ev = "Remove" -> TRemove(e)
         [] e.ev = "Get" -> TGet(e)
         [] e.ev = "Channels" -> TChannels(e)
         [] e.ev = "Starts" -> TStarts(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
