------------------------------ MODULE CorrDBMC ------------------------------
(* constants for exhaustive checking and behaviour generation *)
EXTENDS CorrDB, Json
\* A.X and A.XA: one station code is a prefix of the other
McTags == {<<84>>}
McIds == {[n |-> <<65>>, s |-> <<88>>, c |-> <<90>>],
          [n |-> <<65>>, s |-> <<88, 65>>, c |-> <<90>>]}
McTimes == {<<48, 48>>, <<48, 49>>}
OneId == {[n |-> <<65>>, s |-> <<88>>, c |-> <<90>>]}
OneTime == {<<48, 48>>}
McEnds == {<<49>>}
\* two relevant settings, each also with other bookkeeping and a mask
McCo(v, w, pre) == [leaves |-> {<<"sampling_rate", v>>, <<"subdir", w>>},
                    pre |-> pre]
McMask == <<MaskFn, "x">>
McStep == <<"detrend", "y">>
McCos == {McCo("1", "d", <<McStep>>), McCo("1", "e", <<McMask, McMask, McStep>>),
          McCo("2", "d", <<McStep>>), McCo("1", "d", <<McStep, McStep>>)}

\* codes with shared prefixes, two networks, several components
Chs == {<<72, 90>>, <<72, 69>>}
GenIds == {[n |-> <<65>>, s |-> <<83, 49>>, c |-> c] : c \in Chs}
     \cup {[n |-> <<65>>, s |-> <<83, 49, 48>>, c |-> c] : c \in Chs}
     \cup {[n |-> <<65, 66>>, s |-> <<83>>, c |-> c] : c \in Chs}
GenTags == {<<115>>, <<115, 116>>}
GenTimes == {<<48, 48>>, <<48, 49>>, <<49, 48>>}
Emit == Len(log) = MaxLog => PrintT("GEN " \o ToJson(log))
=============================================================================
