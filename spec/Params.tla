------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Processing parameters.  A parameter set is [leaves, pre]:               *)
(*   leaves: set of <<path, value>> for every leaf of the nested options   *)
(*   pre:    sequence of <<function, arguments>>, the stream processing    *)
(* Norm keeps what influences the result.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Bookkeeping ==
  {"subdir", "read_start", "read_end", "read_len", "read_inc",
   "combination_method", "combinations", "starttime", "xcombinations",
   "preprocess_subdiv", "allow_different_params",
   "corr_args.combinations", "subdivision.recombine_subdivision",
   "subdivision.delete_subdivision"}
MaskFn == "seismic.correlate.preprocessing_stream.stream_mask_at_utc"

Norm(c) == [leaves |-> {x \in c.leaves : x[1] \notin Bookkeeping},
            pre |-> SelectSeq(c.pre, LAMBDA s : s[1] # MaskFn)]
NoCo == [leaves |-> {}, pre |-> <<>>]
=============================================================================
