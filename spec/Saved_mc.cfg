SPECIFICATION Spec
CONSTANTS
 Reserved = {"corr", "n_stat"}
 ListTimes = {"cs"}
INVARIANTS Faithful Fixpoint
CHECK_DEADLOCK FALSE
