SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Exclusive NoDups Sorted Unique Local Conserved
CHECK_DEADLOCK FALSE
