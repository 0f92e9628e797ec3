CONSTANT W = 6
SPECIFICATION Spec
INVARIANTS Exact Decisive
CHECK_DEADLOCK FALSE
