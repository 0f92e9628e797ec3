CONSTANT W = 5
SPECIFICATION Spec
INVARIANTS Exact Decisive
CHECK_DEADLOCK FALSE
