CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS Wf Disjoint Laws
CHECK_DEADLOCK FALSE
