SPECIFICATION Spec
CONSTANT NB = 2
INVARIANTS Complete Unique Agree Counted
CHECK_DEADLOCK FALSE
