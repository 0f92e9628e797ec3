CONSTANTS N = 5
 Kd = "ls"
SPECIFICATION Spec
INVARIANTS WellFormed Laws
CHECK_DEADLOCK FALSE
