CONSTANTS N = 5
 Kd = "cs"
SPECIFICATION Spec
INVARIANTS WellFormed Laws
CHECK_DEADLOCK FALSE
