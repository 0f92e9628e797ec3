CONSTANTS N = 5
 Kd = "cl"
SPECIFICATION Spec
INVARIANTS WellFormed Laws
CHECK_DEADLOCK FALSE
