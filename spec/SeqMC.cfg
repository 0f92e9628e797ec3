CONSTANTS Objs = {1, 2, 3, 4}
  KeyOf <- KeysDef
  AutoUnlink = TRUE
INIT MInit
NEXT MNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
