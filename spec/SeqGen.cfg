CONSTANTS Objs = {1, 2, 3, 4}
  KeyOf <- KeysDef
  AutoUnlink = FALSE
INIT GInit
NEXT GNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
