CONSTANTS Objs = {1, 2, 3, 4, 5}
  KeyOf <- KeysDef
  Uniq = TRUE
INIT GInit
NEXT GNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
