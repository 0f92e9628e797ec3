CONSTANTS Objs = {1, 2, 3, 4, 5}
  KeyOf <- KeysDef
  Uniq = FALSE
INIT MInit
NEXT MNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
