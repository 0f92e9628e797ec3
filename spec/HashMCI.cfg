INIT MInit
NEXT MNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Objs = {1, 2, 3}
  KeyOf <- KeysDef
  HashOf <- HashDef
  Mode = 2
  Counts <- CountsInc
  Salts = {0}
