INIT GInit
NEXT GNext
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS Objs = {1, 2, 3, 4}
  KeyOf <- KeysDef
  HashOf <- HashDef
  Mode = 3
  Counts <- CountsFm
  Salts = {0, 1}
