SPECIFICATION Spec
CONSTANTS MaxPat = 3
 MaxSize = 5
 Vals = {0, 1, 3, 5, 8}
 MaxArr = 3
INVARIANT Inv
