SPECIFICATION Spec
CONSTANTS MaxPat = 5
 MaxSize = 11
 Vals = {0, 1, 3, 5, 6, 8}
 MaxArr = 5
INVARIANT Inv
