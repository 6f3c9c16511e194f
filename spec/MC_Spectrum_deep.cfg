SPECIFICATION Spec
CONSTANTS MaxRows = 3
 MaxCols = 5
 V = {0, 1, 5}
 MaxPix = 8
INVARIANT Inv
