SPECIFICATION Spec
CONSTANTS MaxRows = 3
 MaxCols = 4
 V = {0, 1, 5}
 MaxPix = 6
INVARIANT Inv
