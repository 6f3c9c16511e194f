SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3, 4, 5, 6, 7}
 Arrs = TRUE
 MaxFigs = 2
INVARIANT Inv
