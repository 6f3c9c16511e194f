SPECIFICATION Spec
CONSTANTS Vals = {1, 4, 6}
 Arrs = FALSE
 MaxFigs = 2
INVARIANT Inv
