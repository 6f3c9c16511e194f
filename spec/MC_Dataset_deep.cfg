SPECIFICATION Spec
CONSTANTS MaxSteps = 7
 Ls = {3, 4, 5, 8}
INVARIANT Inv
