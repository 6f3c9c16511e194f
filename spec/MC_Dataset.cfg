SPECIFICATION Spec
CONSTANTS MaxSteps = 4
 Ls = {3, 4}
INVARIANT Inv
