SPECIFICATION Spec
CONSTANTS V = {0, 1, 5}
 N = 2
INVARIANT Inv
