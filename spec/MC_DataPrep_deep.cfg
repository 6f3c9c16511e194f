SPECIFICATION Spec
CONSTANTS V = {0, 3}
 N = 3
INVARIANT Inv
