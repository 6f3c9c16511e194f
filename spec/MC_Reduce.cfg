SPECIFICATION Spec
CONSTANTS N = 3
 V = {0, 1, 255}
INVARIANT Inv
