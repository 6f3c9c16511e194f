SPECIFICATION Spec
CONSTANTS N = 3
 V = {0, 1, 2, 254, 255}
INVARIANT Inv
