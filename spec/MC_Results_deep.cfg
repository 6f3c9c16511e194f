SPECIFICATION Spec
CONSTANTS VS = {0, 1, 2, 3}
 VY = {1, 2, 14, 19, 20}
 NS = 7
 NY = 5
INVARIANT Inv
