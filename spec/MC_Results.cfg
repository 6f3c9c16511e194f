SPECIFICATION Spec
CONSTANTS VS = {0, 1, 2}
 VY = {1, 2, 14, 19, 20}
 NS = 6
 NY = 4
INVARIANT Inv
