SPECIFICATION Spec
CONSTANTS V = {0, 1, 4, 9}
 QS = {1, 2, 3, 4, 9}
 N = 4
 F = 5
INVARIANT Inv
