SPECIFICATION Spec
CONSTANTS V = {0, 1, 4, 5, 9}
 QS = {1, 2, 3, 4, 5, 9, 20}
 N = 5
 F = 5
INVARIANT Inv
