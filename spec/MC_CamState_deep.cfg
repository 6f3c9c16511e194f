SPECIFICATION Spec
CONSTANTS MaxOps = 3
 MaxNoise = 1
INVARIANT Inv
