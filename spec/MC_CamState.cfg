SPECIFICATION Spec
CONSTANTS MaxOps = 2
 MaxNoise = 1
INVARIANT Inv
