SPECIFICATION Spec
CONSTANTS Data = {1, 2}
 Args = {1, 2}
 MaxObjs = 2
 MaxLen = 6
INVARIANT Inv
