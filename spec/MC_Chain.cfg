SPECIFICATION Spec
CONSTANTS Dirs = {1, 2}
 Versions = {0, 1, 2}
 MaxMade = 2
 MaxLen = 4
INVARIANT Inv
