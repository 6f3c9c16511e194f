SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  MaxTests = 4
  MaxPlots = 3
