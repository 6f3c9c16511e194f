SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  MaxTests = 3
  MaxPlots = 2
