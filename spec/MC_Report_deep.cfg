SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  Folders = {"f1", "f2"}
  Combos = {"d1/a1", "d2/a1"}
  MaxReports = 2
  MaxLen = 6
