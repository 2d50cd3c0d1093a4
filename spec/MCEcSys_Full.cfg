CONSTANTS
  Curves <- FullCurves
  Sigs <- FullSigs
  MaxC = 6
  Third = TRUE
SPECIFICATION Spec
INVARIANTS Accumulated Group
CHECK_DEADLOCK FALSE
