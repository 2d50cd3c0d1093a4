CONSTANTS
  Curves <- QuickCurves
  Sigs <- QuickSigs
  MaxC = 3
  Third = TRUE
SPECIFICATION Spec
INVARIANTS Accumulated Group
CHECK_DEADLOCK FALSE
