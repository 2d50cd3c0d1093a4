SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Seeds = {1, 2}
  MaxDraws = 4
  MaxActs = 7
  Source = "stretched"
  Keep = FALSE
INVARIANTS Unique Unpredictable Enough
CHECK_DEADLOCK FALSE
