CONSTANTS
  Readers = {r1, r2}
  Block = 3
  Most = 7
  Calls = 4
  Fault = "drop"
SPECIFICATION Spec
INVARIANT OneStream

CHECK_DEADLOCK FALSE
