CONSTANTS
  Readers = {r1, r2}
  Block = 3
  Most = 7
  Calls = 4
  Fault = "none"
SPECIFICATION Spec
INVARIANT OneStream
PROPERTY Over
CHECK_DEADLOCK FALSE
