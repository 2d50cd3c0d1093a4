CONSTANTS
  Octets = {0, 64, 255}
  MaxLen = 4
  MaxParts = 2
  Chars = {65, 66, 47, 45, 95, 43, 61, 10}
SPECIFICATION Spec
INVARIANTS RoundTrip Noticed Lossless Integers_
CHECK_DEADLOCK FALSE
