CONSTANTS
  Octets = {0, 1, 63, 64, 128, 251, 255}
  MaxLen = 2
  MaxParts = 2
  Chars = {65, 66, 47, 45, 95, 43, 61, 10}
SPECIFICATION Spec
INVARIANTS RoundTrip Noticed Lossless Integers_
CHECK_DEADLOCK FALSE
