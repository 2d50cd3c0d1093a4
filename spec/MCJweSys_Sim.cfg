SPECIFICATION GenSpec
CONSTANTS
  Pick <- One
  Objects <- MCObjects
  KeyLists <- MCKeyLists
  Headers <- MCHeaders
  Mats <- MCMats
  Payloads = {"a", "b"}
  MaxObj = 2
  MaxTok = 5
  MaxCalls = 12
  Honest <- MCHonest
  Reuse = FALSE
INVARIANTS Integrity SharedKeyAuthentic OnCurve FreshSecrets Secrecy KidHolds FirstFitting RoundTrip HistoryFree
CHECK_DEADLOCK FALSE
