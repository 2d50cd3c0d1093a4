SPECIFICATION GenSpec
CONSTANTS
  Pick <- One
  Objects <- MCObjects
  KeyLists <- MCKeyLists
  Headers <- MCHeaders
  Payloads = {"a", "b"}
  MaxObj = 2
  MaxTok = 4
  MaxCalls = 12
  Honest <- MCHonest
INVARIANTS Authenticity PayloadOfToken NoneOnlyIfAllowed PinsHold KidHolds FirstFitting RoundTrip DocAuthentic HistoryFree
CHECK_DEADLOCK FALSE
