CONSTANT Scenarios <- JwsOnly
SPECIFICATION Spec
INVARIANT RoundTrip Noticed SenderOk
CHECK_DEADLOCK FALSE
