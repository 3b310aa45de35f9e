SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS RoundTrip Canonical
PROPERTY BadStays
CHECK_DEADLOCK FALSE
