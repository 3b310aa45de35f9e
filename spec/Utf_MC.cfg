SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS RoundTrip Canonical
PROPERTY BadStays
CHECK_DEADLOCK FALSE
