SPECIFICATION Spec
CONSTANTS MaxNodes = 4
INVARIANTS RoundTrip Chosen Encoded Marked
CHECK_DEADLOCK FALSE
