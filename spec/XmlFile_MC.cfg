SPECIFICATION Spec
CONSTANTS MaxNodes = 3
INVARIANTS RoundTrip Chosen Encoded Marked
CHECK_DEADLOCK FALSE
