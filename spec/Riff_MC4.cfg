SPECIFICATION Spec
CONSTANTS MaxChunks = 4 MaxData = 5
INVARIANTS Found Whole Told
PROPERTY Kept
CHECK_DEADLOCK FALSE
