SPECIFICATION Spec
CONSTANTS MaxChunks = 3 MaxData = 4
INVARIANTS Found Whole Told
PROPERTY Kept
CHECK_DEADLOCK FALSE
