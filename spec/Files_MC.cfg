SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Holds1 FromStart OneWriter ToldApart
CHECK_DEADLOCK FALSE
