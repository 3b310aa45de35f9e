SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Holds1 FromStart OneWriter ToldApart
CHECK_DEADLOCK FALSE
