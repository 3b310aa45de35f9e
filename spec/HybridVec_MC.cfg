SPECIFICATION Spec
CONSTANT Size = 3
CONSTANT Max = 4
CONSTANT Limit = 4
INVARIANT Shows
INVARIANT Outside
PROPERTY Kept
PROPERTY Alone
CHECK_DEADLOCK FALSE
