SPECIFICATION Spec
CONSTANT MaxBlocks = 5
INVARIANTS Back SameLength Injective SelfHealing
PROPERTY Prefix
CHECK_DEADLOCK FALSE
