SPECIFICATION Spec
CONSTANT MaxBlocks = 3
INVARIANTS Back SameLength Injective SelfHealing
PROPERTY Prefix
CHECK_DEADLOCK FALSE
