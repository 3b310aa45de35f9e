SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3}
CONSTANT Threads = {1, 2}
INVARIANT Once
INVARIANT Right
INVARIANT Done
CHECK_DEADLOCK FALSE
