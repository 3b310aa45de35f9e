SPECIFICATION Spec
CONSTANT Objects = {1, 2, 3, 4, 5}
CONSTANT Handles = {1, 2}
INVARIANT OneOwner
INVARIANT NoDangling
CHECK_DEADLOCK FALSE
