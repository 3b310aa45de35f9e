SPECIFICATION Spec
CONSTANTS MaxSide = 17
 Mipss = {0, 1, 3, 5}
INVARIANTS SameBack ForcedBack Reported OnceMore Laid Shape
CHECK_DEADLOCK FALSE
