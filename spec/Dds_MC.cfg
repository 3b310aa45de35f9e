SPECIFICATION Spec
CONSTANTS MaxSide = 9
 Mipss = {0, 1, 2, 4}
INVARIANTS SameBack ForcedBack Reported OnceMore Laid Shape
CHECK_DEADLOCK FALSE
