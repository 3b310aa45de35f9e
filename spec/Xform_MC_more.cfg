SPECIFICATION Spec
CONSTANTS Steps = 2
 Whole = FALSE
INVARIANTS Chain Place Same Lengths Hand Both Products Undone
CHECK_DEADLOCK FALSE
