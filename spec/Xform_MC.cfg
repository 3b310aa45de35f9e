SPECIFICATION Spec
CONSTANTS Steps = 1
 Whole = TRUE
INVARIANTS Chain Place Same Lengths Hand Both Products Undone
CHECK_DEADLOCK FALSE
