SPECIFICATION Spec
CONSTANTS
  NameHash <- Toy
  Vals = {0, 8192, 65535}
  Steps = 3
INVARIANTS AtEnd
PROPERTIES LoadedRight OneObject
CHECK_DEADLOCK FALSE
