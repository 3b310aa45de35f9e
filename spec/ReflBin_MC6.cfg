SPECIFICATION Spec
CONSTANTS
  NameHash <- Toy
  Vals = {63, 65535}
  Steps = 6
INVARIANTS AtEnd
PROPERTIES LoadedRight OneObject
CHECK_DEADLOCK FALSE
