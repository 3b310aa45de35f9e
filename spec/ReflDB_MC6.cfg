SPECIFICATION Spec
CONSTANTS
  NameHash <- Toy
  Steps = 6
CONSTRAINT Small
INVARIANTS Kept Saveable
PROPERTY Loaded

